// C36: the work of a call is in proportion to what it is given and what the object holds. Work is counted, not timed: every basic
// block of the library (-fsanitize-coverage=trace-pc) every 16 bytes asked of the allocator, moved or searched. Only growth is judged.
#include "confs.hpp"
#include <cstddef>
#include <new>
using namespace mc;
static uint64_t blocks, asked;
extern "C" __attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc() { blocks++; }
__attribute__((no_sanitize_coverage)) void* operator new(size_t n) { asked += n; void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
__attribute__((no_sanitize_coverage)) void operator delete(void* p) noexcept { free(p); }
__attribute__((no_sanitize_coverage)) void operator delete(void* p, size_t) noexcept { free(p); }
// what the C library moves and searches for the library counts as well
#define QUIET __attribute__((no_sanitize_coverage, optimize("no-tree-loop-distribute-patterns")))
extern "C" {
QUIET void* memcpy(void* d, const void* s, size_t n) noexcept { asked += n; void* r = d; __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
QUIET void* memmove(void* d, const void* s, size_t n) noexcept { if ((uintptr_t)d - (uintptr_t)s >= n) return memcpy(d, s, n); asked += n; char* e = (char*)d + n - 1; const char* f = (const char*)s + n - 1; __asm__ volatile("std; rep movsb; cld" : "+D"(e), "+S"(f), "+c"(n) : : "memory"); return d; }
QUIET void* memset(void* d, int v, size_t n) noexcept { asked += n; void* r = d; __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory"); return r; }
void* counted_memchr(const void* s, int v, size_t n) __asm__("memchr");
QUIET void* counted_memchr(const void* s, int v, size_t n) { const unsigned char* p = (const unsigned char*)s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)v) { asked += i; return (void*)(p + i); } asked += n; return nullptr; }
QUIET size_t strlen(const char* s) noexcept { size_t n = 0; while (s[n]) n++; asked += n; return n; }
}
template <typename F> uint64_t work(F f) { uint64_t b = blocks, a = asked; f(); return blocks - b + (asked - a) / 16; }

// entry number i of size E, all different for small i, every value in use
static V entry(uint64_t i, int E, int base = 2) { V x(E); for (int j = 0; j < E; j++) x[j] = (int)(Ctx::mix(i * 1009 + j / 8 * 7919 + 1) >> (5 * (j % 8))) % base, x[j] = x[j] < 0 ? -x[j] : x[j]; return x; }
static VV entries(uint64_t from, int n, int E, int base = 2) { VV v; for (int i = 0; i < n; i++) v.push_back(entry(from + i, E, base)); return v; }
static api::Data data(uint64_t from, int n, int E, const VS& l = VS()) { api::Data d; for (int i = 0; i < n; i++) if (l.empty()) d.add(ref::shorts(entry(from + i, E))); else d.add(ref::shorts(entry(from + i, E)), l[i % l.size()]); return d; }
static VS labels(int n, int different) { VS v; for (int i = 0; i < n; i++) v.push_back("label" + std::to_string(i % different)); return v; }
struct Conf { const char* name; int n, E; json o; int base() const { return o.count("base") ? o["base"].get<int>() : 2; } };
static std::vector<Conf> confs() {
  return {{"plain", 12, 24, json::object()}, {"small addresses", 2, 24, json::object()}, {"ignoreZero", 8, 24, {{"ignoreZero", true}}}, {"base 3", 6, 24, {{"base", 3}}}, {"not complete", 9, 24, {{"completeAddressing", false}}}, {"everything reported", 8, 24, {{"verbose", true}, {"returnConfidence", true}, {"returnActivationDegree", true}, {"returnClassesDegrees", true}, {"confidence", 2}}}, {"no bleaching", 8, 24, {{"bleachingActivated", false}}}};
}
static json only(const json& o, std::initializer_list<const char*> keys) { json r = json::object(); for (auto q : keys) if (o.count(q)) r[q] = o[q]; return r; }
static api::Disc disc(const Conf& c) { return api::Disc(c.n, c.E, only(c.o, {"ignoreZero", "base", "completeAddressing"})); }
static api::Wis wis(const Conf& c) { return api::Wis(c.n, c.o); }
static api::Clus clus(const Conf& c, int limit = 1) { return api::Clus(c.n, 0.9f, 1000000, limit, c.o); }
// one call on something of size n: it is made ready first, then the work is counted
static std::string where;    // a directory
struct Op { const char* name; std::function<uint64_t(const Conf&, int n)> f; };
static const std::vector<Op>& linear() {
  static const std::vector<Op> v = {
    {"Discriminator: new of an entry size", [](const Conf& c, int n) { json o = only(c.o, {"ignoreZero", "base", "completeAddressing"}); return work([&] { api::Disc d(c.n, n, o); }); }},
    {"Discriminator: train a list", [](const Conf& c, int n) { api::Disc d = disc(c); VV x = entries(0, n, c.E, c.base()); return work([&] { d.train(x); }); }},
    {"Discriminator: train one by one", [](const Conf& c, int n) { api::Disc d = disc(c); VV x = entries(0, n, c.E, c.base()); return work([&] { for (auto& e : x) d.train(e); }); }},
    {"Discriminator: train the same", [](const Conf& c, int n) { api::Disc d = disc(c); V x = entry(1, c.E, c.base()); return work([&] { for (int i = 0; i < n; i++) d.train(x); }); }},
    {"Discriminator: classify", [](const Conf& c, int n) { api::Disc d = disc(c); d.train(entries(0, 20, c.E, c.base())); VV x = entries(0, n, c.E, c.base()); return work([&] { for (auto& e : x) d.classify(e); }); }},
    {"Discriminator: train and classify an entry of this size", [](const Conf& c, int n) { api::Disc d(c.n, n, only(c.o, {"ignoreZero", "base", "completeAddressing"})); V x = entry(3, n, c.base()); return work([&] { d.train(x); d.classify(x); }); }},
    {"Discriminator: train and classify a BinInput of this size", [](const Conf& c, int n) { api::Disc d(c.n, n, only(c.o, {"ignoreZero", "completeAddressing"})); api::Bin x(ref::shorts(entry(3, n))); return work([&] { d.train(x); d.classify(x); }); }},
    {"Discriminator: json", [](const Conf& c, int n) { api::Disc d = disc(c); d.train(entries(0, n, c.E, c.base())); return work([&] { d.json_(); }); }},
    {"Discriminator: restore", [](const Conf& c, int n) { api::Disc d = disc(c); d.train(entries(0, n, c.E, c.base())); std::string t = d.json_(); return work([&] { api::Disc e(t); }); }},
    {"Discriminator: getsizeof", [](const Conf& c, int n) { api::Disc d = disc(c); d.train(entries(0, n, c.E, c.base())); return work([&] { d.getsizeof(); }); }},
#ifdef MC_BACKEND_CPP
    {"Discriminator: mental image", [](const Conf& c, int n) { api::Disc d = disc(c); d.train(entries(0, n, c.E, c.base())); return work([&] { d.getMentalImage(); }); }},
    {"Discriminator: untrain", [](const Conf& c, int n) { api::Disc d = disc(c); VV x = entries(0, n, c.E, c.base()); d.train(x); return work([&] { for (auto& e : x) d.untrain(e); }); }},
    {"Discriminator: copy", [](const Conf& c, int n) { api::Disc d = disc(c); d.train(entries(0, n, c.E, c.base())); return work([&] { api::Disc e(d); }); }},
    {"Wisard: copy", [](const Conf& c, int n) { api::Wis d = wis(c); d.train(entries(0, n, c.E, c.base()), labels(n, n)); return work([&] { api::Wis e(d); }); }},
    {"ClusWisard: copy", [](const Conf& c, int n) { api::Clus d = clus(c); d.train(entries(0, n, c.E, c.base()), labels(n, n)); return work([&] { api::Clus e(d); }); }},
#endif
    {"Wisard: train one class", [](const Conf& c, int n) { api::Wis d = wis(c); VV x = entries(0, n, c.E, c.base()); VS y = labels(n, 1); return work([&] { d.train(x, y); }); }},
    {"Wisard: train this many classes", [](const Conf& c, int n) { api::Wis d = wis(c); VV x = entries(0, n, c.E, c.base()); VS y = labels(n, n); return work([&] { d.train(x, y); }); }},
    {"Wisard: train a DataSet", [](const Conf& c, int n) { api::Wis d = wis(c); api::Data x = data(0, n, c.E, VS{"a", "b"}); return work([&] { d.train(x); }); }},
    {"Wisard: classify", [](const Conf& c, int n) { api::Wis d = wis(c); d.train(entries(0, 20, c.E, c.base()), labels(20, 3)); VV x = entries(0, n, c.E, c.base()); return work([&] { d.classify(x); }); }},
    {"Wisard: classify a DataSet", [](const Conf& c, int n) { api::Wis d = wis(c); d.train(entries(0, 20, c.E, c.base()), labels(20, 3)); api::Data x = data(0, n, c.E); return work([&] { d.classify(x); }); }},
    {"Wisard: classify with this many classes", [](const Conf& c, int n) { api::Wis d = wis(c); VV x = entries(0, n, c.E, c.base()); d.train(x, labels(n, n)); x.resize(3); return work([&] { d.classify(x); }); }},
    {"Wisard: leaveMoreOut", [](const Conf& c, int n) { api::Wis d = wis(c); VV x = entries(0, n, c.E, c.base()); VS y = labels(n, 3); d.train(x, y); return work([&] { d.leaveMoreOut(x, y); }); }},
    {"Wisard: json of this many classes", [](const Conf& c, int n) { api::Wis d = wis(c); d.train(entries(0, n, c.E, c.base()), labels(n, n)); return work([&] { d.json_(); d.jsonConfig(); }); }},
    {"Wisard: restore this many classes", [](const Conf& c, int n) { api::Wis d = wis(c); d.train(entries(0, n, c.E, c.base()), labels(n, n)); std::string t = d.json_(); return work([&] { api::Wis e(t); }); }},
    {"Wisard: restore this many examples", [](const Conf& c, int n) { api::Wis d = wis(c); d.train(entries(0, n, c.E, c.base()), labels(n, 2)); std::string t = d.json_(); return work([&] { api::Wis e(t); }); }},
    {"Wisard: mental images and size", [](const Conf& c, int n) { api::Wis d = wis(c); d.train(entries(0, n, c.E, c.base()), labels(n, n)); return work([&] { d.getMentalImages(); d.getsizeof(); }); }},
    {"ClusWisard: train one class", [](const Conf& c, int n) { api::Clus d = clus(c); VV x = entries(0, n, c.E, c.base()); VS y = labels(n, 1); return work([&] { d.train(x, y); }); }},
    {"ClusWisard: train this many classes", [](const Conf& c, int n) { api::Clus d = clus(c); VV x = entries(0, n, c.E, c.base()); VS y = labels(n, n); return work([&] { d.train(x, y); }); }},
    {"ClusWisard: train semi-supervised", [](const Conf& c, int n) { api::Clus d = clus(c); VV x = entries(0, n, c.E, c.base()); std::map<int, std::string> y; for (int i = 0; i < n; i += 2) y[i] = i % 4 ? "a" : "b"; return work([&] { d.train(x, y); }); }},
    {"ClusWisard: train unsupervised", [](const Conf& c, int n) { api::Clus d = clus(c); VV x = entries(0, n, c.E, c.base()); return work([&] { d.trainUnsupervised(x); }); }},
    {"ClusWisard: classify", [](const Conf& c, int n) { api::Clus d = clus(c); VV x = entries(0, n, c.E, c.base()); d.train(entries(0, 20, c.E, c.base()), labels(20, 3)); d.trainUnsupervised(entries(0, 20, c.E, c.base())); return work([&] { d.classify(x); d.classifyUnsupervised(x); }); }},
    {"ClusWisard: json of this many classes", [](const Conf& c, int n) { api::Clus d = clus(c); d.train(entries(0, n, c.E, c.base()), labels(n, n)); return work([&] { d.json_(); d.jsonConfig(); }); }},
    {"ClusWisard: restore this many classes", [](const Conf& c, int n) { api::Clus d = clus(c); d.train(entries(0, n, c.E, c.base()), labels(n, n)); std::string t = d.json_(); return work([&] { api::Clus e(t); }); }},
    {"ClusWisard: restore this many examples", [](const Conf& c, int n) { api::Clus d = clus(c); d.train(entries(0, n, c.E, c.base()), labels(n, 2)); std::string t = d.json_(); return work([&] { api::Clus e(t); }); }},
    {"ClusWisard: mental images and size", [](const Conf& c, int n) { api::Clus d = clus(c); d.train(entries(0, n, c.E, c.base()), labels(n, n)); return work([&] { d.getMentalImages(); d.getMentalImage("label1"); d.getsizeof(); }); }},
    {"BinInput: from a list", [](const Conf&, int n) { VSh x = ref::shorts(entry(2, n)); return work([&] { api::Bin b(x); }); }}, {"BinInput: of a size", [](const Conf&, int n) { return work([&] { api::Bin b((ull)n); }); }},
    {"BinInput: set and get", [](const Conf&, int n) { api::Bin b((ull)n); return work([&] { for (int i = 0; i < n; i++) { b.set(i, 1); b.get(i); b.size(); } }); }}, {"BinInput: data", [](const Conf&, int n) { api::Bin b(ref::shorts(entry(2, n))); return work([&] { b.data(); }); }},
    {"BinInput: restore", [](const Conf&, int n) { std::string t = api::Bin(ref::shorts(entry(2, n))).data(); return work([&] { api::Bin b(t); }); }}, {"DataSet: add", [](const Conf&, int n) { VSh x = ref::shorts(entry(2, 9)); return work([&] { api::Data d; for (int i = 0; i < n; i++) { if (i & 1) d.add(x, "label"); else d.add(x); } }); }},
    {"DataSet: get", [](const Conf&, int n) { api::Data d = data(0, n, 9, VS{"l"}); return work([&] { for (int i = 0; i < n; i++) { d.get(i); d.getLabel(i); d.size(); } }); }}, {"RAMDataHandle: read", [](const Conf&, int n) { Cells m; for (int i = 0; i < n; i++) m[i * 977] = i + 1; std::string t = ref::pack_cells(m); return work([&] { api::RDH h(t); }); }},
    {"DataSet: save", [](const Conf&, int n) { api::Data d = data(0, n, 9, VS{"l"}); return work([&] { d.save(where + "set"); }); }}, {"DataSet: load", [](const Conf&, int n) { data(0, n, 9, VS{"l"}).save(where + "set"); return work([&] { api::Data d(where + "set.wpkds"); }); }},
    {"Discriminator: json in a file", [](const Conf& c, int n) { api::Disc d = disc(c); d.train(entries(0, n, c.E, c.base())); return work([&] { d.json_(true, where + "model"); }); }}, {"Discriminator: restore from a file", [](const Conf& c, int n) { api::Disc d = disc(c); d.train(entries(0, n, c.E, c.base())); std::string t = d.json_(true, where + "model"); return work([&] { api::Disc e(t); }); }},
    {"Wisard: json in files", [](const Conf& c, int n) { api::Wis d = wis(c); d.train(entries(0, n, c.E, c.base()), labels(n, n / 8)); return work([&] { d.json_(true, where + "model"); }); }}, {"ClusWisard: restore from files", [](const Conf& c, int n) { api::Clus d = clus(c); d.train(entries(0, n, c.E, c.base()), labels(n, n / 8)); std::string t = d.json_(true, where + "model"); return work([&] { api::Clus e(t); }); }},
    {"RAMDataHandle: data", [](const Conf&, int n) { Cells m; for (int i = 0; i < n; i++) m[i * 977] = i + 1; api::RDH h(ref::pack_cells(m)), g(ref::pack_cells(m)); return work([&] { h.data(); h.data(0); h.get(0); h.compare(g); }); }},
    {"RAMDataHandle: this many RAMs", [](const Conf&, int n) { std::string t; for (int i = 0; i < n; i++) t += (i ? "." : "") + ref::pack_cells(Cells{{(ull)i, 1}}); return work([&] { api::RDH h(t); h.data(); for (int i = 0; i < n; i++) { h.get(i, i); h.set(i, i, 5); } }); }},
    {"RAMDataHandle: set and get", [](const Conf&, int n) { api::RDH h(""); return work([&] { for (int i = 0; i < n; i++) { h.set(0, i, 1); h.get(0, i); } }); }},
    {"KernelCanvas: new", [](const Conf&, int n) { return work([&] { api::Kern c(2, n, json()); }); }}, {"KernelCanvas: transform", [](const Conf&, int n) { api::Kern c(2, 10, json()); VVD s; for (int i = 0; i < n; i++) s.push_back({1.0 * i, 1.0 * (i % 7)}); return work([&] { c.transform(s); }); }},
    {"KernelCanvas: transform with this many kernels", [](const Conf&, int n) { api::Kern c(2, n, json()); VVD s = {{1, 2}, {3, 4}, {0, 5}}; return work([&] { c.transform(s); }); }}, {"Synthesizer: make", [](const Conf&, int n) { V im; for (int i = 0; i < n; i++) im.push_back(i % 5); api::Synth s(im); return work([&] { s.make(); }); }},
  };
  return v;
}
SUITE(proportion) {
  const Op& op = linear()[k.choose((int)linear().size())]; bool conf = !strncmp(op.name, "Disc", 4) || !strncmp(op.name, "Wis", 3) || !strncmp(op.name, "Clus", 4); auto cs = confs(); const Conf& c = cs[conf ? k.choose((int)cs.size()) : 0]; static const V FROM = {48, 64, 96, 100, 200, 256}; int from = FROM[k.choose(k.thorough ? 6 : 3)]; std::vector<uint64_t> w;
  for (int n = from; n <= 8 * from; n *= 2) { env_reset(); where = k.dir(); w.push_back(op.f(c, n)); k.step(n); } k.log(op.name, ", ", c.name, ", from ", from, ": work ", str(w)); REQUIRE("proportion", w[3] <= 12 * w[0] + 3000, op.name, " (", c.name, "): the work for ", from, ", ", 2 * from, ", ", 4 * from, " and ", 8 * from, " is ", str(w)); k.state(str(op.name, c.name, from));
}
// what a model holds does not slow down learning and answering
SUITE(content) {
  auto cs = confs(); const Conf& c = cs[k.choose((int)cs.size())]; int kind = k.choose(3), op = k.choose(5), how = k.choose(3); static const V SIZE = {60, 250, 1000}; std::vector<uint64_t> w; const int M = 40; VV x = entries(500000, M, c.E, c.base()); VS y(M, "label0");
  for (int n : SIZE) {
    env_reset(); VV old = how == 0 ? entries(0, n, c.E, c.base()) : how == 1 ? VV(n, entry(0, c.E, c.base())) : entries(0, 5, c.E, c.base()); auto asked = [&](std::function<void()> q) { if (how == 2) for (int i = 0; i < n; i++) q(); };     // many examples, one many times, or many questions
    if (kind == 0) { api::Disc d = disc(c); d.train(old); asked([&] { d.classify(old[0]); d.getsizeof(); }); w.push_back(work([&] { for (auto& e : x) { if (op == 0) d.train(e); if (op == 1) d.classify(e); if (op == 2) { d.train(x[0]); d.classify(x[0]); } } })); }
    if (kind == 1) { api::Wis d = wis(c); d.train(old, labels((int)old.size(), 3)); asked([&] { d.classify(VV{old[0]}); d.getsizeof(); }); w.push_back(work([&] { if (op == 0) d.train(x, y); if (op == 1) d.classify(x); if (op == 2) for (auto& e : x) d.train(VV{e}, VS{"label1"}); if (op == 3) for (auto& e : x) d.classify(VV{e}); if (op == 4) d.leaveMoreOut(x, VS(M, "nobody")); })); }
    if (kind == 2) { api::Clus d = clus(c, 2); d.train(old, labels((int)old.size(), 3)); d.trainUnsupervised(old); asked([&] { d.classify(VV{old[0]}); d.getsizeof(); }); w.push_back(work([&] { if (op == 0) d.train(x, y); if (op == 1) d.classify(x); if (op == 2) for (auto& e : x) d.train(VV{e}, VS{"label1"}); if (op == 3) d.trainUnsupervised(x); if (op == 4) d.classifyUnsupervised(x); })); }
    k.step(n + M);
  }
  k.log(c.name, " model ", kind, " operation ", op, " after ", how, ": work ", str(w)); REQUIRE("content", w[2] <= 3 * w[0] + 3000, kind == 0 ? "Discriminator" : kind == 1 ? "Wisard" : "ClusWisard", " (", c.name, "), operation ", op, how == 2 ? ": after 60, 250 and 1000 questions" : how == 1 ? ": after one example 60, 250 and 1000 times" : ": after 60, 250 and 1000 examples", " the work is ", str(w)); k.state(str(c.name, kind, op, how));
}
// the size of the address space does not matter
SUITE(addresses) {
  static const std::vector<std::pair<int, int>> NB = {{2, 2}, {3, 2}, {4, 2}, {8, 2}, {16, 2}, {24, 2}, {32, 2}, {48, 2}, {2, 3}, {16, 3}, {24, 3}, {2, 16}, {16, 16}, {8, 200}, {2, 65536}, {4, 65536}, {2, 2147483647}}; auto nb = NB[k.choose((int)NB.size())]; int kind = k.choose(3), op = k.choose(6); bool zero = k.choose(2), complete = k.choose(2); const int E = 48; VV x = entries(0, 12, E); json o = {{"ignoreZero", zero}, {"completeAddressing", complete}}; k.step(24);
  auto run = [&](int n, int base) -> uint64_t { env_reset(); json p = o; p["base"] = base; VS y = labels(12, 2);
    if (kind == 0) { if (op == 0) return work([&] { api::Disc d(n, E, p); }); api::Disc d(n, E, p); if (op == 1) return work([&] { d.train(x); }); d.train(x); if (op == 2) return work([&] { for (auto& e : x) d.classify(e); }); if (op == 3) return work([&] { d.json_(); });
#ifdef MC_BACKEND_CPP
      if (op == 4) return work([&] { d.getMentalImage(); });
#endif
      std::string t = d.json_(); return work([&] { api::Disc e(t); }); }
    if (kind == 1) { api::Wis d(n, p); if (op == 1) return work([&] { d.train(x, y); }); d.train(x, y); if (op == 2) return work([&] { d.classify(x); }); if (op == 3) return work([&] { d.json_(); d.getsizeof(); }); if (op == 4) return work([&] { d.getMentalImages(); }); std::string t = d.json_(); return work([&] { api::Wis e(t); }); }
    api::Clus d(n, 0.5f, 5, 2, p); if (op == 1) return work([&] { d.train(x, y); }); d.train(x, y); if (op == 2) return work([&] { d.classify(x); }); if (op == 3) return work([&] { d.json_(); d.getsizeof(); }); if (op == 4) return work([&] { d.getMentalImages(); }); if (op == 0) return work([&] { d.trainUnsupervised(x); }); std::string t = d.json_(); return work([&] { api::Clus e(t); }); };
  uint64_t a = run(2, 2), b = run(nb.first, nb.second); k.log("address size ", nb.first, " base ", nb.second, " model ", kind, " operation ", op, ": work ", b, ", with address size 2 and base 2 ", a); REQUIRE("addresses", b <= 4 * a + 5000, "model ", kind, ", operation ", op, ": the work for address size ", nb.first, " and base ", nb.second, " is ", b, ", for 2 and 2 it is ", a); k.state(str(nb.first, nb.second, kind, op, zero, complete));
}
// how often something was seen does not matter
SUITE(counts) {
  static const V MUL = {1, 3, 1000, 1000000, 500000000}; int c[4], kind = k.choose(3), mul = k.pick(MUL), conf = 1 + k.choose(2); for (int& v : c) v = k.choose(k.thorough ? 5 : 4); k.step(20);
  auto doc = [&](int m) { json cl = json::object(); for (int j = 0; j < 2; j++) { std::string t; for (int r = 0; r < 2; r++) { Cells s; int v = c[2 * j + r]; if (v) s[3] = v * m; if (v) s[0] = m; t += (r ? "." : "") + ref::pack_cells(s); } cl[j ? "b" : "a"] = {{"entrySize", 4}, {"count", 4 * m}, {"mapping", {{0, 1}, {2, 3}}}, {"data", t}, {"ignoreZero", false}, {"base", 2}}; } return cl; };
  VV x = {V(4, 1), V(4, 0), V{1, 1, 0, 0}, V{0, 1, 1, 0}};
  auto run = [&](int m) -> std::vector<uint64_t> { env_reset(); json cl = doc(m); std::vector<uint64_t> w; 
    if (kind == 0) { std::string t = cl["a"].dump(); w.push_back(work([&] { api::Disc d(t); })); api::Disc d(t); w.push_back(work([&] { d.train(x); for (auto& e : x) d.classify(e); })); w.push_back(work([&] { d.json_(); d.getsizeof(); })); }
    if (kind == 1) { std::string t = json{{"addressSize", 2}, {"confidence", conf}, {"classes", cl}}.dump(); w.push_back(work([&] { api::Wis d(t); })); api::Wis d(t); w.push_back(work([&] { d.classify(x); d.getMentalImages(); })); w.push_back(work([&] { d.train(x, VS(4, "a")); d.leaveMoreOut(x, VS(4, "b")); d.json_(); })); }
    if (kind == 2) { json q = json::object(); q["a"] = {{"entrySize", 4}, {"discriminators", {cl["a"], cl["b"]}}}; q["b"] = {{"entrySize", 4}, {"discriminators", {cl["b"]}}}; std::string t = json{{"addressSize", 2}, {"minScore", 0.5}, {"threshold", 10}, {"discriminatorsLimit", 2}, {"confidence", conf}, {"clusters", q}, {"unsupervisedCluster", q["a"]}}.dump(); w.push_back(work([&] { api::Clus d(t); })); api::Clus d(t); w.push_back(work([&] { d.classify(x); d.getMentalImages(); d.classifyUnsupervised(x); })); w.push_back(work([&] { d.train(x, VS(4, "a")); d.trainUnsupervised(x); d.json_(); })); } return w; };
  auto a = run(1), b = run(mul); k.log("counts ", c[0], ",", c[1], ";", c[2], ",", c[3], " times ", mul, " model ", kind, ": work ", str(b), ", times 1 ", str(a)); for (size_t i = 0; i < a.size(); i++) REQUIRE("counts", b[i] <= 3 * a[i] + 3000, "model ", kind, ", operation ", i, ": with the counts ", c[0], ",", c[1], ";", c[2], ",", c[3], " the work is ", a[i], ", with ", mul, " times as much ", b[i]); k.state(str(c[0], c[1], c[2], c[3], kind, mul));
}
