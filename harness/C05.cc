// C05: what a class knows is determined by its own examples.
#include "ref.hpp"
using namespace mc;

struct Sut {
  api::Wis w; ref::Wis r; int E, base; std::map<std::string, V> dummy;
  Sut(int n, json o, int e, int b) : w(n, o), E(e), base(b) {}
};
// compares every class with the reference; a class seen for the first time brings its addressing
static void compare(Ctx& k, Sut& s, const char* when) {
  json c = json::parse(s.w.json_())["classes"]; size_t n = 0; k.step();
  if (!c.is_null()) for (auto it = c.begin(); it != c.end(); ++it, n++) {
    auto f = s.r.cls.find(it.key());
    REQUIRE("unknown-class", f != s.r.cls.end(), when, ": a class '", it.key(), "' that was never trained");
    std::string got = ref::canon_disc(it.value()), want = ref::canon_ref(f->second);
    REQUIRE("content", got == want, when, ": class '", it.key(), "' is ", got, " instead of ", want);
  }
  REQUIRE("missing-class", n == s.r.cls.size(), when, ": ", n, " classes instead of ", s.r.cls.size());
  k.state(s.r.show());
}
static void learn(Ctx& k, Sut& s, const V& x, const std::string& l) {
  auto f = s.r.cls.find(l);
  if (f == s.r.cls.end()) { json c = json::parse(s.w.json_())["classes"]; REQUIRE("missing-class", !c.is_null() && c.count(l), "a class '", l, "' was trained and does not exist"); f = s.r.cls.insert(std::make_pair(l, ref::Disc(s.E, ref::mapping_of(c[l]), s.base))).first; }
  f->second.train(x);
}

// every sequence of (label, entry), cut into calls in every way, as list or DataSet
SUITE(histories) {
  struct C { int n, E, base; json o; };
  static const std::vector<C> confs = {{2, 3, 2, {}}, {2, 3, 2, {{"verbose", true}, {"ignoreZero", true}}}, {2, 3, 2, {{"completeAddressing", false}}}, {3, 3, 2, {{"indexes", {1, 2, 0}}}},
    {2, 2, 3, {{"base", 3}}}, {2, 3, 2, {{"mapping", {{"a", {{0}, {1, 2}}}}}}}};
  const C& c = confs[k.choose((int)confs.size())];
  Sut s(c.n, c.o, c.E, c.base); k.log("Wisard(", c.n, ",", c.o.dump(), ")");
  rand_hook = ref::stream(4 + k.choose(2));
  VV all = ref::all_entries(c.E, c.base); VV pool; for (size_t i = 0; i < all.size(); i += (all.size() > 8 ? 2 : 1)) pool.push_back(all[i]);
  if (pool.size() > 5) pool.resize(k.thorough ? 6 : 5);
  VS labels = {"a", "b"};
  int depth = k.thorough && !PY ? 4 : 3; VV xs; VS ys;
  for (int i = 0; i < depth; i++) {
    xs.push_back(k.pick(pool)); ys.push_back(k.pick(labels));
    bool cut = i + 1 == depth || k.flip();
    if (!cut) continue;
    if (c.base == 2 && k.flip()) { api::Data d; for (size_t j = 0; j < xs.size(); j++) d.add(ref::shorts(xs[j]), ys[j]); s.w.train(d); k.log("train DataSet ", str(xs), str(ys)); }
    else { s.w.train(xs, ys); k.log("train ", str(xs), str(ys)); }
    k.step();
    for (size_t j = 0; j < xs.size(); j++) learn(k, s, xs[j], ys[j]);
    compare(k, s, "after a call"); xs.clear(); ys.clear();
  }
  rand_hook = nullptr;
}
// the addressing alone and the examples alone: two orders of the same examples into models with the same addressing
SUITE(orders) {
  std::map<std::string, VV> maps = {{"p", {{0, 1}, {2, 3}, {4}}}, {"q", {{4, 0, 2}, {1, 3}}}, {"r", {{0, 1, 2, 3, 4}}}};
  json o = {{"mapping", maps}};
  VV pool = {{0, 1, 0, 1, 1}, {1, 1, 0, 0, 1}, {0, 0, 0, 0, 0}}; VS labels = {"p", "q", "r"};
  int n = k.thorough ? 5 : 4; std::vector<std::pair<V, std::string>> ex;
  for (int i = 0; i < n; i++) { const V& x = k.pick(pool); ex.push_back({x, k.pick(labels)}); }
  Sut s(2, o, 5, 2); std::map<std::string, ref::Disc>& r = s.r.cls;
  for (auto& e : ex) { if (!r.count(e.second)) r[e.second] = ref::Disc(5, maps[e.second]); r[e.second].train(e.first); }
  int order = k.choose(4); if (order == 1) std::reverse(ex.begin(), ex.end()); if (order == 2) std::sort(ex.begin(), ex.end(), [](const std::pair<V, std::string>& a, const std::pair<V, std::string>& b) { return a.second < b.second; });
  if (order == 3) std::rotate(ex.begin(), ex.begin() + 1, ex.end());
  for (auto& e : ex) { s.w.train(VV{e.first}, VS{e.second}); k.log("train ", str(e.first), " as ", e.second); k.step(); s.w.classify(VV{e.first}); }
  compare(k, s, "after all");
}
// many labels with unusual text
SUITE(labels) {
  static const VS odd = {"", " ", "a", "A", "aa", "a::b", "::", "::0", "a::0", "a.b", "a#b", "a\"b", "a\\b", "a/b", "0", "00", "1", "10", "9", "-1", "null", "classes", "\n", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "mapping", "unsupervised_cluster__0", "__", std::string(300, 'x')};
  Sut s(2, json{{"indexes", {0, 1, 2, 3}}}, 4, 2); int first = k.choose((int)odd.size()), second = k.choose((int)odd.size()); int rounds = 1 + k.choose(3);
  VV pool = {{0, 1, 1, 0}, {1, 1, 1, 1}, {0, 0, 0, 1}};
  for (int i = 0; i < rounds; i++) {
    VV xs = {pool[i % 3], pool[(i + 1) % 3], pool[2]}; VS ys = {odd[first], odd[second], odd[first]};
    bool data = !odd[first].empty() && !odd[second].empty() && i == 1;
    if (data) { api::Data d; for (int j = 0; j < 3; j++) d.add(ref::shorts(xs[j]), ys[j]); s.w.train(d); } else s.w.train(xs, ys);
    k.step(3); for (int j = 0; j < 3; j++) learn(k, s, xs[j], ys[j]);
    compare(k, s, "odd labels");
  }
  k.log("labels '", odd[first], "' and '", odd[second], "'");
}
// labels that differ in one place, or extend one another, are different classes
SUITE(similar) {
  int L = 1 + k.choose(k.thorough ? 70 : PY ? 12 : 34), at = k.choose(L + 1), how = k.choose(9); bool swap = k.flip();
  std::string a; for (int i = 0; i < L; i++) a += "class 10:2.b"[i % 12];
  std::string b = a;
  if (how == 0) b = a.substr(0, at);
  else if (how == 1) b.insert(at, 1, '0');
  else if (how == 2) b.insert(at, 1, ' ');
  else if (at == L) return;
  else if (how == 3) b[at] = (char)(b[at] ^ 1);
  else if (how == 4) b[at] = (char)(b[at] ^ 32);
  else if (how == 5) b.replace(at, 1, "\xc3\xa9");
  else if (how == 6) b[at] = '\t';
  else if (how == 7) b = a.substr(at);
  else std::rotate(b.begin(), b.begin() + at, b.end());
  if (b.empty()) return; if (swap) std::swap(a, b);
  k.log("labels '", a, "' and '", b, "'");
  Sut s(2, json{{"indexes", {0, 1, 2, 3}}}, 4, 2);
  for (int i = 0; i < 2; i++) {
    VV xs = {{0, 1, 1, 0}, {1, 1, 1, 1}, {0, 0, 0, 1}}; VS ys = {i ? b : a, i ? a : b, a};
    if (i) { api::Data d; for (int j = 0; j < 3; j++) d.add(ref::shorts(xs[j]), ys[j]); s.w.train(d); } else s.w.train(xs, ys);
    k.step(3); for (int j = 0; j < 3; j++) learn(k, s, xs[j], ys[j]);
    compare(k, s, "similar labels");
  }
}
// long labels that differ near one end or the other, or in length only
SUITE(long_labels) {
  int L = k.pick({63, 64, 65, 127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 32768, 65535, 65536, 65537, 100000}), how = k.choose(5); if (PY && L > 70000) return; std::string a(L, 'x'), b = a; for (int i = 0; i < L; i += 7) a[i] = b[i] = (char)('a' + i % 26);
  if (how == 0) b[L - 1] = 'y'; if (how == 1) b[0] = 'Y'; if (how == 2) b[L / 2] = 'Y'; if (how == 3) b += 'z'; if (how == 4) b = b.substr(1); if (k.flip()) std::swap(a, b); k.log("labels of ", a.size(), " and ", b.size(), " letters");
  Sut s(2, json{{"indexes", {0, 1, 2, 3}}}, 4, 2); VV xs = {{0, 1, 1, 0}, {1, 1, 1, 1}, {0, 0, 0, 1}};
  for (int i = 0; i < 2; i++) { VS ys = {i ? b : a, i ? a : b, a}; if (i) { api::Data d; for (int j = 0; j < 3; j++) d.add(ref::shorts(xs[j]), ys[j]); s.w.train(d); } else s.w.train(xs, ys); k.step(3); for (int j = 0; j < 3; j++) learn(k, s, xs[j], ys[j]); compare(k, s, "long labels"); }
}
// many classes, many examples
SUITE(scale) {
  int K = k.pick({1, 2, 9, 10, 11, 26, 100, 129, 257, 1025}); int N = k.pick({1, 2, 127, 128, 255, 256, 257, 1000, 33000, 66000}); if (K * N > 70000 || (PY && K * N > 12000)) return; bool comp = k.flip(); int form = k.choose(3);
  int E = 9; Sut s(4, json{{"completeAddressing", comp}}, E, 2);
  VV xs; VS ys;
  for (int i = 0; i < N; i++) for (int c = 0; c < K; c++) { V x(E); for (int j = 0; j < E; j++) x[j] = ((i % 7) * (c + 3) + j * j) >> (j % 3) & 1; xs.push_back(x); ys.push_back("class " + std::to_string(c)); }
  if (form == 0) s.w.train(xs, ys);
  else if (form == 1) { size_t h = xs.size() / 3 + 1; s.w.train(VV(xs.begin(), xs.begin() + h), VS(ys.begin(), ys.begin() + h)); s.w.train(VV(xs.begin() + h, xs.end()), VS(ys.begin() + h, ys.end())); }
  else { api::Data d; for (size_t j = 0; j < xs.size(); j++) d.add(ref::shorts(xs[j]), ys[j]); s.w.train(d); }
  k.step(xs.size());
  json c = json::parse(s.w.json_())["classes"];
  for (size_t j = 0; j < xs.size(); j++) { auto f = s.r.cls.find(ys[j]); if (f == s.r.cls.end()) f = s.r.cls.insert(std::make_pair(ys[j], ref::Disc(E, ref::mapping_of(c[ys[j]])))).first; f->second.train(xs[j]); }
  compare(k, s, "at scale");
  k.log(K, " classes, ", N, " examples each");
}
// every label as the first, second, ... of up to nine classes, and again after them
SUITE(places) {
  static const VS odd = {"", " ", "a", "zz", "A", "a::b", "::", "a.b", "0", "10", "-1", "null", "classes", "\n", "\xc3\xa9", "mapping", "__", "~", "#", "m", "e5", "true"};
  static const VS others = {"b", "q", "Z", "5", "k", "x y", "aa", "l"};
  int o = k.choose((int)odd.size()), place = k.choose((int)others.size() + 1), form = k.choose(3), n = place + k.choose((int)others.size() + 1 - place); bool backwards = k.flip(), data = form == 1 && !odd[o].empty();
  Sut s(2, json{{"indexes", {0, 1, 2, 3}}, {"ignoreZero", o % 2 == 1}}, 4, 2); VS order(others.begin(), others.begin() + n); if (backwards) std::reverse(order.begin(), order.end()); order.insert(order.begin() + place, odd[o]); order.push_back(odd[o]); order.push_back(order[0]); order.push_back(odd[o]);
  VV xs; for (size_t i = 0; i < order.size(); i++) xs.push_back(V{(int)(i & 1), (int)(i >> 1 & 1), (int)(i >> 2 & 1), (int)(i % 3 == 0)});
  if (form == 2) s.w.train(xs, order); else if (data) { api::Data d; for (size_t i = 0; i < xs.size(); i++) d.add(ref::shorts(xs[i]), order[i]); s.w.train(d); } else for (size_t i = 0; i < xs.size(); i++) { s.w.train(VV{xs[i]}, VS{order[i]}); learn(k, s, xs[i], order[i]); if (i % 3 == 2) compare(k, s, "places"); }
  k.step(xs.size()); if (form == 2 || data) for (size_t i = 0; i < xs.size(); i++) learn(k, s, xs[i], order[i]);
  k.log("label '", odd[o], "' as class ", place + 1, " of ", n + 1); compare(k, s, "places");
}
