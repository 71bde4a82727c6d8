// C27: the Python package, the shipped header and the generated header side by side in one process.
#include "confs.hpp"
#include <dlfcn.h>
using namespace mc;

struct Plug { std::string name; const char* (*run)(const char*); };
static std::vector<Plug>& plugs() {
  static std::vector<Plug> p = [] {
    std::vector<Plug> v;
    for (const char* n : {"GEN", "HDR", "PY"}) { std::string f = std::string(getenv("PLUGS")) + "/" + n + ".so"; void* h = dlopen(f.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); _Exit(2); } ((void (*)())dlsym(h, "plug_init"))(); v.push_back(Plug{n, (const char* (*)(const char*))dlsym(h, "plug_run")}); }
    return v;
  }();
  return p;
}
namespace mc { void backend_init() { plugs(); } }

typedef std::vector<json> Script;
static std::string shown(const json& j) { std::string s; try { s = j.dump(); } catch (std::exception&) { s = "?"; } return s.size() > 600 ? s.substr(0, 600) + "..." : s; }
// saved text in a form that does not depend on the order of cells; other values as they are
static std::string plain(const json& c, const json& r) {
  if (!r.is_object() || r.count("e")) return shown(r);
  std::string op = c["op"]; if ((op == "json" || op == "jsoninline" || op == "jsonfile") && r["v"].is_string()) { std::string t = r["v"]; json j = json::parse(t); std::string keys; for (auto it = j.begin(); it != j.end(); ++it) keys += it.key() + ","; return keys + ref::canon(t); }
  if (op == "config") return json::parse(r["v"].get<std::string>()).dump();
  if (op == "data" || op == "data1") { std::string t = r["v"], o; for (auto& p : ref::split(t, '.')) { Cells x; if (!ref::unpack_cells(p, x)) return t; for (auto& e : x) o += str(e.first, ":", e.second, ","); o += ";"; } return t.find('.') != std::string::npos || t.size() % 16 == 0 ? o : t; }
  return r["v"].dump();
}
static int random_kind = 0;
static int runs = 0;    // files of different runs lie apart, so that no run sees names another one has taken
static json run(Ctx& k, size_t p, const Script& s) { json j = s; runs++; for (auto& c : j) if (c.count("path") && c["op"] == "jsonfile") c["path"] = c["path"].get<std::string>() + str(runs, "_"); clock_now = 1700000000; rand_hook = ref::stream(random_kind); json r = json::parse(plugs()[p].run(j.dump().c_str())); rand_hook = nullptr; k.step(s.size()); return r; }
// the same calls everywhere: the same answers, the same calls refused
static std::vector<json> same(Ctx& k, const Script& s) {
  std::vector<json> out; for (size_t p = 0; p < plugs().size(); p++) out.push_back(run(k, p, s));
  if (k.logging) for (size_t i = 0; i < s.size(); i++) k.log(shown(s[i]), " -> ", shown(out[0][i]));
  for (size_t p = 1; p < out.size(); p++) { REQUIRE("results", out[p].size() == s.size() && out[0].size() == s.size(), "a result is missing: ", shown(out[p])); for (size_t i = 0; i < s.size(); i++) { if (out[p][i].count("e") && out[p][i]["e"].is_string()) k.internal(out[p][i]["e"].get<std::string>().c_str());
    bool a = out[0][i].count("e"), b = out[p][i].count("e"); REQUIRE("refused", a == b, shown(s[i]), " is ", a ? "refused" : "accepted", " by ", plugs()[0].name, " but ", b ? "refused" : "accepted", " by ", plugs()[p].name); std::string u = plain(s[i], out[0][i]), v = plain(s[i], out[p][i]); REQUIRE("value", u == v, shown(s[i]), " gives different values from ", plugs()[0].name, " and ", plugs()[p].name, ": ", obs::diff(u, v)); } }
  for (size_t i = 0; i < s.size(); i++) k.state(str(shown(s[i]), shown(out[0][i])));
  return out;
}
static json mk(const DC& c, int t) { json j = {{"op", "new"}, {"t", t == 0 ? "disc" : "wis"}, {"n", c.n}, {"E", c.E}}; if (!c.o.is_null()) j["o"] = c.o; return j; }
static json mk(const CC& c) { json j = {{"op", "new"}, {"t", "clus"}, {"n", c.n}, {"min", c.min}, {"th", c.th}, {"lim", c.lim}}; if (!c.o.is_null()) j["o"] = c.o; return j; }
static const char* TYPE[] = {"disc", "wis", "clus"};
static void look(Script& s, int t, const VV& all, bool bits, int slot = 0) {
  if (t == 0) for (auto& x : all) { s.push_back({{"op", "classify"}, {"s", slot}, {"x", x}}); if (bits) s.push_back({{"op", "classifybin"}, {"s", slot}, {"x", x}}); }
  else { s.push_back({{"op", "classify"}, {"s", slot}, {"x", all}}); if (bits && t == 1) s.push_back({{"op", "classifydata"}, {"s", slot}, {"x", all}}); if (t == 2) { s.push_back({{"op", "classifyunsupervised"}, {"s", slot}, {"x", all}}); s.push_back({{"op", "image"}, {"s", slot}, {"y", "a"}}); s.push_back({{"op", "image"}, {"s", slot}, {"y", "none"}}); } s.push_back({{"op", "images"}, {"s", slot}}); }
  for (const char* o : {"json", "config", "sizeof", "jsoninline"}) s.push_back({{"op", o}, {"s", slot}});
}
static json step_of(int t, int i, const VV& p, bool bits, int slot = 0) {
  if (t == 0) { if (i < 3) return {{"op", "train"}, {"s", slot}, {"x", p[i]}}; return bits ? json{{"op", "trainbin"}, {"s", slot}, {"x", p[1]}} : json{{"op", "trainlist"}, {"s", slot}, {"x", {p[1], p[2]}}}; }
  if (t == 1) { if (i < 2) return {{"op", "train"}, {"s", slot}, {"x", {p[i]}}, {"y", {"a"}}}; if (i == 2) return {{"op", bits ? "traindata" : "train"}, {"s", slot}, {"x", {p[2], p[0]}}, {"y", {"b", "a"}}}; if (i == 3) return {{"op", "leave"}, {"s", slot}, {"x", p[0]}, {"y", "a"}}; return {{"op", "leavemore"}, {"s", slot}, {"x", {p[2], p[1]}}, {"y", {"b", "c"}}}; }
  if (i < 2) return {{"op", "train"}, {"s", slot}, {"x", {p[i]}}, {"y", {"a"}}}; if (i == 2) return {{"op", "semi"}, {"s", slot}, {"x", {p[2], p[0], p[1]}}, {"y", {{0, "b"}, {2, "a"}}}}; if (i == 3) return {{"op", "unsupervised"}, {"s", slot}, {"x", {p[1], p[2]}}}; return {{"op", "train"}, {"s", slot}, {"x", {p[2], p[1]}}, {"y", {"b", "a"}}};
}
static int nsteps(int t) { return t == 0 ? 4 : 5; }
struct Conf { json make; int E, base; };
static Conf conf(Ctx& k, int t) { if (t == 0) { auto& c = k.pick(disc_confs()); return Conf{mk(c, 0), c.E, c.base()}; } if (t == 1) { auto& c = k.pick(wis_confs()); return Conf{mk(c, 1), c.E, c.base()}; } auto& c = k.pick(clus_confs()); return Conf{mk(c), c.E, c.base()}; }
// every history, looked at in every way; then each implementation goes on from what each other one saved
SUITE(histories) {
  int t = k.choose(3); random_kind = k.choose(2); Conf c = conf(k, t); VV all = ref::all_entries(c.E, c.base), p = pool3(all); bool bits = c.base == 2; int depth = k.thorough ? 6 : 5; Script s{c.make}; for (int i = 0; i < depth; i++) s.push_back(step_of(t, k.choose(nsteps(t)), p, bits)); look(s, t, all, bits); same(k, s);
}
SUITE(exchange) {
  int t = k.choose(3); random_kind = 1; Conf c = conf(k, t); VV all = ref::all_entries(c.E, c.base), p = pool3(all); bool bits = c.base == 2; Script s{c.make}; int depth = k.thorough ? 4 : 3; for (int i = 0; i < depth; i++) s.push_back(step_of(t, k.choose(nsteps(t)), p, bits)); std::string d = k.dir(); bool file = k.flip(); s.push_back({{"op", "json"}, {"s", 0}}); if (file) s.back() = {{"op", "jsonfile"}, {"s", 0}, {"path", d + "x"}};
  int later = k.choose(nsteps(t)); Script go = s; if (t < 2) { go.push_back(step_of(t, later, p, bits)); } look(go, t, all, bits); std::vector<json> straight = same(k, go);
  for (size_t from = 0; from < plugs().size(); from++) { json r = run(k, from, s); REQUIRE("save", r.back().count("v"), "saving failed in ", plugs()[from].name); for (size_t to = 0; to < plugs().size(); to++) {
    Script q{{{"op", "new"}, {"t", TYPE[t]}, {"text", r.back()["v"]}}}; size_t cut = s.size(); for (size_t i = cut; i < go.size(); i++) q.push_back(go[i]); json g = run(k, to, q); REQUIRE("restore", g[0].count("v"), plugs()[to].name, " refuses what ", plugs()[from].name, " saved"); for (size_t i = cut; i < go.size(); i++) { std::string u = plain(go[i], straight[0][i]), v = plain(go[i], g[i - cut + 1]); REQUIRE("exchange", u == v, shown(go[i]), " after ", plugs()[from].name, " saved and ", plugs()[to].name, " restored: ", obs::diff(u, v)); } } }
}
// every option, every pair of options
static const std::vector<std::pair<std::string, std::vector<json>>>& options() {
  static const std::vector<std::pair<std::string, std::vector<json>>> v = {{"bleachingActivated", {true, false}}, {"verbose", {true, false}}, {"ignoreZero", {true, false}}, {"completeAddressing", {true, false}}, {"base", {2, 3, 1, 0, -1, 2147483647}}, {"confidence", {1, 2, 3, 0, -1, 4}}, {"searchBestConfidence", {true, false}}, {"returnConfidence", {true, false}}, {"returnActivationDegree", {true, false}}, {"returnClassesDegrees", {true, false}},
    {"indexes", {json::array(), {4, 3, 2, 1, 0}, {0, 1}, {0, 1, 2, 3, 3}, {0, 1, 2, 3, 5}, {-1, 0, 1, 2, 3}}}, {"unknownOption", {1, true}}};
  return v;
}
SUITE(options_) {
  int t = k.choose(3); random_kind = k.choose(2); auto& O = options(); int a = k.choose((int)O.size()); const json& u = k.pick(O[a].second); int b = k.choose((int)O.size()); const json& v = k.pick(O[b].second); if (b < a) return; json o = {{O[a].first, u}}; o[O[b].first] = v; json m = {{"op", "new"}, {"t", TYPE[t]}, {"n", 2}, {"E", 5}, {"min", 0.3}, {"th", 4}, {"lim", 2}, {"o", o}};
  Script s{m}; s.push_back({{"op", "json"}, {"s", 0}}); if (t == 0) { for (V x : VV{{0, 0, 0, 0, 0}, {1, 1, 1, 1, 1}, {0, 1, 1, 0, 1}, {2, 0, 0, 1, 0}}) { s.push_back({{"op", "train"}, {"s", 0}, {"x", x}}); } } else { s.push_back({{"op", "train"}, {"s", 0}, {"x", {{0, 0, 0, 0, 0}, {1, 1, 1, 1, 1}, {0, 1, 1, 0, 1}, {0, 1, 1, 1, 1}, {0, 1, 1, 0, 1}}}, {"y", {"a", "b", "a", "b", "b"}}}); s.push_back({{"op", "train"}, {"s", 0}, {"x", {{2, 0, 0, 1, 0}}}, {"y", {"c"}}}); if (t == 2) s.push_back({{"op", "unsupervised"}, {"s", 0}, {"x", {{1, 1, 0, 0, 1}, {0, 0, 0, 0, 1}}}}); }
  look(s, t, ref::all_entries(5, 2), true); same(k, s);
}
SUITE(mappings) {
  int t = k.choose(2); random_kind = 0; static const std::vector<VVD> none; static const std::vector<VV> M = {{}, {{0, 1}, {2, 3}}, {{3}, {0, 1, 2}}, {{0, 0}}, {{}}, {{4}}, {{-1}}, {{0, 1, 2, 3, 0, 1, 2, 3}}}; const VV& m = k.pick(M); const VV& m2 = k.pick(M); json o = {{"base", k.pick({2, 3})}, {"ignoreZero", k.flip()}}; if (t == 0) o["mapping"] = m; else o["mapping"] = {{"a", m}, {"b", m2}}; if (k.flip()) o["indexes"] = {3, 1, 2, 0}; Script s{{{"op", "new"}, {"t", TYPE[t]}, {"n", 2}, {"E", 4}, {"o", o}}}; VV all = ref::all_entries(4, 2), p = pool3(all); for (int i = 0; i < 3; i++) s.push_back(step_of(t, i, p, true)); look(s, t, all, true); same(k, s);
}
// invalid sizes, entries, lists and texts
SUITE(refusals) {
  int t = k.choose(3); random_kind = 0; static const V N = {-1, 0, 1, 2, 3, 5, 64, 65, 70}; json m = {{"op", "new"}, {"t", TYPE[t]}, {"n", k.pick(N)}, {"E", t == 0 ? k.pick(V{-1, 0, 1, 2, 4, 70}) : 4}, {"min", t == 2 ? k.pick({-0.5, 0.0, 0.5, 1.0, 1.5}) : 0.5}, {"th", t == 2 ? k.pick({-1, 0, 1, 10}) : 1}, {"lim", t == 2 ? k.pick({-1, 0, 1, 3}) : 1}}; Script s{m}; int E = t == 0 ? std::max(0, m["E"].get<int>()) : 4; if (t) E = k.pick({4, 70}); V z(E, 0), o(E, 1); if (t == 0) { s.push_back({{"op", "train"}, {"s", 0}, {"x", z}}); s.push_back({{"op", "train"}, {"s", 0}, {"x", o}}); } else s.push_back({{"op", "train"}, {"s", 0}, {"x", {z, o}}, {"y", {"a", "b"}}}); look(s, t, VV{z, o, V(E, 0)}, true); same(k, s);
}
SUITE(entries) {
  int t = k.choose(3); random_kind = 0; static const VV X = {{}, {0}, {1, 0}, {0, 1, 1}, {0, 1, 1, 0}, {2, 0, 0, 0}, {0, 0, 0, -1}, {0, 0, 3, 1}, {0, 0, 0, 0, 0}, {2147483647, 0, 0, 0}}; int base = k.pick({2, 3}); bool known = k.flip(); json m = {{"op", "new"}, {"t", TYPE[t]}, {"n", 2}, {"E", 4}, {"min", 0.5}, {"th", 5}, {"lim", 3}, {"o", {{"base", base}}}}; Script s{m}; VV all = ref::all_entries(4, 2), p = pool3(all); if (known) s.push_back(step_of(t, 0, p, true)); const V& x = k.pick(X); const V& y = k.pick(X); bool bits = true; for (const V* q : {&x, &y}) for (int v : *q) bits = bits && (v == 0 || v == 1);
  if (t == 0) { s.push_back({{"op", "train"}, {"s", 0}, {"x", x}}); s.push_back({{"op", "trainlist"}, {"s", 0}, {"x", {y, x}}}); s.push_back({{"op", "classify"}, {"s", 0}, {"x", y}}); if (bits) { s.push_back({{"op", "trainbin"}, {"s", 0}, {"x", x}}); s.push_back({{"op", "classifybin"}, {"s", 0}, {"x", y}}); } }
  else { s.push_back({{"op", "train"}, {"s", 0}, {"x", {x, y}}, {"y", {"a", "b"}}}); s.push_back({{"op", "train"}, {"s", 0}, {"x", {x, y}}, {"y", {"a"}}}); s.push_back({{"op", "classify"}, {"s", 0}, {"x", {y}}}); if (t == 1) { if (bits) { s.push_back({{"op", "traindata"}, {"s", 0}, {"x", {x, y}}, {"y", {"a", "c"}}}); s.push_back({{"op", "traindata"}, {"s", 0}, {"x", {x, y}}, {"y", {"a"}}}); s.push_back({{"op", "classifydata"}, {"s", 0}, {"x", {y}}}); } s.push_back({{"op", "leave"}, {"s", 0}, {"x", x}, {"y", "a"}}); s.push_back({{"op", "leavemore"}, {"s", 0}, {"x", {x}}, {"y", {"a", "b"}}}); } else { s.push_back({{"op", "semi"}, {"s", 0}, {"x", {x, y, p[0]}}, {"y", {{2, "a"}, {7, "b"}}}}); s.push_back({{"op", "semi"}, {"s", 0}, {"x", {x, y}}, {"y", {{0, "a"}, {1, "b"}, {2, "c"}}}}); s.push_back({{"op", "unsupervised"}, {"s", 0}, {"x", {x, y}}}); s.push_back({{"op", "classifyunsupervised"}, {"s", 0}, {"x", {x}}}); } }
  if (t) for (const char* e : {"classify", "train"}) { json c = {{"op", e}, {"s", 0}, {"x", json::array()}, {"y", json::array()}}; s.push_back(c); } look(s, t, all, true); same(k, s);
}
SUITE(labels) { int t = 1 + k.choose(2); random_kind = 0; const std::string& a = k.pick(ODD), & b = k.pick(ODD); Script s{{{"op", "new"}, {"t", TYPE[t]}, {"n", 2}, {"min", 0.9}, {"th", 2}, {"lim", 2}}}; s.push_back({{"op", "train"}, {"s", 0}, {"x", {{0, 0, 0, 0}, {1, 1, 1, 1}, {0, 0, 1, 1}}}, {"y", {a, b, a}}}); look(s, t, ref::all_entries(4, 2), true); same(k, s); }
// documents with parts removed or changed are accepted by all or by none
SUITE(documents) {
  int t = k.choose(3); random_kind = 0; Conf c = conf(k, t); VV all = ref::all_entries(c.E, c.base), p = pool3(all); Script s{c.make}; for (int i = 0; i < 3; i++) s.push_back(step_of(t, i, p, false)); s.push_back({{"op", "json"}, {"s", 0}}); json r = run(k, 0, s); if (!r.back().count("v")) return; json j = json::parse(r.back()["v"].get<std::string>()); VS keys; for (auto it = j.begin(); it != j.end(); ++it) keys.push_back(it.key()); std::string key = k.pick(keys); static const std::vector<json> V_ = {nullptr, true, -1, 0, 1, 2, 5, "x", "", json::array(), json::object(), 1.5, json::array({0, 1})}; int w = k.choose((int)V_.size() + 1); if (w) j[key] = V_[w - 1]; else j.erase(key); if (key == "entrySize" && t == 2) return;
  Script q{{{"op", "new"}, {"t", TYPE[t]}, {"text", j.dump()}}}; if (key == "addressSize") { q.push_back({{"op", "json"}, {"s", 0}}); same(k, q); return; } q.push_back(step_of(t, 0, p, false)); look(q, t, all, c.base == 2); same(k, q);
}
// ---- the other objects
SUITE(bits) { json m = {{"op", "new"}, {"t", "bin"}}; int n = k.pick({0, 1, 7, 8, 9, 17}), how = k.choose(4); VSh x; for (int i = 0; i < n; i++) x.push_back(i % 3 != 1); if (how == 0) m["size"] = n; else if (how == 1) m["x"] = x; else { std::string raw(1, (char)((8 - n % 8) % 8)); raw += std::string((n + 7) / 8, '\x5a'); m["text"] = how == 2 ? ref::b64enc(raw) : ref::b64enc(raw).substr(0, 3); } Script s{m}; int depth = k.thorough ? 3 : 2; for (int i = 0; i < depth; i++) { ull at = k.pick(std::vector<ull>{0, 1, 7, 8, 16, 17, 1000000, 1ull << 40}); int v = k.choose(2); s.push_back({{"op", "set"}, {"s", 0}, {"i", at}, {"v", v}}); s.push_back({{"op", "get"}, {"s", 0}, {"i", at}}); s.push_back({{"op", "at"}, {"s", 0}, {"i", at}}); } for (const char* o : {"size", "data", "bits"}) s.push_back({{"op", o}, {"s", 0}}); same(k, s); }
SUITE(datasets) {
  std::string d = k.dir(); Script s{{{"op", "new"}, {"t", "data"}}}; int depth = k.thorough ? 4 : 3; static const std::vector<VSh> X = {{}, {1, 0, 1}, {0, 1, 1, 0, 1, 0, 0, 1, 1}}; static const VS L = {"", "a", "b::c"}; for (int i = 0; i < depth; i++) { int c = k.choose(9); json a = {{"op", i % 2 ? "addbin" : "add"}, {"s", 0}, {"x", X[c % 3]}}; if (c / 3) a["y"] = L[c / 3]; s.push_back(a); } for (int i = -1; i <= depth; i++) { s.push_back({{"op", "get"}, {"s", 0}, {"i", i}}); if (i >= 0) s.push_back({{"op", "label"}, {"s", 0}, {"i", i}}); } s.push_back({{"op", "size"}, {"s", 0}}); same(k, s);
  for (size_t from = 0; from < plugs().size(); from++) { Script w = s; std::string f = d + plugs()[from].name; w.push_back({{"op", "save"}, {"s", 0}, {"path", f}}); json a = run(k, from, w); Script q = s; q[0] = {{"op", "new"}, {"t", "data"}, {"text", f + ".wpkds"}}; q.erase(q.begin() + 1, q.begin() + 1 + depth); for (auto& r : same(k, q)) for (size_t i = 1; i < q.size(); i++) REQUIRE("exchange", r[i] == a[i + depth], shown(q[i]), " after ", plugs()[from].name, " saved: ", shown(r[i]), " instead of ", shown(a[i + depth])); }
}
SUITE(handles) {
  static const VS T = {"", ".", "x", ref::pack_cells(Cells{{0, 1}}), ref::pack_cells(Cells{{5, 2}, {~0ull, -4}}) + "." + ref::pack_cells(Cells{{1ull << 63, 3}}), ref::pack_cells(Cells{{5, 2}}) + "..AAAA"}; Script s; const std::string& a = k.pick(T), & b = k.pick(T); for (auto& x : {a, b}) s.push_back({{"op", "new"}, {"t", "rdh"}, {"text", x}}); int depth = k.thorough ? 2 : 1; for (int i = 0; i < depth; i++) { int r = k.pick({-1, 0, 1, 2, 7}), v = k.pick({0, -1, 2147483647}); ull at = k.pick(std::vector<ull>{0, 5, 1ull << 63, ~0ull}); s.push_back({{"op", "set"}, {"s", i}, {"r", r}, {"a", at}, {"v", v}}); s.push_back({{"op", "get"}, {"s", i}, {"r", r}, {"a", at}}); }
  if (ref::split(a, '.').back() == "AAAA" || a == "x" || ref::split(b, '.').back() == "AAAA" || b == "x") { same(k, Script(s.begin(), s.begin() + 2)); return; } for (int o : {0, 1}) { for (int r : {-1, 0, 1, 2, 3}) { s.push_back({{"op", "ram"}, {"s", o}, {"r", r}}); s.push_back({{"op", "data1"}, {"s", o}, {"r", r}}); } s.push_back({{"op", "data"}, {"s", o}}); s.push_back({{"op", "compare"}, {"s", o}, {"other", 1 - o}}); } same(k, s);
}
SUITE(canvases) {
  random_kind = 4 + k.choose(2); json o; int bits = k.pick({0, 1, 3, -1}); if (bits) o["bitsByKernel"] = bits; double deg = k.pick({-1.0, 0.0, 0.4, 1.0, 1.5, 9.0}); if (deg < 9) o["activationDegree"] = deg; if (k.flip()) o["useDirection"] = true; int dim = k.pick({0, 1, 2, 3}), n = k.pick({0, 1, 5, 20}); json m = {{"op", "new"}, {"t", "kern"}, {"dim", dim}, {"n", n}}; if (!o.is_null()) m["o"] = o; Script s{m};
  if (dim > 0 && n > 0 && deg != -1.0 && deg != 1.5 && bits >= 0) { for (int len : {0, 1, 2, 4}) { VVD q; for (int i = 0; i < len; i++) { VD x; for (int j = 0; j < dim; j++) x.push_back((i * 7 + j * 3) % 5 - 1.5); q.push_back(x); } s.push_back({{"op", "transform"}, {"s", 0}, {"x", q}}); } s.push_back({{"op", "transform"}, {"s", 0}, {"x", {VD(dim, 1), VD(dim + 1, 2)}}}); } same(k, s);
}
SUITE(synthesizers) { int n = k.choose(4); random_kind = 3 + k.choose(3); V m; for (int i = 0; i < n; i++) m.push_back(k.pick({0, 1, 2, 5, 100})); Script s{{{"op", "new"}, {"t", "synth"}, {"x", m}}}; for (int i = 0; i < 6; i++) s.push_back({{"op", "make"}, {"s", 0}}); same(k, s); }
