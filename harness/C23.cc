// C23: damaged saved text and files; built with the address sanitizer.
#include "confs.hpp"
#include <limits>
using namespace mc;

static void constant() { rand_hook = [] { return 0; }; }
static const int KINDS = 3;                      // Discriminator, Wisard, ClusWisard
struct Doc { int kind, E, base; std::string text; json j; };
static const std::vector<Doc>& docs() {
  static const std::vector<Doc> all = [] {
    std::vector<Doc> v; auto add = [&](int kind, int E, int base, const std::string& t) { v.push_back(Doc{kind, E, base, t, json::parse(t)}); };
    constant();
    { api::Disc d(2, 3, json()); d.train(V{0, 1, 1}); d.train(V{1, 0, 0}); add(0, 3, 2, d.json_()); add(0, 3, 2, d.jsonConfig()); }
    { api::Disc d(2, 2, json{{"base", 3}, {"ignoreZero", true}}); d.train(V{2, 1}); d.train(V{0, 0}); add(0, 2, 3, d.json_()); }
    { api::Disc d(2, 3, json{{"mapping", {{0}, {1, 2}, {2, 2}}}}); add(0, 3, 2, d.json_()); }
    { api::Wis w(2, json()); add(1, 3, 2, w.json_()); w.train(VV{{0, 1, 1}, {1, 0, 0}}, VS{"a", "b"}); add(1, 3, 2, w.json_()); add(1, 3, 2, w.jsonConfig()); }
    { api::Wis w(2, json{{"base", 3}, {"indexes", {1, 0}}, {"mapping", {{"a", {{0}, {1, 0}}}}}, {"bleachingActivated", false}, {"returnConfidence", true}, {"returnClassesDegrees", true}, {"returnActivationDegree", true}}); w.train(VV{{2, 1}, {1, 0}}, VS{"a", "b"}); add(1, 2, 3, w.json_()); }
    { api::Clus c(2, 0.5f, 2, 3, json()); add(2, 4, 2, c.json_()); c.train(VV{{0, 0, 0, 0}, {1, 1, 1, 1}}, VS{"a", "a"}); add(2, 4, 2, c.json_()); add(2, 4, 2, c.jsonConfig()); c.trainUnsupervised(VV{{0, 0, 0, 0}, {1, 1, 1, 1}}); add(2, 4, 2, c.json_()); }
    { api::Clus c(2, 0.25f, 3, 2, json{{"base", 3}, {"ignoreZero", true}, {"completeAddressing", false}, {"returnConfidence", true}, {"returnClassesDegrees", true}, {"returnActivationDegree", true}}); c.trainUnsupervised(VV{{2, 1}, {0, 1}}); c.train(VV{{2, 1}}, VS{"x"}); add(2, 2, 3, c.json_()); }
    env_reset(); return v;
  }();
  return all;
}
static bool large(const json& j) {   // sizes that would only make the process ask for gigabytes
  if (j.is_object()) for (auto it = j.begin(); it != j.end(); ++it) { if (it.key() == "entrySize" && it.value().is_number() && it.value().get<double>() > 10000) return true; if (large(it.value())) return true; }
  else if (j.is_array()) for (auto& x : j) if (large(x)) return true;
  return false;
}
struct Use { Ctx& k; int did, worked; Use(Ctx& c) : k(c), did(0), worked(0) {} template <typename F> bool operator()(F f) { did++; k.step(); bool r = refused(f); worked += !r; return !r; } };
static VV entries(int E, int base) { VV o = {V(E, 0), V(E, 1), V(E, base - 1), V(E, 0)}; if (E) o[3][0] = 1; return o; }
// an accepted document gives a model every operation of which works or raises an error
static void use(Ctx& k, const std::string& t, int kind, int E, int base, int depth = 0) {
  Use u(k); std::string again, config; V sizes = {E, E + 1, std::max(0, E - 1)};
  try {
    if (kind == 0) {
      api::Disc d(t); for (int n : sizes) for (auto& x : entries(n, base)) { u([&] { d.classify(x); }); u([&] { d.train(x); }); u([&] { d.classify(x); }); if (base == 2 && n) u([&] { api::Bin b(ref::shorts(x)); d.train(b); d.classify(b); }); }
#ifdef MC_BACKEND_CPP
      u([&] { d.getMentalImage(); }); u([&] { d.untrain(V(E, 0)); }); u([&] { d.untrain(V(E, 1)); d.untrain(V(E, 1)); }); u([&] { d.getMentalImage(); }); u([&] { api::Disc c(d); c.train(V(E, 1)); });
#endif
      u([&] { d.getsizeof(); }); u([&] { again = d.json_(); }); u([&] { config = d.jsonConfig(); });
    } else if (kind == 1) {
      api::Wis w(t); for (int n : sizes) { VV xs = entries(n, base); u([&] { w.classify(xs); }); u([&] { w.train(xs, VS{"a", "b", "new", "a"}); }); u([&] { w.classify(xs); }); }
      u([&] { w.getMentalImages(); }); u([&] { w.leaveOneOut(V(E, 0), "a"); }); u([&] { w.leaveMoreOut(VV{V(E, 1), V(E, 1)}, VS{"b", "a"}); }); u([&] { w.getMentalImages(); }); u([&] { w.classify(entries(E, base)); });
      u([&] { api::Data d; d.add(VSh(E, 1), "a"); d.add(VSh(E, 0), "b"); w.train(d); w.classify(d); });
      u([&] { w.getsizeof(); }); u([&] { again = w.json_(); }); u([&] { config = w.jsonConfig(); });
    } else {
      api::Clus c(t); for (int n : sizes) { VV xs = entries(n, base); u([&] { c.classify(xs); }); u([&] { c.classifyUnsupervised(xs); }); u([&] { c.train(xs, VS{"a", "x", "new", "a"}); }); u([&] { c.train(xs, std::map<int, std::string>{{1, "a"}}); }); u([&] { c.trainUnsupervised(xs); }); u([&] { c.classify(xs); }); u([&] { c.classifyUnsupervised(xs); }); }
      u([&] { c.getMentalImages(); }); u([&] { c.getMentalImage("a"); }); u([&] { c.getMentalImage("none"); }); u([&] { c.getsizeof(); }); u([&] { again = c.json_(); }); u([&] { config = c.jsonConfig(); });
    }
  } catch (std::exception&) { k.state("refused " + t); return; }
  k.state(t); k.log("accepted, ", u.worked, " of ", u.did, " operations worked");
  if (depth == 0) for (auto& s : {again, config}) if (!s.empty()) use(k, s, kind, E, base, 1);
}
static void damaged(Ctx& k, const Doc& d, const std::string& t) {
  k.log("kind ", d.kind, " text ", t); json j; try { j = json::parse(t); } catch (std::exception&) { j = nullptr; } if (large(j)) return;
  constant(); use(k, t, d.kind, d.E, d.base);
}
static const std::string SUBST = std::string("\0\n\"\\{}[],:-09eA=.+/ut \x80\xff", 25);
// every truncation; every character removed, replaced, doubled or preceded by another
SUITE(texts) {
  const Doc& d = k.pick(docs()); int how = k.choose(4), at = k.choose((int)d.text.size() + 1); std::string t = d.text; 
  if (how == 0) t.resize(at);
  else if (how == 1) { if (at == (int)t.size()) return; t.erase(at, k.pick({1, 2, 4, 16})); }
  else if (how == 2) { if (at == (int)t.size()) return; char c = k.thorough ? SUBST[k.choose((int)SUBST.size())] : "\"{[,-9A=.\xff"[k.choose(10)]; if (t[at] == c) return; t[at] = c; }
  else { int c = k.choose(k.thorough ? (int)SUBST.size() : 4); t.insert(at, 1, k.thorough ? SUBST[c] : "0-,\""[c]); }
  damaged(k, d, t);
}
// ---- every part of the document replaced by odd values
static void paths(const json& j, const json::json_pointer& p, std::vector<json::json_pointer>& out) {
  out.push_back(p);
  if (j.is_object()) for (auto it = j.begin(); it != j.end(); ++it) paths(it.value(), json::json_pointer(p.to_string() + "/" + it.key()), out);
  else if (j.is_array()) for (size_t i = 0; i < j.size(); i++) paths(j[i], json::json_pointer(p.to_string() + "/" + std::to_string(i)), out);
}
static const std::vector<json>& odd() {
  static const std::vector<json> v = [] {
    ull big = (ull)1 << 63; std::string far = ref::pack_cells(Cells{{~0ull, 2147483647}, {0, -1}, {big, -2147483647 - 1}, {1, 0}, {3, 1}}); Cells many; for (int i = 0; i < 300; i++) many[i * 77777777777777ull] = i - 150;
    return std::vector<json>{nullptr, true, false, -1, 0, 1, 2, 3, 5, 100, 70000, 2147483647, -2147483647 - 1, 4294967296ll, big, 1.5, -0.25, 1e300, "", "x", "AAAA", "=", "====", ".", "..", "A.A", ".wdpkg", "/nowhere/x.wdpkg", ref::pack_cells(Cells{{0, 1}}), far, far + "." + far, far + "." + far + "." + far, ref::pack_cells(many) + ".", json::array(), {0}, {-1}, {0, 1}, {2147483647}, {nullptr}, {"a"}, json::array({json::array()}), json::array({json::array({0})}), json::array({json::array({0, 1}), json::array({-1})}), json::array({json::array({0, 99})}), json::array({1.5}), json::object(), {{"a", 1}}, {{"a", nullptr}}, {{"a", json::array({json::array({0})})}}, {{"a", json::array({json::array({-7})})}}, {{"a", {{"entrySize", 3}}}}, {{"a", {{"entrySize", 3}, {"mapping", json::array({json::array({0, 1})})}, {"data", "x"}}}}, {{"entrySize", 0}, {"discriminators", json::array()}}, {{"entrySize", -3}, {"discriminators", json::array({nullptr})}}, {{"a", {{"entrySize", 1}, {"discriminators", nullptr}}}}};
  }();
  return v;
}
static void put(json& j, const json::json_pointer& p, const json& v, bool remove) {
  if (!remove) { j[p] = v; return; }
  std::string s = p.to_string(); size_t c = s.rfind('/'); if (c == std::string::npos) { j = json(); return; } json& up = j[json::json_pointer(s.substr(0, c))]; std::string key = s.substr(c + 1); if (up.is_array()) up.erase(atoi(key.c_str())); else up.erase(key);
}
SUITE(values) {
  const Doc& d = k.pick(docs()); std::vector<json::json_pointer> ps; paths(d.j, json::json_pointer(""), ps); const auto& p = ps[k.choose((int)ps.size())]; int v = k.choose((int)odd().size() + 1); json j = d.j;
  try { put(j, p, v ? odd()[v - 1] : json(), v == 0); } catch (std::exception&) { return; }
  k.log(p.to_string(), v ? " becomes " + odd()[v - 1].dump() : " removed"); damaged(k, d, j.dump());
}
// two of them at once
SUITE(pairs) {
  static const V some = {0, 1, 4, 5, 6, 7, 9, 11, 12, 13, 18, 29, 31, 34, 36, 37, 42, 47};   // removed, null, -1, 0, 1, 2, 5, 70000, 2^31-1, ...
  const Doc& d = docs()[k.pick(k.thorough ? V{0, 2, 3, 5, 7, 11, 12} : V{0, 12})]; std::vector<json::json_pointer> ps; paths(d.j, json::json_pointer(""), ps); int n = (int)ps.size(); int a = 1 + k.choose(n - 1), b = 1 + k.choose(n - 1); if (b <= a) return; if (ps[a].to_string() == "/version" || ps[b].to_string() == "/version") return;
  int m = k.thorough ? (int)some.size() : 5; static const V few = {0, 4, 5, 13, 31}; int v = (k.thorough ? some : few)[k.choose(m)], w = (k.thorough ? some : few)[k.choose(m)]; json j = d.j;
  try { put(j, ps[b], w ? odd()[w - 1] : json(), w == 0); put(j, ps[a], v ? odd()[v - 1] : json(), v == 0); } catch (std::exception&) { return; }
  k.log(ps[a].to_string(), " and ", ps[b].to_string(), " changed"); damaged(k, d, j.dump());
}
// a document of one kind given to another, and texts that are no document at all
SUITE(strangers) {
  static const VS T = {"", " ", "null", "true", "0", "-1", "1e999", "\"\"", "\"a\"", "[]", "{}", "[[]]", "{", "[", "{\"entrySize\":3}", "{\"entrySize\":3,\"mapping\":[[0,1]]}", "{\"entrySize\":3,\"mapping\":[[0,1]],\"ignoreZero\":false,\"base\":2,\"data\":\"\"}", "{\"addressSize\":2}", "{\"classes\":{\"a\":{}}}", "{\"addressSize\":2,\"classes\":[{\"entrySize\":3}]}", "{\"addressSize\":2,\"base\":2,\"classes\":{\"a\":{\"entrySize\":3,\"mapping\":[]}}}", "{\"addressSize\":2,\"clusters\":{\"\":{}}}", std::string(3000, '['), std::string(3000, ' '), std::string("{\0}", 3), std::string(100, '\xff'), "\xef\xbb\xbf{}", "{\"a\":\"\\ud800\"}"};
  int kind = k.choose(KINDS), n = (int)docs().size(), w = k.choose((int)T.size() + n); std::string t = w < n ? docs()[w].text : T[w - n]; k.log("kind ", kind, " text ", t); constant(); for (int base : {2, 3}) use(k, t, kind, w < n ? docs()[w].E : 3, base);
}
// ---- packed bits
static void bits(Ctx& k, const std::string& t) {
  { std::string h; for (unsigned char c : t) { char x[4]; snprintf(x, 4, "%02x", c); h += x; } k.log("text (hex) ", h); }
  try {
    api::Bin b(t); ull n = b.size(); k.step(); REQUIRE("size", n <= t.size() * 8, "an input of ", n, " bits from ", t.size(), " characters"); for (ull i = 0; i < n; i++) { int v = b.get(i); REQUIRE("bit", v == 0 || v == 1, "bit ", i, " is ", v); } for (ull i = 0; i < n; i++) b.set(i, (int)(i & 1)); for (ull i = 0; i < n; i++) REQUIRE("bit", b.get(i) == (int)(i & 1), "bit ", i, " was not set");
    for (ull i : {n, n + 1, n + 7, n + 8, ~0ull}) REQUIRE("range", refused([&] { b.get(i); }) && refused([&] { b.set(i, 1); }), "position ", i, " of ", n, " is accepted"); api::Bin c(b.data()); REQUIRE("copy", c.size() == n && c.data() == b.data(), "its data gives another"); api::Data d; d.add(b, "a"); k.step(n * 3); k.state(str(n));
    if (n > 1 && n < 20) { api::Disc m(2, (int)n, json()); m.train(b); m.classify(c); }
  } catch (std::exception&) { k.state("refused"); }
}
static const std::string B64 = "ABgIw/+9=.# \x80\xff";
SUITE(packed_bits) {
  static const V N = {0, 1, 7, 8, 9, 16, 17, 24, 25}; VSh v; int n = k.pick(N); for (int i = 0; i < n; i++) v.push_back(i % 3 == 0); std::string t = api::Bin(v).data(); int how = k.choose(5);
  if (how == 0) { t.resize(k.choose((int)t.size() + 1)); bits(k, t); return; } int at = k.choose((int)t.size()), c = k.choose(256);
  if (how == 1) t[at] = (char)c; else if (how == 2) t.insert(at, 1, (char)c); else if (how == 3) { if (c) return; t.erase(at, 1); } else { if (c % 5 && !k.thorough) return; t[at] = (char)c; t[(at + 1 + k.choose((int)t.size() - 1)) % t.size()] = B64[k.choose(k.thorough ? (int)B64.size() : 4) * (k.thorough ? 1 : 3)]; } bits(k, t);
}
SUITE(any_bits) { int n = k.choose(5); std::string t; for (int i = 0; i < n; i++) t += B64[k.choose((int)B64.size())]; if (k.flip()) t = "A" + t; if (k.flip()) t += "AAA"; bits(k, t); }
// ---- handles of RAM data
static void handle(Ctx& k, const std::string& t) {
  try {
    api::RDH h(t), g(t); k.step(2); for (int r : {0, 1, 2, -1, 3, 100, 2147483647, -2147483647 - 1}) { for (ull a : {0ull, 1ull, ~0ull}) { h.get(r, a); refused([&] { h.set(r, a, 5); }); refused([&] { h.set(r, a, h.get(r, a)); }); } h.get(r); refused([&] { h.data(r); }); } h.compare(g); REQUIRE("self", g.compare(g), "a handle is not equal to itself"); std::string d = h.data(); api::RDH i(d); REQUIRE("copy", i.compare(h) && h.compare(i), "its data gives another"); k.step(60); k.state(d);
  } catch (std::exception&) { k.state("refused"); }
}
SUITE(handles) {
  static const VS T = {"", ".", "..", ref::pack_cells(Cells{{0, 1}}), ref::pack_cells(Cells{{0, 1}, {~0ull, -1}}) + "." + ref::pack_cells(Cells{{5, 2147483647}}), ref::pack_cells(Cells{{1, 1}}) + "..", "." + ref::pack_cells(Cells{{7, 3}, {8, 4}, {9, 5}})}; std::string t = k.pick(T); k.log("text ", t); int how = k.choose(4), at = k.choose((int)t.size() + 1);
  if (how == 0) t.resize(at); else if (at == (int)t.size() && how != 2) return; else if (how == 1) t[at] = (char)k.choose(256); else if (how == 2) t.insert(at, 1, (char)k.choose(256)); else t.erase(at, k.pick({1, 2, 4, 16})); handle(k, t);
}
SUITE(handle_files) {
  std::string f = k.dir() + "x.wdpkg", t = ref::pack_cells(Cells{{0, 1}, {~0ull, 3}}) + "." + ref::pack_cells(Cells{{5, 7}}); int how = k.choose(4), at = k.choose((int)t.size() + 1);
  if (how == 0) t.resize(at); else if (at == (int)t.size()) return; else if (how == 1) t[at] = B64[k.choose((int)B64.size())]; else if (how == 2) t.insert(at, 1, B64[k.choose((int)B64.size())]); else t.erase(at, k.pick({1, 4})); k.log("file ", t); { std::ofstream o(f); o << t; } handle(k, f); handle(k, f + "x"); handle(k, f.substr(0, f.size() - 7) + "y.wdpkg");
}
// ---- files
static void spoil(Ctx& k, std::string& t) {
  int how = k.choose(4), at = k.choose((int)t.size() + 1);
  if (how == 0) t.resize(at); else if (how == 1) { if (at < (int)t.size()) t[at] = SUBST[k.choose((int)SUBST.size())]; } else if (how == 2) t.insert(at, 1, SUBST[k.choose((int)SUBST.size())]); else t.erase(at, k.pick({1, 2, 16}));
}
static void spit(const std::string& f, const std::string& t) { std::ofstream o(f, std::ios::binary); o.write(t.data(), t.size()); }
SUITE(model_files) {
  int kind = k.choose(3); std::string dir = k.dir(), t, f; constant();
  if (kind == 0) { api::Disc d(2, 4, json()); d.train(V{0, 1, 1, 0}); d.train(V{1, 0, 0, 0}); t = d.json_(true, dir + "m"); f = json::parse(t)["data"]; }
  else if (kind == 1) { api::Wis w(2, json()); w.train(VV{{0, 1, 1, 0}, {1, 0, 0, 1}}, VS{"a", "b"}); t = w.json_(true, dir + "m"); f = json::parse(t)["classes"]["a"]["data"]; }
  else { api::Clus c(2, 0.5f, 2, 3, json()); c.train(VV{{0, 0, 0, 0}, {1, 1, 1, 1}}, VS{"a", "a"}); t = c.json_(true, dir + "m"); f = json::parse(t)["clusters"]["a"]["discriminators"][1]["data"]; }
  std::string s = ref::slurp(f); spoil(k, s); k.log("file ", s); spit(f, s); use(k, t, kind, 4, 2, 1);
}
SUITE(dataset_files) {
  std::string dir = k.dir(); api::Data d; int n = k.choose(4); if (n > 0) d.add(VSh{1, 0, 1}, "a"); if (n > 1) d.add(VSh{0, 1, 0, 0, 1, 1, 1, 0, 1}); if (n > 2) d.add(VSh(), "label"); d.save(dir + "s"); std::string f = dir + "s.wpkds", t = ref::slurp(f); spoil(k, t); k.log("file ", t); spit(f, t);
  try {
    api::Data e(f); ull m = e.size(); k.step(); REQUIRE("size", m <= t.size() + 1, m, " entries from ", t.size(), " bytes"); for (ull i = 0; i <= m; i++) { refused([&] { e.getLabel(i); }); bool r = refused([&] { api::Bin b = e.get((int)i); for (ull j = 0; j < b.size(); j++) b.get(j); }); REQUIRE("entry", r == (i == m), "entry ", i, " of ", m, r ? " is not there" : " is there"); }
    e.add(VSh{1, 1}, "x"); e.save(dir + "t"); api::Data g(dir + "t.wpkds"); REQUIRE("copy", g.size() == m + 1 && g.getLabel(m) == "x", "saved again it has ", g.size(), " entries instead of ", m + 1); refused([&] { api::Wis w(2, json()); w.train(e); w.classify(e); }); k.step(m * 2 + 5); k.state(str(m));
  } catch (std::exception&) { k.state("refused"); }
}
// ---- cells with any address and count in every model
SUITE(cells) {
  static const V C = {-2147483647 - 1, -1000, -1, 0, 1, 255, 65536, 2147483646, 2147483647}; static const std::vector<ull> A = {0, 1, 3, 4, 1ull << 31, 1ull << 32, 1ull << 63, ~0ull}; int kind = k.choose(3), base = k.pick({2, 3}); ull a = k.pick(A), b = k.pick(A); int u = k.pick(C), v = k.pick(k.thorough ? C : V{-1, 2, 2147483647}); int count = k.pick(k.thorough ? C : V{0, 2147483647});
  std::string raw; for (auto e : {std::make_pair(a, u), std::make_pair(b, v)}) { raw.append((char*)&e.first, 8); raw.append((char*)&e.second, 4); } raw = ref::b64enc(raw); json d = {{"entrySize", 4}, {"mapping", {{0, 1}, {2, 3}}}, {"count", count}, {"data", raw + "." + raw}}; json t; constant();
  if (kind == 0) { t = d; t["base"] = base; t["ignoreZero"] = false; }
  else if (kind == 1) { t = json::parse(api::Wis(2, json{{"base", base}}).json_()); t["classes"] = {{"a", d}, {"b", d}}; }
  else { t = json::parse(api::Clus(2, 0.5f, 3, 3, json{{"base", base}}).json_()); t["clusters"] = {{"a", {{"entrySize", 4}, {"discriminators", {d, d}}}}, {"b", {{"entrySize", 4}, {"discriminators", {d}}}}}; t["unsupervisedCluster"] = {{"entrySize", 4}, {"discriminators", {d, d}}}; }
  k.log("cells ", a, ":", u, " ", b, ":", v, " count ", count, " kind ", kind, " base ", base); use(k, t.dump(), kind, 4, base, 1);
}
