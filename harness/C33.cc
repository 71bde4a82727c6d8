// C33: what an object is depends on the values of its options only, not on how they are given. What is compared does not depend
// on the random addressing: entries of one value only reach one cell of a RAM, wherever the RAM looks.
#include "confs.hpp"
#include <sys/stat.h>
#include <unistd.h>
using namespace mc;

struct Opt { const char* name; json def, other; std::vector<json> more; const json& own(int alt) const { return alt && !more.empty() ? more[(alt - 1) % more.size()] : other; } };   // numbers have further values of their own
static const int N = 2, E = 5;
static VV entries(int base) { return {V(E, 0), V(E, 1), V(E, base - 1)}; }
static std::string cells(const json& d) {    // the RAMs without their positions
  std::string s = str(d["entrySize"].dump(), " ", d["count"].dump()); auto parts = ref::split(d["data"].get<std::string>(), '.'); size_t r = 0; for (auto& m : d["mapping"]) { s += str(" ", m.size(), "{"); Cells c; if (r < parts.size()) ref::unpack_cells(parts[r], c); r++; for (auto& e : c) s += str(e.first, ":", e.second, " "); s += "}"; } return s;
}
static std::string fixed(json d, bool given) { return given ? str(d["mapping"].dump()) : str(); }
// everything that can be seen of a model and does not depend on chance
static std::string sign(api::Disc& d, const json& o) {
  std::string s; int base = 2; bool given = (o.count("indexes") && !o["indexes"].empty()) || (o.count("mapping") && !o["mapping"].empty());
  for (int i = 0; i < 3; i++) { json j = json::parse(d.json_()); base = j["base"]; s += str(j["base"].dump(), j["ignoreZero"].dump(), cells(j), fixed(j, given)); for (auto& x : entries(base)) s += str(d.classify(x)); if (i < 2) { d.train(entries(base)[2 * i]); d.train(entries(base)[2]); } }
  if (given) { V x = {1, 0, 0, 1, 0}; d.train(x); for (auto& y : ref::all_entries(E, 2)) s += str(d.classify(y)); }
#ifdef MC_BACKEND_CPP
  s += str(d.getNumberOfTrainings(), d.getNumberOfRAMS());
#endif
  return s;
}
static std::string sign(api::Wis& w, const json& o) {
  json j = json::parse(w.json_()); std::string s = "classes " + j["classes"].dump(); j.erase("classes"); s += j.dump(); json c = json::parse(w.jsonConfig()); c.erase("classes"); s += c.dump(); int base = j["base"]; VV x = entries(base); bool given = o.count("mapping") && !o["mapping"].empty();
  s += obs::full(w, x); w.train(VV{x[0], x[2], x[2], x[1]}, VS{"a", "b", "b", "a"}); w.train(VV{x[0], x[0]}, VS{"c", "c"}); s += obs::full(w, x); if (given) s += obs::full(w, ref::all_entries(E, 2));
  j = json::parse(w.json_())["classes"]; for (auto it = j.begin(); it != j.end(); ++it) s += it.key() + cells(it.value()) + fixed(it.value(), (given && it.key() != "c") || (o.count("indexes") && !o["indexes"].empty())); return s;
}
static std::string sign(api::Clus& w, const json&) {
  json j = json::parse(w.json_()); std::string s = j.dump() + w.jsonConfig(); int base = j["base"]; VV x = entries(base); s += obs::full(w, x); w.train(VV{x[0], x[2], x[2], x[1]}, VS{"a", "b", "b", "a"}); w.trainUnsupervised(VV{x[2], x[0]}); s += obs::full(w, x) + obs::show(w.classifyUnsupervised(x));
  j = json::parse(w.json_()); for (auto it = j["clusters"].begin(); it != j["clusters"].end(); ++it) { s += it.key(); for (auto& d : it.value()["discriminators"]) s += cells(d); } for (auto& d : j["unsupervisedCluster"]["discriminators"]) s += "u" + cells(d); return s;
}
static std::string sign(api::Kern& c, const json&) { return str(c.transform(VVD{{1, 2}, {3, 0}, {-1, 8}}), c.transform(VVD{{0, 1}}), c.transform(VVD{{5, 5}, {4, 1}})); }
static const std::vector<Opt> DO = {{"ignoreZero", false, true}, {"completeAddressing", true, false}, {"base", 2, 3, {4, 5}}, {"indexes", json::array(), {4, 2, 0, 1, 3}}, {"mapping", json::array(), {{0, 3}, {4}, {1, 2, 2}}}};
static const std::vector<Opt> WO = {{"bleachingActivated", true, false}, {"verbose", false, true}, {"ignoreZero", false, true}, {"completeAddressing", true, false}, {"base", 2, 3, {4, 5}}, {"confidence", 1, 2, {0, -1}}, {"searchBestConfidence", false, true}, {"returnConfidence", false, true}, {"returnActivationDegree", false, true}, {"returnClassesDegrees", false, true}, {"indexes", json::array(), {4, 2, 0, 1, 3}}, {"mapping", json::object(), {{"a", {{0, 3}, {4}}}, {"b", {{1, 2, 2}, {0}}}}}};
static const std::vector<Opt> CO(WO.begin(), WO.begin() + 10);
static const std::vector<Opt> KO = {{"bitsByKernel", 3, 2, {1, 5}}, {"activationDegree", 0.07, 0.5, {1.0, 0.001}}, {"useDirection", false, true}};
struct Given { std::vector<std::pair<std::string, json>> v; json object() const { json o = json::object(); for (auto& e : v) o[e.first] = e.second; return o; } };

static void quiet() { env_reset(); rand_hook = ref::stream(4); }
// made with these options, in this order (only Python knows an order)
static std::string of(int model, const Given& g) {
  quiet(); json o = g.object();
#ifdef MC_BACKEND_PY
  py::dict kw; for (auto& e : g.v) kw[py::str(e.first)] = api::to_py(e.second);
  if (model == 0) { api::Disc d(N, E, json()); quiet(); d.o = api::cls("Discriminator")(N, E, **kw); return sign(d, o); }
  if (model == 1) { api::Wis d(N, json()); quiet(); d.o = api::cls("Wisard")(N, **kw); return sign(d, o); }
  if (model == 2) { api::Clus d(N, 0.5f, 3, 4, json()); quiet(); d.o = api::cls("ClusWisard")(N, 0.5f, 3, 4, **kw); return sign(d, o); }
  api::Kern d(2, 6, json()); quiet(); d.o = api::cls("KernelCanvas")(2, 6, **kw); return sign(d, o);
#else
  if (model == 0) { api::Disc d(N, E, o); return sign(d, o); } if (model == 1) { api::Wis d(N, o); return sign(d, o); } if (model == 2) { api::Clus d(N, 0.5f, 3, 4, o); return sign(d, o); } api::Kern d(2, 6, o); return sign(d, o);
#endif
}
static const std::vector<Opt>& opts(int model) { return model == 0 ? DO : model == 1 ? WO : model == 2 ? CO : KO; }
static const char* const MODEL[] = {"Discriminator", "Wisard", "ClusWisard", "KernelCanvas"};
// options that are given a value of their own: all sets of them up to a size
static std::vector<int> own(Ctx& k, int n, int max) { std::vector<int> s; int from = 0; for (int i = 0; i < max && from < n; i++) { int c = k.choose(n - from + 1); if (c == n - from) break; s.push_back(from + c); from += c + 1; } return s; }
static const std::string& memo(int model, const std::vector<int>& s, int alt = 0) {
  static std::map<std::string, std::string> m; std::string key = str(model, s, alt); auto f = m.find(key); if (f != m.end()) return f->second; Given g; for (int i : s) g.v.push_back({opts(model)[i].name, opts(model)[i].own(alt)}); return m[key] = of(model, g);
}
static bool numbers(int model, const std::vector<int>& s) { for (int i : s) if (!opts(model)[i].more.empty()) return true; return false; }
// given or left out, in any order
SUITE(options) {
  int model = k.choose(4); const auto& O = opts(model); int n = (int)O.size(); std::vector<int> s = own(k, n, PY ? (k.thorough ? 5 : 4) : k.thorough ? 12 : 5); int pat = k.choose(4 + n), order = k.choose(PY ? 3 : 1), alt = numbers(model, s) ? k.choose(3) : 0; Given g;
  for (int i = 0; i < n; i++) { bool mine = std::count(s.begin(), s.end(), i) > 0; if (mine) g.v.push_back({O[i].name, O[i].own(alt)}); else if (pat == 0 || pat == 1 + i % 2 || pat == 4 + i) g.v.push_back({O[i].name, O[i].def}); }
  if (order == 1) std::reverse(g.v.begin(), g.v.end()); if (order == 2 && g.v.size() > 2) std::rotate(g.v.begin(), g.v.begin() + g.v.size() / 2, g.v.end());
  std::string names; for (auto& e : g.v) names += " " + e.first + "=" + e.second.dump(); k.log(MODEL[model], names); const std::string& want = memo(model, s, alt); std::string got = of(model, g); k.step(20);
  REQUIRE("default", got == want, MODEL[model], names, " differs from the one without the defaults: ", obs::diff(got, want)); k.state(got);
}
// a new object knows its options and nothing else, and each option arrives: no two sets of options give the same
SUITE(meant) {
  int model = k.choose(3); const auto& O = opts(model); int i = k.choose((int)O.size()), j = k.choose((int)O.size()), alt = O[i].more.empty() ? 0 : k.choose(3); std::string a = memo(model, {}), b = memo(model, {i}, alt); k.step(20); k.log(MODEL[model], " ", O[i].name, " ", O[j].name);
  if (strcmp(O[i].name, "searchBestConfidence")) REQUIRE("ignored", a != b, MODEL[model], ": the option ", O[i].name, " has no effect"); if (i < j && strcmp(O[i].name, "searchBestConfidence") && strcmp(O[j].name, "searchBestConfidence")) { std::string c = memo(model, {j}); REQUIRE("mixed-up", b != c, MODEL[model], ": the options ", O[i].name, " and ", O[j].name, " are the same"); }
  quiet(); json o = {{O[i].name, O[i].own(alt)}}; std::string t = model == 0 ? api::Disc(N, E, o).json_() : model == 1 ? api::Wis(N, o).json_() : api::Clus(N, 0.5f, 3, 4, o).json_(); json d = json::parse(t);
  if (model == 0) { REQUIRE("new", d["count"] == 0, "a new Discriminator with ", o.dump(), ": ", t); auto parts = ref::split(d["data"].get<std::string>(), '.'); for (auto& q : parts) REQUIRE("new", q.empty(), "a new Discriminator with ", o.dump(), ": ", t); api::Disc x(t); for (auto& e : entries(2)) for (int v : x.classify(e)) REQUIRE("new", v == 0, "a new Discriminator votes"); }
  else REQUIRE("new", (!d.count("classes") || d["classes"].empty()) && (!d.count("clusters") || d["clusters"].empty()) && !d.count("unsupervisedCluster"), "a new model with ", o.dump(), ": ", t);
  if (model) for (auto& q : O) if (d.count(q.name)) REQUIRE("value", d[q.name] == (q.name == O[i].name ? q.own(alt) : q.def), "with ", o.dump(), " the option ", q.name, " is ", d[q.name].dump()); k.state(t);
}
// documents that do not mention an option
SUITE(documents) {
  int model = 1 + k.choose(2); const auto& O = opts(model); int n = (int)O.size(); std::vector<int> s = own(k, n, 2); int pat = k.choose(3 + n), trained = k.choose(2), alt = numbers(model, s) ? k.choose(3) : 0; json o = json::object(); for (int i : s) o[O[i].name] = O[i].own(alt); int base = o.count("base") ? o["base"].get<int>() : 2; VV x = entries(base); quiet();
  std::string t; if (model == 1) { api::Wis w(N, o); if (trained) w.train(VV{x[0], x[2], x[2]}, VS{"a", "b", "b"}); t = w.json_(); } else { api::Clus w(N, 0.5f, 3, 4, o); if (trained) { w.train(VV{x[0], x[2], x[2]}, VS{"a", "b", "b"}); w.trainUnsupervised(VV{x[0]}); } t = w.json_(); }
  json d = json::parse(t); for (int i = 0; i < n; i++) if (!o.count(O[i].name) && (pat == 0 || pat == 1 + i % 2 || pat == 3 + i)) d.erase(O[i].name); std::string u = d.dump(), a, b; k.log(u); k.step(20);
  if (model == 1) { quiet(); api::Wis v(t), w(u); a = ref::canon(v.json_()); b = ref::canon(w.json_()); REQUIRE("document", a == b, "without fields of defaults: ", u, ": ", obs::diff(b, a)); quiet(); a = sign(v, o); quiet(); b = sign(w, o); }
  else { quiet(); api::Clus v(t), w(u); a = ref::canon(v.json_()); b = ref::canon(w.json_()); REQUIRE("document", a == b, "without fields of defaults: ", u, ": ", obs::diff(b, a)); quiet(); a = sign(v, o); quiet(); b = sign(w, o); }
  REQUIRE("document", a == b, "without fields of defaults: ", u, ": ", obs::diff(b, a)); k.state(a);
}
// the ways to ask for a saved form
template <typename M> static void forms(Ctx& k, M& m, const std::string& dir, const char* what) {
  std::string t = m.json_(), want = ref::canon(t); auto is = [&](const std::string& u, const char* how) { std::string c = ref::canon(u); REQUIRE("form", c == want, what, " ", how, ": ", obs::diff(c, want)); k.step(); };
  is(m.json_(false), "json(false)"); is(m.json_(false, dir + "x"), "json(false, path)"); M r(m.json_(true)); is(r.json_(), "json(true)"); M q(m.json_(true, dir + "y")); is(q.json_(), "json(true, path)"); M e(m.json_(true, "")); is(e.json_(), "json(true, \"\")"); k.state(want);
}
SUITE(saved_forms) {
  std::string dir = k.dir(); REQUIRE("chdir", chdir(dir.c_str()) == 0, "chdir"); int model = k.choose(3); quiet(); rand_hook = nullptr; int n = k.choose(4);
  if (model == 0) { auto& c = disc_confs()[k.choose((int)disc_confs().size())]; api::Disc d(c.n, c.E, c.o); VV p = pool3(ref::all_entries(c.E, c.base())); for (int i = 0; i < n; i++) d.train(p[i % 3]); forms(k, d, dir, "Discriminator"); }
  if (model == 1) { auto& c = wis_confs()[k.choose((int)wis_confs().size())]; api::Wis d(c.n, c.o); VV p = pool3(ref::all_entries(c.E, c.base())); for (int i = 0; i < n; i++) d.train(VV{p[i % 3]}, VS{i % 2 ? "a" : "b"}); forms(k, d, dir, "Wisard"); }
  if (model == 2) { auto& c = clus_confs()[k.choose((int)clus_confs().size())]; api::Clus d(c.n, c.min, c.th, c.lim, c.o); VV p = pool3(ref::all_entries(c.E, c.base())); for (int i = 0; i < n; i++) d.train(VV{p[i % 3]}, VS{i % 2 ? "a" : "b"}); if (n) d.trainUnsupervised(p); forms(k, d, dir, "ClusWisard"); }
  if (chdir("/")) k.internal("chdir");
}
#ifdef MC_BACKEND_CPP
// C++ constructors that mean the same
SUITE(constructors) {
  int w = k.choose(7), z = k.choose(2), base = 2 + k.choose(3), c = k.choose(2); k.step(30); VV m = {{0, 3}, {4}, {1, 2, 2}}; V ix = {4, 2, 0, 1, 3}; std::vector<std::string> s;
  auto add = [&](wp::Discriminator&& d, const json& o) { s.push_back(""); api::Disc a(N, E, json()); a.d = d; s.back() = sign(a, o); for (auto& t : s) REQUIRE("constructor", t == s[0], "constructor ", s.size(), " of kind ", w, " ignoreZero ", z, " base ", base, ": ", obs::diff(t, s[0])); k.state(s[0]); }; quiet();
  if (w == 0) { json o = {{"ignoreZero", z == 1}, {"base", base}, {"completeAddressing", c == 1}}; add(wp::Discriminator(N, E, o), o); add(wp::Discriminator(N, E, z == 1, c == 1, base), o); if (base == 2) { add(wp::Discriminator(N, E, z == 1, c == 1), o); if (c && !z) { add(wp::Discriminator(N, E), o); add(wp::Discriminator(N, E, json()), o); add(wp::Discriminator(N, E, json::object()), o); } } }
  if (w == 1) { json o = {{"ignoreZero", z == 1}, {"base", base}, {"indexes", ix}}; add(wp::Discriminator(N, E, o), o); add(wp::Discriminator(ix, N, E, z == 1, base), o); if (base == 2) { add(wp::Discriminator(ix, N, E, z == 1), o); if (!z) add(wp::Discriminator(ix, N, E), o); } }
  if (w == 2) { json o = {{"ignoreZero", z == 1}, {"base", base}, {"mapping", m}}; add(wp::Discriminator(N, E, o), o); add(wp::Discriminator(m, E, z == 1, base), o); if (base == 2) { add(wp::Discriminator(m, E, z == 1), o); if (!z) add(wp::Discriminator(m, E), o); } o["indexes"] = ix; add(wp::Discriminator(N, E, o), o); add(wp::Discriminator(c ? 9 : 0, E, o), o); }
  if (w == 3) { for (int i = 0; i < 2; i++) { wp::Discriminator d, e(i ? 0 : 7); for (wp::Discriminator* p : {&d, &e}) { REQUIRE("empty", p->getNumberOfTrainings() == 0 && p->getNumberOfRAMS() == 0, "a Discriminator without RAMs: ", p->getNumberOfTrainings(), " trainings, ", p->getNumberOfRAMS(), " RAMs"); REQUIRE("empty", json::parse(p->json())["count"] == 0 && json::parse(p->json())["mapping"].empty(), "a Discriminator without RAMs: ", p->json()); V x(p == &e && !i ? 7 : 0, 1); REQUIRE("empty", p->classify(x).empty(), "votes without RAMs"); p->train(x); REQUIRE("empty", p->getNumberOfTrainings() == 1, "trainings of a Discriminator without RAMs: ", p->getNumberOfTrainings()); wp::Discriminator r(p->json()); REQUIRE("empty", r.getNumberOfTrainings() == 1 && r.json() == p->json(), "a Discriminator without RAMs restored: ", r.json()); } } }
  if (w == 4) { std::vector<std::string> q; for (int i = 0; i < 3; i++) { quiet(); api::Wis a(N, json()); if (i == 0) a.w = wp::Wisard(N); if (i == 1) a.w = wp::Wisard(N, json()); if (i == 2) a.w = wp::Wisard(N, json::object()); q.push_back(sign(a, json::object())); REQUIRE("constructor", q[i] == q[0], "Wisard: ", obs::diff(q[i], q[0])); } }
  if (w == 5) { std::vector<std::string> q; for (int i = 0; i < 3; i++) { quiet(); api::Clus a(N, 0.5f, 3, 4, json()); if (i == 0) a.w = wp::ClusWisard(N, 0.5f, 3, 4); if (i == 1) a.w = wp::ClusWisard(N, 0.5f, 3, 4, json()); if (i == 2) a.w = wp::ClusWisard(N, 0.5, 3, 4, json::object()); q.push_back(sign(a, json::object())); REQUIRE("constructor", q[i] == q[0], "ClusWisard: ", obs::diff(q[i], q[0])); } }
  if (w == 6) { std::vector<std::string> q; for (int i = 0; i < 3; i++) { quiet(); api::Kern a(2, 6, json()); quiet(); if (i == 0) a.c = wp::KernelCanvas(2, 6); if (i == 1) a.c = wp::KernelCanvas(2, 6, json()); if (i == 2) a.c = wp::KernelCanvas(2, 6, json{{"bitsByKernel", 3}, {"activationDegree", 0.07}, {"useDirection", false}}); q.push_back(sign(a, json())); REQUIRE("constructor", q[i] == q[0], "KernelCanvas: ", obs::diff(q[i], q[0])); } }
}
#endif
