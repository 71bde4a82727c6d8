// C21: queries change nothing. One model goes through a history with queries between the steps, its twin without.
#include "clus.hpp"

struct Pause { std::function<int()> h; Pause() { h = rand_hook; rand_hook = nullptr; } ~Pause() { rand_hook = h; } };  // queries do not eat the random stream of the trainings
static int saves;
// each query asked twice; gives the text of the answers (empty: refused)
template <typename F> static std::string ask(F f) { std::string r; try { r = "=" + f(); } catch (std::exception&) { r = "refused"; } return r; }
struct Env { VV all; VV bad; std::string dir; bool bits; };
static const int NQ = 12;
static const char* QN[NQ] = {"classify", "classify wrong size", "classify bad value", "classify packed", "images", "image of unknown labels", "json", "jsonConfig", "json(True)", "getsizeof", "classifyUnsupervised", "classify nothing"};
static std::string file_text(const std::string& doc) { return ref::canon(doc); }
static std::string query(int q, api::Disc& d, Env& e) {
  switch (q) {
    case 0: { std::string s; for (auto& x : e.all) s += str(d.classify(x)); return s; }
    case 1: { std::string s; for (auto& x : e.bad) s += ask([&] { return str(d.classify(x)); }); return s; }
    case 2: { std::string s; for (int v : {-1, 1000, 2147483647, -2147483647 - 1}) for (size_t i = 0; i < e.all[0].size(); i++) { V x = e.all.back(); x[i] = v; s += ask([&] { return str(d.classify(x)); }); } return s; }
    case 3: { std::string s; for (auto& x : e.all) s += ask([&] { return str(d.classify(api::Bin(ref::shorts(x)))); }); s += ask([&] { return str(d.classify(api::Bin((ull)1000))); }); return s; }
    case 6: return d.json_() + d.json_(false) + d.json_(false, "x");
    case 7: return d.jsonConfig();
    case 8: return file_text(d.json_(true, e.dir + "q" + std::to_string(saves++)));
    case 9: return str(d.getsizeof());
#ifdef MC_BACKEND_CPP
    case 4: return str(d.getMentalImage()) + str(d.getNumberOfTrainings(), " ", d.getNumberOfRAMS());
#endif
  }
  return "";
}
static std::string query(int q, api::Wis& w, Env& e) {
  switch (q) {
    case 0: { std::string s = obs::full(w, e.all); for (auto& x : e.all) s += obs::full(w, VV{x}); return s; }
    case 1: { std::string s; for (auto& x : e.bad) s += ask([&] { return obs::full(w, VV{e.all[0], x, e.all[1]}); }); return s; }
    case 2: { std::string s; for (int v : {-1, 1000, 2147483647}) for (size_t i = 0; i < e.all[0].size(); i++) { V x = e.all.back(); x[i] = v; s += ask([&] { return obs::full(w, VV{x, e.all[0]}); }); } return s; }
    case 3: { std::string s; api::Data d; for (auto& x : e.all) d.add(ref::shorts(x)); s += ask([&] { return obs::show(w.classify(d)); }); d.add(VSh(77, 1)); s += ask([&] { return obs::show(w.classify(d)); }); return s; }
    case 4: return obs::show(w.getMentalImages());
    case 6: return w.json_() + w.json_(false) + w.json_(false, "x");
    case 7: return w.jsonConfig();
    case 8: return file_text(w.json_(true, e.dir + "q" + std::to_string(saves++)));
    case 9: return str(w.getsizeof());
    case 11: return obs::full(w, VV()) + ask([&] { return obs::show(w.classify(api::Data())); });
  }
  return "";
}
static std::string query(int q, api::Clus& c, Env& e) {
  switch (q) {
    case 0: { std::string s = obs::full(c, e.all); for (auto& x : e.all) s += obs::full(c, VV{x}); return s; }
    case 1: { std::string s; for (auto& x : e.bad) { s += ask([&] { return obs::full(c, VV{e.all[0], x, e.all[1]}); }); s += ask([&] { return obs::show(c.classifyUnsupervised(VV{e.all[0], x})); }); } return s; }
    case 2: { std::string s; for (int v : {-1, 1000, 2147483647}) for (size_t i = 0; i < e.all[0].size(); i++) { V x = e.all.back(); x[i] = v; s += ask([&] { return obs::full(c, VV{x, e.all[0]}); }); s += ask([&] { return obs::show(c.classifyUnsupervised(VV{x})); }); } return s; }
    case 4: { std::string s = obs::show(c.getMentalImages()); for (auto l : {"a", "b"}) s += str(c.getMentalImage(l)); return s; }
    case 5: { std::string s; for (auto& l : ODD) if (l != "a") s += str(c.getMentalImage(l)); return s; }
    case 6: return c.json_() + c.json_(false) + c.json_(false, "x");
    case 7: return c.jsonConfig();
    case 8: return file_text(c.json_(true, e.dir + "q" + std::to_string(saves++)));
    case 9: return str(c.getsizeof());
    case 10: { std::string s = obs::show(c.classifyUnsupervised(e.all)); for (auto& x : e.all) s += obs::show(c.classifyUnsupervised(VV{x})); return s; }
    case 11: return obs::full(c, VV()) + obs::show(c.classifyUnsupervised(VV()));
  }
  return "";
}
template <typename M> static void twice(Ctx& k, M& m, int q, Env& e) {
  Pause p; std::string before = ref::canon(m.json_()); std::string a = ask([&] { return query(q, m, e); }), b = ask([&] { return query(q, m, e); }); k.step(2); k.log("query: ", QN[q]);
  REQUIRE("twice", a == b, QN[q], " asked twice: ", obs::diff(a, b)); std::string after = ref::canon(m.json_()); REQUIRE("content", before == after, QN[q], " changed the saved content: ", obs::diff(before, after));
}
static bool applies(int q, int kind) { if (kind == 0) return q != 5 && q != 10 && q != 11 && !(PY && q == 4); if (kind == 1) return q != 5 && q != 10; return q != 3; }
template <typename M> static std::string look(M& m, Env& e) { Pause p; return obs::of(m, e.all, e.bits); }
// queries of one kind (or two kinds in turn) at every subset of the places of every history
template <typename M, typename T> static void run(Ctx& k, int kind, M& a, M& b, Env& e, int depth, int ops, T train) {
  saves = 0; VV bad; bad.push_back(V()); bad.push_back(V(e.all[0].size() + 1, 0)); bad.push_back(V(e.all[0].size() - 1, 1)); bad.push_back(V(1, 0)); bad.push_back(V(200, 1)); e.bad = bad; e.dir = k.dir();
  int q = k.choose(NQ); if (!applies(q, kind)) return; int q2 = q; if (k.thorough) { q2 = k.choose(NQ); if (!applies(q2, kind)) return; }
  for (int i = 0; i <= depth; i++) { if (k.flip()) { twice(k, a, q, e); if (q2 != q) twice(k, a, q2, e); } if (i < depth) { int op = k.choose(ops); auto h = ref::stream(4 + i); rand_hook = h; train(a, op); rand_hook = h; train(b, op); rand_hook = nullptr; k.step(2); k.log("step ", op); } }
  std::string x = look(a, e), y = look(b, e); REQUIRE("differs", x == y, "with and without queries of ", QN[q], ": ", obs::diff(x, y)); k.state(x);
  rand_hook = ref::stream(9); train(a, 0); rand_hook = ref::stream(9); train(b, 0); rand_hook = nullptr; x = look(a, e); y = look(b, e); REQUIRE("differs-later", x == y, "with and without queries of ", QN[q], ", trained on: ", obs::diff(x, y));
}
SUITE(discriminators) {
  const DC& c = disc_confs()[k.choose((int)disc_confs().size())]; api::Disc a(c.n, c.E, c.o), b(a.json_()); Env e; e.all = ref::all_entries(c.E, c.base()); e.bits = c.base() == 2; VV p = pool3(e.all); k.log("Discriminator(", c.n, ",", c.E, ",", c.o.dump(), ")");
  run(k, 0, a, b, e, PY ? 3 : 4, 3, [&](api::Disc& d, int op) { d.train(p[op]); });
}
SUITE(wisards) {
  const DC& c = wis_confs()[k.choose((int)wis_confs().size())]; api::Wis a(c.n, c.o), b(c.n, c.o); Env e; e.all = ref::all_entries(c.E, c.base()); e.bits = c.base() == 2; VV p = pool3(e.all); k.log("Wisard(", c.n, ",", c.o.dump(), ")");
  run(k, 1, a, b, e, PY || !k.thorough ? 3 : 4, PY ? 4 : 6, [&](api::Wis& w, int op) { if (op == 3) { std::string t = w.json_(); w = api::Wis(t); } else if (op == 4) w.leaveOneOut(p[0], "never"); else if (op == 5) w.train(VV{p[1], p[0]}, VS{"b", "b"}); else w.train(VV{p[op]}, VS{op == 1 ? "b" : "a"}); });
}
SUITE(cluswisards) {
  const CC& c = clus_confs()[k.choose((int)clus_confs().size())]; api::Clus a(c.n, c.min, c.th, c.lim, c.o), b(c.n, c.min, c.th, c.lim, c.o); Env e; e.all = ref::all_entries(c.E, c.base()); e.bits = false; VV p = pool3(e.all); k.log("ClusWisard(", c.n, ",", c.min, ",", c.th, ",", c.lim, ",", c.o.dump(), ")");
  run(k, 2, a, b, e, PY || !k.thorough ? 3 : 4, PY ? 4 : 6, [&](api::Clus& w, int op) { std::map<int, std::string> d; d[1] = "b"; if (op == 2) w.train(VV{p[2], p[1]}, d); else if (op == 3) w.trainUnsupervised(VV{p[0], p[2]}); else if (op == 4) { std::string t = w.json_(); w = api::Clus(t); } else w.train(VV{p[op % 3]}, VS{op == 1 ? "b" : "a"}); });
}
// labels of any text
SUITE(labels) {
  bool clus = k.flip(); int i = k.choose((int)ODD.size()), j = k.choose((int)ODD.size()), q = k.choose(NQ); if (!applies(q, clus ? 2 : 1)) return; const std::string &l = ODD[i], &m = ODD[j]; Env e; e.all = ref::all_entries(3, 2); e.bits = true; e.bad = {V(), V(4, 0)}; e.dir = k.dir(); if (q == 8 && (l + m).find_first_of(std::string("\0/", 2)) == std::string::npos && l.size() + m.size() < 200) saves = 0; else if (q == 8) return; VV x = {e.all[1], e.all[6], e.all[7]}; VS y = {l, m, l}; k.log("labels ", obs::show(y));
  if (clus) { api::Clus c(2, 0.5f, 2, 2, {}); c.train(x, y); twice(k, c, q, e); k.state(ref::canon(c.json_())); } else { api::Wis w(2, json{{"indexes", {1, 2, 0}}}); w.train(x, y); twice(k, w, q, e); k.state(ref::canon(w.json_())); }
}
// objects that are not models
SUITE(others) {
  int n = 1 + k.choose(9), q = k.choose(3); VSh v; for (int i = 0; i < n; i++) v.push_back(k.flip()); api::Bin b(v); std::string d = b.data(); for (int t = 0; t < 2; t++) { for (int i = 0; i < n; i++) REQUIRE("bin", b.get(i) == v[i] && b.at(i) == v[i], "bit ", i); if (q == 1) refused([&] { b.get(n); }); if (q == 2) { refused([&] { b.set(n, 1); }); refused([&] { b.get(~0ull); }); } REQUIRE("bin", b.data() == d && b.size() == (ull)n, "a query changed a BinInput"); } k.step(4 * n); k.state(d);
  api::Data s; s.add(b, "a"); s.add(v); s.add(VSh(n, 1), "z"); for (int t = 0; t < 2; t++) { REQUIRE("data", s.size() == 3 && s.get(0).data() == d && s.getLabel(0) == "a" && s.getLabel(2) == "z" && s.get(1).data() == d, "DataSet"); if (q == 0) s.save(k.dir() + "x"); if (q == 1) { refused([&] { s.get(3); }); refused([&] { s.get(-1); }); refused([&] { s.getLabel(1); }); } if (q == 2) refused([&] { s.getLabel(99); }); }
}
SUITE(handles) {
  Cells c; for (int i = 0; i < 3; i++) if (k.flip()) c[i * 7] = i + 1; Cells e; e[1] = 5; std::string t = ref::pack_cells(c) + "." + ref::pack_cells(e); api::RDH h(t), g(t); int q = k.choose(6); k.log(t);
  for (int i = 0; i < 2; i++) { if (q == 0) for (ull a = 0; a < 16; a++) h.get(0, a); if (q == 1) h.get(1); if (q == 2) h.data(); if (q == 3) h.data(1); if (q == 4) h.compare(g); if (q == 5) for (int r : {-1, 2, 99}) refused([&] { h.get(r, 0); h.data(r); }); k.step(); REQUIRE("handle", h.get(0) == c && h.get(1) == e, "query ", q, " changed a handle"); REQUIRE("handle", h.compare(g) && g.compare(h), "query ", q, " changed a handle"); } k.state(t);
}
// options with unusual values stay as they are, whatever is asked
SUITE(odd_options) {
  int kind = k.choose(2), conf = k.pick({-2147483647 - 1, -1, 0, 1, 2}), classes = k.choose(4), q = k.choose(NQ); if (!applies(q, kind + 1)) return; bool bl = k.flip(), ver = k.flip(); json o = {{"confidence", conf}, {"bleachingActivated", bl}, {"verbose", ver}, {"returnConfidence", bl}, {"returnActivationDegree", ver}, {"searchBestConfidence", ver != bl}}; saves = 0;
  Env e; e.all = ref::all_entries(4, 2); e.bits = true; e.bad = {V(), V(5, 0), V(3, 1)}; e.dir = k.dir(); k.log("options ", o.dump(), ", ", classes, " classes"); VV xs; VS ys; for (int i = 0; i < classes * 3; i++) { xs.push_back(e.all[(i * 5 + 1) % 16]); ys.push_back(std::string(1, (char)('a' + i % classes))); }
  if (kind == 0) { api::Wis w(2, o); w.train(xs, ys); k.step(); twice(k, w, q, e); REQUIRE("option", json::parse(w.json_())["confidence"] == conf, "confidence ", conf, " became ", json::parse(w.json_())["confidence"].dump()); k.state(ref::canon(w.json_())); }
  else { float min = k.pick({0.0f, 0.3f, 1.0f}); int th = k.pick({1, 2147483647}), lim = k.pick({1, 2147483647}); api::Clus c(2, min, th, lim, o); c.train(xs, ys); c.trainUnsupervised(xs); k.step(2); twice(k, c, q, e); json j = json::parse(c.json_()); REQUIRE("option", j["confidence"] == conf && j["threshold"] == th && j["discriminatorsLimit"] == lim && j["minScore"].get<float>() == min, "the options became ", j.dump()); k.state(ref::canon(c.json_())); }
}
