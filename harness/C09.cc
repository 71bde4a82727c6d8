// C09: jsonConfig restores an untrained model of the same configuration.
#include "confs.hpp"
using namespace mc;

// the saved content with all knowledge taken out
static void blank_disc(json& d) { std::string s; for (size_t i = 1; i < d["mapping"].size(); i++) s += '.'; d["data"] = s; d["count"] = 0; }
static std::string blank(const std::string& text) {
  json j = json::parse(text);
  if (j.count("classes")) { if (!j["classes"].is_null()) for (auto it = j["classes"].begin(); it != j["classes"].end(); ++it) blank_disc(it.value()); }
  else if (j.count("minScore")) { j.erase("clusters"); j.erase("unsupervisedCluster"); }
  else blank_disc(j);
  return ref::canon(j.dump());
}
template <typename M> static M bare(Ctx& k, M& a, const char* when) {
  std::string c = a.jsonConfig(); M b(c); k.step(2);
  std::string want = blank(a.json_()), got = ref::canon(b.json_());
  REQUIRE("blank", got == want, when, ": a model from jsonConfig is not the same model without knowledge: ", obs::diff(want, got));
  std::string c2 = b.jsonConfig();
  REQUIRE("config", json::parse(c) == json::parse(c2), when, ": its own jsonConfig differs: ", obs::diff(c, c2));
  return b;
}
SUITE(discriminators) {
  const DC& c = disc_confs()[k.choose((int)disc_confs().size())]; k.log("Discriminator(", c.n, ",", c.E, ",", c.o.dump(), ")");
  api::Disc a(c.n, c.E, c.o); VV all = ref::all_entries(c.E, c.base()); bool bits = c.base() == 2; VV pool = pool3(all); VV done; int depth = k.thorough ? 6 : 5;
  for (int i = 0; i <= depth; i++) {
    api::Disc b = bare(k, a, "after a step");
    for (auto& x : all) { V v = b.classify(x); REQUIRE("knows", v == V(v.size(), 0), "a model from jsonConfig answers ", str(v), " for ", str(x)); }
    for (auto& x : done) b.train(x);
    k.step(all.size() + done.size());
    std::string x = obs::of(a, all, bits), y = obs::of(b, all, bits); REQUIRE("retrained", x == y, "trained with the same examples it differs: ", obs::diff(x, y)); k.state(x);
    if (i == depth) break;
    int w = k.choose(5);
    if (w < 3) { a.train(pool[w]); done.push_back(pool[w]); k.log("train ", str(pool[w])); }
    else if (w == 3) { a = bare(k, a, "twice"); done.clear(); k.log("continue with the restored one"); }
    else { if (i == 0) return; a = b; k.log("continue with the retrained one"); }
  }
}
SUITE(wisards) {
  const DC& c = wis_confs()[k.choose((int)wis_confs().size())]; k.log("Wisard(", c.n, ",", c.o.dump(), ")");
  api::Wis a(c.n, c.o); VV all = ref::all_entries(c.E, c.base()); bool bits = c.base() == 2; VV pool = pool3(all); VV dx; VS dy; int depth = k.thorough ? 5 : PY ? 3 : 4;
  for (int i = 0; i <= depth; i++) {
    api::Wis b = bare(k, a, "after a step");
    MapSV im = b.getMentalImages(); for (auto& e : im) REQUIRE("knows", e.second == V(e.second.size(), 0), "a model from jsonConfig has the mental image ", str(e.second), " for ", e.first);
    bool one = i % 2 == 0; if (one) b.train(dx, dy); else for (size_t j = 0; j < dx.size(); j++) b.train(VV{dx[j]}, VS{dy[j]});
    k.step(dx.size() + 1);
    std::string x = obs::of(a, all, bits), y = obs::of(b, all, bits); REQUIRE("retrained", x == y, "trained with the same examples it differs: ", obs::diff(x, y)); k.state(x);
    if (i == depth) break;
    int w = k.choose(8);
    if (w < 6) { std::string l = w < 3 ? "a" : "b"; a.train(VV{pool[w % 3]}, VS{l}); dx.push_back(pool[w % 3]); dy.push_back(l); k.log("train ", str(pool[w % 3]), " as ", l); }
    else if (w == 6) { a = bare(k, a, "twice"); dx.clear(); dy.clear(); k.log("continue with the restored one"); }
    else { if (i == 0) return; a = b; k.log("continue with the retrained one"); }
  }
}
SUITE(cluswisards) {
  const CC& c = clus_confs()[k.choose((int)clus_confs().size())]; k.log("ClusWisard(", c.n, ",", c.min, ",", c.th, ",", c.lim, ",", c.o.dump(), ")");
  api::Clus a(c.n, c.min, c.th, c.lim, c.o); VV all = ref::all_entries(c.E, c.base()); VV pool = pool3(all); int depth = k.thorough ? 4 : 3;
  for (int i = 0; i < depth; i++) {   // what the original has seen
    int w = k.choose(4); if (w == 0) break; k.log("original: train ", w);
    if (w == 1) a.train(VV{pool[0], pool[1]}, VS{"a", "b"}); else if (w == 2) a.trainUnsupervised(pool); else a.train(VV{pool[2]}, VS{"a"});
    k.step();
  }
  api::Clus b = bare(k, a, "after the history"), n(c.n, c.min, c.th, c.lim, c.o);
  for (int i = 0; i < 3; i++) {
    std::string x = obs::of(b, all), y = obs::of(n, all); REQUIRE("new", x == y, "it behaves differently from a new one: ", obs::diff(x, y)); k.state(x);
    int w = k.choose(4); k.log("both: train ", w);
    for (int t = 0; t < 2; t++) { api::Clus& m = t ? n : b; rand_hook = ref::stream(4 + i);
      if (w == 0) m.train(VV{pool[0], pool[1], pool[0]}, VS{"a", "b", "a"}); else if (w == 1) m.trainUnsupervised(VV{pool[1], pool[2], pool[1]}); else if (w == 2) m.train(pool, VS{"b", "b", "b"}); else { m.train(VV{pool[0]}, VS{"c"}); m.train(pool, std::map<int, std::string>{{0, "c"}}); } }
    rand_hook = nullptr; k.step(2);
  }
}
// odd labels, larger sizes, explicit addressings
SUITE(labels) {
  const std::string& l1 = k.pick(ODD); const std::string& l2 = k.pick(ODD); VV all = ref::all_entries(3, 2); VV xs = {all[1], all[6], all[7]}; VS ys = {l1, l2, l1}; int o = k.choose(3);
  api::Wis a(2, o == 0 ? json::object() : o == 1 ? json{{"indexes", {1, 2, 0}}} : json{{"mapping", {{l1, {{0}, {1, 2}}}}}}); a.train(xs, ys);
  api::Wis b = bare(k, a, "odd labels"); b.train(xs, ys); std::string x = obs::of(a, all, true), y = obs::of(b, all, true); REQUIRE("retrained", x == y, obs::diff(x, y)); k.step(2); k.state(x); k.log(obs::show(ys));
}
SUITE(scale) {
  int what = k.choose(2), E = k.pick({8, 17, 64, 257, 1024}), n = k.pick({2, 5, 16, 19, 60}), N = k.pick({1, 30, 300}); int base = k.pick({2, 3, 10}); if (n > E || (base == 3 && n > 40) || (base == 10 && n > 19) || (PY && E * N > 40000)) return; bool comp = k.flip(), z = k.flip();
  VV xs; VS ys; for (int i = 0; i < N; i++) { V x(E); for (int j = 0; j < E; j++) x[j] = (i * i * 7 + j * (i % 5 + 1) + (j >> 2)) % base; xs.push_back(x); ys.push_back("class" + std::to_string(i % 12)); }
  VV some(xs.begin(), xs.begin() + std::min(N, 5)); json o = {{"base", base}, {"completeAddressing", comp}, {"ignoreZero", z}}; std::string x, y;
  if (what == 0) { api::Disc a(n, E, o); a.train(xs); api::Disc b = bare(k, a, "large"); b.train(xs); x = obs::of(a, some, base == 2); y = obs::of(b, some, base == 2); }
  else { api::Wis a(n, o); a.train(xs, ys); api::Wis b = bare(k, a, "large"); b.train(xs, ys); x = obs::of(a, some, base == 2); y = obs::of(b, some, base == 2); }
  REQUIRE("retrained", x == y, obs::diff(x, y)); k.step(2 * N); k.state(x); k.log("E ", E, " n ", n, " base ", base);
}
