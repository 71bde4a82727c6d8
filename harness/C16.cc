// C16: a call with a dictionary of labels equals its single steps, labelled entries first.
#include "clus.hpp"
typedef std::map<int, std::string> Dict;
static std::string show(const Dict& d) { std::string s = "{"; for (auto& e : d) s += std::to_string(e.first) + ":'" + e.second + "',"; return s + "}"; }
// the same steps through supervised training and classification; every new discriminator draws the same addressing
static void steps(Ctx& k, api::Clus& m, const VV& xs, const Dict& d) {
  for (size_t i = 0; i < xs.size(); i++) { auto f = d.find((int)i); if (f != d.end()) m.train(VV{xs[i]}, VS{f->second}); }
  for (size_t i = 0; i < xs.size(); i++) if (!d.count((int)i)) { VS l = m.classify(VV{xs[i]}); REQUIRE("no-answer", l.size() == 1, "classify gave ", l.size(), " answers"); m.train(VV{xs[i]}, l); k.log(" step: ", str(xs[i]), " is taken for '", l[0], "'"); k.step(); }
  k.step(xs.size());
}
static bool usable(const VV& xs, const Dict& d) { if (d.size() > xs.size()) return false; for (auto& e : d) if (e.first >= 0 && e.first < (int)xs.size()) return true; return false; }
// one call on a, its steps on b
static void call(Ctx& k, api::Clus& a, api::Clus& b, const VV& xs, const Dict& d, const VV& ask, const VS& labels = {"a", "b"}) {
  k.log("train ", str(xs), " with ", show(d));
  std::string before = obs::of(a, ask, false, labels);
  if (usable(xs, d)) { a.train(xs, d); steps(k, b, xs, d); }
  else { bool r = refused([&] { a.train(xs, d); }); REQUIRE("accepted", r, "training ", xs.size(), " entries with ", show(d), " was accepted"); std::string now = obs::of(a, ask, false, labels); REQUIRE("trace", now == before, "the refused call with ", show(d), " left a trace: ", obs::diff(before, now)); }
  k.step(); std::string x = obs::of(a, ask, false, labels), y = obs::of(b, ask, false, labels);
  REQUIRE("differs", x == y, "after training ", str(xs), " with ", show(d), " in one call and step by step: ", obs::diff(x, y)); k.state(x);
}
static int fixed(Ctx& k) { int v = k.pick({0, 5}); rand_hook = [v] { return v; }; return v; }
static VV pool4(const VV& all) { return {all[0], all[all.size() - 1], all[all.size() / 2 + 1], all[all.size() / 3]}; }
// every labelling of every list of three entries (two calls when short) after every short history
SUITE(calls) {
  const CC& c = clus_confs()[k.choose((int)clus_confs().size())]; fixed(k); api::Clus a(c.n, c.min, c.th, c.lim, c.o), b(c.n, c.min, c.th, c.lim, c.o); k.log("ClusWisard(", c.n, ",", c.min, ",", c.th, ",", c.lim, ",", c.o.dump(), ")");
  VV all = ref::all_entries(c.E, c.base()), p = pool4(all); VV ask = all; 
  int pre = k.choose(3); for (int i = 0; i < pre; i++) { int w = k.choose(3); std::string l = i ? "b" : "a"; a.train(VV{p[w]}, VS{l}); b.train(VV{p[w]}, VS{l}); k.step(2); k.log("train ", str(p[w]), " as ", l); }
  int N = k.thorough && !PY ? 4 : 3; VV xs; Dict d; for (int i = 0; i < N; i++) { int w = k.choose(pre == 2 && !k.thorough ? 2 : 3); xs.push_back(p[(w + i) % 4]); int l = k.choose(3); if (l) d[i] = l == 1 ? "a" : "b"; }
  call(k, a, b, xs, d, ask);
  Dict e; e[1] = "b"; call(k, a, b, VV{xs[1], xs[0], p[3]}, e, ask);
}
// every subset of six entries
SUITE(subsets) {
  const CC& c = clus_confs()[k.choose((int)clus_confs().size())]; fixed(k); int N = k.thorough ? 9 : 6, shift = k.choose(3); VV all = ref::all_entries(c.E, c.base()); VV xs; Dict d;
  for (int i = 0; i < N; i++) { xs.push_back(all[(i * 5 + shift) % all.size()]); if (k.flip()) d[i] = i % 2 ? "b" : i % 3 ? "a" : "c"; }
  api::Clus a(c.n, c.min, c.th, c.lim, c.o), b(c.n, c.min, c.th, c.lim, c.o); call(k, a, b, xs, d, all, {"a", "b", "c"});
}
// every set of keys, indices or not
SUITE(keys) {
  static const V K = {-2147483647 - 1, -2, -1, 0, 1, 2, 3, 4, 1000, 2147483647}; fixed(k); bool known = k.flip(); int N = 1 + k.choose(4); VV all = ref::all_entries(3, 2); api::Clus a(2, 0.3f, 4, 3, {}), b(2, 0.3f, 4, 3, {});
  if (known) { a.train(VV{all[0], all[7]}, VS{"a", "b"}); b.train(VV{all[0], all[7]}, VS{"a", "b"}); }
  VV xs; for (int i = 0; i < N; i++) xs.push_back(all[(i * 3 + 1) % 8]); Dict d; for (size_t i = 0; i < K.size(); i++) if (k.flip()) d[K[i]] = i % 2 ? "b" : "a"; call(k, a, b, xs, d, all);
}
// every vote matrix: the decision about an unlabelled entry is the model's own
SUITE(decisions) {
  static const V table = {0, 1, 2, 3}; int D = 2 + k.choose(2), R = D == 2 ? 3 : 2; bool bl = k.flip(); int conf = 1 + k.choose(2); int T = D == 2 ? 4 : 3; if (D == 2 && !k.thorough) T = 3; fixed(k);
  int E = D * R; api::Clus e(2, 0.5f, 4, 2, json{{"base", 4}, {"bleachingActivated", bl}, {"confidence", conf}}); json doc = json::parse(e.json_());
  std::vector<json> ds; for (int i = 0; i < D; i++) ds.push_back(clus::votes_disc(E, i * R, R, V(table.begin(), table.begin() + T), 2));
  json A = json::array(), B = json::array(); A.push_back(ds[0]); B.push_back(ds[1]); if (D == 3) (k.flip() ? A : B).push_back(ds[2]);
  doc["clusters"] = {{"a", {{"entrySize", E}, {"discriminators", A}}}, {"b", {{"entrySize", E}, {"discriminators", B}}}}; std::string text = doc.dump();
  VV all = ref::all_entries(E, T); V first(E, 0); int hot = k.choose(E); first[hot] = 1; k.log("bleaching ", bl, " confidence ", conf, " discriminators ", D, " labelled ", str(first));
  size_t stride = PY && !k.thorough ? 5 : 1; for (size_t i = hot % stride; i < all.size(); i += stride) { api::Clus m(text), n(text); VV xs = {all[i], first, all[(i * 7 + 3) % all.size()]}; Dict d; d[1] = hot % 2 ? "a" : "b"; m.train(xs, d); steps(k, n, xs, d); std::string x = ref::canon(m.json_()), y = ref::canon(n.json_()); REQUIRE("differs", x == y, "after training ", str(xs), " with ", show(d), " on ", doc["clusters"].dump(), " in one call and step by step: ", obs::diff(x, y)); k.step(); k.state(x); }
}
// label texts
SUITE(labels) {
  const std::string& p = k.pick(ODD), & q = k.pick(ODD); fixed(k); VV all = ref::all_entries(4, 2); VV xs = {all[3], all[15], all[12], all[0], all[7]}; Dict d; d[1] = p; d[3] = q; api::Clus a(2, 0.5f, 4, 2, {}), b(2, 0.5f, 4, 2, {});
  a.train(xs, d); steps(k, b, xs, d); k.step(); std::string x = ref::canon(a.json_()), y = ref::canon(b.json_()); REQUIRE("differs", x == y, "labels '", p, "' and '", q, "': ", obs::diff(x, y)); REQUIRE("answers", a.classify(all) == b.classify(all), "labels '", p, "' and '", q, "'"); k.state(x);
  json j = json::parse(a.json_())["clusters"]; std::set<std::string> want = {p, q}; for (auto it = j.begin(); it != j.end(); ++it) REQUIRE("label", want.count(it.key()), "a label '", it.key(), "' appeared"); k.log("labels ", json(p).dump(), json(q).dump());
}
