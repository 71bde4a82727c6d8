// C18: ClusWisard answers with the label of a best-scoring discriminator.
#include "clus.hpp"
using clus::State; using clus::Ds;

// the labels that own a best-scoring discriminator
static std::set<std::string> right(const State& s, const V& x, bool bl, int conf) {
  MapSV v; std::map<std::string, std::string> owner; int n = 0;
  for (auto& e : s.cl) for (auto& d : e.second) { std::string id = std::to_string(n++); v[id] = d.votes(x); owner[id] = e.first; }
  ref::Scores sc = ref::bleach(v, bl, conf); int best = 0; std::set<std::string> out; for (auto& e : sc) best = std::max(best, e.second);
  for (auto& e : sc) if (e.second == best) out.insert(owner[e.first]); return out;
}
static std::string show(const std::set<std::string>& s) { std::string o; for (auto& x : s) o += "'" + x + "' "; return o; }
static void answers(Ctx& k, api::Clus& c, const State& s, const VV& all, bool bl, int conf, const std::string& when) {
  VS got = c.classify(all); k.step(all.size()); REQUIRE("answers", got.size() == all.size(), got.size(), " answers for ", all.size(), " entries");
  bool any = false; for (auto& e : s.cl) any = any || !e.second.empty(); if (!any) return;
  for (size_t i = 0; i < all.size(); i++) { auto w = right(s, all[i], bl, conf); REQUIRE("answer", w.count(got[i]), when, ": ", str(all[i]), " is '", got[i], "' instead of ", show(w), " with ", clus::show(s), " bleaching ", bl, " confidence ", conf); k.state(str(got[i], show(w), i)); }
}
static json doc(int base, bool bl, int conf, bool z = false) { return json::parse(api::Clus(2, 0.5f, 4, 2, json{{"base", base}, {"bleachingActivated", bl}, {"confidence", conf}, {"ignoreZero", z}}).json_()); }
static json cluster(int E, const json& ds) { return {{"entrySize", E}, {"discriminators", ds}}; }
// every vote matrix of every small shape
struct Shape { V per; int R; V table; };   // discriminators per label, RAMs, counts
static const std::vector<Shape> QUICK = {{{1}, 4, {0, 1, 3}}, {{2}, 3, {0, 1, 2, 4}}, {{1, 1}, 3, {0, 1, 2, 4}}, {{1, 1}, 4, {0, 1, 2}}, {{2, 1}, 2, {0, 1, 2, 3}}, {{1, 2}, 3, {0, 1, 5}}, {{3, 1}, 2, {0, 1, 2}}, {{2, 2}, 2, {0, 1, 2}}, {{1, 1, 1}, 3, {0, 1, 2}}, {{1, 1, 1}, 2, {0, 1, 2, 7}}, {{1, 1, 1, 1}, 2, {0, 1, 2}}, {{2, 1, 1}, 3, {0, 2}}, {{1, 3}, 3, {0, 1}}, {{2, 2}, 3, {0, 3}}, {{1, 1}, 6, {0, 1}}, {{1, 1}, 2, {0, 1, 2, 3, 127, 128, 255, 256, 1000}}, {{1, 1}, 2, {0, 1, 2147483646, 2147483647}}, {{2, 1}, 2, {0, 16777216, 16777217, 2147483647}}};
static const std::vector<Shape> DEEP = {{{2, 2}, 3, {0, 1, 2}}, {{1, 1}, 5, {0, 1, 2, 3}}, {{1, 2}, 3, {0, 1, 2, 3}}, {{3, 3}, 2, {0, 1, 2}}, {{1, 1, 1, 1}, 3, {0, 1, 2}}, {{2, 1, 1}, 2, {0, 1, 2, 3, 4}}};
SUITE(matrices) {
  int nq = (int)QUICK.size(), i = k.choose(nq + (k.thorough ? (int)DEEP.size() : 0)); const Shape& s = i < nq ? QUICK[i] : DEEP[i - nq]; bool bl = k.flip(); int conf = 1 + k.choose(s.R > 3 ? 3 : s.R); int names = k.choose(2); int T = (int)s.table.size();
  static const VS N1 = {"a", "b", "c", "d"}, N2 = {"9", "10", "B", "a::1"}; const VS& N = names ? N2 : N1; int D = 0; for (int p : s.per) D += p; int E = std::max(2, D * s.R);
  json j = doc(std::max(2, T), bl, conf); json cl = json::object(); int first = 0; for (size_t l = 0; l < s.per.size(); l++) { json ds = json::array(); for (int d = 0; d < s.per[l]; d++) { ds.push_back(clus::votes_disc(E, first, s.R, s.table, 3)); first += s.R; } cl[N[l]] = cluster(E, ds); }
  j["clusters"] = cl; std::string t = j.dump(); api::Clus c(t); k.log("labels of ", str(s.per), " discriminators with ", s.R, " RAMs, counts ", str(s.table), " bleaching ", bl, " confidence ", conf);
  VV all = ref::all_entries(E, T);  
  answers(k, c, clus::state(t, std::max(2, T), false), all, bl, conf, "matrix");
  VS g = c.classify(all); VV back(all.rbegin(), all.rend()); VS h = c.classify(back); std::reverse(h.begin(), h.end()); REQUIRE("others", g == h, "the order of the entries in the call changes the answers"); for (size_t x = 0; x < all.size(); x += 53) { VS o = c.classify(VV{all[x]}); REQUIRE("others", o.size() == 1 && o[0] == g[x], str(all[x]), " alone gets another answer"); } k.step(all.size());
}
// what was trained decides, after every history
SUITE(histories) {
  const CC& c = clus_confs()[k.choose((int)clus_confs().size())]; bool z = c.o.count("ignoreZero"), bl = !c.o.count("bleachingActivated"); int conf = c.o.count("confidence") ? c.o["confidence"].get<int>() : 1; api::Clus m(c.n, c.min, c.th, c.lim, c.o); k.log("ClusWisard(", c.n, ",", c.min, ",", c.th, ",", c.lim, ",", c.o.dump(), ")");
  VV all = ref::all_entries(c.E, c.base()), p = pool3(all); p.push_back(all[1]); int depth = k.thorough ? 5 : PY ? 3 : 4; VS ls = {"a", "b"}; rand_hook = ref::stream(k.choose(2) * 3);
  for (int i = 0; i < depth; i++) { int w = k.choose(10); if (w < 8) { m.train(VV{p[w % 4]}, VS{ls[w / 4]}); k.log("train ", str(p[w % 4]), " as ", ls[w / 4]); } else if (w == 8) { m.trainUnsupervised(VV{p[0], p[1]}); k.log("trainUnsupervised"); } else { std::string t = m.json_(); m = api::Clus(t); k.log("restored"); } k.step(); answers(k, m, clus::state(m.json_(), c.base(), z), all, bl, conf, "after a step"); }
}
// every pair of label texts, one or two discriminators each, every pair of scores
SUITE(labels) {
  static VS L = [] { VS v = ODD; v.push_back("a::b::c"); v.push_back("b::"); v.push_back("::x"); v.push_back("a::10"); v.push_back("a::-1"); v.push_back("a:::b"); return v; }();
  const std::string& p = k.pick(L), & q = k.pick(L); if (p == q) return; bool two = k.flip(); int R = 2, E = two ? 6 : 4; json j = doc(2, true, 1);
  json P = json::array(), Q = json::array(); P.push_back(clus::votes_disc(E, 0, R, {0, 1}, 1)); Q.push_back(clus::votes_disc(E, 2, R, {0, 1}, 1)); if (two) P.push_back(clus::votes_disc(E, 4, R, {0, 1}, 1));
  json cl = json::object(); cl[p] = cluster(E, P); cl[q] = cluster(E, Q); j["clusters"] = cl; std::string t = j.dump(); api::Clus c(t); k.log("labels ", json(p).dump(), json(q).dump());
  answers(k, c, clus::state(t, 2, false), ref::all_entries(E, 2), true, 1, "labels");
}
SUITE(trained_labels) {
  const std::string& p = k.pick(ODD), & q = k.pick(ODD); api::Clus c(2, 0.9f, 2, 2, {}); VV xs = {{0, 0, 0, 0}, {1, 1, 1, 1}, {0, 0, 1, 1}}; rand_hook = [] { return 0; }; c.train(xs, VS{p, q, p}); c.train(xs, VS{p, q, p}); k.step(6); k.log("labels ", json(p).dump(), json(q).dump());
  answers(k, c, clus::state(c.json_(), 2, false), ref::all_entries(4, 2), true, 1, "trained labels");
  VS g = c.classify(VV{xs[1]}); REQUIRE("learned", p == q ? g[0] == p : g[0] == q, "the only label that knows the entry is '", q, "' but the answer is '", g[0], "'");
}
// more than nine discriminators, more labels, higher counts; one entry decides for one discriminator
SUITE(scale) {
  int D = k.pick({9, 10, 11, 12, 25, 101}), L = k.pick({1, 2, 3, 12}), R = k.pick({2, 3}); int conf = k.pick({1, 2}), count = k.pick({1, 2, 300}); if (D * L > 310) return; int E = R + 1; json cl = json::object(); std::vector<std::string> owner; json j = doc(D * L + 1, true, conf);
  // discriminator i knows value i in every position (count times) and every discriminator value 0 once
  for (int l = 0, i = 0; l < L; l++) { json ds = json::array(); for (int d = 0; d < D; d++, i++) { V t(i + 2, 0); t[0] = 1; t[i + 1] = count; json x = clus::votes_disc(E, 0, R, t, 1 + count); ds.push_back(x); owner.push_back("L" + std::to_string(l)); } cl["L" + std::to_string(l)] = cluster(E, ds); }
  j["clusters"] = cl; std::string t = j.dump(); api::Clus c(t); VV all; for (int i = 0; i <= D * L; i++) all.push_back(V(E, i)); k.log(L, " labels of ", D, " discriminators");
  VS g = c.classify(all); k.step(all.size()); for (int i = 1; i <= D * L; i++) REQUIRE("scale", g[i] == owner[i - 1], "only discriminator ", i - 1, " of label ", owner[i - 1], " answers but the answer is '", g[i], "'");
  if (D <= 12 && L <= 3) answers(k, c, clus::state(t, D * L + 1, false), all, true, conf, "scale"); k.state(str(D, " ", L, " ", R, " ", conf, " ", count));
}
