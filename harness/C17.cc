// C17: unsupervised clusters.
#include "clus.hpp"
using clus::State; using clus::Rule; using clus::Ds;

static MapSV votes(const Ds& v, const V& x) { MapSV m; for (size_t i = 0; i < v.size(); i++) m[std::to_string(i)] = v[i].votes(x); return m; }
// every answer is the number of a cluster with the best score
static void answers(Ctx& k, api::Clus& c, const Ds& un, const VV& all, bool bl) {
  VS got = c.classifyUnsupervised(all); k.step(all.size()); REQUIRE("answers", got.size() == all.size(), got.size(), " answers for ", all.size(), " entries");
  for (size_t i = 0; i < all.size(); i++) { if (un.empty()) continue; ref::Scores s = ref::bleach(votes(un, all[i]), bl, 1); int best = 0; for (auto& e : s) best = std::max(best, e.second);
    auto f = s.find(got[i]); REQUIRE("no-cluster", f != s.end(), str(all[i]), " is '", got[i], "' which is no cluster of ", clus::show(un)); REQUIRE("not-best", f->second == best, str(all[i]), " is ", got[i], " with score ", f->second, " although ", best, " is the best, of ", clus::show(un)); }
}
struct Conf { int n, E; json o; bool z() const { return o.count("ignoreZero"); } int base() const { return o.count("base") ? o["base"].get<int>() : 2; } bool bl() const { return !o.count("bleachingActivated"); } };
static const std::vector<Conf> CONFS = {{2, 4, {}}, {2, 5, {{"ignoreZero", true}, {"confidence", 2}}}, {2, 5, {{"completeAddressing", false}}}, {2, 4, {{"base", 3}}}, {3, 6, {{"bleachingActivated", false}, {"verbose", true}}}, {2, 4, {{"base", 5}, {"ignoreZero", true}, {"returnConfidence", true}}}};
static void one(Ctx& k, api::Clus& c, const V& x, const Rule& r, int base, bool z) {
  State a = clus::state(c.json_(), base, z); c.trainUnsupervised(VV{x}); k.step(3); k.log("trainUnsupervised ", str(x)); State b = clus::state(c.json_(), base, z);
  clus::grew(k, a.un, b.un, x, r, "unsupervised"); a.un.clear(); b.un.clear(); clus::untouched(k, a, b, "", true, "unsupervised training");
}
// every history of unsupervised and supervised trainings, saves and restores
SUITE(histories) {
  const Conf& c = CONFS[k.choose((int)CONFS.size())]; Rule r{PY && !k.thorough ? k.pick({0.25f, 1.0f}) : k.pick({0.0f, 0.25f, 0.66f, 1.0f}), k.pick({1, 4, 1000}), k.pick({1, 2, 3}), c.n, c.E, !c.o.count("completeAddressing")}; int base = c.base(); bool z = c.z();
  k.log("ClusWisard(", c.n, ",", r.min, ",", r.th, ",", r.lim, ",", c.o.dump(), ")"); api::Clus m(c.n, r.min, r.th, r.lim, c.o);
  V p0(c.E, 0), p1(c.E, base - 1), p2(c.E, 0), p3(c.E, 1); p2[0] = 1; p2[2] = base - 1; p3[0] = 0; const VV pool = {p0, p1, p2, p3}; VV un; rand_hook = [] { return 0; };
  int depth = k.thorough && !PY ? 5 : 4; VS known;
  for (int i = 0; i < depth; i++) {
    int w = k.choose(6); State a = clus::state(m.json_(), base, z);
    if (w < 4) { one(k, m, pool[w], r, base, z); un.push_back(pool[w]); }
    else if (w == 4) { m.train(VV{pool[3], pool[0]}, VS{"a", "1"}); k.step(); k.log("train as a and 1"); State b = clus::state(m.json_(), base, z); REQUIRE("crossed", clus::eq(a.un, b.un), "supervised training changed the clusters: ", clus::show(a.un), " became ", clus::show(b.un)); }
    else { if (i == 0) return; std::string t = m.json_(); m = api::Clus(t); k.step(); k.log("restored"); }
    State s = clus::state(m.json_(), base, z); k.state(clus::show(s)); answers(k, m, s.un, pool, c.bl());
    State u = clus::state(m.json_(), base, z); REQUIRE("query", clus::show(s) == clus::show(u), "classifyUnsupervised changed the model");
  }
  if (un.empty()) return;
  api::Clus t(c.n, r.min, r.th, r.lim, c.o); t.trainUnsupervised(un); k.step(); Ds a = clus::state(m.json_(), base, z).un, b = clus::state(t.json_(), base, z).un;
  REQUIRE("one-call", clus::eq(a, b), "in one call, without anything else, the clusters are ", clus::show(b), " instead of ", clus::show(a));
}
// every way of cutting a list of examples into calls
SUITE(splits) {
  const Conf& c = CONFS[k.choose((int)CONFS.size())]; float min = k.pick({0.0f, 0.5f, 1.0f}); int th = k.pick({1, 3, 100}), lim = k.pick({1, 2, 4}); int N = k.thorough ? 9 : 6; VV all = ref::all_entries(c.E, 2); VV xs; int shift = k.choose(4); for (int i = 0; i < N; i++) xs.push_back(all[(i * (shift + 3) + shift) % all.size()]);
  rand_hook = [] { return 7; }; api::Clus a(c.n, min, th, lim, c.o), b(c.n, min, th, lim, c.o); a.trainUnsupervised(xs); k.step(2); VV part; bool sup = k.flip();
  for (int i = 0; i < N; i++) { part.push_back(xs[i]); if (i + 1 < N && k.flip()) continue; b.trainUnsupervised(part); k.step(); k.log("trainUnsupervised ", str(part)); part.clear(); b.trainUnsupervised(VV()); if (sup) b.train(VV{xs[0]}, VS{"a"}); }
  State x = clus::state(a.json_(), c.base(), c.z()), y = clus::state(b.json_(), c.base(), c.z()); REQUIRE("split", clus::eq(x.un, y.un), "cut into calls the clusters are ", clus::show(y.un), " instead of ", clus::show(x.un)); k.state(clus::show(y));
  VS g = a.classifyUnsupervised(all), h = b.classifyUnsupervised(all); REQUIRE("split-answers", g == h, "cut into calls the answers are ", obs::show(h), " instead of ", obs::show(g)); answers(k, b, y.un, all, c.bl());
  if (!sup) REQUIRE("split-json", ref::canon(a.json_()) == ref::canon(b.json_()), "saved content differs");
}
// every vote matrix of one to three clusters: classification and growth
SUITE(decisions) {
  int D = 1 + k.choose(3), R = D == 3 ? 2 : D == 2 ? 3 : 4; static const V table = {0, 1, 2, 4}; int T = D == 3 ? 3 : D == 2 && !k.thorough ? 3 : 4; bool bl = k.flip(), sup = k.flip(); int conf = k.pick({1, 2});
  Rule r{k.pick({0.0f, 0.25f, 0.66f, 1.0f}), k.pick({1, 4, 1000}), D + k.choose(2), 2, D * R, true}; int base = 4;
  api::Clus e(2, r.min, r.th, r.lim, json{{"base", base}, {"bleachingActivated", bl}, {"confidence", conf}}); json doc = json::parse(e.json_()); json ds = json::array(); int cs = k.choose(2);
  for (int d = 0; d < D; d++) ds.push_back(clus::votes_disc(r.E, d * R, R, V(table.begin(), table.begin() + T), cs ? 7 - 2 * d : 1 + d));
  doc["unsupervisedCluster"] = {{"entrySize", r.E}, {"discriminators", ds}}; if (sup) doc["clusters"] = {{"a", {{"entrySize", r.E}, {"discriminators", {clus::votes_disc(r.E, 0, R, table, 2)}}}}};
  std::string text = doc.dump(); State before = clus::state(text, base, false); VV all = ref::all_entries(r.E, T); k.log("clusters ", D, " bleaching ", bl, " min ", r.min, " threshold ", r.th, " limit ", r.lim);
  { api::Clus c(text); answers(k, c, before.un, all, bl); for (size_t i = 0; i < all.size(); i += 97) { VS g = c.classifyUnsupervised(VV{all[i]}), h = c.classifyUnsupervised(VV{all[(i * 5 + 1) % all.size()], all[i]}); REQUIRE("others", g[0] == h[1], str(all[i]), " is ", g[0], " alone and ", h[1], " after another"); } }
  size_t stride = k.thorough ? 1 : PY ? 17 : 3; for (size_t i = (r.th + cs) % stride; i < all.size(); i += stride) { api::Clus c(text); c.trainUnsupervised(VV{all[i]}); k.step(2); State after = clus::state(c.json_(), base, false); clus::grew(k, before.un, after.un, all[i], r, "unsupervised"); State b = before; b.un.clear(); State a = after; a.un.clear(); clus::untouched(k, b, a, "", true, "unsupervised training"); k.state(clus::show(after)); }
}
// many clusters
SUITE(scale) {
  int lim = k.pick({1, 2, 9, 10, 11, 12, 25, 101}), th = k.pick({1, 5, 1000000}); float min = k.pick({0.0f, 0.3f, 1.0f}); int E = k.pick({8, 16}), n = k.pick({2, 4}); Rule r{min, th, lim, n, E, true}; api::Clus c(n, min, th, lim, {}); k.log("limit ", lim, " threshold ", th, " min ", min); rand_hook = ref::stream(6);
  int N = k.thorough ? 150 : PY ? 40 : 60; VV xs; for (int i = 0; i < N; i++) { V x(E); for (int j = 0; j < E; j++) x[j] = Ctx::mix((ull)(i % 120) * 77 + j) & 1; xs.push_back(x); one(k, c, x, r, 2, false); } rand_hook = nullptr;
  Ds un = clus::state(c.json_(), 2, false).un; answers(k, c, un, xs, true); k.state(clus::show(un)); api::Clus d(c.json_()); answers(k, d, un, xs, true);
}
// clusters of very many discriminators, at their limit and below
SUITE(many) {
  int D = k.pick({31, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 1025}), above = k.choose(3), form = k.choose(3); Rule r{k.pick({0.3f, 1.0f}), k.pick({1, 1000000}), D + (above == 0 ? 0 : above == 1 ? 2 : 100000), 2, 4, true}; int base = 4; if (PY && D > 300) return;
  api::Clus e(2, r.min, r.th, r.lim, json{{"base", base}}); json doc = json::parse(e.json_()); json ds = json::array();
  for (int d = 0; d < D; d++) { V t(4, 0); if (form == 0) t = V{1, 0, d + 1, 0}; else if (form == 1) t = V{0, d == D - 1 ? 3 : 0, 1, d == D / 2 ? 2 : 0}; else t = V{d % 2, 1, 0, d == 0}; json x = clus::votes_disc(r.E, d % 3 == 0 ? 0 : 1, 3, t, 1 + d % 7); ds.push_back(x); }
  json one_ = {{"entrySize", r.E}, {"discriminators", ds}}; doc["unsupervisedCluster"] = one_; api::Clus c(doc.dump()); k.log(D, " discriminators, limit ", r.lim, " min ", r.min, " threshold ", r.th, " form ", form); rand_hook = ref::stream(6);
  const VV xs = {{0, 1, 2, 3}, {3, 3, 3, 3}, {1, 1, 1, 1}, {2, 2, 2, 2}}; Ds un = clus::state(c.json_(), base, false).un; answers(k, c, un, xs, true);
  for (auto& x : VV{{3, 0, 3, 0}, {0, 0, 1, 1}, {1, 1, 1, 1}, {3, 3, 3, 3}}) one(k, c, x, r, base, false);
  un = clus::state(c.json_(), base, false).un; answers(k, c, un, xs, true); api::Clus d(c.json_()); answers(k, d, un, xs, true); k.state(str(D, above, form, un.size()));
}
// next to any number of classes, of any number of discriminators, the clusters are the same
SUITE(beside) {
  const Conf& c = CONFS[k.choose((int)CONFS.size())]; int classes = k.choose(6), each = k.choose(3), when = k.choose(3), lim = k.pick({1, 2, 3, 5}), th = k.pick({1, 4, 1000}); float min = k.pick({0.0f, 0.6f, 1.0f}); if (PY && !k.thorough && classes % 2) return; int base = c.base(); Rule r{min, th, lim, c.n, c.E, !c.o.count("completeAddressing")};
  rand_hook = [] { return 0; }; api::Clus a(c.n, min, th, lim, c.o), b(c.n, min, th, lim, c.o); VV xs; for (int i = 0; i < 8; i++) { V x(c.E); for (int j = 0; j < c.E; j++) x[j] = (int)((Ctx::mix(i * 17 + j) >> 9) % base); xs.push_back(x); }
  k.log("ClusWisard(", c.n, ",", min, ",", th, ",", lim, ",", c.o.dump(), "), ", classes, " classes"); auto supervise = [&] { for (int i = 0; i < classes; i++) for (int e = 0; e <= each; e++) b.train(VV{xs[(i * 3 + e * 5) % 8]}, VS{"class" + std::to_string(i)}); };
  if (when == 0) supervise(); for (int i = 0; i < 8; i++) { if (when == 1 && i == 1) supervise(); if (when == 2 && i == 5) supervise(); one(k, b, xs[i], r, base, c.z()); a.trainUnsupervised(VV{xs[i]}); }
  State x = clus::state(a.json_(), base, c.z()), y = clus::state(b.json_(), base, c.z()); REQUIRE("beside", clus::eq(x.un, y.un), "next to ", classes, " classes the clusters are ", clus::show(y.un), " instead of ", clus::show(x.un)); REQUIRE("limit", (int)y.un.size() <= lim, y.un.size(), " clusters although the limit is ", lim);
  REQUIRE("beside-answers", a.classifyUnsupervised(xs) == b.classifyUnsupervised(xs), "next to ", classes, " classes the answers differ"); answers(k, b, y.un, xs, c.bl()); k.state(clus::show(y));
}
