// C15: the growth rule of labelled clusters.
#include "clus.hpp"
using clus::State; using clus::Rule;

static void one(Ctx& k, api::Clus& c, const V& x, const std::string& l, const Rule& r, int base, bool z) {
  State a = clus::state(c.json_(), base, z); c.train(VV{x}, VS{l}); k.step(3); k.log("train ", str(x), " as ", l);
  State b = clus::state(c.json_(), base, z);
  clus::grew(k, clus::of(a, l), clus::of(b, l), x, r, "'" + l + "'"); clus::untouched(k, a, b, l, false, "training");
  k.state(clus::show(b));
}
static const std::vector<float> MIN = {0.0f, 0.1f, 0.25f, 0.5f, 0.66f, 1.0f}; static const V TH = {1, 2, 4, 10, 1000}; static const V LIM = {1, 2, 3};
// every history of trainings, every rule
SUITE(histories) {
  struct C { int n, E; json o; }; static const std::vector<C> confs = {{2, 4, {}}, {2, 5, {{"ignoreZero", true}}}, {2, 5, {{"completeAddressing", false}}}, {2, 4, {{"base", 3}}}, {3, 6, {{"bleachingActivated", false}, {"verbose", true}}}};
  const C& c = confs[k.choose((int)confs.size())]; Rule r{k.pick(MIN), k.pick(TH), k.pick(LIM), c.n, c.E, !c.o.count("completeAddressing")}; int base = c.o.count("base") ? 3 : 2; bool z = c.o.count("ignoreZero");
  k.log("ClusWisard(", c.n, ",", r.min, ",", r.th, ",", r.lim, ",", c.o.dump(), ")");
  api::Clus m(c.n, r.min, r.th, r.lim, c.o); V p0(c.E, 0), p1(c.E, base - 1), p2(c.E, 0), p3(c.E, 1); p2[0] = 1; p2[2] = base - 1; p3[0] = 0; const VV pool = {p0, p1, p2, p3};
  int depth = k.thorough && !PY ? 5 : 4; VV xs; VS ys;
  rand_hook = ref::stream(4);
  for (int i = 0; i < depth; i++) { int w = k.choose(i == 0 ? 4 : i < 3 ? 5 : 4); const V& x = w == 4 ? pool[2] : pool[w]; std::string l = w == 4 ? "b" : "a"; xs.push_back(x); ys.push_back(l); one(k, m, x, l, r, base, z); }
  // one call or one by one: compared where every random answer is the same, whatever their number
  api::Clus t(c.n, r.min, r.th, r.lim, c.o), u(c.n, r.min, r.th, r.lim, c.o); rand_hook = ref::stream(r.lim & 1); t.train(xs, ys); for (int i = 0; i < depth; i++) u.train(VV{xs[i]}, VS{ys[i]}); rand_hook = nullptr; k.step(1 + depth);
  State a = clus::state(u.json_(), base, z), b = clus::state(t.json_(), base, z); REQUIRE("one-call", clus::show(a) == clus::show(b), "in one call the result is ", clus::show(b), " instead of ", clus::show(a));
}
// every vote matrix of one to three discriminators with every example count, one training
SUITE(decisions) {
  int D = 1 + k.choose(3), R = D == 3 ? 2 : 2 + k.choose(2); static const V table = {0, 1, 2, 4}; int T = D == 3 ? 3 : 4;
  Rule r{k.pick(MIN), k.pick(TH), std::max(1, D + (D > 1 ? k.choose(3) - 1 : k.choose(2))), 2, D * R, true}; if (r.lim < D) return; int base = 4;
  api::Clus e(2, r.min, r.th, r.lim, json{{"base", base}}); json doc = json::parse(e.json_()); json ds = json::array();
  V counts; for (int d = 0; d < D; d++) { int c = k.pick({1, 3, 9}); counts.push_back(c); ds.push_back(clus::votes_disc(r.E, d * R, R, V(table.begin(), table.begin() + T), c)); }
  doc["clusters"] = {{"a", {{"entrySize", r.E}, {"discriminators", ds}}}, {"b", {{"entrySize", r.E}, {"discriminators", {clus::votes_disc(r.E, 0, R, table, 2)}}}}}; std::string text = doc.dump();
  k.log("min ", r.min, " threshold ", r.th, " limit ", r.lim, " counts ", str(counts)); State before = clus::state(text, base, false);
  VV all = ref::all_entries(r.E, T); size_t stride = all.size() > 300 && !k.thorough ? (PY ? 29 : 11) : 1; size_t off = stride > 1 ? (size_t)(counts[0] + 2 * counts[1] + r.th + (int)(r.min * 100)) % stride : 0;
  for (size_t i = off; i < all.size(); i += stride) { api::Clus c(text); c.train(VV{all[i]}, VS{"a"}); k.step(2); State after = clus::state(c.json_(), base, false); clus::grew(k, before.cl["a"], clus::of(after, "a"), all[i], r, "'a'"); clus::untouched(k, before, after, "a", false, "training"); k.state(str(i, clus::show(after))); }
}
// many discriminators and examples: limits above 9, thresholds and counts further apart
SUITE(scale) {
  int lim = k.pick({1, 2, 9, 10, 11, 12, 25}), th = k.pick({1, 5, 50, 1000000, 2147483647}); float min = k.pick({0.0f, 0.3f, 0.8f, 1.0f}); int E = k.pick({8, 16}), n = k.pick({2, 4}); Rule r{min, th, lim, n, E, true}; api::Clus c(n, min, th, lim, {}); k.log("limit ", lim, " threshold ", th, " min ", min);
  int N = k.thorough ? 120 : 40; rand_hook = ref::stream(6); for (int i = 0; i < N; i++) { V x(E); for (int j = 0; j < E; j++) x[j] = Ctx::mix((ull)(i % 23) * 77 + j) & 1; one(k, c, x, i % 4 == 3 ? "b" : "a", r, 2, false); } rand_hook = nullptr;
}
// RAM counts and example counts around the powers of 256, every vote matrix of two discriminators
SUITE(large) {
  static const VV tables = {{0, 127, 128, 129}, {1, 254, 255, 256}, {2, 255, 257, 300}, {3, 32767, 32768, 40000}, {0, 65535, 65536, 65537}, {9, 65535, 70000, 131072}, {1, 1000, 999999, 1000000}};
  const V& table = k.pick(tables); int R = 2, c = k.pick({1, 127, 128, 255, 256, 300, 32768, 65536, 70000, 16777215}); Rule r{k.pick({0.0f, 0.25f, 0.5f, 0.51f, 0.75f}), k.pick({1, 128, 256, 1000, 65536, 2147483647}), 2 + k.choose(2), 2, 2 * R, true}; int base = 4;
  api::Clus e(2, r.min, r.th, r.lim, json{{"base", base}}); json doc = json::parse(e.json_()); json ds = {clus::votes_disc(r.E, 0, R, table, c), clus::votes_disc(r.E, R, R, table, 1)}; doc["clusters"] = {{"a", {{"entrySize", r.E}, {"discriminators", ds}}}}; std::string text = doc.dump();
  k.log("min ", r.min, " threshold ", r.th, " limit ", r.lim, " count ", c, " table ", str(table)); State before = clus::state(text, base, false); VV all = ref::all_entries(r.E, 4); size_t stride = k.thorough ? 1 : PY ? 67 : 7, off = (size_t)(c + r.th) % stride;
  for (size_t i = off; i < all.size(); i += stride) { api::Clus m(text); m.train(VV{all[i]}, VS{"a"}); k.step(2); State after = clus::state(m.json_(), base, false); clus::grew(k, before.cl["a"], clus::of(after, "a"), all[i], r, "'a'"); k.state(str(i, clus::show(after))); }
}
// clusters of very many discriminators, at their limit and below
SUITE(many) {
  int D = k.pick({31, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 1025}), above = k.choose(3), form = k.choose(3); Rule r{k.pick({0.3f, 1.0f}), k.pick({1, 1000000}), D + (above == 0 ? 0 : above == 1 ? 2 : 100000), 2, 4, true}; int base = 4; if (PY && D > 300) return;
  api::Clus e(2, r.min, r.th, r.lim, json{{"base", base}}); json doc = json::parse(e.json_()); json ds = json::array();
  for (int d = 0; d < D; d++) { V t(4, 0); if (form == 0) t = V{1, 0, d + 1, 0}; else if (form == 1) t = V{0, d == D - 1 ? 3 : 0, 1, d == D / 2 ? 2 : 0}; else t = V{d % 2, 1, 0, d == 0}; json x = clus::votes_disc(r.E, d % 3 == 0 ? 0 : 1, 3, t, 1 + d % 7); ds.push_back(x); }
  json one_ = {{"entrySize", r.E}, {"discriminators", ds}}; doc["clusters"] = {{"a", one_}, {"b", {{"entrySize", r.E}, {"discriminators", {ds[0]}}}}}; api::Clus c(doc.dump()); k.log(D, " discriminators, limit ", r.lim, " min ", r.min, " threshold ", r.th, " form ", form); rand_hook = ref::stream(6);
  for (auto& x : VV{{3, 0, 3, 0}, {0, 0, 1, 1}, {1, 1, 1, 1}, {3, 3, 3, 3}}) one(k, c, x, "a", r, base, false);
  one(k, c, V{0, 3, 0, 3}, "b", r, base, false); one(k, c, V{0, 3, 0, 3}, "c", r, base, false); k.state(str(D, above, form, clus::state(c.json_(), base, false).cl["a"].size()));
}
