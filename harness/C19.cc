// C19: mental images.
#include "clus.hpp"
#include "sut.hpp"

static void wisard(Ctx& k, WisSut& s, const char* when) { s.images(k, when); k.state(s.r.show()); }
// a ClusWisard: one image per discriminator, in the saved order
static void clusters(Ctx& k, api::Clus& c, int base, const VS& ask) {
  clus::State s = clus::state(c.json_(), base, false); MapSVV g = c.getMentalImages(); k.step(2 + ask.size());
  REQUIRE("labels", g.size() == s.cl.size(), g.size(), " labels in the mental images instead of ", s.cl.size());
  for (auto& e : s.cl) { VV want; for (auto& d : e.second) want.push_back(d.mental()); auto f = g.find(e.first); REQUIRE("label", f != g.end(), "no mental images for '", e.first, "'"); REQUIRE("images", f->second == want, "'", e.first, "' has mental images ", str(f->second), " instead of ", str(want), " with ", clus::show(e.second)); VV one = c.getMentalImage(e.first); REQUIRE("one", one == want, "getMentalImage('", e.first, "') is ", str(one), " instead of ", str(want)); }
  for (auto& l : ask) if (!s.cl.count(l)) { VV one = c.getMentalImage(l); REQUIRE("unknown", one.empty(), "getMentalImage of unknown '", l, "' is ", str(one)); }
  k.state(clus::show(s));
}
// every history of training, untraining, restoring
SUITE(wisards) {
  const DC& c = wis_confs()[k.choose((int)wis_confs().size())]; WisSut s(c.n, c.o, c.E); VV all = ref::all_entries(c.E, s.base), p = pool3(all); p.push_back(all[1]); int depth = k.thorough ? 5 : PY ? 4 : 5; std::vector<std::pair<V, std::string>> known; VS ls = {"a", "b"}; k.log("Wisard(", c.n, ",", c.o.dump(), ")"); wisard(k, s, "before any training");
  for (int i = 0; i < depth; i++) {
    int w = k.choose(8 + (known.empty() ? 0 : 2)); if (w < 8) { if (!k.thorough && w % 4 == 3 && i != 1) return; s.train(k, VV{p[w % 4]}, VS{ls[w / 4]}); known.push_back({p[w % 4], ls[w / 4]}); }
    else if (w == 8) { auto e = known.front(); known.erase(known.begin()); s.w.leaveOneOut(e.first, e.second); s.r.cls[e.second].untrain(e.first); k.step(); k.log("leaveOneOut ", str(e.first), " as ", e.second); } else s.restore(k);
    wisard(k, s, "after a step");
  }
}
SUITE(clusters_) {
  const CC& c = clus_confs()[k.choose((int)clus_confs().size())]; api::Clus m(c.n, c.min, c.th, c.lim, c.o); VV all = ref::all_entries(c.E, c.base()), p = pool3(all); int depth = k.thorough ? 6 : PY ? 4 : 5; k.log("ClusWisard(", c.n, ",", c.min, ",", c.th, ",", c.lim, ",", c.o.dump(), ")");
  for (int i = 0; i < depth; i++) { int w = k.choose(8); if (w < 6) { m.train(VV{p[w % 3]}, VS{w < 3 ? "a" : "b"}); k.log("train ", str(p[w % 3]), w < 3 ? " as a" : " as b"); } else if (w == 6) { m.trainUnsupervised(VV{p[0], p[1]}); k.log("trainUnsupervised"); } else { std::string t = m.json_(); m = api::Clus(t); k.log("restored"); } k.step(); clusters(k, m, c.base(), {"a", "b", "", "a::0"}); }
}
#ifdef MC_BACKEND_CPP
SUITE(discriminators) {
  const DC& c = disc_confs()[k.choose((int)disc_confs().size())]; api::Disc d(c.n, c.E, c.o); ref::Disc r(c.E, ref::mapping_of(json::parse(d.json_())), c.base(), false); VV all = ref::all_entries(c.E, c.base()); int depth = 4; std::vector<V> known; k.log("Discriminator(", c.n, ",", c.E, ",", c.o.dump(), ")");
  for (int i = 0; i < depth; i++) { int w = k.choose((int)all.size() + (known.empty() ? 0 : 1)); if (w < (int)all.size()) { d.train(all[w]); r.train(all[w]); known.push_back(all[w]); k.log("train ", str(all[w])); } else { d.untrain(known[0]); r.untrain(known[0]); k.log("untrain ", str(known[0])); known.erase(known.begin()); } k.step(2); V g = d.getMentalImage(); REQUIRE("image", g == r.mental(), "image ", str(g), " instead of ", str(r.mental()), " with ", r.show()); k.state(r.show()); }
}
#endif
// every address size and base, every single position on, default addressings of every remainder
struct B { int base, max; }; static const std::vector<B> BASES = {{2, 64}, {3, 40}, {4, 32}, {5, 27}, {7, 22}, {10, 19}, {16, 16}, {255, 8}, {256, 8}, {1000, 6}, {65536, 4}, {1000003, 3}, {2147483647, 2}};
SUITE(widths) {
  const B& b = BASES[k.choose((int)BASES.size())]; int n = 2 + k.choose(b.max - 1); int E = n * (1 + k.choose(2)) + k.pick({0, 1}); WisSut s(n, json{{"base", b.base}, {"completeAddressing", !k.flip()}}, E); rand_hook = ref::stream(4); VV xs; VS ys; k.log("base ", b.base, " address size ", n, " entry size ", E);
  for (int i = 0; i < E; i++) { V x(E, 0); x[i] = i % 3 ? b.base - 1 : 1; xs.push_back(x); ys.push_back(i % 2 ? "a" : "b"); } V top(E, b.base - 1); xs.push_back(top); ys.push_back("a"); V zero(E, 0); xs.push_back(zero); ys.push_back("b"); s.train(k, xs, ys); wisard(k, s, "wide");
  for (int i = 0; i < 3; i++) { int j = (i * 5 + n) % (int)xs.size(); s.w.leaveOneOut(xs[j], ys[j]); s.r.cls[ys[j]].untrain(xs[j]); wisard(k, s, "after untraining"); s.train(k, VV{xs[j]}, VS{ys[j]}); } s.restore(k); wisard(k, s, "restored");
}
// every mapping of up to two RAMs over three positions, positions read several times or never
SUITE(mappings) {
  int base = k.pick({2, 3}), len1 = 1 + k.choose(3), len2 = k.choose(4); V r1, r2; for (int i = 0; i < len1; i++) r1.push_back(k.choose(3)); for (int i = 0; i < len2; i++) r2.push_back(k.choose(3)); VV m = {r1}; if (len2) m.push_back(r2);
  WisSut s(2, json{{"base", base}, {"mapping", {{"a", m}}}}, 3); VV all = ref::all_entries(3, base); for (auto& x : all) { s.train(k, VV{x}, VS{"a"}); wisard(k, s, "mapping"); } for (size_t i = 0; i + 1 < all.size(); i += 2) { s.w.leaveOneOut(all[i], "a"); s.r.cls["a"].untrain(all[i]); wisard(k, s, "mapping untrained"); }
}
// repetitions
SUITE(counts) {
  int n = k.pick({1, 2, 255, 256, 32767, 32768, 65536, 100000}); if (PY && n > 40000) return; int base = k.pick({2, 16}); WisSut s(2, json{{"base", base}}, 4); V x = {1, 0, base - 1, 1}, y = {0, 1, 0, 1}; s.w.train(VV(n, x), VS(n, "a")); k.step(n); s.learn(k, x, "a"); for (int i = 1; i < n; i++) s.r.cls["a"].train(x); s.train(k, VV{y, y}, VS{"a", "b"}); wisard(k, s, "repeated"); s.w.leaveOneOut(x, "a"); s.r.cls["a"].untrain(x); wisard(k, s, "one less"); s.restore(k); wisard(k, s, "restored"); k.log(n, " repetitions");
}
// more than nine discriminators, any labels
SUITE(many) {
  int D = k.pick({1, 9, 10, 11, 12, 25, 101}); const std::string& l = k.pick(ODD); if (D > 12 && l.size() % 3) return; api::Clus e(2, 0.5f, 4, D + 2, {}); json j = json::parse(e.json_()); json ds = json::array(); for (int i = 0; i < D; i++) { V t(2, 0); t[1] = i + 1; t[0] = 2; ds.push_back(clus::votes_disc(D + 3, i, 2, t, i + 3)); } json c = {{"entrySize", D + 3}, {"discriminators", ds}}; j["clusters"] = json::object(); j["clusters"][l] = c; j["clusters"]["other"] = c;
  api::Clus m(j.dump()); k.log(D, " discriminators of ", json(l).dump()); clusters(k, m, 2, {"a", "unknown", "::", l + "::0", l + "::"}); V x(D + 3, 1); m.train(VV{x, V(D + 3, 0), x}, VS{l, l, "other"}); k.step(); clusters(k, m, 2, {"unknown"}); json f = json::parse(m.json_())["clusters"][l]["discriminators"]; for (int i = 0; i < D; i++) REQUIRE("order", f[i]["mapping"][0][0] == i, "discriminator ", i, " is not where it was");
}
// RAMs with very many cells, and very many RAMs
SUITE(cells) {
  int n = k.pick({255, 256, 999, 1000, 1001, 4096, 10000, 70000}), what = k.choose(4), base = 1000003; if (PY && n > 10000) return; ref::Disc r(4, what == 1 ? VV(n, V{0, 1}) : VV{{0, 1}, {2, 3}}, base, false); r.count = n; if (what == 1 && n > 10000) return;
  if (what == 1) for (int i = 0; i < n; i++) { r.mapping[i] = V{i % 4, (i / 4 + 1) % 4}; r.rams[i][V{1 + i % 7, i % 2}] = 1 + i % 3; } else for (int i = 0; i < n; i++) r.rams[what == 2][V{(i * 7919) % 1000003, i % 997}] = 1 + i % 300;
  json d = {{"entrySize", 4}, {"mapping", r.mapping}, {"count", n}, {"data", ref::data_of(r)}}; V want = r.mental(); k.log(what == 1 ? "RAMs: " : "cells in a RAM: ", n); k.step(2);
  if (what < 3) { json j = json::parse(api::Wis(2, json{{"base", base}}).json_()); j["classes"] = {{"a", d}}; api::Wis a(j.dump()); MapSV g = a.getMentalImages(); REQUIRE("image", g.size() == 1 && g["a"] == want, "mental image ", str(g["a"]), " instead of ", str(want)); a.train(VV{{1, 2, 3, 4}}, VS{"a"}); r.train({1, 2, 3, 4}); want = r.mental(); g = a.getMentalImages(); REQUIRE("image", g["a"] == want, "after a training mental image ", str(g["a"]), " instead of ", str(want)); }
  else { json j = json::parse(api::Clus(2, 0.5f, 5, 3, json{{"base", base}}).json_()); j["clusters"] = {{"a", {{"entrySize", 4}, {"discriminators", {d, d}}}}}; api::Clus a(j.dump()); VV one = a.getMentalImage("a"); REQUIRE("images", one == (VV{want, want}), "mental images ", str(one), " instead of twice ", str(want)); }
  k.state(str(n, what));
}
// any number of classes
SUITE(crowd) {
  int classes = k.choose(k.thorough ? 30 : 14), kind = k.choose(2), n = 1 + k.choose(3); VV all = ref::all_entries(5, 2); rand_hook = ref::stream(3); k.log(kind ? "ClusWisard" : "Wisard", " of ", classes, " classes");
  VV xs; VS ys; for (int i = 0; i < classes; i++) for (int e = 0; e < n; e++) { xs.push_back(all[(i * 5 + e * 13 + 1) % 32]); ys.push_back(i % 3 == 2 ? std::string(i, 'z') : "c" + std::to_string(i)); }
  if (!kind) { WisSut s(2, json::object(), 5); for (size_t i = 0; i < xs.size(); i++) s.train(k, VV{xs[i]}, VS{ys[i]}); wisard(k, s, "crowd"); s.restore(k); wisard(k, s, "crowd restored"); }
  else { api::Clus c(2, 0.6f, 3, 3, json::object()); c.train(xs, ys); if (n > 1) c.trainUnsupervised(xs); clusters(k, c, 2, {"unknown", "c0", ""}); api::Clus d(c.json_()); clusters(k, d, 2, {"unknown"}); }
  rand_hook = nullptr;
}
