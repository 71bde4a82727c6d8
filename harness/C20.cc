// C20: degrees and confidence. They are reported by the Python binding only.
#include "clus.hpp"
#include "sut.hpp"
#include "votes.hpp"

struct Cand { std::string label; int score, rams; };
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-5; }
static json flags(json o, int f) { if (f & 1) o["returnActivationDegree"] = true; if (f & 2) o["returnConfidence"] = true; if (f & 4) o["returnClassesDegrees"] = true; return o; }
// one answer against the candidates (classes, or discriminators of clusters) at the deciding threshold
static void judge(Ctx& k, const json& a, int f, const std::vector<Cand>& cs, bool last, const std::string& plain, const std::string& where) {
  int best = 0, second = 0; long total = 0; bool seen = false; for (auto& c : cs) { best = std::max(best, c.score); total += c.score; }
  for (auto& c : cs) if (c.score == best && !seen) seen = true; else second = std::max(second, c.score);
  if (f == 0) { REQUIRE("plain", a.is_string() && a.get<std::string>() == plain, where, ": nothing was asked for but the answer is ", a.dump()); return; }
  REQUIRE("shape", a.is_object() && a.count("class") && a["class"].is_string(), where, ": answer ", a.dump()); std::string got = a["class"];
  REQUIRE("class", got == plain, where, ": with degrees the class is '", got, "', without '", plain, "'");
  size_t keys = 1 + !!(f & 1) + !!(f & 2) + !!(f & 4); REQUIRE("fields", a.size() == keys, where, ": fields of ", a.dump(), " for request ", f);
  auto num = [&](const json& x) { REQUIRE("number", x.is_number(), where, ": ", a.dump()); double d = x.get<double>(); REQUIRE("range", std::isfinite(d) && d >= 0 && d <= 1, where, ": ", d, " in ", a.dump()); return d; };
  if (f & 1) { REQUIRE("fields", a.count("activationDegree"), where, ": no activationDegree"); double d = num(a["activationDegree"]); bool ok = cs.empty() && d == 0; for (auto& c : cs) if (c.label == got && c.score == best) ok = ok || near(d, c.rams ? (double)c.score / c.rams : 0); REQUIRE("activation", ok, where, ": activationDegree ", d, " but the winner has ", best, " RAMs for it; answer ", a.dump()); }
  if (f & 2) { REQUIRE("fields", a.count("confidence"), where, ": no confidence"); double d = num(a["confidence"]); double want = best ? (double)(best - second) / best : 0; REQUIRE("confidence", near(d, want), where, ": confidence ", d, " instead of ", want, " for scores ", best, " and ", second); }
  if (f & 4) { REQUIRE("fields", a.count("classesDegrees") && a["classesDegrees"].is_array(), where, ": no classesDegrees"); const json& l = a["classesDegrees"]; REQUIRE("shares", l.size() == cs.size(), where, ": ", l.size(), " shares for ", cs.size(), " candidates");
    std::vector<std::pair<std::string, double>> g, w; double sum = 0; for (auto& e : l) { REQUIRE("shape", e.is_object() && e.size() == 2 && e.count("class") && e.count("degree"), where, ": share ", e.dump()); double d = num(e["degree"]); sum += d; g.push_back({e["class"].get<std::string>(), d}); }
    for (auto& c : cs) w.push_back({c.label, total ? (double)c.score / total : 0}); std::sort(g.begin(), g.end()); std::sort(w.begin(), w.end());
    for (size_t i = 0; i < w.size(); i++) REQUIRE("shares", g[i].first == w[i].first && near(g[i].second, w[i].second), where, ": shares ", l.dump(), " although '", w[i].first, "' has ", w[i].second);
    if (!cs.empty() && total) REQUIRE("sum", near(sum, 1), where, ": the shares add up to ", sum); }
  k.state(where + a.dump());
}
static std::vector<Cand> cands(const MapSV& v, bool bl, int conf) { std::vector<Cand> o; for (auto& s : ref::bleach(v, bl, conf)) o.push_back({s.first, s.second, (int)v.at(s.first).size()}); return o; }
static std::vector<Cand> cands(const clus::State& s, const V& x, bool bl, int conf) {
  MapSV v; std::map<std::string, std::string> owner; int n = 0; for (auto& e : s.cl) for (auto& d : e.second) { std::string id = std::to_string(n++); v[id] = d.votes(x); owner[id] = e.first; }
  std::vector<Cand> o; for (auto& c : ref::bleach(v, bl, conf)) o.push_back({owner[c.first], c.second, (int)v[c.first].size()}); return o;
}
// the same model asked without any field
template <typename M> M bare(M& m) { json j = json::parse(m.json_()); for (auto f : {"returnActivationDegree", "returnConfidence", "returnClassesDegrees"}) j[f] = false; return M(j.dump()); }
static void wis(Ctx& k, api::Wis& w, int f, const VV& all, std::function<MapSV(const V&)> votes, bool bl, int conf, bool bits, const std::string& when) {
  api::Wis b = bare(w); VS plain = b.classify(all); json got = api::from_py(w.full(all)); k.step(3 * all.size()); REQUIRE("answers", got.is_array() && got.size() == all.size(), "answers ", got.size());
  for (size_t i = 0; i < all.size(); i++) judge(k, got[i], f, cands(votes(all[i]), bl, conf), true, plain[i], when + " " + str(all[i]));
  if (bits) { api::Data d; for (auto& x : all) d.add(ref::shorts(x)); json p = api::from_py(w.full(d)); REQUIRE("packed", p == got, when, ": packed entries get ", p.dump(), " instead of ", got.dump()); }
}
static void clu(Ctx& k, api::Clus& c, int f, const VV& all, int base, bool z, bool bl, int conf, const std::string& when) {
  api::Clus b = bare(c); VS plain = b.classify(all); json got = api::from_py(c.full(all)); k.step(3 * all.size()); REQUIRE("answers", got.is_array() && got.size() == all.size(), "answers ", got.size()); clus::State s = clus::state(c.json_(), base, z);
  for (size_t i = 0; i < all.size(); i++) judge(k, got[i], f, cands(s, all[i], bl, conf), false, plain[i], when + " " + str(all[i]));
}
struct Shape { int K, R; V table; };
static const std::vector<Shape> SH = {{1, 1, {0, 1, 2}}, {1, 4, {0, 1, 3}}, {2, 1, {0, 1, 2, 3}}, {2, 2, {0, 1, 2, 3, 4}}, {2, 3, {0, 1, 2, 5}}, {3, 2, {0, 1, 2}}, {2, 5, {0, 2}}, {4, 2, {0, 1}}, {3, 3, {0, 1}}, {2, 4, {0, 1, 2}}, {2, 7, {0, 1}}, {2, 3, {0, 255, 256, 70}}};
static const std::vector<Shape> SHT = {{3, 2, {0, 1, 2, 3}}, {3, 3, {0, 1, 2}}, {2, 5, {0, 1, 2}}, {4, 2, {0, 1, 2}}};
SUITE(matrices) {
  int n = (int)SH.size(), i = k.choose(n + (k.thorough ? (int)SHT.size() : 0)); const Shape& s = i < n ? SH[i] : SHT[i - n]; int f = k.choose(8); bool bl = k.flip(); int conf = 1 + k.choose(std::max(1, std::min(std::max(2, s.K * s.R) / 2, 3))); VoteModel m{VS{"b", "a", "::", "é"}, s.R, s.table}; m.labels.resize(s.K); V order; for (int j = 0; j < s.K; j++) order.push_back(j);
  api::Wis w(2, flags(m.options(bl, conf), f)); m.train(w, order); VV all = ref::all_entries(m.E(), (int)s.table.size()); wis(k, w, f, all, [&](const V& x) { return m.votes(x); }, bl, conf, false, str("matrix ", s.K, "x", s.R)); k.log(s.K, " classes of ", s.R, " RAMs, counts ", str(s.table), " fields ", f, " bleaching ", bl, " confidence ", conf);
}
SUITE(cluster_matrices) {
  static const std::vector<std::pair<V, Shape>> S = {{{1}, {1, 3, {0, 1, 2}}}, {{2}, {2, 3, {0, 1, 2}}}, {{1, 1}, {2, 3, {0, 1, 2, 4}}}, {{2, 1}, {3, 2, {0, 1, 2}}}, {{1, 1, 1}, {3, 2, {0, 1, 3}}}, {{2, 2}, {4, 2, {0, 1}}}, {{3, 1}, {4, 2, {0, 2}}}, {{1, 2}, {3, 3, {0, 1}}}};
  auto& s = S[k.choose((int)S.size())]; int f = k.choose(8); bool bl = k.flip(); int conf = 1 + k.choose(2), D = s.second.K, R = s.second.R, T = (int)s.second.table.size(), n = std::max(2, D), E = n * R; static const VS N = {"a", "b::0", ""};
  json j = json::parse(api::Clus(n, 0.5f, 4, 3, flags(json{{"base", T}, {"bleachingActivated", bl}, {"confidence", conf}}, f)).json_()); json cl = json::object(); int first = 0; for (size_t l = 0; l < s.first.size(); l++) { json ds = json::array(); for (int d = 0; d < s.first[l]; d++, first += R) ds.push_back(clus::votes_disc(E, first, R, s.second.table, 3)); cl[N[l]] = {{"entrySize", E}, {"discriminators", ds}}; } j["clusters"] = cl;
  api::Clus c(j.dump()); VV all = ref::all_entries(D * R, T); for (auto& x : all) x.resize(E); clu(k, c, f, all, T, false, bl, conf, str("clusters of ", str(s.first))); k.log("labels of ", str(s.first), " discriminators of ", R, " RAMs, fields ", f);
}
SUITE(histories) {
  static const std::vector<DC> C = {{2, 3, {}}, {2, 4, {{"ignoreZero", true}}}, {2, 5, {{"completeAddressing", false}}}, {2, 2, {{"base", 3}}}, {2, 5, {{"confidence", 2}}}, {2, 3, {{"mapping", {{"a", {{0}, {1, 2}, {0, 2}, {1}}}, {"b", {{2, 1, 0}}}}}}}, {2, 3, {{"bleachingActivated", false}}}, {2, 4, {{"searchBestConfidence", true}, {"verbose", true}}}};
  const DC& c = C[k.choose((int)C.size())]; int f = 1 + k.choose(7); WisSut s(c.n, flags(c.o, f), c.E); VV all = ref::all_entries(c.E, s.base), p = pool3(all); int depth = k.thorough ? 4 : 3; VS ls = {"a", "b"}; k.log("Wisard(", c.n, ",", s.o.dump(), ")"); wis(k, s.w, f, all, [&](const V& x) { return s.r.votes(x); }, s.r.bleaching, s.r.confidence, s.base == 2, "untrained");
  std::vector<std::pair<V, std::string>> known; for (int i = 0; i < depth; i++) { int w = k.choose(6 + (known.empty() ? 0 : 2)); if (w < 6) { s.train(k, VV{p[w % 3]}, VS{ls[w / 3]}); known.push_back({p[w % 3], ls[w / 3]}); } else if (w == 6) { auto e = known.front(); known.erase(known.begin()); s.w.leaveOneOut(e.first, e.second); s.r.cls[e.second].untrain(e.first); k.log("leaveOneOut"); } else s.restore(k); wis(k, s.w, f, all, [&](const V& x) { return s.r.votes(x); }, s.r.bleaching, s.r.confidence, s.base == 2, "after a step"); }
}
SUITE(cluster_histories) {
  const CC& c = clus_confs()[k.choose((int)clus_confs().size())]; int f = 1 + k.choose(7); json o = c.o; for (auto x : {"returnActivationDegree", "returnConfidence", "returnClassesDegrees"}) if (o.count(x)) o.erase(x); o = flags(o, f); bool z = o.count("ignoreZero"), bl = !o.count("bleachingActivated"); int conf = o.count("confidence") ? o["confidence"].get<int>() : 1; api::Clus m(c.n, c.min, c.th, c.lim, o); k.log("ClusWisard(", c.n, ",", c.min, ",", c.th, ",", c.lim, ",", o.dump(), ")");
  VV all = ref::all_entries(c.E, c.base()), p = pool3(all); p.push_back(all[1]); int depth = k.thorough ? 4 : 3; VS ls = {"a", "b"}; clu(k, m, f, all, c.base(), z, bl, conf, "untrained");
  for (int i = 0; i < depth; i++) { int w = k.choose(9); if (w < 8) { m.train(VV{p[w % 4]}, VS{ls[w / 4]}); k.log("train ", str(p[w % 4]), " as ", ls[w / 4]); } else { m.trainUnsupervised(VV{p[0], p[1]}); k.log("trainUnsupervised"); } k.step(); clu(k, m, f, all, c.base(), z, bl, conf, "after a step"); }
}
// wider models: many RAMs, many classes, high counts, untrained restored classes
SUITE(scale) {
  int K = k.pick({1, 2, 3, 10, 40}), R = k.pick({1, 7, 64, 300}), f = k.pick({1, 2, 4, 7}), n = k.pick({1, 3, 200}); int E = std::max(2, R); json m = json::object(); VS ls; for (int i = 0; i < K; i++) { VV c; for (int r = 0; r < R; r++) if (r % (i + 1) == 0) c.push_back(V{r}); ls.push_back("c" + std::to_string(i)); m[ls.back()] = c; }
  WisSut s(2, flags(json{{"mapping", m}}, f), E); VV xs; for (int i = 0; i < K; i++) { V x(E); for (int j = 0; j < E; j++) x[j] = (i * j + j / 3) & 1; xs.push_back(x); } s.train(k, xs, ls); for (int t = 1; t < n; t++) s.train(k, VV{xs[K / 2]}, VS{ls[K / 2]}); xs.push_back(V(E, 1)); xs.push_back(V(E, 0)); wis(k, s.w, f, xs, [&](const V& x) { return s.r.votes(x); }, true, 1, true, "scale"); api::Wis e(s.w.jsonConfig()); for (auto& c : s.r.cls) { ref::Disc d(E, c.second.mapping); c.second = d; } wis(k, e, f, xs, [&](const V& x) { return s.r.votes(x); }, true, 1, true, "configuration only");
}
// documents whose discriminators have RAM numbers of their own, other than the address size suggests and than each other's
SUITE(own_mappings) {
  static const std::vector<V> S = {{1}, {3}, {5}, {1, 3}, {4, 1}, {2, 2, 5}, {1, 2, 3}, {6, 2}}; const V& s = k.pick(S); int f = 1 + k.choose(7), n = k.pick({2, 3, 6}), spread = k.choose(2), T = 3; bool bl = k.flip(), clus_ = k.flip(); int E = 6; const V table = {0, 1, 2};
  json o = flags(json{{"base", T}, {"bleachingActivated", bl}}, f); VV some; for (auto& x : ref::all_entries(4, 3)) { V y = x; y.push_back(x[0]); y.push_back((x[1] + x[2]) % 3); some.push_back(y); } std::vector<json> ds; for (size_t i = 0; i < s.size(); i++) ds.push_back(clus::votes_disc(E, E - s[i] < (int)i ? 0 : (int)i, s[i], table, 3)); k.log("discriminators of ", str(s), " RAMs, address size ", n, " fields ", f);
  static const VS N = {"a", "", "::1", "z"};
  if (clus_) { json j = json::parse(api::Clus(n, 0.5f, 4, 3, o).json_()), cl = json::object(); if (spread) for (size_t i = 0; i < ds.size(); i++) cl[N[i]] = {{"entrySize", E}, {"discriminators", {ds[i]}}}; else cl["a::0"] = {{"entrySize", E}, {"discriminators", ds}}; j["clusters"] = cl; api::Clus c(j.dump()); clu(k, c, f, some, T, false, bl, 1, "own mappings"); if (n == 2) { c.train(VV{some[5]}, VS{spread ? "z" : "a::0"}); clu(k, c, f, some, T, false, bl, 1, "trained on"); } }
  else { json j = json::parse(api::Wis(n, o).json_()); std::map<std::string, ref::Disc> r; for (size_t i = 0; i < ds.size(); i++) { j["classes"][N[i]] = ds[i]; r.emplace(N[i], clus::disc_of(ds[i], T, false)); } api::Wis w(j.dump()); wis(k, w, f, some, [&](const V& x) { MapSV v; for (auto& d : r) v[d.first] = d.second.votes(x); return v; }, bl, 1, false, "own mappings"); }
}
