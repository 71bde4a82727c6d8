// C04: the decision rule of Wisard, on every small vote matrix.
#include "votes.hpp"
using namespace mc;

static void permutation(Ctx& k, int n, V& out) { V rest; for (int i = 0; i < n; i++) rest.push_back(i); while (!rest.empty()) { int c = k.choose((int)rest.size()); out.push_back(rest[c]); rest.erase(rest.begin() + c); } }

static void decide(Ctx& k, api::Wis& w, const VoteModel& m, const VV& xs, bool bleaching, int confidence, const char* how) {
  VS got = w.classify(xs); k.step(xs.size());
  REQUIRE("answers", got.size() == xs.size(), how, ": ", got.size(), " answers for ", xs.size(), " entries");
  for (size_t i = 0; i < xs.size(); i++) {
    MapSV v = m.votes(xs[i]); int th = 0; ref::Scores s = ref::bleach(v, bleaching, confidence, &th); std::string want = ref::winner(s);
    if (got[i] != want) {
      std::string t; for (auto& e : v) t += " '" + e.first + "' " + str(e.second) + " scores " + std::to_string(s[e.first]);
      k.fail("winner", str(how, ": counts", t, " at threshold ", th, ", bleaching ", bleaching, ", confidence ", confidence, ": answer '", got[i], "' instead of '", want, "'"));
    }
    k.state(str(want, th, "/", i % 4096));
  }
}

struct Shape { int K, R; V table; };
// every count matrix of these shapes; classes in every order of training, labels in every order
SUITE(matrices) {
  static const std::vector<Shape> quick = {
    {1, 3, {0, 1, 2}}, {2, 1, {0, 1, 2, 3}}, {2, 2, {0, 1, 2, 3}}, {2, 3, {0, 1, 2}}, {2, 3, {0, 2, 3}}, {3, 2, {0, 1, 2}}, {3, 2, {0, 1, 5}}, {3, 3, {0, 1, 2}}, {4, 2, {0, 1, 2}},
    {4, 1, {0, 1, 2, 3, 4}}, {2, 2, {0, 1, 2, 3, 4, 5, 6, 7, 8}}, {2, 4, {0, 1, 2}}, {3, 2, {0, 1, 3, 4}}, {2, 4, {0, 2, 4}}, {2, 6, {0, 1}}, {3, 4, {0, 1}}, {5, 2, {0, 1}}, {2, 1, {0, 1, 254, 255, 256, 257}}, {2, 2, {0, 127, 128, 129}}, {3, 1, {0, 9, 10, 11, 300}}, {2, 2, {0, 1, 2, 999, 1000}}};
  static std::vector<Shape> deep = [] { std::vector<Shape> v = quick; for (Shape s : std::vector<Shape>{{3, 3, {0, 1, 2, 3}}, {4, 2, {0, 1, 2, 3}}, {2, 4, {0, 1, 2, 3}}, {3, 3, {0, 1, 2, 7}}, {5, 2, {0, 1, 2}}, {2, 5, {0, 1, 2}}, {4, 3, {0, 1, 2}}, {2, 8, {0, 1}}, {6, 2, {0, 1, 2}}, {2, 1, {0, 1, 32767, 32768}}, {2, 2, {0, 1, 65535, 65536}}}) v.push_back(s); return v; }();
  const auto& all = k.thorough ? deep : quick; const Shape& s = all[k.choose((int)all.size())];
  if (PY && !k.thorough && (s.K * s.R > 8)) return;
  static const std::vector<VS> names = {{"a", "b", "c", "d", "e", "f"}, {"f", "e", "d", "c", "b", "a"}, {"10", "9", "", "A", "a", "~"}, {"b::0", "b", "b:", "\xc3\xa9", "z", " "}};
  VoteModel m; m.R = s.R; m.table = s.table;
  const VS& n = names[k.choose(s.K * s.R > 8 && !k.thorough ? 2 : (int)names.size())]; m.labels.assign(n.begin(), n.begin() + s.K);
  bool bleaching = k.flip(); int confidence = bleaching ? 1 + k.choose(s.R) : 1;
  bool verbose = confidence == 1 && k.flip();
  V order; for (int i = 0; i < s.K; i++) order.push_back(i);
  if (verbose) std::reverse(order.begin(), order.end());
  json o = m.options(bleaching, confidence); o["verbose"] = verbose;
  api::Wis w(1, o); m.train(w, order); k.step();
  VV xs = ref::all_entries(s.K * s.R, (int)s.table.size()); if (s.K * s.R < 2) for (auto& x : xs) x.resize(2, 0);
  k.log(o.dump(), " entries ", xs.size());
  decide(k, w, m, xs, bleaching, confidence, "one call");
}
// every order of training, other options, restored models; entries one by one, reversed and repeated in one call
SUITE(orders) {
  static const std::vector<Shape> shapes = {{3, 2, {0, 1, 2}}, {2, 2, {0, 1, 3}}, {4, 1, {0, 1, 2}}};
  const Shape& s = shapes[k.choose(3)]; VoteModel m; m.R = s.R; m.table = s.table;
  static const std::vector<VS> names = {{"cold", "hot", "warm", "x"}, {"2", "10", "1", "01"}};
  const VS& n = names[k.choose(2)]; m.labels.assign(n.begin(), n.begin() + s.K);
  bool bleaching = k.flip(); int confidence = 1 + k.choose(s.R);
  V order; permutation(k, s.K, order);
  json o = m.options(bleaching, confidence);
  int extra = k.choose(4);
  if (extra == 1) o["searchBestConfidence"] = true;
  if (extra == 2) o["returnConfidence"] = true, o["returnActivationDegree"] = true, o["returnClassesDegrees"] = true;
  if (extra == 3) o["ignoreZero"] = true, o["completeAddressing"] = false;
  k.log(o.dump(), " trained in order ", str(order));
  api::Wis w(1, o); m.train(w, order); k.step();
  if (k.flip()) { std::string t = w.json_(); w = api::Wis(t); k.log("restored"); }
  VV xs = ref::all_entries(s.K * s.R, (int)s.table.size());
  int how = k.choose(3);
  if (how == 0) for (auto& x : xs) decide(k, w, m, VV{x}, bleaching, confidence, "alone");
  else if (how == 1) { std::reverse(xs.begin(), xs.end()); decide(k, w, m, xs, bleaching, confidence, "reversed"); }
  else { VV ys; for (auto& x : xs) { ys.push_back(x); ys.push_back(xs[0]); ys.push_back(x); } decide(k, w, m, ys, bleaching, confidence, "repeated"); }
}
// classes with different numbers of RAMs, and RAMs of several positions, from trained histories
SUITE(histories) {
  int conf = 1 + k.choose(3); bool bl = k.flip(); int base = 2; int E = 4;
  ref::Wis r; r.bleaching = bl; r.confidence = conf;
  std::map<std::string, VV> maps = {{"a", {{0, 1}, {2, 3}, {1, 2}}}, {"b", {{0, 1, 2, 3}, {3}}}, {"c", {{2, 1}, {3, 0}, {0}, {1}}}};
  json o = {{"mapping", maps}, {"bleachingActivated", bl}, {"confidence", conf}};
  api::Wis w(1, o);
  VV all = ref::all_entries(E, base); VS labels = {"a", "b", "c"};
  int depth = k.thorough ? 4 : 3;
  VV pool = {{0, 0, 0, 0}, {1, 0, 1, 0}, {1, 1, 1, 1}, {0, 1, 1, 0}};
  for (int i = 0; i < depth; i++) {
    const std::string& l = k.pick(labels); const V& x = k.pick(pool); int n = 1 + k.choose(2);
    for (int q = 0; q < n; q++) { w.train(VV{x}, VS{l}); k.step(); if (!r.cls.count(l)) r.cls[l] = ref::Disc(E, maps[l], base); r.cls[l].train(x); }
    k.log("train ", str(x), " as ", l, " x", n);
  }
  VS got = w.classify(all); k.step(all.size());
  for (size_t i = 0; i < all.size(); i++) { std::string want = r.classify(all[i]); REQUIRE("winner-history", got[i] == want, str(all[i]), " is ", got[i], " instead of ", want, " in ", r.show()); }
  k.state(r.show());
}
// packed entries take the same decision
SUITE(packed) {
  int K = 2 + k.choose(3), R = 1 + k.choose(3); if (K * R > 9 || K * R < 2) return; VoteModel m; m.R = R; m.table = {0, 1};
  for (int i = 0; i < K; i++) m.labels.push_back(std::string(1, (char)('a' + i)));
  bool bl = k.flip(); int conf = 1 + k.choose(R); json o = m.options(bl, conf); api::Wis w(1, o); V order; for (int i = 0; i < K; i++) order.push_back(i); m.train(w, order);
  VV xs = ref::all_entries(K * R, 2); api::Data d; for (auto& x : xs) d.add(ref::shorts(x));
  VS got = w.classify(d); k.step(xs.size());
  REQUIRE("answers-packed", got.size() == xs.size(), got.size(), " answers for ", xs.size());
  for (size_t i = 0; i < xs.size(); i++) REQUIRE("winner-packed", got[i] == ref::winner(ref::bleach(m.votes(xs[i]), bl, conf)), "packed ", str(xs[i]), " is ", got[i]);
  k.state(o.dump());
}
// many classes and many RAMs: one class stands out by a little, wherever it is
SUITE(many) {
  int K = k.pick({7, 9, 16, 17, 33, 65, 100, 128, 129, 256, 257, 1000, 1025}), R = k.pick({1, 2, 9, 33, 129, 257, 1025}); if ((long)K * R > (PY ? 2500 : k.thorough ? 30000 : 6000)) return; int kind = k.choose(5), conf = k.pick({1, 2}); bool bl = k.flip(); if (conf > R) return;
  std::vector<int> places = {0, K / 2, K - 1}; VS names; for (int i = 0; i < K; i++) names.push_back(str("n", kind & 1 ? i : 100000 + i));
  api::Wis e(1, json{{"bleachingActivated", bl}, {"confidence", conf}, {"base", 4}}); json j = json::parse(e.json_()); int E = (int)places.size() * 2; VV mp; for (int r = 0; r < R; r++) mp.push_back(V(1, 0));
  // value v of position p: what class places[p] knows more than the others. All RAMs of a class read one position; the count of each RAM is chosen per class
  for (size_t p = 0; p < places.size(); p++) {
    json cl = json::object(); MapSV votes; for (int c = 0; c < K; c++) { V t(R, 1 + (kind == 1) * 3); if (kind == 2) for (int r = 0; r < R; r++) t[r] = 1 + (r + c) % 3; if (kind == 3) for (int r = 0; r < R; r++) t[r] = r % 2; if (kind == 4) t.assign(R, 0); if (c == places[p]) { t[R - 1] += 1; if (kind == 2) t[0] += 1; } std::string data; for (int r = 0; r < R; r++) data += (r ? "." : "") + (t[r] ? ref::pack_cells(Cells{{1, t[r]}}) : std::string()); cl[names[c]] = {{"entrySize", E}, {"mapping", mp}, {"count", 5}, {"data", data}}; votes[names[c]] = t; }
    j["classes"] = cl; api::Wis w(j.dump()); V x(E, 1); VS got = w.classify(VV{x, x}); std::string want = ref::winner(ref::bleach(votes, bl, conf)); k.step(2); k.log(K, " classes of ", R, " RAMs, kind ", kind, ", class ", places[p], " stands out"); REQUIRE("many", got == (VS{want, want}), K, " classes of ", R, " RAMs (kind ", kind, ", class ", places[p], " stands out): ", str(got), " instead of ", want); k.state(str(K, R, kind, p, want));
  }
}
// counts nobody could train one by one: a restored model, every count matrix
SUITE(large_counts) {
  static const std::vector<Shape> shapes = {{2, 2, {0, 1, 2147483646, 2147483647}}, {3, 2, {0, 2147483646, 2147483647}}, {2, 3, {0, 1, 2147483647}}, {2, 2, {0, 65536, 16777216, 16777217, 16777218}}, {3, 1, {0, 1, 1000000000, 2147483647}}, {2, 3, {0, 1000000000, 2000000000}}};
  const Shape& s = shapes[k.choose((int)shapes.size())]; bool bl = k.flip(); int conf = 1 + k.choose(s.R); VoteModel m; m.R = s.R; m.table = s.table; VS names = {"a", "b", "c"}; if (k.flip()) names = {"9", "10", "b::1"}; m.labels.assign(names.begin(), names.begin() + s.K);
  api::Wis e(1, m.options(bl, conf)); json j = json::parse(e.json_()); Cells c; for (size_t v = 0; v < s.table.size(); v++) if (s.table[v]) c[v] = s.table[v]; int first = 0;
  json cl = json::object(); for (auto& l : m.labels) { VV mp; std::string data; for (int r = 0; r < s.R; r++) { mp.push_back(V{first++}); data += (r ? "." : "") + ref::pack_cells(c); } cl[l] = {{"entrySize", m.E()}, {"mapping", mp}, {"count", 5}, {"data", data}}; }
  j["classes"] = cl; api::Wis w(j.dump()); k.log("restored, counts ", str(s.table)); decide(k, w, m, ref::all_entries(m.E(), (int)s.table.size()), bl, conf, "restored");
}
// classes of many RAMs whose counts follow a pattern: every pair of patterns (and triples, a little further apart)
SUITE(patterns) {
  int R = k.pick({5, 6, 7, 8, 9, 12, 16, 17, 31, 33, 64}); static const std::vector<V> tables = {{0, 1, 2, 3}, {0, 1, 2, 5, 9}, {0, 2, 3, 100}, {0, 1, 7}}; const V& t = tables[k.choose((int)tables.size())]; int conf = k.pick({1, 2, 3}); bool bl = k.flip(); int K = k.pick({2, 3}); if (PY && !k.thorough && (K == 3 || R > 16)) return;
  VoteModel m; m.R = R; m.table = t; m.labels = k.flip() ? VS{"a", "b", "c"} : VS{"z", "y", "x"}; m.labels.resize(K); int T = (int)t.size();
  std::vector<V> pats; for (int lo = 0; lo < T; lo++) for (int hi = lo; hi < T; hi++) for (int cut : {0, 1, 2, R / 2, R - 2, R - 1}) { V p(R, lo); for (int r = cut; r < R; r++) p[r] = hi; pats.push_back(p); std::reverse(p.begin(), p.end()); pats.push_back(p); }
  for (int s = 0; s < T; s++) { V p; for (int r = 0; r < R; r++) p.push_back((r + s) % T); pats.push_back(p); std::sort(p.begin(), p.end()); pats.push_back(p); std::reverse(p.begin(), p.end()); pats.push_back(p); for (int r = 0; r < R; r++) p[r] = (r / 2 + s) % T; pats.push_back(p); }
  std::sort(pats.begin(), pats.end()); pats.erase(std::unique(pats.begin(), pats.end()), pats.end());
  json o = m.options(bl, conf); api::Wis w(1, o); V order; for (int i = 0; i < K; i++) order.push_back(i); m.train(w, order); k.step();
  VV xs; size_t first = k.choose((int)pats.size()); for (size_t j = 0; j < pats.size(); j++) { V x = pats[first]; x.insert(x.end(), pats[j].begin(), pats[j].end()); if (K == 3) { const V& p = pats[(j * 3 + first) % pats.size()]; x.insert(x.end(), p.begin(), p.end()); } xs.push_back(x); }
  k.log(K, " classes of ", R, " RAMs, counts ", str(t)); decide(k, w, m, xs, bl, conf, "patterns");
}
