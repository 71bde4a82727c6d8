// C22: invalid input is refused and leaves no trace; built with the address sanitizer.
#include "clus.hpp"
#include "sut.hpp"

static const V BADV = {-1, 0 /* base */, 2147483647, -2147483647 - 1};
// the invalid entries: wrong sizes, then every position of a good entry with a bad value
static VV bad_entries(const V& good, int base, bool few) {
  VV o; int E = (int)good.size(); o.push_back(V()); o.push_back(V(E - 1, 0)); o.push_back(V(E + 1, 1)); o.push_back(V(300, 1)); if (E > 2) o.push_back(V(1, 1));
  for (int i = 0; i < E; i++) for (size_t v = 0; v < BADV.size(); v++) { if (few && (i + v) % 3) continue; V x = good; x[i] = v == 1 ? base : BADV[v]; o.push_back(x); }
  return o;
}
static bool reads(const VV& m, int p) { for (auto& r : m) for (int i : r) if (i == p) return true; return false; }
// must an entry be refused by this discriminator?
static bool wrong(const V& x, int E, int base, const VV& m) { if ((int)x.size() != E) return true; for (size_t i = 0; i < x.size(); i++) if ((x[i] < 0 || x[i] >= base) && reads(m, (int)i)) return true; return false; }
static bool odd(const V& x, int base) { for (int v : x) if (v < 0 || v >= base) return true; return false; }   // nobody says whether unread positions matter
static int fix = 0;
static void constant() { rand_hook = [] { return 0; }; }

SUITE(discriminators) {
  const DC& c = disc_confs()[k.choose((int)disc_confs().size())]; constant(); api::Disc a(c.n, c.E, c.o), b(a.json_()); VV m = ref::mapping_of(json::parse(a.json_())); VV all = ref::all_entries(c.E, c.base()), p = pool3(all); bool bits = c.base() == 2; VV bad = bad_entries(p[2], c.base(), !k.thorough); VV w; for (auto& x : bad) if (wrong(x, c.E, c.base(), m)) w.push_back(x);
  int depth = k.thorough ? 3 : 2; k.log("Discriminator(", c.n, ",", c.E, ",", c.o.dump(), ")");
  for (int i = 0; i < depth; i++) {
    if (k.flip()) { int t = k.thorough ? k.choose(3) : 2 - i; a.train(p[t]); b.train(p[t]); k.step(2); k.log("train ", str(p[t])); }
    const V& x = k.pick(w); int how = k.choose(6); bool r = true; std::string what = "training";
    if (how == 0) { r = refused([&] { a.train(x); }); }
    else if (how == 1) { VV xs = {p[0], x, p[1]}; r = refused([&] { a.train(xs); }); b.train(p[0]); }
    else if (how == 2) { what = "classifying"; r = refused([&] { a.classify(x); }); }
    else if (how == 3) { if (odd(x, 2) || x.empty()) continue; r = refused([&] { a.train(api::Bin(ref::shorts(x))); }); what = "training packed"; }
    else if (how == 4) { if (odd(x, 2)) continue; r = refused([&] { a.classify(api::Bin(ref::shorts(x))); }); what = "classifying packed"; }
    else {
#ifdef MC_BACKEND_CPP
      what = "untraining"; r = refused([&] { a.untrain(x); });
#else
      continue;
#endif
    }
    k.step(); k.log(what, " ", str(x)); REQUIRE("accepted", r, what, " ", str(x), " was not refused (entry size ", c.E, ", base ", c.base(), ", mapping ", str(m), ")");
    std::string u = obs::of(a, all, bits), v = obs::of(b, all, bits); REQUIRE("trace", u == v, "after refused ", what, " ", str(x), ": ", obs::diff(u, v)); k.state(u);
  }
#ifdef MC_BACKEND_CPP
  { VV none; a.train(none); std::string u = obs::of(a, all, bits), v = obs::of(b, all, bits); REQUIRE("empty", u == v, "training nothing: ", obs::diff(u, v)); }
#endif
}
// a valid entry with an odd value where nothing reads it: refused or learned, nothing in between
SUITE(unread) {
  int base = k.pick({2, 3}); int pos = k.choose(4), val = k.pick({-1, base, 2147483647}); bool w = k.flip(); VV m = {{0, 2}, {2, 0, 0}}; V x = {1, 0, 1, 0}; if (reads(m, pos)) return; x[pos] = val; VV all = ref::all_entries(4, base); json o = {{"base", base}};
  V y = x; y[pos] = 0; k.log("value ", val, " at unread position ", pos); std::string u, v, n;
  if (w) { o["mapping"] = {{"a", m}, {"b", m}}; api::Wis a(2, o), b(2, o); a.train(VV{all[0]}, VS{"b"}); b.train(VV{all[0]}, VS{"b"}); n = obs::of(b, all, false); bool r = refused([&] { a.train(VV{x}, VS{"a"}); }); u = obs::of(a, all, false); if (!r) b.train(VV{y}, VS{"a"}); v = obs::of(b, all, false); }
  else { o["mapping"] = m; api::Disc a(2, 4, o), b(2, 4, o); bool r = refused([&] { a.train(x); }); u = obs::of(a, all, false); if (!r) b.train(y); v = obs::of(b, all, false); }
  k.step(3); k.state(u); REQUIRE("unread", u == v, obs::diff(u, v));
}
SUITE(wisards) {
  const DC& c = wis_confs()[k.choose((int)wis_confs().size())]; constant(); api::Wis a(c.n, c.o), b(c.n, c.o); VV all = ref::all_entries(c.E, c.base()), p = pool3(all); bool bits = c.base() == 2; VV bad = bad_entries(p[2], c.base(), !k.thorough || PY); bool comp = !c.o.count("completeAddressing"); bool whole = !c.o.count("mapping") && comp;   // every position is read
  int pre = k.choose(3); std::string known = pre == 0 ? "" : pre == 1 ? "a" : "ab"; k.log("Wisard(", c.n, ",", c.o.dump(), ")");
  if (pre) { a.train(VV{p[0], p[1]}, VS{"a", "a"}); b.train(VV{p[0], p[1]}, VS{"a", "a"}); } if (pre == 2) { a.train(VV{p[1]}, VS{"b"}); b.train(VV{p[1]}, VS{"b"}); } k.step(4);
  int rounds = k.thorough ? 2 : 1;
  for (int t = 0; t < rounds; t++) {
  int how = k.choose(9); const V& x = k.pick(bad); bool size = (int)x.size() != c.E; std::string l = k.pick(VS{"a", "new", ""}); bool r; std::string what;
  auto must = [&](const std::string& lab) { if (size) return true; if (whole) return true; json j = json::parse(a.json_())["classes"]; if (!j.is_null() && j.count(lab)) return wrong(x, c.E, c.base(), ref::mapping_of(j[lab])); return false; };
  if (how <= 3) {      // training: alone, first, in the middle, last
    bool fresh_size = size && known.empty() && how <= 1; if (fresh_size && (int)x.size() >= c.n) return;    // only an empty model takes entries of any usable size
    VV xs; VS ys; if (how >= 2) { xs.push_back(p[2]); ys.push_back(l == "a" ? "b" : l); } xs.push_back(x); ys.push_back(l); if (how == 1 || how == 2) { xs.push_back(p[1]); ys.push_back("a"); }
    bool m = must(l); what = str("training ", str(xs), " as ", obs::show(ys)); r = refused([&] { a.train(xs, ys); });
    if (!r && !m && !size) return;                                     // taken, at positions nobody reads
    REQUIRE("accepted", r, what, " was not refused");
    if (how >= 2) b.train(VV{p[2]}, VS{ys[0]});
  } else if (how == 4) { what = "lists of different lengths"; VS ys = {"a", "new"}; if (l == "a") ys.push_back("a"); if (l == "") ys.clear(); VV xs = {p[0]}; r = refused([&] { a.train(xs, ys); }); REQUIRE("accepted", r, what, ": ", obs::show(ys)); r = refused([&] { a.train(VV(), VS{"new"}); }); REQUIRE("accepted", r, "training nothing with a label"); r = refused([&] { a.leaveMoreOut(VV{p[0], p[1]}, VS{"a"}); }); REQUIRE("accepted", r, "untraining lists of different lengths"); }
  else if (how == 5) { what = "classifying"; if (known.empty()) return; bool m = must("a"); VV xs = {p[0], x}; r = refused([&] { a.classify(xs); }); REQUIRE("accepted", r || !m, what, " ", str(xs), " was not refused"); r = refused([&] { a.classify(VV{x}); }); REQUIRE("accepted", r || !m, what, " ", str(x), " was not refused"); }
  else if (how == 6) { what = "untraining"; if (known.empty()) return; if (!must("a")) return; r = refused([&] { a.leaveOneOut(x, "a"); }); REQUIRE("accepted", r, what, " ", str(x), " was not refused"); VV xs = {p[0], x, p[1]}; r = refused([&] { a.leaveMoreOut(xs, VS(3, "a")); }); REQUIRE("accepted", r, what, " ", str(xs), " was not refused"); b.leaveOneOut(p[0], "a"); }
  else if (how == 7) { what = "an empty task"; a.train(VV(), VS()); REQUIRE("empty", a.classify(VV()).empty(), "classifying nothing gave something"); a.leaveMoreOut(VV(), VS()); api::Data d; a.train(d); REQUIRE("empty", a.classify(d).empty(), "classifying nothing gave something"); }
  else { what = "packed"; if (odd(x, 2) || x.empty()) return; if (!bits) return; api::Data d; d.add(ref::shorts(p[0]), "a"); d.add(ref::shorts(x), l == "" ? "a" : l); d.add(ref::shorts(p[1]), "a"); if (size) { r = refused([&] { a.train(d); }); REQUIRE("accepted", r, "training packed ", str(x), " was not refused"); b.train(VV{p[0]}, VS{"a"}); known = known.empty() ? "a" : known; } else return; api::Data q; q.add(ref::shorts(x)); r = refused([&] { a.classify(q); }); REQUIRE("accepted", r, "classifying packed ", str(x), " was not refused"); }
  k.step(); k.log(what); std::string u = obs::of(a, all, bits), v = obs::of(b, all, bits); REQUIRE("trace", u == v, what, " left a trace: ", obs::diff(u, v)); k.state(u);
  a.train(VV{p[0], p[2]}, VS{"a", "new"}); b.train(VV{p[0], p[2]}, VS{"a", "new"}); known = "a"; u = obs::of(a, all, bits); v = obs::of(b, all, bits); REQUIRE("later", u == v, what, " left a trace that shows after training: ", obs::diff(u, v));
  }
}
// a data set without labels
SUITE(unlabelled) { constant(); int where = k.choose(3), pre = k.choose(2); api::Wis a(2, json()), b(2, json()); VV all = ref::all_entries(4, 2); if (pre) { a.train(VV{all[3]}, VS{"a"}); b.train(VV{all[3]}, VS{"a"}); } api::Data d; for (int i = 0; i < 3; i++) if (i == where) d.add(ref::shorts(all[i])); else d.add(ref::shorts(all[i]), i ? "a" : "b"); bool r = refused([&] { a.train(d); }); REQUIRE("accepted", r, "training unlabelled entries was not refused"); for (int i = 0; i < where; i++) b.train(VV{all[i]}, VS{i ? "a" : "b"}); k.step(3); std::string u = obs::of(a, all, true), v = obs::of(b, all, true); REQUIRE("trace", u == v, obs::diff(u, v)); k.state(u); }
SUITE(cluswisards) {
  const CC& c = clus_confs()[k.choose((int)clus_confs().size())]; constant(); api::Clus a(c.n, c.min, c.th, c.lim, c.o), b(c.n, c.min, c.th, c.lim, c.o); VV all = ref::all_entries(c.E, c.base()), p = pool3(all); VV bad = bad_entries(p[2], c.base(), !k.thorough || PY); bool whole = !c.o.count("completeAddressing"); k.log("ClusWisard(", c.n, ",", c.min, ",", c.th, ",", c.lim, ",", c.o.dump(), ")");
  int pre = k.choose(3); if (pre) { a.train(VV{p[0], p[1]}, VS{"a", "a"}); b.train(VV{p[0], p[1]}, VS{"a", "a"}); } bool un = false; if (pre == 2) { a.trainUnsupervised(VV{p[1], p[0]}); b.trainUnsupervised(VV{p[1], p[0]}); un = true; } k.step(4);
  int how = k.choose(12); const V& x = k.pick(bad); bool size = (int)x.size() != c.E; std::string l = k.pick(VS{"a", "new"}); std::string what; bool r; if (!size && !whole) return; bool usable = size && (int)x.size() >= c.n;
  typedef std::map<int, std::string> D;
  if (how <= 3) { if (usable && !pre && how <= 1) return; VV xs; VS ys; if (how >= 2) { xs.push_back(p[2]); ys.push_back("b"); } xs.push_back(x); ys.push_back(l); if (how == 1 || how == 2) { xs.push_back(p[1]); ys.push_back("a"); } what = str("training ", str(xs), " as ", obs::show(ys)); r = refused([&] { a.train(xs, ys); }); REQUIRE("accepted", r, what, " was not refused"); if (how >= 2) b.train(VV{p[2]}, VS{"b"}); }
  else if (how == 4) { what = "lists of different lengths"; r = refused([&] { a.train(VV{p[0]}, VS{"a", l}); }); REQUIRE("accepted", r, what); r = refused([&] { a.train(VV{p[0], p[1]}, VS{l}); }); REQUIRE("accepted", r, what); r = refused([&] { a.train(VV{p[0]}, D{{0, l}, {1, l}}); }); REQUIRE("accepted", r, what); r = refused([&] { a.train(VV(), D{{0, l}}); }); REQUIRE("accepted", r, what); }
  else if (how == 5) { what = "classifying"; if (!pre) return; r = refused([&] { a.classify(VV{p[0], x}); }); REQUIRE("accepted", r, what, " ", str(x), " was not refused"); }
  else if (how == 6) { what = "classifying unsupervised"; if (!un) return; r = refused([&] { a.classifyUnsupervised(VV{p[0], x}); }); REQUIRE("accepted", r, what, " ", str(x), " was not refused"); }
  else if (how == 7) { what = str("unsupervised training ", str(x)); if (!un && usable) return; r = refused([&] { a.trainUnsupervised(VV{x, p[1]}); }); REQUIRE("accepted", r, what, " was not refused"); }
  else if (how == 8) { what = str("unsupervised training ", str(x), " after another"); r = refused([&] { a.trainUnsupervised(VV{p[2], x, p[0]}); }); REQUIRE("accepted", r, what, " was not refused"); b.trainUnsupervised(VV{p[2]}); un = true; }
  else if (how == 9) { what = str("semi-supervised training with labelled ", str(x)); r = refused([&] { a.train(VV{p[2], p[1], x, p[0]}, D{{1, "b"}, {2, l}}); }); REQUIRE("accepted", r, what, " was not refused"); b.train(VV{p[1]}, VS{"b"}); }
  else if (how == 10) { what = str("semi-supervised training with unlabelled ", str(x)); r = refused([&] { a.train(VV{p[2], x, p[0]}, D{{2, "a"}}); }); REQUIRE("accepted", r, what, " was not refused"); b.train(VV{p[2], p[0]}, D{{1, "a"}}); }
  else { what = "an empty task"; a.train(VV(), VS()); a.train(VV(), D()); a.trainUnsupervised(VV()); REQUIRE("empty", a.classify(VV()).empty() && a.classifyUnsupervised(VV()).empty(), "classifying nothing gave something"); }
  k.step(); k.log(what); auto see = [&](api::Clus& m) { std::string s = obs::of(m, all); return s; }; std::string u = see(a), v = see(b); REQUIRE("trace", u == v, what, " left a trace: ", obs::diff(u, v)); k.state(u);
  a.train(VV{p[0], p[2]}, VS{"a", "new"}); b.train(VV{p[0], p[2]}, VS{"a", "new"}); a.trainUnsupervised(VV{p[1]}); b.trainUnsupervised(VV{p[1]}); u = see(a); v = see(b); REQUIRE("later", u == v, what, " left a trace that shows after training: ", obs::diff(u, v));
}
// every combination of extreme sizes: works or is refused, never crashes
static bool usable(long long n, long long E, long long base) { if (n < 2 || n > E || base < 2) return false; unsigned __int128 s = 1, top = (unsigned __int128)1 << 64; for (long long i = 0; i < n; i++) { s *= base; if (s > top) return false; } return true; }
SUITE(configurations) {
  static const V N = {-2147483647 - 1, -2, -1, 0, 1, 2, 3, 5, 8, 40, 41, 64, 65, 70, 2147483647}, ES = {-2147483647 - 1, -1, 0, 1, 2, 3, 5, 8, 64, 65, 70}, B = {-2147483647 - 1, -1, 0, 1, 2, 3, 256, 65536, 2147483647};
  int n = k.pick(N), E = k.pick(ES), base = k.pick(B), kind = k.choose(3); bool comp = k.flip(); json o = {{"base", base}, {"completeAddressing", comp}, {"ignoreZero", comp}}; bool ok = usable(n, E, base); if (E < 0 && kind) return; V zero(std::max(E, 0), 0), one(std::max(E, 0), 1);
  bool r = refused([&] {
    if (kind == 0) { api::Disc d(n, E, o); d.train(zero); d.train(one); V v = d.classify(one); REQUIRE("works", !ok || !v.empty(), "no votes"); if (ok) for (int x : v) REQUIRE("works", x == 1, "votes ", str(v)); d.json_(); d.jsonConfig(); }
    if (kind == 1) { api::Wis w(n, o); w.train(VV{zero, one}, VS{"a", "b"}); VS v = w.classify(VV{one, zero}); if (ok) REQUIRE("works", v[0] == "b" && (comp || v[1] == "a"), "answers ", obs::show(v)); w.getMentalImages(); w.json_(); }
    if (kind == 2) { api::Clus c(n, 0.5f, 3, 2, o); c.train(VV{zero, one}, VS{"a", "b"}); VS v = c.classify(VV{one, zero}); if (ok) REQUIRE("works", v[0] == "b" && (comp || v[1] == "a"), "answers ", obs::show(v)); c.trainUnsupervised(VV{one, zero}); c.classifyUnsupervised(VV{one}); c.getMentalImages(); c.json_(); }
  });
  k.step(4); k.log("address size ", n, " entry size ", E, " base ", base, " model ", kind); k.state(str(n, " ", E, " ", base, " ", kind, r));
  REQUIRE("refused", r == !ok, ok ? "a usable" : "an unusable", " configuration was ", r ? "refused" : "accepted", ": address size ", n, " entry size ", E, " base ", base, " model ", kind);
}
SUITE(cluster_options) {
  float min = k.pick({-1e30f, -1.0f, -0.001f, 0.0f, 0.5f, 1.0f, 1.001f, 2.0f, 1e30f}); int th = k.pick({-2147483647 - 1, -1, 0, 1, 2147483647}), lim = k.pick({-2147483647 - 1, -1, 0, 1, 2147483647}), conf = k.pick({-2147483647 - 1, -1, 0, 1, 2, 3, 2147483647}); bool ok = min >= 0 && min <= 1 && th >= 1 && lim >= 1;
  VV all = ref::all_entries(4, 2); std::string stage = "construction"; bool r = refused([&] { api::Clus c(2, min, th, lim, json{{"confidence", conf}}); stage = "training"; c.train(all, VS(16, "a")); c.trainUnsupervised(all); c.classify(all); c.classifyUnsupervised(all); api::Clus d(c.json_()); d.train(all, VS(16, "b")); d.classify(all); });
  k.step(6); k.log("min ", min, " threshold ", th, " limit ", lim, " confidence ", conf); bool want = !ok || conf > 2; REQUIRE("refused", r == want, "min ", min, " threshold ", th, " limit ", lim, " confidence ", conf, " was ", r ? "refused" : "accepted"); if (!ok) REQUIRE("late", stage == "construction", "refused only in ", stage); k.state(str(min, th, lim, conf));
}
SUITE(confidence) { int conf = k.pick({-2147483647 - 1, -1, 0, 1, 2, 3, 4, 2147483647}), E = k.pick({4, 5, 6}); bool comp = k.flip(), bl = k.flip(); int rams = comp ? (E + 1) / 2 : E / 2; VV xs = {V(E, 0), V(E, 1)}; api::Wis w(2, json{{"confidence", conf}, {"completeAddressing", comp}, {"bleachingActivated", bl}}); bool r = refused([&] { w.train(xs, VS{"a", "b"}); }); REQUIRE("refused", r == (conf > rams), "confidence ", conf, " with ", rams, " RAMs was ", r ? "refused" : "accepted"); if (!r) { w.classify(xs); w.getMentalImages(); } else { REQUIRE("trace", json::parse(w.json_())["classes"].is_null(), "the refused training made a class"); api::Data d; d.add(VSh(E, 1), "a"); REQUIRE("refused", refused([&] { w.train(d); }), "packed training accepted confidence ", conf); } k.step(3); k.state(str(conf, E, comp, bl)); }
// index lists and mappings of any content
SUITE(addressings) {
  static const V P = {-2147483647 - 1, -1, 0, 1, 2, 3, 2147483647}; int len = k.choose(5); V l; for (int i = 0; i < len; i++) l.push_back(k.pick(P)); int kind = k.choose(6); int cut = len ? k.choose(len + 1) : 0; VV m = {V(l.begin(), l.begin() + cut), V(l.begin() + cut, l.end())}; if (kind & 1 && cut != 0 && cut != len) m.push_back(V()); bool good = true; for (int x : l) good = good && x >= 0 && x < 3;
  VV all = ref::all_entries(3, 2); std::set<int> distinct(l.begin(), l.end()); bool idx = kind < 2;
  bool r = refused([&] {
    if (kind == 0) { api::Disc d(3, 3, json{{"indexes", l}}); d.train(all); for (auto& x : all) d.classify(x); d.json_(); }
    if (kind == 1) { api::Wis w(3, json{{"indexes", l}}); w.train(all, VS(8, "a")); w.classify(all); w.getMentalImages(); w.json_(); }
    if (kind == 2 || kind == 3) { api::Disc d(2, 3, json{{"mapping", m}}); d.train(all); for (auto& x : all) d.classify(x); api::Disc e(d.json_()); e.classify(all[1]); }
    if (kind >= 4) { api::Wis w(2, json{{"mapping", {{"a", m}}}}); w.train(all, VS(8, "a")); w.leaveOneOut(all[0], "a"); w.classify(all); w.getMentalImages(); api::Wis v(w.json_()); v.classify(all); }
  });
  k.step(10); k.log(idx ? "indexes " + str(l) : "mapping " + str(m)); k.state(str(kind, l, m));
  if (idx) { if (!l.empty()) { bool ok = good && len == 3 && distinct.size() == 3; REQUIRE("refused", r == !ok, "indexes ", str(l), " were ", r ? "refused" : "accepted"); } }
  else if (!good) REQUIRE("refused", r, "the mapping ", str(m), " was accepted");
}
// untraining what was never trained: nobody says what then, but nothing breaks
SUITE(overdrawn) {
  const DC& c = wis_confs()[k.choose((int)wis_confs().size())]; api::Wis w(c.n, c.o); VV all = ref::all_entries(c.E, c.base()), p = pool3(all); int depth = k.thorough ? 5 : 4; k.log("Wisard(", c.n, ",", c.o.dump(), ")");
  for (int i = 0; i < depth; i++) { int op = k.choose(5); k.log("step ", op); if (op < 2) w.train(VV{p[op]}, VS{"a"}); else { bool r = refused([&] { w.leaveOneOut(p[op - 2], "a"); }); (void)r; } refused([&] { w.classify(all); }); refused([&] { w.getMentalImages(); }); std::string t; if (!refused([&] { t = w.json_(); })) refused([&] { api::Wis v(t); v.classify(all); }); k.step(5); }
}
// whatever number of classes there is, a wrong entry is refused under each label, old or new, and nothing of it stays
template <typename M> static void among(Ctx& k, M& a, M& b, int classes, int form, const V& x, const std::string& l, const VV& all, int base) {
  VV xs; VS ys; for (int i = 0; i < classes; i++) { xs.push_back(all[(i * 5 + 1) % all.size()]); ys.push_back("m" + std::to_string(i)); } constant(); a.train(xs, ys); constant(); b.train(xs, ys);
  std::string what = str("training ", str(x), " as '", l, "' with ", classes, " classes"); VV in; VS il; if (form == 1) { in.push_back(all[1]); il.push_back("m0"); constant(); b.train(in, il); } in.push_back(x); il.push_back(l); if (form == 2) { in.push_back(all[3]); il.push_back(l); } k.log(what);
  constant(); bool r = refused([&] { a.train(in, il); }); REQUIRE("accepted", r, what, " was not refused"); k.step(4); std::string g, w; bool lost = refused([&] { g = obs::of(a, all, base == 2); }); w = obs::of(b, all, base == 2); REQUIRE("trace", !lost && g == w, what, " left a trace: ", obs::diff(g, w)); k.state(g);
}
SUITE(crowd) {
  int classes = k.pick({0, 1, 2, 3, 4, 5, 9}), kind = k.choose(2), opt = k.choose(2), form = k.choose(3); int base = opt ? 3 : 2, E = 4; json o = opt ? json{{"base", 3}, {"ignoreZero", true}} : json::object(); VV all = ref::all_entries(E, base); VS labels = {"a", "z", "m0", "m" + std::to_string(classes / 2), "m" + std::to_string(classes)};
  std::string l = k.pick(labels); VV bad = bad_entries(all[2], base, true); V x = k.pick(bad); if (classes == 0 && form != 1 && (int)x.size() >= 2 && (int)x.size() != E) return;   // the first entry says how large entries are
  constant(); if (kind) { api::Clus a(2, 0.5f, 3, 2, o), b(2, 0.5f, 3, 2, o); among(k, a, b, classes, form, x, l, all, base); } else { api::Wis a(2, o), b(2, o); among(k, a, b, classes, form, x, l, all, base); }
}
