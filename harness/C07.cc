// C07: a model restored from its json is the same model.
#include "confs.hpp"
using namespace mc;

template <typename M> static void same(Ctx& k, M& a, M& b, const VV& all, bool bits, const char* when) {
  std::string x = obs::of(a, all, bits), y = obs::of(b, all, bits); k.step(2 * all.size() + 8);
  REQUIRE("differs", x == y, when, ": original and restored model differ: ", obs::diff(x, y));
  k.state(x);
}
template <typename M> static M restored(Ctx& k, M& a, const VV& all, bool bits, const char* when) {
  std::string t = a.json_(); M b(t); k.step(2);
  std::string u = b.json_();
  REQUIRE("saved", ref::canon(t) == ref::canon(u), when, ": saved content changes: ", obs::diff(ref::canon(t), ref::canon(u)));
  same(k, a, b, all, bits, when);
  return b;
}

SUITE(discriminators) {
  const DC& c = disc_confs()[k.choose((int)disc_confs().size())]; k.log("Discriminator(", c.n, ",", c.E, ",", c.o.dump(), ")");
  api::Disc a(c.n, c.E, c.o); VV all = ref::all_entries(c.E, c.base()); bool bits = c.base() == 2; VV pool = pool3(all);
  api::Disc b = restored(k, a, all, bits, "untrained");
  int depth = k.thorough ? 6 : PY ? 4 : 5;
  for (int i = 0; i < depth; i++) {
    int w = k.choose(5 + (PY ? 0 : 1));
    if (w < 3) { a.train(pool[w]); b.train(pool[w]); k.log("train ", str(pool[w])); }
    else if (w == 3) { VV l = {pool[1], pool[0], pool[1]}; a.train(l); b.train(l); k.log("train ", str(l)); }
    else if (w == 4) { b = restored(k, b, all, bits, "restored again"); k.log("restore again"); continue; }
#ifdef MC_BACKEND_CPP
    else { if (i == 0) return; a.untrain(pool[0]); b.untrain(pool[0]); k.log("untrain ", str(pool[0])); if (a.getNumberOfTrainings() < 0) return; }
#endif
    k.step(2); same(k, a, b, all, bits, "after a step"); restored(k, a, all, bits, "restored after a step");
  }
}
SUITE(wisards) {
  const DC& c = wis_confs()[k.choose((int)wis_confs().size())]; k.log("Wisard(", c.n, ",", c.o.dump(), ")");
  api::Wis a(c.n, c.o); VV all = ref::all_entries(c.E, c.base()); bool bits = c.base() == 2; VV pool = pool3(all);
  api::Wis b = restored(k, a, all, bits, "untrained");
  auto fresh = [&](const std::string& l) { return !(c.o.count("indexes") || (c.o.count("mapping") && c.o["mapping"].count(l))); };
  std::set<std::string> seen; std::multiset<std::pair<std::string, V>> known; int depth = k.thorough ? 5 : PY ? 3 : 4;
  for (int i = 0; i < depth; i++) {
    int w = k.choose(9); bool random = false;
    if (w < 6) { std::string l = w < 3 ? "a" : "b"; V x = pool[w % 3]; random = fresh(l) && !seen.count(l); seen.insert(l); known.insert({l, x}); a.train(VV{x}, VS{l}); b.train(VV{x}, VS{l}); k.log("train ", str(x), " as ", l); }
    else if (w == 6) { if (!bits) return; for (auto l : {"b", "c"}) { random = random || (fresh(l) && !seen.count(l)); seen.insert(l); known.insert({l, pool[2]}); } api::Data d; d.add(ref::shorts(pool[2]), "b"); d.add(ref::shorts(pool[2]), "c"); a.train(d); b.train(d); k.log("train DataSet"); }
    else if (w == 7) { if (known.empty()) return; auto e = *known.begin(); known.erase(known.begin()); a.leaveOneOut(e.second, e.first); b.leaveOneOut(e.second, e.first); k.log("untrain ", str(e.second), " as ", e.first); }
    else { if (i == 0) return; b = restored(k, b, all, bits, "restored again"); k.log("restore again"); continue; }
    k.step(2);
    if (random) b = restored(k, a, all, bits, "restored after a new class");
    else { same(k, a, b, all, bits, "after a step"); restored(k, a, all, bits, "restored after a step"); }
  }
}
SUITE(cluswisards) {
  const CC& c = clus_confs()[k.choose((int)clus_confs().size())]; k.log("ClusWisard(", c.n, ",", c.min, ",", c.th, ",", c.lim, ",", c.o.dump(), ")");
  api::Clus a(c.n, c.min, c.th, c.lim, c.o); VV all = ref::all_entries(c.E, c.base()); VV pool = pool3(all);
  api::Clus b = restored(k, a, all, false, "untrained"); int depth = k.thorough ? 5 : PY ? 3 : 4; bool any = false;
  for (int i = 0; i < depth; i++) {
    int w = k.choose(10); std::string before = obs::shape(a);
    if (w < 6) { std::string l = w < 3 ? "a" : "b"; a.train(VV{pool[w % 3]}, VS{l}); b.train(VV{pool[w % 3]}, VS{l}); any = true; k.log("train ", str(pool[w % 3]), " as ", l); }
    else if (w == 6) { std::map<int, std::string> m{{1, "b"}}; a.train(VV{pool[0], pool[1]}, m); b.train(VV{pool[0], pool[1]}, m); any = true; k.log("train with {1:b}"); }
    else if (w < 9) { a.trainUnsupervised(VV{pool[w - 6]}); b.trainUnsupervised(VV{pool[w - 6]}); k.log("train unsupervised ", str(pool[w - 6])); }
    else { if (i == 0) return; b = restored(k, b, all, false, "restored again"); k.log("restore again"); continue; }
    k.step(2); std::string sa = obs::shape(a), sb = obs::shape(b);
    REQUIRE("grows", sa == sb || (w == 6), "the original has ", sa, ", the restored one ", sb);
    if (sa != before) b = restored(k, a, all, false, "restored after a new discriminator");
    else { same(k, a, b, all, false, "after a step"); restored(k, a, all, false, "restored after a step"); }
  }
}
// labels of any text, classes in any number
SUITE(labels) {
  VV all = ref::all_entries(3, 2); bool clus = k.flip(); const std::string& l1 = k.pick(ODD); const std::string& l2 = k.pick(ODD); VV xs = {all[1], all[6], all[7]}; VS ys = {l1, l2, l1};
  k.log("labels ", obs::show(ys));
  if (!clus) { api::Wis a(2, json{{"indexes", {1, 2, 0}}}); a.train(xs, ys); k.step(); api::Wis b = restored(k, a, all, true, "odd labels"); a.train(xs, VS{l2, l2, l1}); b.train(xs, VS{l2, l2, l1}); same(k, a, b, all, true, "trained on"); }
  else { api::Clus a(3, 0.2f, 5, 12, {}); a.train(xs, ys); a.train(all, VS(all.size(), l2)); k.step(2); restored(k, a, all, false, "odd labels"); }
}
// cells with any address and value, any example count, through the saved text
SUITE(cells) {
  static const std::vector<ull> addr = {0, 1, 2, 255, 256, 65535, 1ull << 31, (1ull << 32) - 1, 1ull << 32, 1ull << 53, (1ull << 53) + 1, 1ull << 62, 1ull << 63, ~0ull - 1, ~0ull};
  static const V vals = {1, 2, 127, 128, 255, 256, 65535, 65536, 16777216, 2147483646, 2147483647};
  Cells c1, c2; int ai = k.choose((int)addr.size()), vi = k.choose((int)vals.size()); c1[addr[ai]] = vals[vi]; c1[addr[(ai + 1 + vi) % addr.size()]] = 3; int second = k.choose((int)addr.size() + 1); if (second) c2[addr[second - 1]] = vals[(vi + second) % vals.size()];
  V m; for (int i = 0; i < 64; i++) m.push_back(i); int count = k.pick({0, 1, 2147483647});
  json d = {{"entrySize", 64}, {"mapping", VV{m, m, {}}}, {"count", count}, {"data", ref::pack_cells(c1) + "." + ref::pack_cells(c2) + "."}, {"ignoreZero", false}, {"base", 2}};
  std::string want = ref::canon(d.dump()); k.step(4);
  std::string got;
  if (k.flip()) { api::Disc a(d.dump()); got = a.json_(); api::Disc b(got); std::string g2 = b.json_(); REQUIRE("cells-again", ref::canon(g2) == ref::canon(got), obs::diff(g2, got)); got = ref::canon(got); want = ref::canon(json::parse(want.empty() ? "{}" : d.dump()).dump()); json j = json::parse(a.json_()); got = ref::canon_disc(j); want = ref::canon_disc(d); }
  else { api::Wis e(2, json{{"base", 2}}); json w = json::parse(e.json_()); w["classes"] = {{"a", d}}; api::Wis a(w.dump()); json j = json::parse(a.json_()); got = ref::canon_disc(j["classes"]["a"]); want = ref::canon_disc(d); }
  REQUIRE("cells", got == want, obs::diff(want, got)); k.state(want);
}
// larger models
SUITE(scale) {
  int what = k.choose(3), E = k.pick({8, 17, 64, 257, 1024}), n = k.pick({2, 5, 16, 60}), N = k.pick({1, 30, 300}); if (n > E || (PY && E * N > 40000)) return; int base = k.pick({2, 3, 10}); if (base == 3 && n > 40) return; if (base == 10 && n > 19) return;
  VV xs; VS ys; for (int i = 0; i < N; i++) { V x(E); for (int j = 0; j < E; j++) x[j] = (i * i * 7 + j * (i % 5 + 1) + (j >> 2)) % base; xs.push_back(x); ys.push_back(std::string("class") + std::to_string(i % 12)); }
  VV some(xs.begin(), xs.begin() + std::min(N, 8)); json o = {{"base", base}}; bool bits = base == 2;
  if (what == 0) { api::Disc a(n, E, o); a.train(xs); api::Disc b = restored(k, a, some, bits, "large"); a.train(some); b.train(some); same(k, a, b, some, bits, "large, trained on"); }
  else if (what == 1) { api::Wis a(n, o); a.train(xs, ys); api::Wis b = restored(k, a, some, bits, "large"); VS l(some.size(), "class0"); a.train(some, l); b.train(some, l); same(k, a, b, some, bits, "large, trained on"); }
  else { if (N > 30 && E > 300) return; bool many = k.flip(); if (many) for (int i = 0; i < N; i++) { ys[i] = i % 3 ? "a" : "b"; for (int j = 0; j < E; j++) xs[i][j] = (xs[i][j] + (i >> j % 9)) % base; } api::Clus a(n, many ? 1.0f : 0.4f, many ? 1 : 3, many ? 13 : 11, o); a.train(xs, ys); a.trainUnsupervised(xs); restored(k, a, some, false, "large"); }
  k.step(N);
}
// options and sizes around the powers of two; the random answers are constant, so that original and restored model can go on together even where they open something new
SUITE(options) {
  int what = k.choose(4); static const std::vector<float> SCORES = {0.0f, 0.1f, 0.3f, 0.6f, 1.0f}; static const V NUM = {1, 2, 255, 256, 257, 258, 32767, 32768, 65535, 65536, 65537, 65538, 16777217, 2147483647}; auto constant = [] { rand_hook = [] { return 0; }; }; constant();
  if (what == 0) {
    int th = k.pick(NUM), lim = k.pick(NUM); float min = k.pick(SCORES); int E = 6, how = k.choose(3); VV all = ref::all_entries(E, 2), xs; for (int i : {0, 63, 5, 56, 7, 33, 62, 0, 63, 21}) xs.push_back(all[i]); k.log("ClusWisard(2,", min, ",", th, ",", lim, ")");
    api::Clus a(2, min, th, lim, how == 1 ? json{{"ignoreZero", true}} : json::object()); if (how == 2) a.trainUnsupervised(VV{xs[0]}); else a.train(VV{xs[0]}, VS{"a"}); constant(); api::Clus b = restored(k, a, xs, false, "options");
    for (size_t i = 1; i < xs.size(); i++) { constant(); if (how == 2) a.trainUnsupervised(VV{xs[i]}); else a.train(VV{xs[i]}, VS{"a"}); constant(); if (how == 2) b.trainUnsupervised(VV{xs[i]}); else b.train(VV{xs[i]}, VS{"a"}); k.step(2); same(k, a, b, xs, false, "options, trained on"); }
  } else if (what == 3) {      // every score is kept as it is
    static const std::vector<float> FINE = {1e-3f, 1e-4f, 1e-7f, 1e-30f, 1.17549435e-38f, 1e-45f, 1.0f / 3, 2.0f / 3, 0.1f, 0.123456789f, 0.33333f, 0.666f, 0.9999f, 0.99999994f, 0.05f, 0.0625f, 0.7071067811f}; float min = k.pick(FINE); int th = k.pick({1, 3, 1000}); k.log("ClusWisard(2,", min, ",", th, ",3)"); api::Clus a(2, min, th, 3, json()); VV all = ref::all_entries(6, 2), xs = {all[0], all[63], all[5], all[31], all[33]}; if (k.flip()) a.train(VV{xs[0]}, VS{"a"});
    constant(); api::Clus b = restored(k, a, xs, false, "scores"); REQUIRE("score", json::parse(a.json_())["minScore"].get<float>() == min && json::parse(a.jsonConfig())["minScore"].get<float>() == min && json::parse(b.json_())["minScore"].get<float>() == min, "the minimal score ", json(min).dump(), " is saved as ", json::parse(a.json_())["minScore"].dump());
    for (auto& x : xs) { constant(); a.train(VV{x}, VS{"a"}); constant(); b.train(VV{x}, VS{"a"}); k.step(2); same(k, a, b, xs, false, "scores, trained on"); }
  } else if (what == 1) {
    int base = k.pick(NUM), E = 4; if (base < 2) return; bool z = k.flip(), bl = k.flip(); int conf = k.pick({-1, 0, 1, 2}); json o = {{"base", base}, {"ignoreZero", z}, {"bleachingActivated", bl}, {"confidence", conf}}; k.log("Wisard ", o.dump()); V p = {0, base - 1, base / 2, 1}; VV xs; for (int i = 0; i < 4; i++) xs.push_back(V{p[i], p[(i + 1) % 4], p[(i * i) % 4], p[3 - i]});
    api::Wis a(2, o); a.train(xs, VS{"a", "b", "a", "c"}); api::Wis b = restored(k, a, xs, false, "options"); for (auto& x : xs) { constant(); a.train(VV{x}, VS{"b"}); constant(); b.train(VV{x}, VS{"b"}); same(k, a, b, xs, false, "options, trained on"); }
    api::Disc d(2, E, json{{"base", base}, {"ignoreZero", z}}); d.train(xs); api::Disc e = restored(k, d, xs, false, "options"); d.train(xs[1]); e.train(xs[1]); same(k, d, e, xs, false, "options, trained on");
  } else {
    int E = k.pick({256, 257, 300, 32768, 32769, 65536, 65537, 66000, 70000}); VV m = {{E - 1, 0}, {E / 2, 255, E - 2}, {E - 1}}; json o = {{"mapping", m}}; k.log("entry size ", E); VV xs; for (int i = 0; i < 4; i++) { V x(E, 0); x[E - 1] = i & 1; x[E / 2] = i >> 1; x[255] ^= 1; xs.push_back(x); }
    if (k.flip()) { api::Disc a(2, E, o); a.train(VV(xs.begin(), xs.begin() + 3)); api::Disc b = restored(k, a, xs, true, "large entries"); a.train(xs[3]); b.train(xs[3]); same(k, a, b, xs, true, "large entries, trained on"); }
    else { api::Wis a(2, json{{"mapping", {{"a", m}, {"b", VV{{0}, {E - 1, E / 2}}}}}}); a.train(xs, VS{"a", "b", "a", "b"}); api::Wis b = restored(k, a, xs, true, "large entries"); a.train(VV{xs[3]}, VS{"a"}); b.train(VV{xs[3]}, VS{"a"}); same(k, a, b, xs, true, "large entries, trained on"); }
  }
}
// what was asked for is what a restored model has, however much it knows
template <typename M> static void kept(Ctx& k, M& m, const json& o) {
  for (int w = 0; w < 2; w++) { json j = json::parse(w ? m.jsonConfig() : m.json_()); for (auto it = o.begin(); it != o.end(); ++it) if (it.key() != "searchBestConfidence") REQUIRE("option", j.count(it.key()) && j[it.key()] == it.value(), "a model restored from one made with ", o.dump(), " says ", it.key(), " is ", j.count(it.key()) ? j[it.key()].dump() : "nothing", w ? " in its configuration" : " in its JSON"); }
}
// every set of switches, with 0 to 4 classes learned, labelled and not
SUITE(switches) {
  static const char* const B[] = {"bleachingActivated", "verbose", "ignoreZero", "completeAddressing", "returnConfidence", "returnActivationDegree", "returnClassesDegrees"};
  int kind = k.choose(2), bits = k.choose(128), classes = k.choose(5), un = kind ? k.choose(3) : 0; if (PY && !k.thorough && classes % 2) return; int conf = bits % 3, base = 2 + bits % 2; json o = {{"confidence", conf}, {"base", base}}; for (int i = 0; i < 7; i++) o[B[i]] = (bool)(bits >> i & 1);
  VV xs; for (int i = 0; i < 5; i++) { V x(6, 0); for (int j = 0; j < i; j++) x[j] = 1; xs.push_back(x); } VS ls; for (int i = 0; i < classes; i++) ls.push_back(std::string(1, (char)('a' + i))); VV in(xs.begin(), xs.begin() + classes); rand_hook = [] { return 0; }; k.log(kind ? "ClusWisard " : "Wisard ", o.dump(), ", ", classes, " classes, ", un, " unlabelled entries");
  if (!kind) { api::Wis a(2, o); a.train(in, ls); kept(k, a, o); api::Wis b(a.json_()), c(a.jsonConfig()), d(b.json_()); kept(k, b, o); kept(k, c, o); kept(k, d, o); REQUIRE("switches", ref::canon(a.json_()) == ref::canon(d.json_()), "restored twice it differs: ", obs::diff(ref::canon(a.json_()), ref::canon(d.json_()))); }
  else { api::Clus a(2, 0.5f, 3, 4, o); a.train(in, ls); a.trainUnsupervised(VV(xs.begin(), xs.begin() + un)); kept(k, a, o); api::Clus b(a.json_()), c(a.jsonConfig()), d(b.json_()); kept(k, b, o); kept(k, c, o); kept(k, d, o); REQUIRE("switches", ref::canon(a.json_()) == ref::canon(d.json_()), "restored twice it differs: ", obs::diff(ref::canon(a.json_()), ref::canon(d.json_()))); }
  k.step(12); k.state(o.dump() + str(kind, classes, un));
}
// a ClusWisard with every option, restored in the middle of its training and trained on with clusters opening on both sides (the random answers are constant)
SUITE(going_on) {
  static const std::vector<json> OPTS = {json::object(), {{"ignoreZero", true}}, {{"completeAddressing", false}}, {{"base", 3}}, {{"bleachingActivated", false}}, {{"base", 3}, {"ignoreZero", true}}, {{"completeAddressing", false}, {"ignoreZero", true}, {"bleachingActivated", false}}, {{"confidence", 2}, {"ignoreZero", true}}, {{"returnConfidence", true}, {"returnClassesDegrees", true}, {"verbose", true}}};
  const json& o = OPTS[k.choose((int)OPTS.size())]; int base = o.count("base") ? 3 : 2, E = base == 3 ? 3 : 5; float min = k.pick({0.2f, 0.6f, 1.0f}); int th = k.pick({1, 3}), lim = k.pick({2, 6}), how = k.choose(3), at = k.choose(PY ? 3 : 5), start = k.choose(PY && !k.thorough ? 1 : 3);
  VV all = ref::all_entries(E, base), xs; for (int i = 0; i < 8; i++) xs.push_back(all[(start * 5 + i * (start == 2 ? 3 : 7) + (i == 4 ? 1 : 0)) % all.size()]); xs.push_back(all[0]); xs.push_back(xs[1]);
  auto constant = [] { rand_hook = [] { return 0; }; }; constant(); k.log("ClusWisard(2,", min, ",", th, ",", lim, ",", o.dump(), "), restored after ", at);
  auto teach = [&](api::Clus& c, size_t i) { constant(); int w = how == 2 ? (int)(i % 3) : how; if (w == 0) c.train(VV{xs[i]}, VS{i % 4 == 3 ? "b" : "a"}); else if (w == 1) c.trainUnsupervised(VV{xs[i]}); else { std::map<int, std::string> m{{1, "c"}}; c.train(VV{xs[i], xs[i / 2]}, m); } k.step(); };
  api::Clus a(2, min, th, lim, o); size_t done = 0; for (; (int)done < at; done++) teach(a, done);
  constant(); api::Clus b = restored(k, a, all, false, "in the middle"); kept(k, b, o);
  for (; done < xs.size(); done++) { teach(a, done); teach(b, done); if (done + 1 == xs.size() || done % 3 == 0) same(k, a, b, all, false, "going on"); }
}
