// C14: packed and list entries are the same entries.
#include "confs.hpp"
using namespace mc;

// the forms of one entry
static api::Bin pack(const V& x, int how) {
  if (how == 0) return api::Bin(ref::shorts(x));
  if (how == 1) { api::Bin b((ull)x.size()); for (size_t i = x.size(); i-- > 0;) { b.set(i, 1); b.set(i, x[i]); } return b; }
  return api::Bin(api::Bin(ref::shorts(x)).data());
}
static api::Data data(const VV& xs, const VS* ys, int how, const std::string& dir) {
  api::Data d;
  for (size_t i = 0; i < xs.size(); i++) { if (how == 3) { if (ys) d.add(ref::shorts(xs[i]), (*ys)[i]); else d.add(ref::shorts(xs[i])); } else { api::Bin b = pack(xs[i], how % 3); if (ys) d.add(b, (*ys)[i]); else d.add(b); } }
  if (how == 4) { d.save(dir + "t"); return api::Data(dir + "t.wpkds"); }
  return d;
}
static void same(Ctx& k, api::Disc& a, api::Disc& b, const VV& all, const char* when) {   // a learned from lists, b from a mixture
  std::string x = ref::canon(a.json_()), y = ref::canon(b.json_()); REQUIRE("content", x == y, when, ": trained packed it knows ", obs::diff(x, y));
  for (size_t i = 0; i < all.size(); i++) { V v = a.classify(all[i]), w = a.classify(pack(all[i], (int)i % 3)), u = b.classify(all[i]), t = b.classify(pack(all[i], (int)(i + 1) % 3));
    REQUIRE("votes", v == w, when, ": ", str(all[i]), " gets ", str(v), " but packed ", str(w)); REQUIRE("votes-mixed", v == u && v == t, when, ": ", str(all[i]), " gets ", str(v), " but trained packed ", str(u), " and both packed ", str(t)); }
  k.step(4 * all.size()); k.state(x);
}
static void same(Ctx& k, api::Wis& a, api::Wis& b, const VV& all, const std::string& dir, const char* when) {
  std::string x = ref::canon(a.json_()), y = ref::canon(b.json_()); REQUIRE("content", x == y, when, ": trained packed it knows ", obs::diff(x, y));
  VS v = a.classify(all), u = b.classify(all); REQUIRE("answers-mixed", v == u, when, ": answers ", obs::show(v), " but trained packed ", obs::show(u));
  for (int how = 0; how < (dir.empty() ? 4 : 5); how++) { api::Data d = data(all, nullptr, how, dir); VS w = a.classify(d), t = b.classify(d); REQUIRE("answers", v == w && v == t, when, ": answers ", obs::show(v), " but packed ", obs::show(w), " and trained packed too ", obs::show(t)); }
#ifdef MC_BACKEND_PY
  std::string f = obs::full(a, all), g = api::from_py(b.full(data(all, nullptr, 0, dir))).dump(); REQUIRE("degrees", f == g, when, ": ", obs::diff(f, g));
#endif
  REQUIRE("images", a.getMentalImages() == b.getMentalImages(), when, ": mental images differ"); k.step(12 * all.size()); k.state(x);
}
SUITE(discriminators) {
  const DC& c = disc_confs()[k.choose((int)disc_confs().size())]; if (c.base() != 2) return; api::Disc a(c.n, c.E, c.o); api::Disc b(a.json_()); VV all = ref::all_entries(c.E, 2); VV pool = pool3(all); int depth = k.thorough ? 5 : PY ? 3 : 4; k.log("Discriminator(", c.n, ",", c.E, ",", c.o.dump(), ")");
  for (int i = 0; i < depth; i++) { int w = k.choose(3), how = k.choose(4); a.train(pool[w]); if (how == 3) b.train(pool[w]); else b.train(pack(pool[w], how)); k.step(2); k.log("train ", str(pool[w]), " in form ", how); same(k, a, b, all, "after a step"); }
}
SUITE(wisards) {
  const DC& c = wis_confs()[k.choose((int)wis_confs().size())]; if (c.base() != 2) return; api::Wis a(c.n, c.o), b(c.n, c.o); VV all = ref::all_entries(c.E, 2); VV pool = pool3(all); VS ls = {"a", "b"}; int depth = k.thorough ? 4 : 3; k.log("Wisard(", c.n, ",", c.o.dump(), ")"); std::string dir = k.dir();
  for (int i = 0; i < depth; i++) {
    int w = k.choose(3), l = k.choose(2), how = k.thorough ? k.choose(6) : PY ? k.pick({0, 3, 5}) : k.pick({0, 3, 4, 5}); VV xs = {pool[w], pool[(w + 1) % 3]}; VS ys = {ls[l], w == 1 ? ls[1 - l] : ls[l]};
    rand_hook = ref::stream(i & 1); a.train(xs, ys); rand_hook = ref::stream(i & 1);
    if (how == 5) b.train(xs, ys); else { api::Data d = data(xs, &ys, how, dir); rand_hook = ref::stream(i & 1); b.train(d); }
    rand_hook = nullptr; k.step(2); k.log("train ", str(xs), " as ", obs::show(ys), " in form ", how); same(k, a, b, all, i == depth - 1 ? dir : std::string(), "after a step");
  }
}
// entries repeated within one call, under one label or several
SUITE(repeats) {
  int E = k.pick({3, 7, 8, 9, 16}), N = k.thorough ? 5 : 4; VV pool; for (int i = 0; i < 3; i++) { V x(E); for (int j = 0; j < E; j++) x[j] = i == 2 ? 1 : (j + i) % 2; pool.push_back(x); }
  VV xs; VS ys; for (int i = 0; i < N; i++) { xs.push_back(pool[k.choose(i < 2 ? 3 : 2)]); ys.push_back(k.flip() ? "b" : "a"); } int form = k.pick({0, 2, 3});
  api::Wis a(2, json{{"ignoreZero", E == 9}}), b(2, json{{"ignoreZero", E == 9}}); rand_hook = ref::stream(0); a.train(xs, ys); api::Data d = data(xs, &ys, form, ""); rand_hook = ref::stream(0); b.train(d); rand_hook = nullptr; k.step(2); k.log("train ", str(xs), " as ", obs::show(ys)); same(k, a, b, xs, "", "repeats");
}
// every entry size
SUITE(lengths) {
  static const V longer = {127, 128, 129, 255, 256, 257, 1000, 4097}; int c = k.choose(70 + (int)longer.size()); int E = c < 70 ? c + 2 : longer[c - 70]; int n = k.pick({2, 3, 8, 16, 33, 64}); if (n > E) return; bool comp = k.flip(); int mix = k.choose(3);
  VV xs; for (int i = 0; i < 6; i++) { V x(E); for (int j = 0; j < E; j++) x[j] = i == 0 ? 0 : i == 1 ? 1 : i == 2 ? j + 1 == E : (i * j * j + j / 3 + i) >> 1 & 1; xs.push_back(x); }
  json o = {{"completeAddressing", comp}}; api::Disc a(n, E, o); api::Disc b(a.json_());
  for (int i = 0; i < 5; i++) { a.train(xs[i]); if ((i + mix) % 3 == 0) b.train(xs[i]); else b.train(pack(xs[i], (i + mix) % 3)); }
  same(k, a, b, xs, "sizes"); VS ys = {"a", "b", "a", "c", "b", "a"};
  api::Wis u(n, o), v(n, o); rand_hook = ref::stream(0); u.train(xs, ys); api::Data d = data(xs, &ys, mix, ""); rand_hook = ref::stream(0); v.train(d); rand_hook = nullptr; same(k, u, v, xs, "", "sizes"); k.step(4); k.log("entry size ", E, " address size ", n);
}
// explicit addressings over the bits of one to three bytes, every entry with one or two bits set
SUITE(positions) {
  int E = k.pick({5, 8, 9, 16, 23}); int n = k.pick({2, 4}); int shift = k.choose(E); VV m; for (int i = 0; i < E; i += 1) { V r; for (int j = 0; j < n; j++) r.push_back((i * (j + 1) + shift) % E); m.push_back(r); } json o = {{"mapping", m}};
  api::Disc a(2, E, o), b(2, E, o); VV xs; for (int i = 0; i < E; i++) for (int j = i; j < E; j += 3) { V x(E, 0); x[i] = 1; x[j] = 1; xs.push_back(x); }
  for (size_t i = 0; i < xs.size(); i += 2) { a.train(xs[i]); b.train(pack(xs[i], (int)i % 3)); } k.step(xs.size()); same(k, a, b, xs, "positions"); k.log("entry size ", E);
}
// calls of 0 to 3 entries to a model of 0 to 4 classes: under a known label, a new one, several
SUITE(calls) {
  static const VS L = {"a", "b", "c", "d"}; int known = k.choose(5), n = k.choose(4), to = k.choose(4), form = k.pick({0, 2, 3}), opt = k.choose(3), E = k.pick({4, 9}); json o = json::object(); if (opt == 1) o = {{"ignoreZero", true}, {"verbose", true}}; if (opt == 2) o = {{"completeAddressing", false}, {"bleachingActivated", false}, {"confidence", 2}};
  VV all; for (int i = 0; i < 7; i++) { V x(E); for (int j = 0; j < E; j++) x[j] = (Ctx::mix(i * 31 + j) >> 7) & 1; all.push_back(x); } api::Wis a(2, o), b(2, o); k.log(known, " classes known, then ", n, " entries");
  for (int i = 0; i < known; i++) { rand_hook = ref::stream(i & 1); a.train(VV{all[i]}, VS{L[i]}); rand_hook = ref::stream(i & 1); VV x{all[i]}; VS y{L[i]}; api::Data d = data(x, &y, form, ""); rand_hook = ref::stream(i & 1); b.train(d); } rand_hook = nullptr;
  same(k, a, b, all, "", "one at a time"); VV xs; VS ys; for (int i = 0; i < n; i++) { xs.push_back(all[4 + (i * i) % 3]); ys.push_back(to == 0 ? "a" : to == 1 ? "new" : to == 2 ? std::string(L[i]) : i % 2 ? "new" : "d"); }
  rand_hook = ref::stream(0); a.train(xs, ys); api::Data d = data(xs, &ys, form, ""); rand_hook = ref::stream(0); b.train(d); rand_hook = nullptr; k.step(4); same(k, a, b, all, "", "a call");
  VS u = n ? a.classify(xs) : VS(); api::Data q = data(xs, nullptr, form, ""); REQUIRE("answers", b.classify(q) == u, "a call of ", n, " entries is answered differently");
}
