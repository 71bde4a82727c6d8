// C01: per-RAM occurrence counts are exact.
#include "ref.hpp"
using namespace mc;

static void same(Ctx& k, api::Disc& d, const ref::Disc& r, const V& x, bool bits, const char* when) {
  V want = r.votes(x), got = d.classify(x);
  k.step();
  REQUIRE("votes", got == want, when, ": classify(", str(x), ") = ", str(got), ", the reference says ", str(want), " for ", r.show());
  if (bits) {
    V gb = d.classify(api::Bin(ref::shorts(x))); k.step();
    REQUIRE("votes-bin", gb == want, when, ": classify(BinInput ", str(x), ") = ", str(gb), ", the reference says ", str(want));
  }
}

// how: 0 list, 1 list of one entry, 2 BinInput
static void train(Ctx& k, api::Disc& d, ref::Disc& r, const V& x, int how) {
  k.log("train ", str(x), how == 0 ? "" : how == 1 ? " (in a list)" : " (BinInput)");
  if (how == 0) d.train(x); else if (how == 1) d.train(VV{x}); else d.train(api::Bin(ref::shorts(x)));
  r.train(x); k.step();
}

struct Conf { int n, E, base; bool z; json opt; };
static api::Disc build(Ctx& k, const Conf& c, ref::Disc& r) {
  json o = c.opt; o["base"] = c.base; o["ignoreZero"] = c.z;
  k.log("Discriminator(", c.n, ",", c.E, ",", o.dump(), ")");
  api::Disc d(c.n, c.E, o);
  r = ref::Disc(c.E, ref::mapping_of(json::parse(d.json_())), c.base, c.z);
  return d;
}

// every history of trainings up to a depth, every entry, every form; all entries asked after every step
SUITE(histories) {
  static const std::vector<Conf> confs = {
    {2, 3, 2, false, {}}, {2, 3, 2, true, {}}, {2, 3, 2, false, {{"completeAddressing", false}}},
    {3, 3, 2, true, {{"indexes", {2, 0, 1}}}}, {2, 2, 2, false, {{"indexes", {1, 0}}}},
    {2, 3, 2, false, {{"mapping", {{0}, {2, 1}, {0, 1, 2}, {1, 1}}}}}, {2, 3, 2, true, {{"mapping", {{2, 0}, {0, 2}, {1}}}}},
    {2, 2, 3, false, {}}, {2, 2, 3, true, {{"mapping", {{1}, {0, 1}}}}}, {2, 2, 4, false, {{"indexes", {1, 0}}}},
  };
  const Conf& c = confs[k.choose((int)confs.size())];
  ref::Disc r; api::Disc d = build(k, c, r);
  VV all = ref::all_entries(c.E, c.base);
  bool bits = c.base == 2;
  int depth = k.thorough ? (all.size() > 8 ? 3 : PY ? 3 : 4) : all.size() > 9 || PY ? 2 : 3;
  for (auto& x : all) same(k, d, r, x, bits, "untrained");
  for (int i = 0; i < depth; i++) {
    int w = k.choose(1 + (int)all.size());
    if (w == 0) break;
    train(k, d, r, all[w - 1], k.choose(bits ? 3 : 2));
    for (auto& x : all) same(k, d, r, x, bits, "after training");
    k.state(r.show());
  }
}

// lists of entries in one call, with repetitions
SUITE(lists) {
  int E = 3; ref::Disc r; Conf c{2, E, k.choose(2) + 2, k.flip(), {{"mapping", {{0, 1}, {1, 2}, {2, 0, 1}}}}};
  api::Disc d = build(k, c, r);
  VV all = ref::all_entries(E, c.base);
  int len = (PY ? 1 : 0) + k.choose((k.thorough ? 5 : 4) - (PY ? 1 : 0));  // in Python [] is an entry
  VV list; for (int i = 0; i < len; i++) { list.push_back(all[k.choose((int)std::min<size_t>(all.size(), 8))]); }
  k.log("train list ", str(list));
  d.train(list); k.step();
  for (auto& x : list) r.train(x);
  for (auto& x : all) same(k, d, r, x, c.base == 2, "after a list");
  k.state(r.show());
}

// repetition counts around the limits of small integers, interleaved with other entries
SUITE(counts) {
  int n = k.pick({1, 2, 3, 100, 127, 128, 129, 255, 256, 257, 1000, 32767, 32768, 32769, 65535, 65536, 65537, 100000});
  int base = k.pick({2, 3}); bool z = k.flip();
  ref::Disc r; api::Disc d = build(k, Conf{2, 5, base, z, {{"mapping", {{0, 1}, {2, 3, 4}, {4, 0}}}}}, r);
  V a = {1, 0, 1, 1, 0}, b = {1, 0, 0, 1, 1}, zero = {0, 0, 0, 0, 0}, o = {0, 1, 1, 1, 1};
  if (PY && n > 40000) n = 40000;
  int order = k.choose(3);
  if (order == 0) { for (int i = 0; i < n; i++) { d.train(a); r.train(a); } d.train(b); r.train(b); d.train(zero); r.train(zero); }
  else if (order == 1) { d.train(b); r.train(b); d.train(VV(n, zero)); for (int i = 0; i < n; i++) r.train(zero); d.train(a); r.train(a); }
  else for (int i = 0; i < n; i++) { V x = i % 3 == 0 ? a : i % 3 == 1 ? b : o; d.train(x); r.train(x); }
  k.step(n); k.log(n, " trainings, order ", order);
  for (V x : {a, b, zero, o}) same(k, d, r, x, base == 2, "after many");
  k.state(r.show());
}

// every address size up to 64, alone or beside other RAMs; entries that differ in one position only
SUITE(sizes) {
  int n = 1 + k.choose(64); int many = k.pick({1, 2, 5}); bool z = k.flip();
  int E = n + many - 1; if (E < 2) E = 2;
  VV mapping;
  for (int m = 0; m < many; m++) { V w; for (int i = 0; i < n; i++) w.push_back((m + (m % 2 ? n - 1 - i : i)) % E); mapping.push_back(w); }
  ref::Disc r; api::Disc d = build(k, Conf{2, E, 2, z, {{"mapping", mapping}}}, r);
  int kind = k.choose(4);
  VV xs; xs.push_back(V(E, 0)); xs.push_back(V(E, 1));
  for (int i : {0, 1, 7, 8, 15, 16, 30, 31, 32, 33, 47, 48, 61, 62, 63, E - 1}) if (i < E) { V x(E, 0); x[i] = 1; xs.push_back(x); for (int& v : x) v = 1 - v; xs.push_back(x); }
  int c = 0;
  for (auto& x : xs) { c++; if (kind == 0 || (kind == 1 && c % 2) || (kind == 2 && c % 2 == 0) || (kind == 3 && c % 3 == 0)) for (int q = 0; q < 1 + c % 3; q++) train(k, d, r, x, (c + q) % 3); }
  for (auto& x : xs) same(k, d, r, x, true, "wide");
  k.state(r.show());
}

// number of RAMs and entry sizes, default addressing, any base
SUITE(shapes) {
  int base = k.pick({2, 3, 5, 16, 256, 1000}); int E = 2 + k.choose(k.thorough ? 60 : 30); int n = 2 + k.choose(std::min(E - 1, 5)); bool comp = k.flip();
  ref::Disc r; api::Disc d = build(k, Conf{n, E, base, false, {{"completeAddressing", comp}}}, r);
  VV xs; for (int s = 0; s < 6; s++) { V x; for (int i = 0; i < E; i++) x.push_back((i * (s + 1) + s * s) % base); xs.push_back(x); }
  for (int s = 0; s < 4; s++) { train(k, d, r, xs[s], s % 2); train(k, d, r, xs[0], 0); }
  for (auto& x : xs) same(k, d, r, x, base == 2, "shapes");
  for (int i = 0; i < E; i++) { V x = xs[0]; x[i] = (x[i] + 1) % base; same(k, d, r, x, false, "one position changed"); }
  k.state(r.show());
}

// any number of RAMs, every RAM with inputs of its own
SUITE(many_rams) {
  static const V R = {1, 2, 3, 7, 8, 9, 10, 11, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 4095, 4096, 4097, 9999, 10000, 10001, 32767, 32768, 32769, 65535, 65536, 65537, 70000};
  int rams = k.pick(R); bool z = k.flip(); int how = k.choose(3), base = k.pick({2, 3}), E = how == 0 ? 40 : 2 * rams < 40 ? 40 : 2 * rams; if (PY && rams > 11000) return; json o = {{"base", base}};
  if (how == 0) { VV m; for (int i = 0; i < rams; i++) { int p = i % 40, q = (i / 40 * 7 + i + 1) % 40; m.push_back(i % 5 == 4 ? V{p} : i % 5 == 3 ? V{p, q, (q + 3) % 40} : V{p, q}); } o["mapping"] = m; } else if (how == 1) { V idx; for (int i = 0; i < E; i++) idx.push_back(E - 1 - i); o["indexes"] = idx; }
  ref::Disc r; api::Disc d = build(k, Conf{2, E, base, z, o}, r); VV xs; for (int s = 0; s < 4; s++) { V x(E); for (int i = 0; i < E; i++) x[i] = (int)(Ctx::mix((ull)i * 5 + s * 1000003) % base); xs.push_back(x); }
  k.log(rams, " RAMs"); for (int s = 0; s < 3; s++) train(k, d, r, xs[s], s % 2); train(k, d, r, xs[0], 0); for (auto& x : xs) same(k, d, r, x, base == 2, "many RAMs"); V y = xs[0]; for (int i = 0; i < E; i += 1 + E / 9) { y[i] = (y[i] + 1) % base; same(k, d, r, y, base == 2, "some positions changed"); } k.state(str(rams, how, base, z));
}
