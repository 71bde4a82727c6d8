// C02: no two inputs of a RAM share a cell; what does not fit in 64 bits is refused.
#include "ref.hpp"
using namespace mc;

static int limit_of(long long b) { unsigned __int128 p = 1, lim = (unsigned __int128)1 << 64; int n = 0; while (p * b <= lim) { p *= b; n++; } return n; }
static const std::vector<int>& bases() {
  static std::vector<int> v;
  if (v.empty()) { for (int b = 2; b <= 40; b++) v.push_back(b); for (int b : {41, 63, 64, 65, 100, 127, 128, 129, 139, 140, 255, 256, 257, 511, 512, 565, 566, 1000, 1024, 1625, 1626, 4096, 7131, 7132, 65535, 65536, 65537, 1000000, 2642245, 2642246, 16777216, 2147483647}) v.push_back(b); }
  return v;
}
static VV one(int n, int from = 0) { VV m(1); for (int i = 0; i < n; i++) m[0].push_back(from + i); return m; }
static std::string doc(int E, int base, const VV& m) {
  json d = {{"entrySize", E}, {"mapping", m}, {"ignoreZero", false}, {"base", base}, {"count", 0}, {"data", std::string(m.size() - 1, '.')}, {"version", "2.0.0"}};
  return d.dump();
}
static json inner(int E, const VV& m) { return {{"entrySize", E}, {"mapping", m}, {"count", 0}, {"data", std::string(m.size() - 1, '.')}}; }

// does this way of building a model with RAMs of n positions in this base work, up to the first use?
static const int WAYS = 11;
static const char* wayname[] = {"Discriminator", "Discriminator indexes", "Discriminator mapping", "Discriminator mapping, second RAM", "Discriminator saved", "Wisard", "Wisard indexes", "Wisard mapping", "Wisard saved", "ClusWisard", "ClusWisard saved"};
static bool accepts(int way, int n, int base) {
  int E = n; V x(E, base - 1); json o = {{"base", base}};
  V idx; for (int i = 0; i < E; i++) idx.push_back(E - 1 - i);
  json wopt = {{"version", "2"}, {"addressSize", n}, {"bleachingActivated", true}, {"verbose", false}, {"ignoreZero", false}, {"completeAddressing", true}, {"base", base}, {"confidence", 1}};
  return !refused([&] {
    switch (way) {
      case 0: { api::Disc d(n, E, o); d.train(x); break; }
      case 1: { o["indexes"] = idx; api::Disc d(n, E, o); d.train(x); break; }
      case 2: { o["mapping"] = one(n); api::Disc d(2, E, o); d.train(x); break; }
      case 3: { VV m = one(2); m.push_back(one(n)[0]); o["mapping"] = m; api::Disc d(2, E, o); d.train(x); break; }
      case 4: { api::Disc d(doc(E, base, one(n))); d.train(x); break; }
      case 5: { api::Wis w(n, o); w.train(VV{x}, VS{"a"}); break; }
      case 6: { o["indexes"] = idx; api::Wis w(n, o); w.train(VV{x}, VS{"a"}); break; }
      case 7: { o["mapping"] = {{"a", one(n)}}; api::Wis w(n, o); w.train(VV{x}, VS{"a"}); break; }
      case 8: { wopt["indexes"] = json::array(); wopt["classes"] = {{"a", inner(E, one(n))}}; api::Wis w(wopt.dump()); w.train(VV{x}, VS{"a"}); break; }
      case 9: { api::Clus w(n, 0.5f, 2, 2, o); w.train(VV{x}, VS{"a"}); break; }
      case 10: { wopt["minScore"] = 0.5; wopt["threshold"] = 2; wopt["discriminatorsLimit"] = 2;
                 wopt["clusters"] = {{"a", {{"entrySize", E}, {"discriminators", json::array({inner(E, one(n))})}}}}; api::Clus w(wopt.dump()); w.train(VV{x}, VS{"a"}); break; }
    }
  });
}

SUITE(limits) {
  int base = k.pick(bases()); int way = k.choose(WAYS); int lim = limit_of(base);
  int top = std::max(70, lim + 3);
  for (int n = 2; n <= (k.thorough ? 200 : top + 60); n++) {
    if (n < lim - 2 && n % 5) continue;
    bool ok = accepts(way, n, base); k.step();
    REQUIRE(n <= lim ? "refused" : "accepted", ok == (n <= lim), wayname[way], " with base ", base, " and ", n, " positions (", base, "^", n, n <= lim ? " fits in" : " exceeds", " 2^64) is ", ok ? "accepted" : "refused");
  }
  k.log(wayname[way], " base ", base, " limit ", lim);
  k.state(str(way, "/", base));
}

// probes that differ in single positions and digits, all trained a different number of times
SUITE(distinct) {
  int base = k.pick(bases()); int lim = limit_of(base);
  int n = 1 + k.choose(lim);
  int shape = k.choose(PY ? 2 : 4);   // 0 one RAM, 1 reversed after another RAM, 2 saved and restored before, 3 saved and restored after training
  int E = std::max(n, 2);
  VV mapping = one(n);
  if (shape == 1) { std::reverse(mapping[0].begin(), mapping[0].end()); mapping.insert(mapping.begin(), V{0}); }
  json o = {{"base", base}, {"mapping", mapping}};
  api::Disc d = shape == 2 ? api::Disc(doc(E, base, mapping)) : api::Disc(2, E, o);
  std::set<V> seen; VV xs;
  auto add = [&](const V& x) { V y(x.begin(), x.begin() + n); if (seen.insert(y).second) xs.push_back(x); };
  V zero(E, 0), full(E, base - 1);
  add(zero); add(full);
  for (int i = 0; i < n; i++) {
    for (int v : {1, 2, base / 2, base - 1}) if (v < base) { V x = zero; x[i] = v; add(x); x = full; x[i] = base - 1 - v; add(x); }
    V x = zero; for (int j = 0; j <= i; j++) x[j] = base - 1; add(x);      // carries
    x = zero; if (i + 1 < n) { x[i] = 1; x[i + 1] = 1; add(x); }
  }
  ref::Disc r(E, mapping, base);
  for (size_t i = 0; i < xs.size(); i++) for (size_t q = 0; q <= i % 3; q++) { d.train(xs[i]); r.train(xs[i]); k.step(); }
  api::Disc e = shape == 3 ? api::Disc(d.json_()) : d;
  for (auto& x : xs) { V got = e.classify(x), want = r.votes(x); k.step(); REQUIRE("shared", got == want, "base ", base, ", ", n, " positions: ", str(x), " counts ", str(got), " instead of ", str(want)); }
  k.log("base ", base, " positions ", n, " probes ", xs.size());
  k.state(str(base, "/", n));
}

// small spaces completely: every entry, all at once
SUITE(complete) {
  static const std::vector<std::pair<int, int>> bn = {{2, 1}, {2, 2}, {2, 5}, {2, 10}, {3, 1}, {3, 4}, {3, 6}, {4, 5}, {5, 4}, {7, 3}, {10, 3}, {16, 2}, {31, 2}, {100, 1}, {1000, 1}};
  auto c = k.pick(bn); int base = c.first, n = c.second; int how = k.choose(3);
  int E = std::max(2, n); VV all = ref::all_entries(n, base);
  V order; for (int i = 0; i < E; i++) order.push_back(how == 1 ? E - 1 - i : i);
  json o = {{"base", base}, {"mapping", VV{V(order.begin(), order.begin() + n)}}};
  if (how == 2 && n == E) { o.erase("mapping"); }
  api::Disc d(std::max(2, std::min(n, E)), E, o);
  int i = 0;
  for (auto& x : all) { V y = x; y.resize(E, 0); if (how == 1) { V z(E, 0); for (int j = 0; j < n; j++) z[order[j]] = x[j]; y = z; } for (int q = 0; q <= i % 2; q++) d.train(y); i++; k.step(); }
  i = 0;
  for (auto& x : all) { V y = x; y.resize(E, 0); if (how == 1) { V z(E, 0); for (int j = 0; j < n; j++) z[order[j]] = x[j]; y = z; } int v = d.classify(y).at(0); k.step(); REQUIRE("shared-small", v == 1 + i % 2, "base ", base, ": ", str(y), " counts ", v, " instead of ", 1 + i % 2); i++; }
  k.state(str(base, "/", n));
}
