// C03: addressing reads what it promises.
#include "ref.hpp"
using namespace mc;

static VV mapping_of(const std::string& doc) { return ref::mapping_of(json::parse(doc)); }

// default addressing
static void check_random(Ctx& k, const VV& m, int E, int n, bool comp, const std::string& what) {
  int rams = comp ? (E + n - 1) / n : E / n;
  REQUIRE("count", (int)m.size() == rams, what, ": ", m.size(), " RAMs instead of ", rams, ": ", str(m));
  V seen(E, 0);
  for (auto& r : m) {
    REQUIRE("width", (int)r.size() == n, what, ": a RAM of ", r.size(), " positions: ", str(m));
    for (int p : r) { REQUIRE("range", p >= 0 && p < E, what, ": position ", p, " outside: ", str(m)); seen[p]++; }
  }
  for (int i = 0; i < E; i++) {
    if (comp) REQUIRE("unread", seen[i] >= 1, what, ": position ", i, " is not read: ", str(m));
    if (!comp || E % n == 0) REQUIRE("twice", seen[i] <= 1, what, ": position ", i, " is read ", seen[i], " times: ", str(m));
  }
}
// the RAMs really read the positions of the mapping and no others: flipping a position changes exactly the RAMs that read it
static void check_reads(Ctx& k, api::Disc& d, const VV& m, int E, int base) {
  V x(E); for (int i = 0; i < E; i++) x[i] = i % base;
  d.train(x); k.step();
  V was = d.classify(x);
  V at; for (int i = 0; i < E; i++) if (E <= 1024 || i < 2 || i >= E - 2 || i % 32768 < 2 || (i & (i - 1)) == 0) at.push_back(i);
  for (int i : at) {
    V y = x; y[i] = (y[i] + 1) % base; V v = d.classify(y); k.step();
    for (size_t r = 0; r < m.size(); r++) {
      bool reads = std::count(m[r].begin(), m[r].end(), i) > 0;
      REQUIRE("reads", (v[r] < was[r]) == reads, "RAM ", r, " of ", str(m), reads ? " does not read" : " reads", " position ", i);
    }
  }
}
// the three models, default addressing; class mappings of a Wisard and of a ClusWisard
static void all_models(Ctx& k, int E, int n, bool comp, int base) {
  json o = {{"completeAddressing", comp}, {"base", base}};
  std::string what = str("entry size ", E, ", address size ", n, comp ? "" : ", without completeAddressing");
  int model = k.choose(3);
  if (model == 0) { api::Disc d(n, E, o); VV m = mapping_of(d.json_()); check_random(k, m, E, n, comp, what); check_reads(k, d, m, E, base); k.state(str(m)); }
  else if (model == 1) {
    api::Wis w(n, o); V x(E, 1); w.train(VV{x, x, x}, VS{"a", "b", "a"}); k.step(3);
    json c = json::parse(w.json_())["classes"]; std::string s;
    REQUIRE("classes", c.size() == 2, "classes ", c.dump());
    for (auto it = c.begin(); it != c.end(); ++it) { VV m = ref::mapping_of(it.value()); check_random(k, m, E, n, comp, "Wisard class " + it.key() + ", " + what); s += str(m); }
    k.state(s);
  } else {
    api::Clus w(n, 1.0f, 100, 3, o); w.train(VV{V(E, 0), V(E, 1)}, VS{"a", "a"}); w.trainUnsupervised(VV{V(E, 1)}); k.step(3);
    json c = json::parse(w.json_()); std::string s; int nd = 0;
    for (auto& d : c["clusters"]["a"]["discriminators"]) { VV m = ref::mapping_of(d); check_random(k, m, E, n, comp, "ClusWisard, " + what); s += str(m); nd++; }
    for (auto& d : c["unsupervisedCluster"]["discriminators"]) { VV m = ref::mapping_of(d); check_random(k, m, E, n, comp, "unsupervised, " + what); s += str(m); nd++; }
    REQUIRE("no-discriminators", nd >= 2, "only ", nd, " discriminators");
    k.state(s);
  }
}

// every outcome of the generator, for small entries
SUITE(every_draw) {
  int E = 2 + k.choose(k.thorough ? 4 : 3), n = 2 + k.choose(E - 1); bool comp = k.flip();
  int left = E >= 5 ? 5 : 7;    // answers enumerated; later ones are 0
  json o = {{"completeAddressing", comp}};
  int m = std::max(E, 3), skip = 1;
  rand_hook = [&k, &left, &skip, m]() { if (skip > 0) { skip--; return 5; } return left-- > 0 ? k.choose(m) : 0; };   // the first answer is the seed
  api::Disc d(n, E, o); rand_hook = nullptr;
  VV mp = mapping_of(d.json_());
  check_random(k, mp, E, n, comp, str("entry size ", E, ", address size ", n));
  check_reads(k, d, mp, E, 2);
  k.log(str(mp)); k.state(str(mp));
}
// all sizes, some streams of the generator, all models
SUITE(all_sizes) {
  int E = 2 + k.choose(k.thorough ? 70 : 34), n = 2 + k.choose(std::min(E, 64) - 1); bool comp = k.flip();
  rand_hook = ref::stream(k.choose(k.thorough ? 12 : 6));
  all_models(k, E, n, comp, 2);
}
SUITE(bases) {
  int base = k.pick({2, 3, 5, 16, 256}); int E = 2 + k.choose(9), n = 2 + k.choose(std::min(E, 8) - 1); bool comp = k.flip();
  rand_hook = ref::stream(4 + k.choose(2));
  all_models(k, E, n, comp, base);
}
// large entries
SUITE(large) {
  int E = k.pick({63, 64, 65, 127, 128, 129, 255, 256, 257, 784, 1000, 1024, 4095, 4097, 32767, 32769, 65535, 65537, 70000, 131073}); if (PY && E > 257 && E != 65537) return; int n = k.pick({2, 3, 7, 8, 28, 31, 32, 33, 63, 64}); if (n > E) return; if (E > 1024 && n != 3 && n != 64 && n != 8) return;
  bool comp = k.flip(); rand_hook = ref::stream(k.choose(E > 1024 ? 2 : 6)); all_models(k, E, n, comp, 2);
}

// every permutation as indexes, every address size; Discriminator and every class of a Wisard
SUITE(indexes) {
  int E = 2 + k.choose(k.thorough ? 5 : 4), n = 2 + k.choose(E - 1);
  V perm, rest; for (int i = 0; i < E; i++) rest.push_back(i);
  while (!rest.empty()) { int c = k.choose((int)rest.size()); perm.push_back(rest[c]); rest.erase(rest.begin() + c); }
  VV want(E / n); for (int r = 0; r < E / n; r++) want[r] = V(perm.begin() + r * n, perm.begin() + (r + 1) * n);
  int base = k.pick({2, 3}); bool z = k.flip(), comp = k.flip();
  json o = {{"indexes", perm}, {"base", base}, {"ignoreZero", z}, {"completeAddressing", comp}};
  k.log("indexes ", str(perm), " address size ", n);
  api::Disc d(n, E, o); VV m = mapping_of(d.json_()); k.step();
  REQUIRE("indexes", m == want, "indexes ", str(perm), " in RAMs of ", n, " give ", str(m));
  if (!z) check_reads(k, d, m, E, base);
  api::Wis w(n, o); w.train(VV{V(E, 1), V(E, 0), V(E, 1)}, VS{"x", "y", "x"}); k.step(3);
  if (k.flip()) w = api::Wis(w.json_());
  w.train(VV{V(E, 1)}, VS{"z"}); k.step();
  json c = json::parse(w.json_())["classes"];
  for (auto l : {"x", "y", "z"}) REQUIRE("indexes-wisard", ref::mapping_of(c[l]) == want, "class ", l, " has ", c[l]["mapping"].dump(), " for indexes ", str(perm));
  k.state(str(perm) + str(n));
}
// every mapping of up to two or three small RAMs
SUITE(mappings) {
  int E = 2 + k.choose(2); int rams = 1 + k.choose(k.thorough ? 3 : 2); VV m(rams);
  for (auto& r : m) { int len = 1 + k.choose(rams == 3 ? 2 : 3); for (int i = 0; i < len; i++) r.push_back(k.choose(E)); }
  json o = {{"mapping", m}};
  api::Disc d(2, E, o); VV got = mapping_of(d.json_()); k.step();
  REQUIRE("mapping", got == m, "mapping ", str(m), " became ", str(got));
  check_reads(k, d, m, E, 2);
  VV other = {{E - 1, 0}};
  api::Wis w(2, json{{"mapping", {{"p", m}, {"q", other}}}, {"indexes", E == 2 ? V{1, 0} : V{2, 0, 1}}});
  w.train(VV{V(E, 1), V(E, 0), V(E, 1)}, VS{"q", "p", "r"}); k.step(3);
  json c = json::parse(w.json_())["classes"];
  REQUIRE("mapping-wisard", ref::mapping_of(c["p"]) == m && ref::mapping_of(c["q"]) == other, "classes have ", c.dump());
  VV rest = E == 2 ? VV{{1, 0}} : VV{{2, 0}};
  REQUIRE("fallback", ref::mapping_of(c["r"]) == rest, "a class without mapping has ", c["r"]["mapping"].dump());
  k.state(str(m));
}
// wide and many-RAM mappings and indexes
SUITE(wide) {
  int E = k.pick({8, 20, 33, 64, 65, 100, 300}); int n = k.pick({2, 3, 8, 31, 32, 33, 64}); if (n > E) return; int s = k.choose(6);
  V perm; for (int i = 0; i < E; i++) perm.push_back(s == 0 ? E - 1 - i : s == 1 ? i : (int)((ull)(i + s) * 7 % E));
  if (s >= 2) { std::set<int> u(perm.begin(), perm.end()); if ((int)u.size() != E) return; }
  VV want(E / n); for (int r = 0; r < E / n; r++) want[r] = V(perm.begin() + r * n, perm.begin() + (r + 1) * n);
  api::Disc d(n, E, json{{"indexes", perm}}); VV m = mapping_of(d.json_()); k.step(2);
  REQUIRE("indexes-wide", m == want, "indexes in RAMs of ", n, " of ", E, " give ", str(m));
  check_reads(k, d, m, E, 2);
  api::Disc e(2, E, json{{"mapping", want}}); VV m2 = mapping_of(e.json_());
  REQUIRE("mapping-wide", m2 == want, "mapping became ", str(m2));
  check_reads(k, e, m2, E, 2);
  api::Wis w(n, json{{"indexes", perm}}); w.train(VV{V(E, 1)}, VS{"x"}); k.step();
  REQUIRE("indexes-wide-wisard", ref::mapping_of(json::parse(w.json_())["classes"]["x"]) == want, "Wisard: indexes in RAMs of ", n, " of ", E, " differ");
  k.state(str(E, n, s));
}

// which class a mapping is for: every set of labels with a mapping of their own, every other class falls back
SUITE(which_class) {
  static const VS pool = {"", "a", "ab", "b", "A", "10", "9"}; int how = k.choose(3), E = 4; std::map<std::string, VV> own; std::map<std::string, VV> m;
  for (size_t i = 0; i < pool.size(); i++) if (k.flip()) own[pool[i]] = VV{{(int)i % E, (int)(i / 2) % E}, {(int)(i + 1) % E, (int)i % E, (int)(i + 2) % E}};
  json o = json::object(); if (!own.empty()) { o["mapping"] = json::object(); for (auto& e : own) o["mapping"][e.first] = e.second; } if (how == 1) o["indexes"] = V{3, 1, 0, 2}; if (how == 2) o["completeAddressing"] = false;
  api::Wis w(2, o); V order; for (size_t i = 0; i < pool.size(); i++) order.push_back((int)i); if (k.flip()) std::reverse(order.begin(), order.end());
  size_t cut = k.choose(2) ? 3 : 0; for (size_t i = 0; i < order.size(); i++) { if (i == cut && cut) w = api::Wis(w.json_()); w.train(VV{V(E, 1)}, VS{pool[order[i]]}); k.step(); }
  json c = json::parse(w.json_())["classes"]; REQUIRE("classes", c.size() == pool.size(), "classes ", c.dump());
  for (auto& l : pool) { VV got = ref::mapping_of(c[l]); std::string what = str("class '", l, "' of a Wisard with mappings for ", o.dump());
    if (own.count(l)) REQUIRE("own-mapping", got == own[l], what, " has ", str(got));
    else if (how == 1) REQUIRE("own-fallback", (got == VV{{3, 1}, {0, 2}}), what, " has ", str(got));
    else check_random(k, got, E, 2, how == 0, what); }
  k.state(o.dump());
}

// what is impossible is refused, at the latest by the first training
SUITE(refusals) {
  int E = k.pick({2, 3, 5}); int kind = k.choose(5); json o = json::object(); int n = 2; V x(E, 0); bool bad = true; std::string what;
  if (kind == 0) { n = k.pick({-2147483647 - 1, -2, -1, 0, 1, E + 1, E + 2, 64, 65, 1000, 2147483647, 2, E}); bad = n < 2 || n > E; what = str("address size ", n); if (k.flip()) { V idx; for (int i = 0; i < E; i++) idx.push_back(i); o["indexes"] = idx; } }
  else if (kind == 1) { int b = k.pick({-2147483647 - 1, -3, -2, -1, 0, 1, 2, 3}); bad = b < 2; o["base"] = b; what = str("base ", b); int how = k.choose(3); if (how == 1) o["mapping"] = VV{{0, 1}}; if (how == 2) { V idx; for (int i = 0; i < E; i++) idx.push_back(i); o["indexes"] = idx; } }
  else if (kind == 2 || kind == 3) {   // every list over -1..E of length 1..E+1
    if (E > 3) E = 3, x = V(E, 0);
    int len = 1 + k.choose(E + 1); V idx; for (int i = 0; i < len; i++) { int v = k.choose(E + 3) - 2; idx.push_back(v == -2 ? -2147483647 : v); }
    std::set<int> s(idx.begin(), idx.end()); bad = len != E || (int)s.size() != E || *s.begin() < 0 || *s.rbegin() >= E;
    if (kind == 3) { n = 3; if (E < 3) bad = true; }
    o["indexes"] = idx; what = str("indexes ", str(idx), " of entry size ", E, ", address size ", n);
  } else {   // mappings with a position outside
    int rams = 1 + k.choose(2); VV m(rams); bad = false;
    for (auto& r : m) { int len = 1 + k.choose(2); for (int i = 0; i < len; i++) { int c = k.choose(5); int v = c == 0 ? 0 : c == 1 ? E - 1 : c == 2 ? E : c == 3 ? -1 : 2147483647; r.push_back(v); bad = bad || v < 0 || v >= E; } }
    o["mapping"] = m; what = str("mapping ", str(m), " of entry size ", E);
  }
  int model = k.choose(kind >= 2 ? 2 : 3); if (kind < 2 && model == 2 && (o.count("indexes") || o.count("mapping"))) return;
  bool ref = refused([&] {
    if (model == 0) { api::Disc d(n, E, o); d.train(x); }
    else if (model == 1) { json p = o; if (p.count("mapping")) p["mapping"] = {{"a", o["mapping"]}}; api::Wis w(n, p); w.train(VV{x}, VS{"a"}); }
    else { api::Clus w(n, 0.5f, 2, 2, o); w.train(VV{x}, VS{"a"}); }
  });
  k.step();
  REQUIRE(bad ? "impossible-accepted" : "possible-refused", ref == bad, model == 0 ? "Discriminator" : model == 1 ? "Wisard" : "ClusWisard", " with ", what, ref ? " is refused" : " is accepted");
  k.log(what, ref ? " refused" : " accepted"); k.state(what);
}

// index lists with repeats, however far apart and whatever they leave out
static void repeats(Ctx& k, const V& idx, int E, int n, int model) {
  std::set<int> s(idx.begin(), idx.end()); bool bad = (int)s.size() != E; json o = {{"indexes", idx}}; V x(E, 0);
  bool ref = refused([&] { if (model == 0) { api::Disc d(n, E, o); d.train(x); } else { api::Wis w(n, o); w.train(VV{x}, VS{"a"}); } }); k.step();
  REQUIRE(bad ? "repeats-accepted" : "permutation-refused", ref == bad, model ? "Wisard" : "Discriminator", " with indexes ", str(idx), ref ? " is refused" : " is accepted");
}
SUITE(repeats_pairs) {   // position j names the same index as position i
  int E = k.pick({4, 7, 9, 16, 17, 32, 33, 40, 64, 65, 130, 257, 300}), i = k.choose(E), model = k.choose(2); bool back = k.flip(); if (PY && (E > 33 || back) && i % 8) return; if (E > 64 && model && i % 16) return;
  V idx; for (int p = 0; p < E; p++) idx.push_back(back ? E - 1 - p : p); repeats(k, idx, E, 2, model);
  for (int j = 0; j < E; j++) if (j != i && (E < 200 || (i + j) % 3 == 0 || std::abs(i - j) < 3)) { V l = idx; l[j] = l[i]; repeats(k, l, E, 2, model); l = idx; std::swap(l[i], l[j]); if (E < 20) repeats(k, l, E, 2, model); }
  k.state(str(E, i, model, back));
}
SUITE(repeats_three) {   // up to three positions name any index: same sums, same products, same extremes
  int E = k.pick({5, 6, 7, 8}), a = k.choose(E), b = a + k.choose(E - a), c = b + k.choose(E - b), model = k.choose(2); if (PY && (E > 6 || model)) return; int va = k.choose(E);
  for (int vb = 0; vb < E; vb++) for (int vc = 0; vc < E; vc++) { V l; for (int p = 0; p < E; p++) l.push_back(p); l[a] = va; l[b] = vb; l[c] = vc; repeats(k, l, E, 2, model); }
  k.state(str(E, a, b, c, va, model));
}
// mappings of many RAMs of unequal length in no order, used as they are
SUITE(many_rams) {
  int R = k.pick({4, 7, 8, 9, 16, 17, 20, 33, 64, 65, 100, 255, 256, 257, 300}), how = k.choose(6), E = k.pick({5, 16, 70}); if (PY && R > 65 && how) return; VV m;
  for (int r = 0; r < R; r++) { V row; int len = how == 0 ? 2 : how == 1 ? 1 + r % 4 : how == 2 ? 4 - r % 4 : how == 3 ? 1 + (r * r) % 5 : how == 4 ? 3 : 1 + (r + 1 == R); for (int i = 0; i < len; i++) row.push_back(((R - r) * 7 + (len - i) * 3 + how) % E); if (how == 4) row[1] = row[0]; m.push_back(row); }
  api::Disc d(2, E, json{{"mapping", m}}); VV got = mapping_of(d.json_()); REQUIRE("mapping-many", got == m, "a mapping of ", R, " RAMs became ", str(got), " instead of ", str(m)); check_reads(k, d, m, E, 2);
  VV rev(m.rbegin(), m.rend()); json o = {{"mapping", {{"p", m}, {"q", rev}}}, {"verbose", how == 3}}; if (how == 2) { V idx; for (int i = 0; i < E; i++) idx.push_back(E - 1 - i); o["indexes"] = idx; }
  api::Wis w(2, o); w.train(VV{V(E, 1), V(E, 0)}, VS{"q", "p"}); k.step(2); if (k.flip()) w = api::Wis(w.json_());
  json c = json::parse(w.json_())["classes"]; for (auto l : {"p", "q"}) { const VV& want = *l == 'p' ? m : rev; VV have = ref::mapping_of(c[l]); REQUIRE("mapping-many-wisard", have == want, "class ", l, " with a mapping of ", R, " RAMs has ", str(have), " instead of ", str(want)); }
  k.state(str(R, how, E));
}
