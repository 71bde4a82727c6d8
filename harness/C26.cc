// C26: objects are independent; every object is compared with one that went through the same operations alone. Address sanitizer.
#include "confs.hpp"
#include <fstream>
using namespace mc;

static void constant() { rand_hook = [] { return 0; }; }
struct Any { virtual ~Any() {} virtual void op(int i) = 0; virtual std::string see() = 0; virtual Any* copy() = 0; virtual void assign(Any&) = 0; virtual Any* restored() = 0; };
// what can be done to each kind; OPS operations each
const int OPS = 4;
static VV entries(int E, int base) { VV all = ref::all_entries(E, base); return pool3(all); }
static void act(api::Disc& d, int E, int base, int i) { VV p = entries(E, base); if (i < 3) d.train(p[i]); else {
#ifdef MC_BACKEND_CPP
  d.untrain(p[1]);
#else
  d.train(VV{p[1], p[2]});
#endif
} }
static void act(api::Wis& w, int E, int base, int i) { VV p = entries(E, base); if (i < 2) w.train(VV{p[i]}, VS{"a"}); else if (i == 2) w.train(VV{p[2], p[0]}, VS{"b", "a"}); else w.leaveOneOut(p[0], "a"); }
static void act(api::Clus& c, int E, int base, int i) { VV p = entries(E, base); if (i < 2) c.train(VV{p[i]}, VS{"a"}); else if (i == 2) c.train(VV{p[2], p[0]}, std::map<int, std::string>{{0, "b"}}); else c.trainUnsupervised(VV{p[1], p[2]}); }
static void act(api::Bin& b, int, int, int i) { b.set(i == 3 ? 0 : i * 4, i == 3 ? 0 : 1); }
static void act(api::Data& d, int, int, int i) { if (i == 0) d.add(VSh{1, 0, 1}); else if (i == 1) d.add(VSh{1, 1}, "a"); else if (i == 2) d.add(VSh(), "b::c"); else d.add(api::Bin(VSh(9, 1)), "a"); }
static void act(api::RDH& h, int, int, int i) { if (i < 3) h.set(i, 5, i + 1); else h.set(0, 5, 9); }
static std::string see_(api::Disc& d, int E, int base) { return obs::of(d, ref::all_entries(E, base), base == 2); }
static std::string see_(api::Wis& w, int E, int base) { return obs::of(w, ref::all_entries(E, base), base == 2); }
static std::string see_(api::Clus& c, int E, int base) { return obs::of(c, ref::all_entries(E, base)); }
static std::string see_(api::Bin& b, int, int) { std::string s = b.data(); for (ull i = 0; i < b.size(); i++) s += b.get(i) ? "1" : "0"; return s; }
static std::string see_(api::Data& d, int, int) { std::string s = str(d.size()); for (ull i = 0; i < d.size(); i++) { std::string l = "-"; refused([&] { l = d.getLabel(i); }); s += " " + l + "=" + d.get((int)i).data(); } return s; }
static std::string see_(api::RDH& h, int, int) { std::string s; for (int r = 0; r < 4; r++) for (auto& e : h.get(r)) s += str(r, ":", e.first, "=", e.second, " "); return s; }
template <typename M> struct Model : Any {
  M m; int E, base; Model(const M& x, int e, int b) : m(x), E(e), base(b) {}
  void op(int i) { refused([&] { act(m, E, base, i); }); }
  std::string see() { return see_(m, E, base); }
  Any* copy() { return new Model(m, E, base); }
  void assign(Any& o) { Model& x = static_cast<Model&>(o); m = x.m; E = x.E; base = x.base; }
  Any* restored() { return again(m); }
  Any* again(api::Data&) { return nullptr; } Any* again(api::Bin& b) { return new Model<api::Bin>(api::Bin(b.data()), E, base); } Any* again(api::RDH& b) { return new Model<api::RDH>(api::RDH(b.data()), E, base); }
  template <typename X> Any* again(X& x) { return new Model<X>(X(x.json_()), E, base); }
};
template <typename M> static Any* make(const M& m, int E, int base) { return new Model<M>(m, E, base); }
// a canvas or a synthesizer, with its own kernels or image
struct KernObj : Any { api::Kern c; std::string log; KernObj(const api::Kern& x) : c(x) {} void op(int i) { static const std::vector<VVD> S = {{{1, 2}}, {{0, 5}, {3, 1}}, {{2, 2}, {1, 7}, {0, 0}}, {}}; c.transform(S[i]); } std::string see() { return str(c.transform(VVD{{1, 2}, {3, 0}, {-1, 8}}), c.transform(VVD{{0, 1}})); } Any* copy() { return new KernObj(c); } void assign(Any& o) { c = static_cast<KernObj&>(o).c; } Any* restored() { return nullptr; } };
struct SynthObj : Any { api::Synth s; SynthObj(const api::Synth& x) : s(x) {} void op(int) { s.make(); } std::string see() { std::string o; for (int j = 0; j < 3; j++) { rand_hook = [j] { return j * 715827883; }; o += str(s.make()); } constant(); return o; } Any* copy() { return new SynthObj(s); } void assign(Any& o) { s = static_cast<SynthObj&>(o).s; } Any* restored() { return nullptr; } };
enum { DISC, WIS, CLUS, BIN, DATA, HANDLE, KERN, SYNTH, TYPES };
static int variants(int type) { return type == DISC ? (int)disc_confs().size() : type == WIS ? (int)wis_confs().size() : type == CLUS ? (int)clus_confs().size() : 3; }
static Any* build(int type, int v) {
  constant();
  if (type == DISC) { auto& c = disc_confs()[v]; return make(api::Disc(c.n, c.E, c.o), c.E, c.base()); }
  if (type == WIS) { auto& c = wis_confs()[v]; return make(api::Wis(c.n, c.o), c.E, c.base()); }
  if (type == CLUS) { auto& c = clus_confs()[v]; return make(api::Clus(c.n, c.min, c.th, c.lim, c.o), c.E, c.base()); }
  if (type == BIN) return make(v == 0 ? api::Bin((ull)12) : v == 1 ? api::Bin(VSh(9, 1)) : api::Bin(api::Bin(VSh{1, 0, 1, 1, 0, 0, 0, 0, 1, 1}).data()), 0, 0);
  if (type == DATA) { api::Data d; if (v > 0) d.add(VSh{0, 1}, "first"); if (v > 1) d.add(VSh{1}); return make(d, 0, 0); }
  if (type == HANDLE) return make(api::RDH(v == 0 ? "" : v == 1 ? ref::pack_cells(Cells{{1, 1}}) : ref::pack_cells(Cells{{5, 2}}) + "." + ref::pack_cells(Cells{{5, 3}, {~0ull, 4}})), 0, 0);
  if (type == KERN) { rand_hook = ref::stream(4 + v); api::Kern k(2, 3 + v, json{{"bitsByKernel", 1 + v}, {"activationDegree", 0.4f}, {"useDirection", v == 2}}); constant(); return new KernObj(k); }
  return new SynthObj(api::Synth(v == 0 ? V{1, 2, 3} : v == 1 ? V{0, 2} : V{}));
}
// what the same operations give when nothing else exists
struct Story { int type, v; V ops; std::string name() const { return str(type, ".", v, " ", ops); } };
static const std::string& alone(const Story& s) {
  static std::map<std::string, std::string> memo; auto f = memo.find(s.name()); if (f != memo.end()) return f->second; if (memo.size() > 200000) memo.clear();
  Any* a = build(s.type, s.v); for (int o : s.ops) { if (o < OPS) a->op(o); else { Any* b = a->restored(); if (b) { delete a; a = b; } } } std::string t = a->see(); delete a; return memo[s.name()] = t;
}
struct World {
  std::vector<Any*> o; std::vector<Story> s; Ctx& k; World(Ctx& c) : k(c) {} ~World() { for (auto x : o) delete x; }
  int add(Any* x, const Story& t) { o.push_back(x); s.push_back(t); k.step(); return (int)o.size() - 1; }
  int fresh(int type, int v) { k.log("object ", o.size(), " = new ", type, ".", v); return add(build(type, v), Story{type, v, {}}); }
  void act(int i, int op) { k.log("object ", i, " does ", op); constant(); o[i]->op(op); s[i].ops.push_back(op); k.step(); }
  void copy(int i) { k.log("object ", o.size(), " = copy of ", i); add(o[i]->copy(), s[i]); }
  void assign(int i, int j) { k.log("object ", i, " = object ", j); o[i]->assign(*o[j]); s[i] = s[j]; k.step(); }
  void restore(int i) { constant(); Any* b = o[i]->restored(); if (!b) return; k.log("object ", o.size(), " = restored from the text of ", i); Story t = s[i]; t.ops.push_back(OPS); add(b, t); }
  void drop(int i) { k.log("object ", i, " destroyed"); delete o[i]; o.erase(o.begin() + i); s.erase(s.begin() + i); k.step(); }
  void check() { for (size_t i = 0; i < o.size(); i++) { constant(); std::string t = o[i]->see(); k.step(); const std::string& w = alone(s[i]); REQUIRE("independent", t == w, "object ", i, " (", s[i].name(), ") answers differently than alone: ", obs::diff(t, w)); k.state(t); } }
};
// every interleaving of two objects of one kind, with the same or another configuration
SUITE(pairs) {
  int type = k.choose(TYPES), a = k.choose(variants(type)), b = k.choose(variants(type)); World w(k); w.fresh(type, a); w.fresh(type, b); int depth = k.thorough ? 5 : type <= CLUS ? 3 : 4; for (int i = 0; i < depth; i++) { int c = k.choose(2 * OPS); w.act(c % 2, c / 2); } w.check();
}
// objects of different kinds, configurations and bases side by side; destroyed and made again
SUITE(crowd) {
  World w(k); static const V first = {0, 3, 5}; int v = k.pick(first); w.fresh(DISC, v); w.fresh(WIS, k.pick({0, 3})); w.fresh(CLUS, k.pick({0, 3})); int depth = k.thorough ? 5 : 4; for (int i = 0; i < depth; i++) { int c = k.choose(10); if (c < 9) w.act(c % 3, c / 3); else { w.fresh(BIN, 1); w.fresh(HANDLE, 2); w.fresh(KERN, 0); w.fresh(DATA, 1); w.fresh(SYNTH, 0); w.drop((int)w.o.size() - 2); } } w.check();
}
// restored twice from the same text
SUITE(restored) {
  int type = k.choose(TYPES), v = k.choose(variants(type)); World w(k); w.fresh(type, v); if (k.thorough) w.act(0, k.choose(OPS)); w.act(0, k.choose(OPS)); w.restore(0); w.restore(0); if (w.o.size() < 3) return; int depth = k.thorough ? 3 : 2; bool drop = k.flip(); if (drop) w.drop(0); int n = (int)w.o.size(); for (int i = 0; i < depth; i++) { int c = k.choose(n * OPS); w.act(c % n, c / n); } w.check();
}
#ifdef MC_BACKEND_CPP
// copies, assignments, destruction in every order
SUITE(copies) {
  int type = k.choose(TYPES), v = k.choose(variants(type)); World w(k); w.fresh(type, v); int depth = k.thorough ? 5 : 4;
  for (int i = 0; i < depth; i++) {
    int n = (int)w.o.size(), c = k.choose(n * 2 + (n < 3 ? n : 0) + (n > 1 ? n + 1 : 0));       // two operations per object, copy, destroy, assign
    if (c < 2 * n) { static const V two = {1, 3, 2, 0}; w.act(c / 2, two[(c % 2) + (i % 2) * 2]); continue; } c -= 2 * n;
    if (n < 3) { if (c < n) { w.copy(c); continue; } c -= n; }
    if (c < n) w.drop(c); else w.assign(0, n - 1);
    w.check();
  }
  w.check();
}
SUITE(assignments) {
  int type = k.choose(TYPES), a = k.choose(variants(type)), b = k.choose(variants(type)); World w(k); w.fresh(type, a); w.fresh(type, b); for (int i = 0; i < 2; i++) { int c = k.choose(k.thorough ? 5 : 3); if (c < (k.thorough ? 4 : 2)) w.act(i, k.thorough ? c : c + i); } int how = k.choose(4);
  if (how == 0) w.assign(0, 1); else if (how == 1) { w.assign(0, 1); w.assign(1, 1); } else if (how == 2) { w.copy(0); w.assign(0, 1); w.assign(1, 2); } else { w.assign(1, 0); w.drop(0); } w.check(); for (int i = 0; i < 2; i++) { int m = (int)w.o.size(), c = k.choose(m * 2); w.act(c % m, (c / m) * 2 + 1); } w.check();
}
// a copy taken in the middle of other containers: vectors that grow, values returned from functions
SUITE(containers) {
  int c = k.choose((int)clus_confs().size()), N = k.pick({1, 2, 5, 17}); constant(); auto& cc = clus_confs()[c]; api::Clus one(cc.n, cc.min, cc.th, cc.lim, cc.o); act(one, cc.E, cc.base(), 0); act(one, cc.E, cc.base(), 3); std::string before = see_(one, cc.E, cc.base()); std::vector<api::Clus> v; for (int i = 0; i < N; i++) v.push_back(one); for (int i = 0; i < N; i++) { REQUIRE("copy", see_(v[i], cc.E, cc.base()) == before, "copy ", i, " differs"); act(v[i], cc.E, cc.base(), i % 4); } v.erase(v.begin(), v.begin() + N / 2); REQUIRE("copy", see_(one, cc.E, cc.base()) == before, "the original changed with its copies: ", obs::diff(see_(one, cc.E, cc.base()), before));
  for (size_t i = 0; i < v.size(); i++) { api::Clus t(cc.n, cc.min, cc.th, cc.lim, cc.o); act(t, cc.E, cc.base(), 0); act(t, cc.E, cc.base(), 3); act(t, cc.E, cc.base(), (int)(i + N / 2) % 4); std::string a = see_(v[i], cc.E, cc.base()), b = see_(t, cc.E, cc.base()); REQUIRE("copy", a == b, "copy ", i, ": ", obs::diff(a, b)); k.state(a); } k.step(N * 4);
}
#endif
// saved files belong to the save: another object's saves and destruction leave them alone
SUITE(files) {
  std::string d = k.dir(); bool same = k.flip(); constant(); int t = k.choose(3); auto text = [&](int seed) { rand_hook = ref::stream(seed); std::string p = d + (same ? "x" : "x" + std::to_string(seed)); VV e = entries(4, 2); if (t == 0) { api::Disc m(2, 4, json()); m.train(e[seed % 3]); return m.json_(true, p); } if (t == 1) { api::Wis m(2, json()); m.train(VV{e[seed % 3], e[0]}, VS{"a", "b"}); return m.json_(true, p); } api::Clus m(2, 0.9f, 2, 3, json()); m.train(VV{e[seed % 3], e[0]}, VS{"a", "a"}); return m.json_(true, p); };
  auto see = [&](const std::string& s) { VV all = ref::all_entries(4, 2); if (t == 0) { api::Disc m(s); return obs::of(m, all, true); } if (t == 1) { api::Wis m(s); return obs::of(m, all, true); } api::Clus m(s); return obs::of(m, all); };
  int n = k.thorough ? 4 : 3; VS texts, want; for (int i = 0; i < n; i++) { std::string s = text(2 + k.choose(4)); texts.push_back(s); want.push_back(see(s)); k.step(2); } for (int i = 0; i < n; i++) { std::string g = see(texts[i]); REQUIRE("file", g == want[i], "save ", i, " changed with later saves of other objects: ", obs::diff(g, want[i])); k.state(g); }
}
