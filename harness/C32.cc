// C32: arguments and results are values. A model driven with arguments that are kept, checked and changed afterwards is compared
// with a twin driven with temporaries; every result is kept, looked at again (and, in Python, changed) later.
#include "acts.hpp"
using namespace acts;

static void constant() { rand_hook = [] { return 0; }; }
static std::string look(Obj& o) {
  constant(); VV a = o.d || o.w || o.c ? ref::all_entries(o.E, o.base) : VV();
  if (o.d) return obs::of(*o.d, a, o.base == 2); if (o.w) return obs::of(*o.w, a, o.base == 2); if (o.c) return obs::of(*o.c, a);
  if (o.s) { std::string s = str(o.s->size()); for (ull i = 0; i < o.s->size(); i++) { std::string l = "-"; refused([&] { l = o.s->getLabel(i); }); s += " " + l + "=" + o.s->get((int)i).data(); } return s; }
  if (o.h) return o.h->data(); if (o.b) return o.b->data(); if (o.k) return str(o.k->transform(VVD{{1, 2}, {3, 0}, {-1, 8}})); return str(o.y->make());
}
// what the calls of one history are given
struct Values { VV xs; VS ys; std::map<int, std::string> semi; json data = json::array(); VSh bits; VVD seq; std::string text; };
static Values values(const Obj& o, int i) {
  Values v; VV p = pool(o); for (int j = 0; j < 3; j++) v.xs.push_back(p[(i + j) % 3]); v.ys = i == 0 ? VS{"a", "b", "a"} : i == 1 ? VS{"b", "", "c::0"} : VS{"a", "a", "a"}; v.semi = i == 0 ? std::map<int, std::string>{{1, "a"}} : i == 1 ? std::map<int, std::string>{{0, "a"}, {2, "b"}} : std::map<int, std::string>{{-1, "x"}, {2, "a"}, {9, "y"}};
  for (int j = 0; j < 2; j++) { V x = v.xs[j]; for (int& q : x) q = q > 0; v.data.push_back({x, v.ys[j].empty() ? "n" : v.ys[j]}); } v.bits = VSh(o.E, 0); for (int j = 0; j < o.E; j++) v.bits[j] = v.xs[0][j] > 0; v.seq = {{1.0 + i, 2}, {3, -1.0 * i}, {0, 0}}; v.text = i == 0 ? "" : ref::pack_cells(Cells{{(ull)i, 5}}); return v;
}
static api::Data data_of(const json& j) { api::Data d; for (auto& e : j) d.add(ref::shorts(e[0].get<V>()), e[1].get<std::string>()); return d; }
static std::string show(const api::Data& d) { std::string s = str(d.size()); for (ull i = 0; i < d.size(); i++) { std::string l = "-"; refused([&] { l = d.getLabel(i); }); s += " " + l + "=" + d.get((int)i).data(); } return s; }

#ifdef MC_BACKEND_CPP
// ---------------------------------------------------------------- C++: lvalues, references, overlapping storage
struct Args { VV xs; VS ys; std::map<int, std::string> semi; wp::DataSet ds; wp::BinInput bin; VVD seq; wp::RAMDataHandle other; Args(const Values& v) : xs(v.xs), ys(v.ys), semi(v.semi), ds(data_of(v.data).d), bin(v.bits), seq(v.seq), other(v.text) {} };
static std::string show(Args& a) { api::Data d; d.d = a.ds; std::string s = str(a.xs) + obs::show(a.ys); for (auto& e : a.semi) s += str(e.first, "=", e.second, " "); s += show(d) + a.bin.data() + str(a.seq) + a.other.data(); return s; }
static void spoil(Args& a, int how) {
  if (how == 0) { for (auto& x : a.xs) for (int& v : x) v = 77; for (auto& y : a.ys) y = "spoilt"; for (auto& e : a.semi) e.second = "spoilt"; for (auto& x : a.seq) for (double& v : x) v = 1e9; a.bin = wp::BinInput((wp::index_size_t)3); a.ds.add(wp::BinInput((wp::index_size_t)5), "spoilt"); a.other.set(0, 9, 9); }
  if (how == 1) { a.xs.clear(); a.xs.shrink_to_fit(); a.ys.clear(); a.ys.shrink_to_fit(); a.semi.clear(); a.seq.clear(); a.ds = wp::DataSet(); a.bin = wp::BinInput(); a.other = wp::RAMDataHandle(std::string()); }
}
static std::string text(const V& v) { return str(v); } static std::string text(const VV& v) { return str(v); } static std::string text(const VS& v) { return obs::show(v); } static std::string text(const std::string& v) { return v; } static std::string text(int v) { return str(v); } static std::string text(bool v) { return str(v); } static std::string text(long v) { return str(v); } static std::string text(ull v) { return str(v); } static std::string text(size_t v) { return str(v); }
static std::string text(const wp::BinInput& b) { std::string s = b.data(); for (ull i = 0; i < b.size(); i++) s += b.get(i) ? '1' : '0'; return s; }
template <typename K, typename T> std::string text(const std::map<K, T>& m) { std::string s; for (auto& e : m) s += str(e.first) + ":" + text(e.second) + " "; return s; }
template <typename K, typename T> std::string text(const std::unordered_map<K, T>& m) { return text(std::map<K, T>(m.begin(), m.end())); }
struct Run { Ctx& k; std::unique_ptr<Obj> o; Obj twin; std::string name; bool alive; int how; Run(Ctx& k_) : k(k_), alive(true) {} };
typedef std::function<void()> Next;
// the result of a call stays what it was, whatever happens afterwards, also when the object is gone
#define KEEP(call, twin_call) do { auto&& re_ = call; std::string was = text(re_); auto&& tw_ = twin_call; REQUIRE("result", was == text(tw_), R.name, ": the result is ", was, " instead of ", text(tw_)); next(); std::string is = text(re_); REQUIRE("result-changed", is == was, "after ", R.name, " an earlier result changed from ", was, " to ", is); } while (0)
#define CALL(call, twin_call) do { call; twin_call; next(); } while (0)
static int ops(int kind) { return kind == DISC ? 8 : kind == WIS ? 11 : kind == CLUS ? 10 : kind == DATA ? 9 : kind == HANDLE ? 8 : kind == KERN ? 1 : kind == SYNTH ? 1 : 3; }
static void op(Run& R, int w, Args& a, Args& b, const Next& next) {
  Ctx& k = R.k; Obj& o = *R.o; Obj& t = R.twin; int kind = o.kind;
  if (kind == DISC) { wp::Discriminator& m = o.d->d; wp::Discriminator& n = t.d->d;
    if (w == 0) CALL(m.train(a.xs[0]), n.train(b.xs[0])); if (w == 1) CALL(m.train(a.xs), n.train(b.xs)); if (w == 2) CALL(m.train(a.bin), n.train(b.bin)); if (w == 3) KEEP(m.classify(a.xs[1]), n.classify(b.xs[1])); if (w == 4) KEEP(m.classify(a.bin), n.classify(b.bin)); if (w == 5) CALL(m.untrain(a.xs[0]), n.untrain(b.xs[0])); if (w == 6) KEEP(m.getMentalImage(), n.getMentalImage()); if (w == 7) KEEP(m.json(), n.json()); }
  if (kind == WIS) { wp::Wisard& m = o.w->w; wp::Wisard& n = t.w->w;
    if (w == 0) CALL(m.train(a.xs, a.ys), n.train(b.xs, b.ys)); if (w == 1) CALL(m.train(a.ds), n.train(b.ds)); if (w == 2) KEEP(m.classify(a.xs), n.classify(b.xs)); if (w == 3) KEEP(m.classify(a.ds), n.classify(b.ds)); if (w == 4) CALL(m.leaveOneOut(a.xs[0], a.ys[0]), n.leaveOneOut(b.xs[0], b.ys[0])); if (w == 5) CALL(m.leaveMoreOut(a.xs, a.ys), n.leaveMoreOut(b.xs, b.ys)); if (w == 6) KEEP(m.getMentalImages(), n.getMentalImages()); if (w == 7) KEEP(m.json(), n.json()); if (w == 8) KEEP(m.jsonConfig(), n.jsonConfig());
    if (w == 9) { VV x = {a.xs[0], a.xs[0], a.xs[0]}; x[1].back() = 77; VS y = a.ys; std::string before = text(x) + text(y); bool r = refused([&] { m.train(x, y); }); VV z = {b.xs[0], b.xs[0], b.xs[0]}; z[1].back() = 77; bool q = refused([&] { n.train(z, b.ys); }); REQUIRE("refused", r == q, R.name, ": refused differently"); REQUIRE("argument", before == text(x) + text(y), R.name, ": the arguments of a refused call changed"); next(); }
    if (w == 10) { VS l = m.classify(a.xs); std::string was = text(l); m.train(a.xs, l); VS l2 = n.classify(b.xs); n.train(b.xs, l2); REQUIRE("argument", was == text(l), R.name, ": the labels became ", text(l)); next(); REQUIRE("result-changed", was == text(l), R.name, ": the labels became ", text(l)); } }
  if (kind == CLUS) { wp::ClusWisard& m = o.c->w; wp::ClusWisard& n = t.c->w;
    if (w == 0) CALL(m.train(a.xs, a.ys), n.train(b.xs, b.ys)); if (w == 1) { bool r = refused([&] { m.train(a.xs, a.semi); }), q = refused([&] { n.train(b.xs, b.semi); }); REQUIRE("refused", r == q, R.name, ": refused differently"); next(); } if (w == 2) CALL(m.trainUnsupervised(a.xs), n.trainUnsupervised(b.xs)); if (w == 3) KEEP(m.classify(a.xs), n.classify(b.xs)); if (w == 4) KEEP(m.classifyUnsupervised(a.xs), n.classifyUnsupervised(b.xs)); if (w == 5) KEEP(m.getMentalImage(a.ys[0]), n.getMentalImage(b.ys[0])); if (w == 6) KEEP(m.getMentalImages(), n.getMentalImages()); if (w == 7) KEEP(m.json(), n.json()); if (w == 8) KEEP(m.jsonConfig(), n.jsonConfig()); if (w == 9) KEEP(m.getMentalImage("nobody"), VV()); }
  if (kind == DATA) { wp::DataSet& m = o.s->d; wp::DataSet& n = t.s->d; bool some = m.size() > 0;
    if (w == 0) CALL(m.add(a.bin), n.add(b.bin)); if (w == 1) CALL(m.add(a.bin, a.ys[0]), n.add(b.bin, b.ys[0])); if (w == 2) { VSh x = {1, 0, 1}, y = x; m.add(x, a.ys[0]); n.add(y, b.ys[0]); REQUIRE("argument", x == y, "the list changed"); x.assign(3, 1); next(); }
    if (w == 3 && some) { wp::BinInput c = n.get(0); std::string l = "q"; m.add(m.get(0), l); n.add(c, "q"); l = "z"; next(); } if (w == 4 && some) { wp::BinInput c = n[(int)n.size() - 1]; m.add(m[(int)m.size() - 1]); n.add(c); next(); }      // its own entries
    if (w == 5 && some) { wp::BinInput x = m.get(0), y = x; x.set(0, !x.get(0)); REQUIRE("entry", m.get(0).data() == y.data(), "the entry changed with its copy"); next(); REQUIRE("copy", x.get(0) != y.get(0), "the copy changed"); }
    if (w == 6) { api::Data x; x.d = m; std::string was = show(x); next(); REQUIRE("copy", show(x) == was, "the copy changed"); }
    if (w == 7) { m = *&m; next(); } if (w == 8) { a.ds = m; a.ds.add(wp::BinInput(VSh{1, 1}), "more"); next(); } }
  if (kind == HANDLE) { wp::RAMDataHandle& m = o.h->h; wp::RAMDataHandle& n = t.h->h;
    if (w == 0) KEEP(m.compare(a.other), n.compare(b.other)); if (w == 1) KEEP(m.compare(m), true); if (w == 2) KEEP(m.get(0), n.get(0)); if (w == 3) { auto c = m.get(0); std::string was = text(c); c[77] = 7; REQUIRE("cells", text(m.get(0)) == was, "the cells changed with their copy"); next(); } if (w == 4) KEEP(m.data(), n.data()); if (w == 5) CALL(m.set(0, 3, 4), n.set(0, 3, 4)); if (w == 6) { auto c = m.get(0); wp::RAMDataHandle x(c); c.clear(); REQUIRE("cells", text(x.get(0)) == text(n.get(0)), "a handle changed with the cells it was made of"); x.set(0, 5, 1); next(); } if (w == 7) { m = *&m; next(); } }
  if (kind == KERN) KEEP(o.k->c.transform(a.seq), t.k->c.transform(b.seq)); if (kind == SYNTH) KEEP(o.y->s.make(), t.y->s.make());
  if (kind == BIN) { wp::BinInput& m = o.b->b; wp::BinInput& n = t.b->b; if (w == 0) CALL(m.set(1, 1), n.set(1, 1)); if (w == 1) KEEP(m.data(), n.data()); if (w == 2) { m = *&m; wp::BinInput c = m; c.set(0, !c.get(0)); std::string was = text(c); next(); REQUIRE("copy", text(c) == was, "the copy changed"); } }
}
static void steps(Run& R, int d) {
  Ctx& k = R.k; if (d == 0) { std::string a = look(*R.o), b = look(R.twin); REQUIRE("twin", a == b, "with kept arguments ", R.name, " gives ", obs::diff(a, b)); k.state(a); if (k.choose(2)) { R.o.reset(); R.alive = false; } return; }
  int w = k.choose(ops(R.o->kind)), which = R.o->kind == SYNTH || R.o->kind == BIN ? 0 : k.choose(k.thorough || R.o->kind == KERN ? 3 : 2) + (k.thorough || R.o->kind == KERN ? 0 : d % 2), how = (R.how + d) & 1; Values v = values(*R.o, which); std::unique_ptr<Args> a(new Args(v)); Args b(v); std::string was = show(*a); bool checked = false; R.name += str(" ", w, "(", which, ")"); k.log("operation ", w, " with arguments ", was, how ? ", destroyed afterwards" : ", changed afterwards"); k.step(2);
  op(R, w, *a, b, [&] { bool own = R.o->kind == DATA && w == 8; std::string is = own ? was : show(*a); REQUIRE("argument", is == was, "the call ", R.name, " changed its arguments from ", was, " to ", is); checked = true; spoil(*a, 0); if (how) { spoil(*a, 1); a.reset(); } steps(R, d - 1); });
  (void)checked;
}
SUITE(arguments) {
  constant(); int kind = k.choose(KINDS), v = k.choose(variants(kind)), depth = kind <= CLUS ? (k.thorough ? 3 : 2) : (k.thorough ? 4 : 3); Run R(k); R.how = k.choose(2); R.o.reset(new Obj()); build(*R.o, kind, v, ""); if (kind == KERN) rand_hook = ref::stream(4); constant(); build(R.twin, kind, v, ""); R.name = str(NAME[kind], " configuration ", v, ":"); steps(R, depth);
}
// what an object is made of
SUITE(made_of) {
  constant(); int w = k.choose(7), how = k.choose(2), v = 0; std::string was, is; k.step(4);
  auto check = [&](const std::string& a, const std::string& b, const char* what) { REQUIRE("made-of", a == b, what, ": ", obs::diff(a, b)); k.state(a); };
  auto opts = [&](json& o) { if (how) { for (auto it = o.begin(); it != o.end(); ++it) it.value() = 9; o["base"] = 5; } else o = json(); };
  if (w == 0) { v = k.choose((int)disc_confs().size()); auto c = disc_confs()[v]; json o = c.o.is_null() ? json::object() : c.o, p = o; wp::Discriminator* m = new wp::Discriminator(c.n, c.E, o); check(o.dump(), p.dump(), "options"); opts(o); wp::Discriminator n(c.n, c.E, p); VV all = ref::all_entries(c.E, c.base()); m->train(all); n.train(all); check(m->json(), n.json(), "a Discriminator"); delete m; }
  if (w == 1) { v = k.choose((int)wis_confs().size()); auto c = wis_confs()[v]; json o = c.o.is_null() ? json::object() : c.o, p = o; wp::Wisard* m = new wp::Wisard(c.n, o); check(o.dump(), p.dump(), "options"); opts(o); wp::Wisard n(c.n, p); VV all = ref::all_entries(c.E, c.base()); VS y(all.size(), "a"); y[0] = "b"; m->train(all, y); n.train(all, y); check(m->json(), n.json(), "a Wisard"); delete m; }
  if (w == 2) { v = k.choose((int)clus_confs().size()); auto c = clus_confs()[v]; json o = c.o.is_null() ? json::object() : c.o, p = o; wp::ClusWisard* m = new wp::ClusWisard(c.n, c.min, c.th, c.lim, o); check(o.dump(), p.dump(), "options"); opts(o); wp::ClusWisard n(c.n, c.min, c.th, c.lim, p); VV all = ref::all_entries(c.E, c.base()); VS y(all.size(), "a"); m->train(all, y); n.train(all, y); check(m->json(), n.json(), "a ClusWisard"); delete m; }
  if (w == 3) { VV m = {{0, 1}, {2, 2, 1}}; wp::Discriminator d(m, 3), e(VV{{0, 1}, {2, 2, 1}}, 3); m[0][0] = 2; m.pop_back(); VV all = ref::all_entries(3, 2); d.train(all); e.train(all); check(d.json(), e.json(), "a mapping"); V ix = {2, 0, 1}; wp::Discriminator f(ix, 3, 3), g(V{2, 0, 1}, 3, 3); ix.assign(3, 0); f.train(all); g.train(all); check(f.json(), g.json(), "indexes"); }
  if (w == 4) { V im = {3, 0, 1, 2}; wp::Synthesizer s(im), t(V{3, 0, 1, 2}); check(str(im), str(V{3, 0, 1, 2}), "an image"); im.assign(4, 3); constant(); for (int i = 0; i < 3; i++) { rand_hook = [i] { return i; }; V a = s.make(), b = t.make(); check(str(a), str(b), "a Synthesizer"); } }
  if (w == 5) { VSh x = {1, 0, 1, 1, 0, 0, 0, 1, 1}; wp::BinInput b(x); x.assign(9, 0); check(b.data(), wp::BinInput(VSh{1, 0, 1, 1, 0, 0, 0, 1, 1}).data(), "a BinInput"); std::string t = b.data(); wp::BinInput c(t); t.assign(t.size(), '!'); check(c.data(), b.data(), "a BinInput from text"); }
  if (w == 6) { std::string t = ref::pack_cells(Cells{{1, 2}, {3, 4}}); wp::RAMDataHandle h(t); t = ""; check(text(h.get(0)), "1:2 3:4 ", "a handle"); }
}
#else
// ---------------------------------------------------------------- Python: lists, dicts and objects that live on
static py::object repr(const py::object& o) { return py::str(py::reinterpret_steal<py::object>(PyObject_Repr(o.ptr()))); }
static std::string text(const py::object& o) { return repr(o).cast<std::string>(); }
// changes everything that can be changed in a result or an argument
static void spoil(const py::object& o) {
  if (py::isinstance<py::list>(o)) { py::list l = py::reinterpret_borrow<py::list>(o); for (size_t i = 0; i < l.size(); i++) { py::object e = l[i]; if (py::isinstance<py::list>(e) || py::isinstance<py::dict>(e)) spoil(e); else l[i] = py::int_(77); } l.append(py::str("spoilt")); }
  if (py::isinstance<py::dict>(o)) { py::dict d = py::reinterpret_borrow<py::dict>(o); VS keys; for (auto e : d) { py::object x = py::reinterpret_borrow<py::object>(e.second); if (py::isinstance<py::list>(x) || py::isinstance<py::dict>(x)) spoil(x); } py::object ks = py::reinterpret_steal<py::object>(PyDict_Keys(d.ptr())); for (auto e : ks) if (py::isinstance<py::str>(d[e]) || py::isinstance<py::int_>(d[e])) d[e] = py::str("spoilt"); d[py::str("spoilt")] = py::int_(1); }
}
struct Args { py::object xs, ys, semi, seq; api::Data ds; api::Bin bin; api::RDH other; Args(const Values& v) : xs(api::to_py(json(v.xs))), ys(api::to_py(json(v.ys))), semi(py::dict()), seq(api::to_py(json(v.seq))), ds(data_of(v.data)), bin(v.bits), other(v.text) { for (auto& e : v.semi) semi[py::int_(e.first)] = py::str(e.second); } };
static std::string show(const Args& a) { api::RDH h = a.other; return text(a.xs) + text(a.ys) + text(a.semi) + text(a.seq) + show(a.ds) + a.bin.data() + h.data(); }
static void spoil(Args& a) { for (auto& o : {a.xs, a.ys, a.semi, a.seq}) spoil(o); refused([&] { a.bin.set(0, !a.bin.get(0)); a.bin.set(1, !a.bin.get(1)); }); a.ds.add(VSh{1}, "spoilt"); a.other.set(0, 9, 9); }
struct Result { py::object o; std::string was; };
static py::object call(Obj& o, int w, Args& a) {
  py::object x0 = a.xs[py::int_(0)], y0 = a.ys[py::int_(0)]; py::object t = o.d ? o.d->o : o.w ? o.w->o : o.c ? o.c->o : o.b ? o.b->o : o.s ? o.s->o : o.h ? o.h->o : o.k ? o.k->o : o.y->o;
  auto at = [&](const char* n) { return t.attr(n); };
  switch (o.kind) {
  case DISC: switch (w) { case 0: return at("train")(x0); case 1: return at("train")(a.xs); case 2: return at("train")(a.bin.o); case 3: return at("classify")(x0); case 4: return at("classify")(a.bin.o); default: return at("json")(); }
  case WIS: switch (w) { case 0: return at("train")(a.xs, a.ys); case 1: return at("train")(a.ds.o); case 2: return at("classify")(a.xs); case 3: return at("classify")(a.ds.o); case 4: return at("leaveOneOut")(x0, y0); case 5: return at("leaveMoreOut")(a.xs, a.ys); default: return at("getMentalImages")(); }
  case CLUS: switch (w) { case 0: return at("train")(a.xs, a.ys); case 1: return at("train")(a.xs, a.semi); case 2: return at("trainUnsupervised")(a.xs); case 3: return at("classify")(a.xs); case 4: return at("classifyUnsupervised")(a.xs); case 5: return at("getMentalImage")(y0); default: return at("getMentalImages")(); }
  case DATA: switch (w) { case 0: return at("add")(a.bin.o); case 1: return at("add")(a.bin.o, y0); case 2: { py::list l; l.append(1); l.append(0); py::object r = at("add")(l, y0); spoil(l); return r; } case 3: return at("add")(at("get")(0), "own"); case 4: return at("get")(0); default: return at("getLabel")(0); }
  case HANDLE: switch (w) { case 0: return at("compare")(a.other.o); case 1: return at("compare")(t); case 2: return at("get")(0); case 3: return at("set")(0, 3, 4); default: return at("data")(); }
  case KERN: return at("transform")(a.seq);
  case SYNTH: return at("make")();
  default: switch (w) { case 0: return at("set")(1, 1); case 1: return at("data")(); default: return at("get")(0); }
  }
}
static int ops(int kind) { return kind == DISC ? 6 : kind == WIS || kind == CLUS ? 7 : kind == DATA ? 6 : kind == HANDLE ? 5 : kind == BIN ? 3 : 1; }
static bool is_bin(const py::object& o) { return py::isinstance(o, api::cls("BinInput")); }
static std::string value(const py::object& o) { return is_bin(o) ? api::Bin(o).data() : text(o); }
SUITE(arguments) {
  constant(); int kind = k.choose(KINDS), v = k.choose(variants(kind)), depth = kind <= CLUS ? (k.thorough ? 3 : 2) : (k.thorough ? 4 : 3); std::unique_ptr<Obj> o(new Obj()); Obj twin; build(*o, kind, v, ""); constant(); build(twin, kind, v, ""); std::string name = str(NAME[kind], " configuration ", v, ":"); std::vector<Result> kept; std::vector<std::unique_ptr<Args>> args;
  for (int d = depth; d > 0; d--) {
    int w = k.choose(ops(kind)), which = kind == SYNTH || kind == BIN ? 0 : k.choose(k.thorough || kind == KERN ? 3 : 2) + (k.thorough || kind == KERN ? 0 : d % 2), keep = k.choose(2); Values val = values(*o, which); std::unique_ptr<Args> a(new Args(val)); Args b(val); std::string was = show(*a), e1, e2; name += str(" ", w, "(", which, ")"); k.log("operation ", w, " with ", was); py::object r, s;
    try { r = call(*o, w, *a); } catch (std::exception& e) { e1 = "refused"; } try { s = call(twin, w, b); } catch (std::exception& e) { e2 = "refused"; } k.step(2);
    REQUIRE("refused", e1 == e2, name, ": refused only ", e1.empty() ? "with temporaries" : "with kept arguments"); std::string is = show(*a); REQUIRE("argument", is == was, "the call ", name, " changed its arguments from ", was, " to ", is);
    if (e1.empty()) { REQUIRE("result", value(r) == value(s), name, ": the result is ", value(r), " instead of ", value(s)); if (keep) { if (is_bin(r)) { api::Bin x(r); if (x.size()) x.set(0, !x.get(0)); } else spoil(r); } kept.push_back({r, value(r)}); }
    spoil(*a); if (keep) args.push_back(std::move(a)); else a.reset();
  }
  std::string a = look(*o), b = look(twin); REQUIRE("twin", a == b, "with arguments and results that are changed afterwards ", name, " gives ", obs::diff(a, b)); k.state(a); if (k.choose(2)) o.reset();
  for (auto& r : kept) REQUIRE("result-changed", value(r.o) == r.was, "after ", name, " an earlier result is ", value(r.o), " instead of ", r.was);
}
SUITE(made_of) {
  constant(); int w = k.choose(4), v = 0; auto check = [&](const std::string& a, const std::string& b, const char* what) { REQUIRE("made-of", a == b, what, ": ", obs::diff(a, b)); k.state(a); k.step(2); };
  if (w < 3) { int n = w == 0 ? (int)disc_confs().size() : w == 1 ? (int)wis_confs().size() : (int)clus_confs().size(); v = k.choose(n); json o = w == 0 ? disc_confs()[v].o : w == 1 ? wis_confs()[v].o : clus_confs()[v].o; if (o.is_null()) o = json::object(); py::dict kw(api::to_py(o)); std::string was = text(kw);
    int E = w == 0 ? disc_confs()[v].E : w == 1 ? wis_confs()[v].E : clus_confs()[v].E, base = o.count("base") ? o["base"].get<int>() : 2; VV all = ref::all_entries(E, base);
    if (w == 0) { auto& c = disc_confs()[v]; py::object m = api::cls("Discriminator")(c.n, c.E, **kw); check(text(kw), was, "options"); spoil(kw); api::Disc n(c.n, c.E, o); for (auto& x : all) { m.attr("train")(x); n.train(x); } check(m.attr("json")().cast<std::string>(), n.json_(), "a Discriminator"); }
    if (w == 1) { auto& c = wis_confs()[v]; py::object m = api::cls("Wisard")(c.n, **kw); check(text(kw), was, "options"); spoil(kw); api::Wis n(c.n, o); VS y(all.size(), "a"); y[0] = "b"; m.attr("train")(all, y); n.train(all, y); check(m.attr("json")().cast<std::string>(), n.json_(), "a Wisard"); }
    if (w == 2) { auto& c = clus_confs()[v]; py::object m = api::cls("ClusWisard")(c.n, c.min, c.th, c.lim, **kw); check(text(kw), was, "options"); spoil(kw); api::Clus n(c.n, c.min, c.th, c.lim, o); VS y(all.size(), "a"); m.attr("train")(all, y); n.train(all, y); check(m.attr("json")().cast<std::string>(), n.json_(), "a ClusWisard"); } }
  else { py::list l; for (int i : {3, 0, 1, 2}) l.append(i); py::object s = api::cls("Synthesizer")(l); check(text(l), "[3, 0, 1, 2]", "an image"); spoil(l); api::Synth t(V{3, 0, 1, 2}); for (int i = 0; i < 3; i++) { rand_hook = [i] { return i; }; V a = s.attr("make")().cast<V>(), b = t.make(); check(str(a), str(b), "a Synthesizer"); } py::list q; for (int i = 0; i < 9; i++) q.append(i % 2); py::object b = api::cls("BinInput")(q); spoil(q); check(b.attr("data")().cast<std::string>(), api::Bin(VSh{0, 1, 0, 1, 0, 1, 0, 1, 0}).data(), "a BinInput"); }
}
// entries taken out of a data set live on without it
SUITE(entries) {
  api::Data* d = new api::Data(); int n = 1 + k.choose(4); for (int i = 0; i < n; i++) d->add(VSh(9, (short)(i & 1)), "l"); std::vector<api::Bin> out; for (int i = 0; i < n; i++) out.push_back(d->get(i)); int w = k.choose(n), more = k.choose(3); out[w].set(3, !out[w].get(3)); for (int i = 0; i < more * 20; i++) d->add(VSh{1, 1}); for (int i = 0; i < n; i++) REQUIRE("entry", d->get(i).data() == api::Bin(VSh(9, (short)(i & 1))).data(), "entry ", i, " changed with a copy of it"); if (k.choose(2)) delete d, d = nullptr; for (int i = 0; i < n; i++) { VSh x(9, (short)(i & 1)); if (i == w) x[3] = !x[3]; REQUIRE("copy", out[i].data() == api::Bin(x).data(), "the copy of entry ", i, " changed"); } delete d; k.step(2 * n); k.state(str(n, w, more));
}
#endif
