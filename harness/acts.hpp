// Everything that can be done to one object of each kind, also what is refused: a script of numbers, played on a new object.
#ifndef ACTS_HPP
#define ACTS_HPP
#include "confs.hpp"
#include <cstring>
#include <dirent.h>
using namespace mc;
namespace acts {
enum { DISC, WIS, CLUS, BIN, DATA, HANDLE, KERN, SYNTH, KINDS };
static const char* const NAME[] = {"Discriminator", "Wisard", "ClusWisard", "BinInput", "DataSet", "RAMDataHandle", "KernelCanvas", "Synthesizer"};
struct Obj { int kind, E, base; std::string dir; std::unique_ptr<api::Disc> d; std::unique_ptr<api::Wis> w; std::unique_ptr<api::Clus> c; std::unique_ptr<api::Bin> b; std::unique_ptr<api::Data> s; std::unique_ptr<api::RDH> h; std::unique_ptr<api::Kern> k; std::unique_ptr<api::Synth> y; };
inline int variants(int kind) { return kind == DISC ? (int)disc_confs().size() : kind == WIS ? (int)wis_confs().size() : kind == CLUS ? (int)clus_confs().size() : 3; }
inline void build(Obj& o, int kind, int v, const std::string& dir) {
  o.kind = kind; o.dir = dir; o.E = 3; o.base = 2;
  if (kind == DISC) { auto& c = disc_confs()[v]; o.E = c.E; o.base = c.base(); o.d.reset(new api::Disc(c.n, c.E, c.o)); }
  if (kind == WIS) { auto& c = wis_confs()[v]; o.E = c.E; o.base = c.base(); o.w.reset(new api::Wis(c.n, c.o)); }
  if (kind == CLUS) { auto& c = clus_confs()[v]; o.E = c.E; o.base = c.base(); o.c.reset(new api::Clus(c.n, c.min, c.th, c.lim, c.o)); }
  if (kind == BIN) o.b.reset(v == 0 ? new api::Bin((ull)12) : v == 1 ? new api::Bin(VSh(9, 1)) : new api::Bin(std::string("AAAA")));
  if (kind == DATA) { o.s.reset(new api::Data()); if (v) o.s->add(VSh{0, 1}, "first"); if (v > 1) o.s->add(VSh{1}); }
  if (kind == HANDLE) o.h.reset(new api::RDH(v == 0 ? "" : v == 1 ? ref::pack_cells(Cells{{1, 1}}) : ref::pack_cells(Cells{{5, 2}}) + "." + ref::pack_cells(Cells{{5, 3}, {~0ull, 4}})));
  if (kind == KERN) o.k.reset(new api::Kern(2, 3 + v, json{{"bitsByKernel", 1 + v}, {"activationDegree", 0.4f}, {"useDirection", v == 2}}));
  if (kind == SYNTH) o.y.reset(new api::Synth(v == 0 ? V{1, 2, 3} : v == 1 ? V{0, 2} : V{}));
}
struct Act { const char* name; bool query; std::function<void(Obj&)> f; };
static VV pool(const Obj& o) { return pool3(ref::all_entries(o.E, o.base)); }
static V wrong(const Obj& o) { V x(o.E, 0); x[o.E - 1] = o.base; return x; }
static api::Bin bits(const V& x) { V y = x; for (int& v : y) v = v > 0; return api::Bin(ref::shorts(y)); }
static const std::string LONG(200, 'l');
template <typename M> void model_acts(std::vector<Act>& v, std::unique_ptr<M> Obj::* m) {
  v.push_back({"json", true, [m](Obj& o) { (o.*m)->json_(); }});
  v.push_back({"jsonConfig", true, [m](Obj& o) { (o.*m)->jsonConfig(); }});
  v.push_back({"json(True, path)", true, [m](Obj& o) { (o.*m)->json_(true, o.dir + "save"); }});
  v.push_back({"json(True, missing directory)", true, [m](Obj& o) { (o.*m)->json_(true, o.dir + "missing/x"); }});
  v.push_back({"getsizeof", true, [m](Obj& o) { (o.*m)->getsizeof(); }});
  v.push_back({"restore", false, [m](Obj& o) { std::string t = (o.*m)->json_(); (o.*m).reset(new M(t)); }});
  v.push_back({"restore from files", false, [m](Obj& o) { std::string t = (o.*m)->json_(true, o.dir + "again"); (o.*m).reset(new M(t)); }});
  v.push_back({"restore damaged text", true, [m](Obj& o) { std::string t = (o.*m)->json_(); size_t p = t.find("\"data\":\""); M x(p == std::string::npos ? t.substr(0, t.size() / 2) : t.substr(0, p + 8) + "!*~-" + t.substr(p + 8)); }});
  v.push_back({"restore from damaged files", true, [m](Obj& o) { std::string t = (o.*m)->json_(true, o.dir + "hurt"); DIR* d = opendir(o.dir.c_str()); if (d) { while (dirent* e = readdir(d)) if (!strncmp(e->d_name, "hurt", 4)) { FILE* h = fopen((o.dir + e->d_name).c_str(), "w"); if (h) { fputs("AAA", h); fclose(h); } } closedir(d); } M x(t); }});
}
inline const std::vector<Act>& all(int kind) {
  static std::vector<std::vector<Act>> t;
  if (t.empty()) {
    t.resize(KINDS);
    { auto& v = t[DISC];
      for (int i = 0; i < 3; i++) v.push_back({"train", false, [i](Obj& o) { o.d->train(pool(o)[i]); }});
      v.push_back({"train list", false, [](Obj& o) { o.d->train(pool(o)); }}); v.push_back({"train BinInput", false, [](Obj& o) { o.d->train(bits(pool(o)[1])); }});
      v.push_back({"train wrong size", false, [](Obj& o) { o.d->train(V(o.E + 1, 0)); }}); v.push_back({"train wrong value", false, [](Obj& o) { o.d->train(wrong(o)); }});
      v.push_back({"classify", true, [](Obj& o) { o.d->classify(pool(o)[1]); }}); v.push_back({"classify BinInput", true, [](Obj& o) { o.d->classify(bits(pool(o)[2])); }}); v.push_back({"classify wrong", true, [](Obj& o) { o.d->classify(wrong(o)); }});
#ifdef MC_BACKEND_CPP
      v.push_back({"untrain", false, [](Obj& o) { o.d->untrain(pool(o)[1]); }}); v.push_back({"mental image", true, [](Obj& o) { o.d->getMentalImage(); }}); v.push_back({"copy", true, [](Obj& o) { api::Disc c(*o.d); c.train(pool(o)[0]); c = *o.d; }});
#endif
      model_acts(v, &Obj::d); }
    { auto& v = t[WIS];
      v.push_back({"train a", false, [](Obj& o) { o.w->train(VV{pool(o)[1]}, VS{"a"}); }}); v.push_back({"train list", false, [](Obj& o) { o.w->train(pool(o), VS{"a", LONG, "c"}); }});
      v.push_back({"train DataSet", false, [](Obj& o) { api::Data d; d.add(bits(pool(o)[1]), "a"); d.add(bits(pool(o)[2]), "b"); o.w->train(d); }}); v.push_back({"train unlabelled DataSet", false, [](Obj& o) { api::Data d; d.add(bits(pool(o)[1])); o.w->train(d); }});
      v.push_back({"train wrong size", false, [](Obj& o) { o.w->train(VV{V(o.E + 1, 0)}, VS{"z"}); }}); v.push_back({"train wrong value", false, [](Obj& o) { o.w->train(VV{pool(o)[0], wrong(o)}, VS{"a", "z"}); }}); v.push_back({"train other lengths", false, [](Obj& o) { o.w->train(pool(o), VS{"a"}); }});
      v.push_back({"classify", true, [](Obj& o) { o.w->classify(pool(o)); }}); v.push_back({"classify DataSet", true, [](Obj& o) { api::Data d; d.add(bits(pool(o)[1])); o.w->classify(d); }}); v.push_back({"classify wrong", true, [](Obj& o) { o.w->classify(VV{pool(o)[0], wrong(o)}); }});
      v.push_back({"leaveOneOut", false, [](Obj& o) { o.w->leaveOneOut(pool(o)[1], "a"); }}); v.push_back({"leaveMoreOut", false, [](Obj& o) { o.w->leaveMoreOut(VV{pool(o)[0], pool(o)[1]}, VS{"a", "unknown"}); }}); v.push_back({"leaveMoreOut refused", false, [](Obj& o) { o.w->leaveMoreOut(VV{pool(o)[0]}, VS{}); }});
      v.push_back({"mental images", true, [](Obj& o) { o.w->getMentalImages(); }});
#ifdef MC_BACKEND_CPP
      v.push_back({"copy", true, [](Obj& o) { api::Wis c(*o.w); c.train(VV{pool(o)[0]}, VS{"new"}); c = *o.w; }});
#endif
      model_acts(v, &Obj::w); }
    { auto& v = t[CLUS];
      v.push_back({"train a", false, [](Obj& o) { o.c->train(VV{pool(o)[1]}, VS{"a"}); }}); v.push_back({"train list", false, [](Obj& o) { o.c->train(pool(o), VS{"a", LONG, "a"}); }});
      v.push_back({"train semi", false, [](Obj& o) { o.c->train(pool(o), std::map<int, std::string>{{1, "b"}}); }}); v.push_back({"train semi refused", false, [](Obj& o) { o.c->train(pool(o), std::map<int, std::string>{{7, "b"}}); }});
      v.push_back({"train wrong size", false, [](Obj& o) { o.c->train(VV{V(o.E + 1, 0)}, VS{"z"}); }}); v.push_back({"train wrong value", false, [](Obj& o) { o.c->train(VV{pool(o)[0], wrong(o)}, VS{"a", "z"}); }}); v.push_back({"train other lengths", false, [](Obj& o) { o.c->train(pool(o), VS{"a"}); }});
      v.push_back({"trainUnsupervised", false, [](Obj& o) { o.c->trainUnsupervised(pool(o)); }}); v.push_back({"trainUnsupervised wrong", false, [](Obj& o) { o.c->trainUnsupervised(VV{wrong(o)}); }});
      v.push_back({"classify", true, [](Obj& o) { o.c->classify(pool(o)); }}); v.push_back({"classify wrong", true, [](Obj& o) { o.c->classify(VV{pool(o)[0], wrong(o)}); }}); v.push_back({"classifyUnsupervised", true, [](Obj& o) { o.c->classifyUnsupervised(pool(o)); }});
      v.push_back({"mental image", true, [](Obj& o) { o.c->getMentalImage("a"); }}); v.push_back({"mental image of nothing", true, [](Obj& o) { o.c->getMentalImage("unknown"); }}); v.push_back({"mental images", true, [](Obj& o) { o.c->getMentalImages(); }});
#ifdef MC_BACKEND_CPP
      v.push_back({"copy", true, [](Obj& o) { api::Clus c(*o.c); c.train(VV{pool(o)[0]}, VS{"new"}); c = *o.c; }});
#endif
      model_acts(v, &Obj::c); }
    { auto& v = t[BIN];
      v.push_back({"set", false, [](Obj& o) { o.b->set(3, 1); }}); v.push_back({"clear", false, [](Obj& o) { o.b->set(0, 0); }}); v.push_back({"set outside", false, [](Obj& o) { o.b->set(1000, 1); }}); v.push_back({"set another value", true, [](Obj& o) { o.b->set(1, 6); }}); v.push_back({"from a wrong list", true, [](Obj&) { api::Bin b(VSh{0, 1, 5}); }}); v.push_back({"get", true, [](Obj& o) { o.b->get(0); o.b->at(1); }}); v.push_back({"get outside", true, [](Obj& o) { o.b->get(99); }}); v.push_back({"data", true, [](Obj& o) { o.b->data(); }});
      v.push_back({"restore", false, [](Obj& o) { o.b.reset(new api::Bin(o.b->data())); }}); v.push_back({"restore damaged", true, [](Obj& o) { api::Bin b(o.b->data() + "!*~-"); }}); v.push_back({"from a list", false, [](Obj& o) { o.b.reset(new api::Bin(VSh(70, 1))); }}); v.push_back({"size", true, [](Obj& o) { o.b->size(); }}); }
    { auto& v = t[DATA];
      v.push_back({"add", false, [](Obj& o) { o.s->add(VSh(400, 1)); }}); v.push_back({"add labelled", false, [](Obj& o) { o.s->add(VSh(400, 0), LONG); }}); v.push_back({"add BinInput", false, [](Obj& o) { o.s->add(api::Bin(VSh(900, 1)), "b"); }}); v.push_back({"add wrong value", true, [](Obj& o) { o.s->add(VSh{1, 7}, "wrong"); }}); v.push_back({"get", true, [](Obj& o) { o.s->get(0).data(); }}); v.push_back({"get outside", true, [](Obj& o) { o.s->get(99); }});
      v.push_back({"label", true, [](Obj& o) { o.s->getLabel(0); }}); v.push_back({"label outside", true, [](Obj& o) { o.s->getLabel(77); }}); v.push_back({"save", true, [](Obj& o) { o.s->save(o.dir + "data"); }}); v.push_back({"save fails", true, [](Obj& o) { o.s->save(o.dir + "missing/data"); }});
      v.push_back({"load", false, [](Obj& o) { o.s->save(o.dir + "load"); o.s.reset(new api::Data(o.dir + "load.wpkds")); }}); v.push_back({"load missing", true, [](Obj& o) { api::Data d(o.dir + "none.wpkds"); }}); v.push_back({"load other name", true, [](Obj& o) { api::Data d(o.dir + "none"); }});
      v.push_back({"load damaged", true, [](Obj& o) { std::string f = o.dir + "damaged.wpkds"; FILE* h = fopen(f.c_str(), "w"); if (h) { fputs("YQ==#AAAA.zz", h); fclose(h); } api::Data d(f); }}); v.push_back({"size", true, [](Obj& o) { o.s->size(); }}); }
    { auto& v = t[HANDLE];
      v.push_back({"set", false, [](Obj& o) { o.h->set(0, 5, 9); }}); v.push_back({"set new RAM", false, [](Obj& o) { o.h->set(1, 7, 1); }}); v.push_back({"set outside", false, [](Obj& o) { o.h->set(50, 5, 9); }}); v.push_back({"get", true, [](Obj& o) { o.h->get(0, 5); o.h->get(3, 5); }}); v.push_back({"get RAM", true, [](Obj& o) { o.h->get(0); o.h->get(9); }}); v.push_back({"data", true, [](Obj& o) { o.h->data(); o.h->data(0); o.h->data(9); }});
      v.push_back({"compare", true, [](Obj& o) { api::RDH x(o.h->data()); o.h->compare(x); }}); v.push_back({"restore", false, [](Obj& o) { o.h.reset(new api::RDH(o.h->data())); }}); v.push_back({"restore damaged", true, [](Obj& o) { api::RDH x(o.h->data() + "AA"); }}); }
    { auto& v = t[KERN];
      v.push_back({"transform", true, [](Obj& o) { o.k->transform(VVD{{1, 2}, {3, 0}, {-1, 8}}); }}); v.push_back({"transform one", true, [](Obj& o) { o.k->transform(VVD{{1, 2}}); }}); v.push_back({"transform none", true, [](Obj& o) { o.k->transform(VVD()); }}); v.push_back({"transform refused", true, [](Obj& o) { o.k->transform(VVD{{1, 2}, {3}}); }}); v.push_back({"canvas refused", true, [](Obj&) { api::Kern x(0, 3, json()); }}); v.push_back({"canvas refused late", true, [](Obj&) { api::Kern x(3, 3, json{{"activationDegree", 7.0f}}); }}); v.push_back({"another canvas", false, [](Obj& o) { o.k.reset(new api::Kern(2, 9, json())); }}); }
    { auto& v = t[SYNTH]; v.push_back({"make", true, [](Obj& o) { o.y->make(); }}); v.push_back({"another", false, [](Obj& o) { o.y.reset(new api::Synth(V{3, 0, 4, 1})); }}); v.push_back({"twice", true, [](Obj& o) { o.y->make(); o.y->make(); }}); }
  }
  return t[kind];
}
}
#endif
