// One implementation as a plug-in: runs a script of calls and returns every result as JSON. Built once per implementation
// and loaded into the same process (C27), so that all of them see the same generator, clock and files.
#include "obs.hpp"
#ifdef MC_BACKEND_PY
namespace mc { void backend_init(); }
#endif
namespace {
struct Slot { std::shared_ptr<api::Disc> d; std::shared_ptr<api::Wis> w; std::shared_ptr<api::Clus> c; std::shared_ptr<api::Bin> b; std::shared_ptr<api::Data> s; std::shared_ptr<api::RDH> h; std::shared_ptr<api::Synth> y; std::shared_ptr<api::Kern> k; };
json bits_of(const api::Bin& b) { json o = json::array(); for (ull i = 0; i < b.size(); i++) o.push_back(b.get(i)); return o; }
json cells_of(const Cells& c) { json o = json::array(); for (auto& e : c) o.push_back({e.first, e.second}); return o; }
template <typename M> json saves(M& m, const json& c, const std::string& op) {
  if (op == "json") return m.json_();
  if (op == "jsonfile") return m.json_(true, c["path"].get<std::string>());
  if (op == "jsoninline") return m.json_(false);
  if (op == "config") return m.jsonConfig();
  if (op == "sizeof") return m.getsizeof();
  return nullptr;
}
json call(std::vector<Slot>& v, const json& c) {
  std::string op = c["op"]; json o = c.count("o") ? c["o"] : json();
  if (op == "new") {
    std::string t = c["t"]; Slot s; v.push_back(s); Slot& n = v.back(); bool text = c.count("text");
    if (t == "disc") n.d.reset(text ? new api::Disc(c["text"].get<std::string>()) : new api::Disc(c["n"].get<int>(), c["E"].get<int>(), o));
    else if (t == "wis") n.w.reset(text ? new api::Wis(c["text"].get<std::string>()) : new api::Wis(c["n"].get<int>(), o));
    else if (t == "clus") n.c.reset(text ? new api::Clus(c["text"].get<std::string>()) : new api::Clus(c["n"].get<int>(), c["min"].get<float>(), c["th"].get<int>(), c["lim"].get<int>(), o));
    else if (t == "bin") n.b.reset(text ? new api::Bin(c["text"].get<std::string>()) : c.count("size") ? new api::Bin(c["size"].get<ull>()) : new api::Bin(c["x"].get<VSh>()));
    else if (t == "data") n.s.reset(text ? new api::Data(c["text"].get<std::string>()) : new api::Data());
    else if (t == "rdh") n.h.reset(new api::RDH(c["text"].get<std::string>()));
    else if (t == "synth") n.y.reset(new api::Synth(c["x"].get<V>()));
    else if (t == "kern") n.k.reset(new api::Kern(c["dim"].get<int>(), c["n"].get<int>(), o));
    return "made";
  }
  Slot& s = v.at(c["s"].get<int>());
  if (!s.d && !s.w && !s.c && !s.b && !s.s && !s.h && !s.y && !s.k) throw std::runtime_error("the object could not be made");
  if (s.d) {
    if (op == "train") { s.d->train(c["x"].get<V>()); return nullptr; } if (op == "trainlist") { s.d->train(c["x"].get<VV>()); return nullptr; } if (op == "trainbin") { s.d->train(api::Bin(c["x"].get<VSh>())); return nullptr; }
    if (op == "classify") return s.d->classify(c["x"].get<V>()); if (op == "classifybin") return s.d->classify(api::Bin(c["x"].get<VSh>())); return saves(*s.d, c, op);
  }
  if (s.w) {
    auto data = [&] { api::Data d; VV x = c["x"].get<VV>(); VS y = c.count("y") ? c["y"].get<VS>() : VS(); for (size_t i = 0; i < x.size(); i++) if (i < y.size()) d.add(ref::shorts(x[i]), y[i]); else d.add(ref::shorts(x[i])); return d; };
    if (op == "train") { s.w->train(c["x"].get<VV>(), c["y"].get<VS>()); return nullptr; } if (op == "traindata") { s.w->train(data()); return nullptr; } if (op == "classify") return s.w->classify(c["x"].get<VV>()); if (op == "classifydata") return s.w->classify(data());
    if (op == "leave") { s.w->leaveOneOut(c["x"].get<V>(), c["y"].get<std::string>()); return nullptr; } if (op == "leavemore") { s.w->leaveMoreOut(c["x"].get<VV>(), c["y"].get<VS>()); return nullptr; } if (op == "images") return s.w->getMentalImages(); return saves(*s.w, c, op);
  }
  if (s.c) {
    if (op == "train") { s.c->train(c["x"].get<VV>(), c["y"].get<VS>()); return nullptr; } if (op == "semi") { std::map<int, std::string> m; for (auto& e : c["y"]) m[e[0].get<int>()] = e[1].get<std::string>(); s.c->train(c["x"].get<VV>(), m); return nullptr; } if (op == "unsupervised") { s.c->trainUnsupervised(c["x"].get<VV>()); return nullptr; }
    if (op == "classify") return s.c->classify(c["x"].get<VV>()); if (op == "classifyunsupervised") return s.c->classifyUnsupervised(c["x"].get<VV>()); if (op == "images") return s.c->getMentalImages(); if (op == "image") return s.c->getMentalImage(c["y"].get<std::string>()); return saves(*s.c, c, op);
  }
  if (s.b) { if (op == "get") return s.b->get(c["i"].get<ull>()); if (op == "at") return s.b->at(c["i"].get<ull>()); if (op == "set") { s.b->set(c["i"].get<ull>(), c["v"].get<int>()); return nullptr; } if (op == "size") return s.b->size(); if (op == "data") return s.b->data(); if (op == "bits") return bits_of(*s.b); }
  if (s.s) { if (op == "add") { if (c.count("y")) s.s->add(c["x"].get<VSh>(), c["y"].get<std::string>()); else s.s->add(c["x"].get<VSh>()); return nullptr; } if (op == "addbin") { api::Bin b(c["x"].get<VSh>()); if (c.count("y")) s.s->add(b, c["y"].get<std::string>()); else s.s->add(b); return nullptr; } if (op == "get") return bits_of(s.s->get(c["i"].get<int>())); if (op == "label") return s.s->getLabel(c["i"].get<ull>()); if (op == "size") return s.s->size(); if (op == "save") { s.s->save(c["path"].get<std::string>()); return nullptr; } }
  if (s.h) { if (op == "get") return s.h->get(c["r"].get<int>(), c["a"].get<ull>()); if (op == "ram") return cells_of(s.h->get(c["r"].get<int>())); if (op == "set") { s.h->set(c["r"].get<int>(), c["a"].get<ull>(), c["v"].get<int>()); return nullptr; } if (op == "data") return s.h->data(); if (op == "data1") return s.h->data(c["r"].get<int>()); if (op == "compare") return s.h->compare(*v.at(c["other"].get<int>()).h); }
  if (s.y && op == "make") return s.y->make();
  if (s.k && op == "transform") return s.k->transform(c["x"].get<VVD>());
  throw std::runtime_error("script: no object for " + op);
}
}
#define EXPORT extern "C" __attribute__((visibility("default")))
EXPORT void plug_init() {
#ifdef MC_BACKEND_PY
  mc::backend_init();
#endif
}
// each call gives {"v": value} or {"e": 1}
EXPORT const char* plug_run(const char* script) {
  static std::string out; out.clear(); json calls = json::parse(script), r = json::array(); std::vector<Slot> v;
  for (auto& c : calls) {
    std::string bad; json x;
    try { x = {{"v", call(v, c)}}; } catch (std::exception& e) { x = {{"e", 1}}; bad = e.what(); if (getenv("PLUG_SHOW")) fprintf(stderr, "%s\n", e.what()); }
    if (bad.compare(0, 7, "script:") == 0) x["e"] = bad;
    r.push_back(x);
  }
  try { out = r.dump(); } catch (std::exception& e) { out = std::string("[\"result cannot be written\"]"); }
  return out.c_str();
}
