// C34: getsizeof() is a function of what the model holds. Sizes met anywhere in the exploration are remembered by content.
#include "clus.hpp"

static size_t cells_of(const json& d) { size_t n = 0; for (auto& p : ref::split(d["data"].get<std::string>(), '.')) { Cells c; ref::unpack_cells(p, c); n += c.size(); } return n; }
struct Held { long classes = 0, letters = 0, discs = 0, rams = 0, seen = 0, cells = 0, config = 0; std::string but_cells() const { return str(config, "/", classes, "/", letters, "/", discs, "/", rams, "/", seen); } };
static void disc(Held& h, const json& d) { h.discs++; h.rams += d["mapping"].size(); for (auto& m : d["mapping"]) h.seen += m.size(); h.cells += cells_of(d); }
template <typename M> Held held(M& m) {
  json j = json::parse(m.json_()); Held h; if (j.count("mapping") && j.count("data")) disc(h, j);
  for (auto n : {"classes", "clusters"}) if (j.count(n) && !j[n].is_null()) for (auto it = j[n].begin(); it != j[n].end(); ++it) { h.classes++; h.letters += it.key().size(); if (it.value().count("discriminators")) for (auto& d : it.value()["discriminators"]) disc(h, d); else disc(h, it.value()); }
  if (j.count("unsupervisedCluster") && !j["unsupervisedCluster"].is_null()) for (auto& d : j["unsupervisedCluster"]["discriminators"]) disc(h, d); return h;
}
// all sizes of one kind of model and configuration: the same content has one size, and each cell more adds the same
struct Known { std::map<std::string, std::map<long, long>> sizes; long unit = 0; };
template <typename M> void look(Ctx& k, Known& w, M& m, const std::string& who) {
  long s = m.getsizeof(); Held h = held(m); k.step(2); REQUIRE("positive", s > 0, who, ": size ", s); auto& row = w.sizes[h.but_cells()]; auto f = row.find(h.cells); std::string what = str(who, " with ", h.classes, " classes of ", h.letters, " letters, ", h.discs, " discriminators, ", h.rams, " RAMs, ", h.cells, " cells");
  if (f != row.end()) { REQUIRE("content", f->second == s, what, ": size ", s, ", earlier ", f->second); return; }
  row[h.cells] = s; if (row.size() > 1) { auto it = row.find(h.cells), o = it == row.begin() ? std::next(it) : std::prev(it); long d = h.cells - o->first, by = s - o->second; REQUIRE("cells", by * d > 0, what, ": size ", s, ", with ", o->first, " cells ", o->second); if (!w.unit) { REQUIRE("unit", by % d == 0, what, ": ", d, " cells take ", by); w.unit = by / d; } REQUIRE("unit", by == w.unit * d, what, ": ", d, " cells take ", by, ", elsewhere one takes ", w.unit); }
  k.state(str(what, s));
}
static const VS LABEL = {"a", "b", "long label", ""};
SUITE(discriminators) {
  int v = k.choose((int)disc_confs().size()); static std::vector<Known> W(16); Known& w = W[v]; const DC& c = disc_confs()[v]; api::Disc d(c.n, c.E, c.o); VV all = ref::all_entries(c.E, c.base()), p = {all[0], all.back(), all[all.size() / 2 + 1], all[1]}; int depth = k.thorough ? 6 : 5; std::string who = "Discriminator " + c.o.dump();
  for (int i = 0; i < depth; i++) {
    int a = k.choose(PY ? 6 : 8); long before = d.getsizeof(); size_t had = held(d).cells; k.log("step ", a);
    if (a < 4) d.train(p[a]); else if (a == 4) { std::string t = d.json_(); d = api::Disc(t); REQUIRE("restored", d.getsizeof() == before, who, ": restored ", d.getsizeof(), " instead of ", before); } else if (a == 5) { d.classify(p[i % 4]); d.json_(); REQUIRE("asked", d.getsizeof() == before, who, ": ", d.getsizeof(), " after a query instead of ", before); }
#ifdef MC_BACKEND_CPP
    else d.untrain(p[a - 6]);
#endif
    long now = d.getsizeof(); size_t has = held(d).cells; if (has == had) REQUIRE("same", now == before, who, ": ", before, " became ", now, " without a new cell"); look(k, w, d, who); }
}
SUITE(wisards) {
  int v = k.choose((int)wis_confs().size()); static std::vector<Known> W(16); Known& w = W[v]; const DC& c = wis_confs()[v]; api::Wis d(c.n, c.o); VV all = ref::all_entries(c.E, c.base()), p = {all[0], all.back(), all[all.size() / 2 + 1]}; int depth = k.thorough ? 5 : 4; std::string who = "Wisard " + c.o.dump(); bool bits = c.base() == 2; look(k, w, d, who);
  for (int i = 0; i < depth; i++) {
    int a = k.choose(8); long before = d.getsizeof(); size_t had = held(d).cells + 1000 * held(d).classes; k.log("step ", a);
    if (a < 4) d.train(VV{p[(i + a) % 3]}, VS{LABEL[a]}); else if (a == 4) d.train(VV{p[0], p[1], p[0]}, VS{"a", "b", "a"}); else if (a == 5) { if (bits) { api::Data s; s.add(ref::shorts(p[1]), "a"); s.add(ref::shorts(p[2]), "long label"); d.train(s); } else d.train(VV{p[1], p[2]}, VS{"a", "long label"}); } else if (a == 6) d.leaveOneOut(p[i % 3], "a"); else { std::string t = d.json_(); d = api::Wis(t); d.classify(all); d.getMentalImages(); REQUIRE("restored", d.getsizeof() == before, who, ": restored ", d.getsizeof(), " instead of ", before); }
    long now = d.getsizeof(); Held h = held(d); if (h.cells + 1000 * h.classes == (long)had) REQUIRE("same", now == before, who, ": ", before, " became ", now, " without a new cell"); look(k, w, d, who); }
}
SUITE(cluswisards) {
  int v = k.choose((int)clus_confs().size()); static std::vector<Known> W(16); Known& w = W[v]; const CC& c = clus_confs()[v]; api::Clus d(c.n, c.min, c.th, c.lim, c.o); VV all = ref::all_entries(c.E, c.base()), p = {all[0], all.back(), all[all.size() / 2 + 1]}; int depth = k.thorough ? 5 : 4; std::string who = "ClusWisard " + c.o.dump();
  for (int i = 0; i < depth; i++) {
    int a = k.choose(7); long before = d.getsizeof(); k.log("step ", a);
    if (a < 4) d.train(VV{p[(i + a) % 3]}, VS{LABEL[a]}); else if (a == 4) d.train(p, VS{"a", "b", "a"}); else if (a == 5) d.trainUnsupervised(VV{p[i % 3]}); else { std::string t = d.json_(); bool un = held(d).discs > 0; d = api::Clus(t); d.classify(all); d.getMentalImages(); d.classifyUnsupervised(all); (void)un; REQUIRE("restored", d.getsizeof() == before, who, ": restored ", d.getsizeof(), " instead of ", before); }
    look(k, w, d, who); }
}
// counts of any size: a cell takes the same however often it was seen
SUITE(counts) {
  static const V COUNT = {1, 2, 3, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 16777216, 2147483646, 2147483647}; int kind = k.choose(3), c = k.pick(COUNT), seen = k.pick({1, 300, 70000}); int cells = k.pick({1, 2, 9}); bool first = k.flip();
  auto make = [&](int count) { Cells a, b; for (int i = 0; i < cells; i++) { a[i * 3 + 1] = first || i == 0 ? count : 1; b[i] = !first && i == 0 ? 2 : count; } return json{{"entrySize", 6}, {"mapping", VV{{0, 1, 2, 3, 4}, {5, 4, 3, 2}}}, {"count", seen}, {"data", ref::pack_cells(a) + "." + ref::pack_cells(b)}, {"base", 2}, {"ignoreZero", false}}; };
  json few = make(1), many = make(c); long a, b, t; std::string doc; auto put = [&](const json& d, const std::string& model, const char* field) { json j = json::parse(model); if (kind == 1) j[field] = {{"a", d}, {"b", d}}; else { j[field] = {{"a", {{"entrySize", 6}, {"discriminators", {d, d}}}}}; } return j.dump(); };
  if (kind == 0) { api::Disc x(few.dump()), y(many.dump()); a = x.getsizeof(); b = y.getsizeof(); for (int i = 0; i < 3 && c < 2147483640; i++) { V e = {1, 0, 0, 0, 0, 0}; y.train(e); } x.train(V{1, 0, 0, 0, 0, 0}); a = x.getsizeof(); t = y.getsizeof(); if (c >= 2147483640) t = a; api::Disc z(many.dump()); api::Disc z2(few.dump()); REQUIRE("counts", z.getsizeof() == z2.getsizeof(), "a Discriminator with ", cells, " cells seen ", c, " times has size ", z.getsizeof(), ", seen once ", z2.getsizeof()); REQUIRE("counts-trained", t == a, "trained on from ", c, ": size ", t, ", from 1 ", a); }
  else if (kind == 1) { std::string m = api::Wis(2, json()).json_(); api::Wis x(put(few, m, "classes")), y(put(many, m, "classes")); a = x.getsizeof(); b = y.getsizeof(); REQUIRE("counts", a == b, "a Wisard with cells seen ", c, " times has size ", b, ", seen once ", a); }
  else { std::string m = api::Clus(2, 0.1f, 3, 3, json()).json_(); api::Clus x(put(few, m, "clusters")), y(put(many, m, "clusters")); a = x.getsizeof(); b = y.getsizeof(); REQUIRE("counts", a == b, "a ClusWisard with cells seen ", c, " times has size ", b, ", seen once ", a); }
  k.step(4); k.state(str(kind, c, seen, cells, first));
}
