// C06: untraining undoes training.
#include "sut.hpp"

struct Ex { V x; std::string l; };
// every interleaving of trainings and untrainings of what was trained
SUITE(histories) {
  struct C { int n, E; json o; };
  static const std::vector<C> confs = {{2, 3, {{"mapping", {{"a", {{0, 1}, {2}}}, {"b", {{0, 1}, {1, 2}}}}}}}, {2, 3, {{"ignoreZero", true}, {"verbose", true}}},
    {2, 2, {{"base", 3}, {"mapping", {{"b", {{1, 0}, {0}}}}}}}, {2, 4, {{"indexes", {3, 1, 0, 2}}, {"bleachingActivated", false}}}, {2, 3, {{"completeAddressing", false}}}};
  const C& c = confs[k.choose((int)confs.size())];
  WisSut s(c.n, c.o, c.E); k.log("Wisard(", c.n, ",", c.o.dump(), ")");
  VV all = ref::all_entries(c.E, s.base); VV pool = {all[0], all[all.size() - 1], all[all.size() / 2 + 1]}; VS labels = {"a", "b"};
  std::vector<Ex> known; int depth = PY ? 4 : k.thorough ? 6 : 5; bool saved = false;
  for (int i = 0; i < depth; i++) {
    std::vector<Ex> distinct; for (auto& e : known) { bool f = false; for (auto& d : distinct) f = f || (d.x == e.x && d.l == e.l); if (!f) distinct.push_back(e); }
    int trains = (int)(pool.size() * labels.size()), c2 = k.choose(trains + (int)distinct.size() + 2 + (known.size() > 1 ? 2 : 0));
    if (c2 < trains) { Ex e{pool[c2 % pool.size()], labels[c2 / pool.size()]}; s.train(k, VV{e.x}, VS{e.l}); known.push_back(e); }
    else if ((c2 -= trains) < (int)distinct.size()) {
      Ex e = distinct[c2]; s.w.leaveOneOut(e.x, e.l); k.step(); k.log("leaveOneOut ", str(e.x), " as ", e.l); s.r.cls[e.l].untrain(e.x);
      for (size_t j = 0; j < known.size(); j++) if (known[j].x == e.x && known[j].l == e.l) { known.erase(known.begin() + j); break; }
    } else if ((c2 -= (int)distinct.size()) == 0) { if (i == 0 || saved) return; s.restore(k); saved = true; continue; }
    else if (c2 == 1) { s.w.leaveOneOut(pool[0], "unknown"); s.w.leaveMoreOut(VV{pool[1], pool[0]}, VS{"unknown", "A"}); k.step(2); k.log("untrain unknown labels"); }
    else {
      std::vector<Ex> out(known.begin(), known.end() - (c2 == 2 ? 0 : 1)); VV xs; VS ys;
      if (c2 == 3) std::reverse(out.begin(), out.end());
      for (auto& e : out) { xs.push_back(e.x); ys.push_back(e.l); s.r.cls[e.l].untrain(e.x); }
      if (c2 == 2) { xs.insert(xs.begin() + 1, pool[0]); ys.insert(ys.begin() + 1, "unknown"); }
      s.w.leaveMoreOut(xs, ys); k.step(); k.log("leaveMoreOut ", str(xs), " as ", json(ys).dump());
      known.erase(known.begin(), known.end() - (c2 == 2 ? 0 : 1));
    }
    saved = false;
    s.all(k, all, "after a step");
  }
}
static void permute(Ctx& k, std::vector<Ex>& v) { std::vector<Ex> rest = v; v.clear(); while (!rest.empty()) { int c = k.choose((int)rest.size()); v.push_back(rest[c]); rest.erase(rest.begin() + c); } }
// every subset of a set of trainings untrained in every order, one by one or in batches, packed trainings too
SUITE(orders) {
  static const std::vector<Ex> ex = {{{0, 1, 1, 0, 1}, "a"}, {{0, 1, 1, 0, 1}, "a"}, {{1, 1, 0, 0, 0}, "b"}, {{0, 0, 0, 0, 0}, "a"}, {{1, 1, 1, 1, 1}, "b"}, {{0, 1, 0, 1, 1}, "c"}};
  WisSut s(2, json{{"mapping", {{"a", {{0, 1}, {2, 3}, {4}}}, {"b", {{1, 2, 3}, {4, 0}}}, {"c", {{0}, {1}, {2, 3, 4}}}}}}, 5);
  int n = k.thorough && !PY ? 6 : 5; VV xs; VS ys; std::vector<Ex> out;
  for (int i = 0; i < n; i++) { xs.push_back(ex[i].x); ys.push_back(ex[i].l); if (k.flip()) out.push_back(ex[i]); }
  if (k.flip()) s.train(k, xs, ys); else s.trainData(k, xs, ys);
  permute(k, out); VV bx; VS by;
  for (size_t i = 0; i < out.size(); i++) {
    bx.push_back(out[i].x); by.push_back(out[i].l);
    if (i + 1 < out.size() && k.flip()) continue;
    if (bx.size() == 1) s.w.leaveOneOut(bx[0], by[0]); else s.w.leaveMoreOut(bx, by);
    k.step(); k.log("untrain ", str(bx), " as ", json(by).dump());
    for (size_t j = 0; j < bx.size(); j++) s.r.cls[by[j]].untrain(bx[j]);
    bx.clear(); by.clear(); s.content(k, "after an untraining");
  }
  s.all(k, ref::all_entries(5, 2), "at the end");
}
// many repetitions, down to none and up again
SUITE(counts) {
  int up = k.pick({1, 2, 127, 128, 255, 256, 257, 1000, 32767, 32768, 65536, 70000}); if (PY && up > 1000) return;
  V x = {1, 0, 1, 1}, y = {0, 0, 1, 0}, z = {0, 0, 0, 0}; int base = 2 + k.choose(3);
  WisSut s(2, json{{"base", base}}, 4); VV all = ref::all_entries(4, 2);
  int other = k.choose(3); bool batch = k.flip();
  if (other) s.train(k, VV{other == 1 ? y : z}, VS{"a"});
  s.train(k, VV{x}, VS{"a"}); s.train(k, VV{y}, VS{"b"});
  VV more(up - 1, x); s.w.train(more, VS(up - 1, "a")); k.step(up); for (int i = 1; i < up; i++) s.r.cls["a"].train(x);
  int stop = k.pick({0, 1, 2}); if (stop > up) return;
  if (batch) s.w.leaveMoreOut(VV(up - stop, x), VS(up - stop, "a")); else for (int i = 0; i < up - stop; i++) s.w.leaveOneOut(x, "a");
  k.step(up); for (int i = 0; i < up - stop; i++) s.r.cls["a"].untrain(x);
  s.all(k, all, "after untraining"); s.restore(k); s.all(k, all, "restored");
  for (int i = 0; i < stop; i++) { s.w.leaveOneOut(x, "a"); s.r.cls["a"].untrain(x); k.step(); s.all(k, all, "down to none"); }
  if (other) { V o = other == 1 ? y : z; s.w.leaveOneOut(o, "a"); s.r.cls["a"].untrain(o); k.step(); s.all(k, all, "empty"); }
  s.train(k, VV{x, z}, VS{"a", "a"}); s.all(k, all, "trained again");
}
// wide addresses, high bases
SUITE(wide) {
  struct B { int base, max; }; static const std::vector<B> bases = {{2, 64}, {3, 40}, {5, 27}, {16, 16}, {256, 8}, {65536, 4}, {2147483647, 2}};
  const B& b = bases[k.choose((int)bases.size())]; int n = k.pick({2, 3, 4, 8, 16, 31, 32, 33, 40, 63, 64}); if (n > b.max) return; int E = n + k.choose(3);
  WisSut s(n, json{{"base", b.base}}, E); V x(E), y(E), z(E, 0), top(E, b.base - 1); for (int i = 0; i < E; i++) { x[i] = (i * 7 + 1) % b.base; y[i] = i == E - 1 ? b.base - 1 : i % 2; }
  VV all = {x, y, z, top};
  s.train(k, all, VS{"a", "a", "b", "b"}); s.train(k, all, VS(4, "a"));
  int first = k.choose(4);
  for (int i = 0; i < 4; i++) { const V& e = all[(i + first) % 4]; s.w.leaveOneOut(e, "a"); s.r.cls["a"].untrain(e); k.step(); s.all(k, all, "wide"); }
  k.log("base ", b.base, " address size ", n, " entry size ", E);
}
#ifdef MC_BACKEND_CPP
// Discriminator.untrain of the C++ library
SUITE(discriminator) {
  struct C { int n, E; json o; };
  static const std::vector<C> confs = {{2, 3, {}}, {2, 3, {{"ignoreZero", true}, {"completeAddressing", false}}}, {2, 2, {{"base", 3}}}, {2, 3, {{"mapping", {{0, 1}, {1, 2}, {2}}}}}};
  const C& c = confs[k.choose((int)confs.size())]; api::Disc d(c.n, c.E, c.o); int base = c.o.count("base") ? c.o["base"].get<int>() : 2;
  ref::Disc r(c.E, ref::mapping_of(json::parse(d.json_())), base, c.o.count("ignoreZero") && c.o["ignoreZero"].get<bool>());
  VV all = ref::all_entries(c.E, base); VV pool = {all[0], all[all.size() - 1], all[all.size() / 2 + 1], all[1]}; std::multiset<V> known;
  int depth = k.thorough ? 8 : 6;
  for (int i = 0; i < depth; i++) {
    std::set<V> distinct(known.begin(), known.end()); int w = k.choose((int)(pool.size() + distinct.size()));
    if (w < (int)pool.size()) { d.train(pool[w]); r.train(pool[w]); known.insert(pool[w]); k.log("train ", str(pool[w])); }
    else { auto it = distinct.begin(); std::advance(it, w - pool.size()); V x = *it; d.untrain(x); r.untrain(x); known.erase(known.find(x)); k.log("untrain ", str(x)); }
    k.step();
    REQUIRE("count", d.getNumberOfTrainings() == r.count, "count ", d.getNumberOfTrainings(), " instead of ", r.count);
    REQUIRE("image", d.getMentalImage() == r.mental(), "image ", str(d.getMentalImage()), " instead of ", str(r.mental()));
    std::string g = ref::canon_disc(json::parse(d.json_())); REQUIRE("saved", g == ref::canon_ref(r), g, " instead of ", ref::canon_ref(r));
    for (auto& x : all) REQUIRE("votes", d.classify(x) == r.votes(x), str(x), " has votes ", str(d.classify(x)), " instead of ", str(r.votes(x)));
    k.step(all.size() + 3); k.state(r.show());
  }
}
#endif
// any number of classes, their examples taken back one by one, class by class or all at once
SUITE(crowd) {
  int classes = k.pick({1, 2, 3, 4, 5, 8, 9, 17}), how = k.choose(4), n = 1 + k.choose(3), opt = k.choose(3); bool back = k.flip(); json o = json::object(); if (opt == 1) o = {{"ignoreZero", true}}; if (opt == 2) o = {{"completeAddressing", false}, {"bleachingActivated", false}};
  WisSut s(2, o, 5); VV all = ref::all_entries(5, 2); VV xs; VS ys; for (int i = 0; i < classes; i++) for (int e = 0; e < n; e++) { xs.push_back(all[(i * 7 + e * 11) % 32]); ys.push_back("c" + std::to_string(i)); } s.train(k, xs, ys); s.train(k, xs, ys); k.log(classes, " classes of ", 2 * n, " examples");
  if (back) { std::reverse(xs.begin(), xs.end()); std::reverse(ys.begin(), ys.end()); }
  VV bx; VS by; for (size_t i = 0; i < xs.size(); i++) {
    bx.push_back(xs[i]); by.push_back(ys[i]); if (how == 2 && (i + 1) % n) continue; if (how == 3 && i + 1 < xs.size()) continue;
    if (how == 0) s.w.leaveOneOut(bx[0], by[0]); else s.w.leaveMoreOut(bx, by);
    k.step(); k.log("untrain ", str(bx), " as ", json(by).dump()); for (size_t j = 0; j < bx.size(); j++) s.r.cls[by[j]].untrain(bx[j]); bx.clear(); by.clear(); s.content(k, "after an untraining");
  }
  s.all(k, all, "at the end"); s.restore(k); s.content(k, "restored");
}
