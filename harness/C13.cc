// C13: RAMDataHandle edits exactly the cell it is told to.
#include "confs.hpp"
#include <sys/stat.h>
#include <unistd.h>
using namespace mc;

typedef std::vector<Cells> Rams;
static const std::vector<ull> ADDR = {0, 1, 2, 255, 65536, (1ull << 31) - 1, 1ull << 31, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 1, 1ull << 53, (1ull << 53) + 1, (1ull << 63) - 1, 1ull << 63, ~0ull - 1, ~0ull};
static const V VALS = {1, 2, 127, 128, 255, 256, 65536, 2147483646, 2147483647, -1};
static Cells nz(const Cells& c) { Cells o; for (auto& e : c) if (e.second) o.insert(e); return o; }   // a cell at 0 and an absent cell read the same
static std::string show(const Cells& c) { std::string s = "{"; for (auto& e : c) s += std::to_string(e.first) + ":" + std::to_string(e.second) + ","; return s + "}"; }
static std::string text(const Rams& r) { std::string s; for (size_t i = 0; i < r.size(); i++) s += (i ? "." : "") + ref::pack_cells(r[i]); return s; }
static bool zeros(const Rams& r) { for (auto& c : r) for (auto& e : c) if (!e.second) return true; return false; }

static void same(Ctx& k, api::RDH& h, const Rams& r, const char* when, bool deep = true) {
  for (int round = 0; round < (deep ? 2 : 1); round++) {
    for (size_t i = 0; i < r.size(); i++) {
      Cells g = nz(h.get((int)i)); REQUIRE("ram", g == nz(r[i]), when, ": RAM ", i, " of ", r.size(), " is ", show(g), " instead of ", show(r[i]));
      for (ull a : ADDR) { auto f = r[i].find(a); int want = f == r[i].end() ? 0 : f->second, got = h.get((int)i, a); REQUIRE("cell", got == want, when, ": cell ", a, " of RAM ", i, " reads ", got, " instead of ", want); }
      for (auto& e : r[i]) REQUIRE("cell", h.get((int)i, e.first) == e.second, when, ": cell ", e.first, " of RAM ", i, " reads ", h.get((int)i, e.first), " instead of ", e.second);
      std::string t = h.data((int)i); Cells c; REQUIRE("data-ram", ref::unpack_cells(t, c) && nz(c) == nz(r[i]), when, ": data(", i, ") is ", show(c), " instead of ", show(r[i]));
    }
    k.step(r.size() * (ADDR.size() + 2));
    if (!deep) return;
    refused([&] { h.get((int)r.size(), 1); }); refused([&] { h.get((int)r.size() + 3); }); refused([&] { h.get(-1, 0); }); refused([&] { h.get(2147483647, 5); });   // reading changes nothing
    std::string t = h.data(); auto parts = ref::split(t, '.'); REQUIRE("data-rams", parts.size() == r.size(), when, ": data() has ", parts.size(), " RAMs instead of ", r.size());
    for (size_t i = 0; i < r.size(); i++) { Cells c; REQUIRE("data", ref::unpack_cells(parts[i], c) && nz(c) == nz(r[i]), when, ": RAM ", i, " of data() is ", show(c), " instead of ", show(r[i])); }
    bool only_empty = r.size() == 1 && r[0].empty();
    if (!only_empty) { api::RDH g(t); same(k, g, r, "decoded again", false); REQUIRE("compare-self", h.compare(g) && g.compare(h), when, ": a handle made from data() does not compare equal"); }
    REQUIRE("compare-self", h.compare(h), when, ": a handle is not equal to itself"); k.step(4);
  }
}
// histories of sets on one to three RAMs
SUITE(histories) {
  int n = 1 + k.choose(3); Rams r(n); int fill = k.choose(4);
  for (int i = 0; i < n; i++) { if (fill > 0 && !(fill == 2 && i == 1)) { r[i][ADDR[(i * 5 + fill) % ADDR.size()]] = VALS[i]; if (fill == 3) r[i][7 + i] = 3; } }
  if (n == 1 && r[0].empty()) return;
  api::RDH h(text(r)); k.log("RAMDataHandle of ", n, " RAMs ", text(r)); same(k, h, r, "built");
  int depth = k.thorough ? 4 : 3; static const std::vector<ull> as = {0, 1, 1ull << 32, ~0ull}; static const V vs = {5, 0, 2147483647};
  for (int i = 0; i < depth; i++) {
    int ram = k.choose(n); ull a = k.pick(as); int v = i == depth - 1 ? k.pick(vs) : i == 0 ? 9 : k.choose(2) * 4;
    h.set(ram, a, v); r[ram][a] = v; k.step(); k.log("set(", ram, ",", a, ",", v, ")");
    same(k, h, r, "after a set", i == depth - 1);
  }
  k.state(text(r));
}
// every address with every value, in every RAM
SUITE(cells) {
  int n = 1 + k.choose(2), ram = k.choose(n); ull a = k.pick(ADDR); int v = k.pick(VALS); bool there = k.flip(); Rams r(n); for (int i = 0; i < n; i++) { r[i][3] = i + 1; if (there) r[i][a] = 77; }
  api::RDH h(text(r)), o(text(r)); h.set(ram, a, v); k.step(); bool eq = h.compare(o), qe = o.compare(h); bool want = there && v == 77; k.log("set(", ram, ",", a, ",", v, ") in ", text(r));
  REQUIRE("compare", eq == want && qe == want, "compare says ", eq, " and ", qe, " for handles that differ in cell ", a, " of RAM ", ram);
  r[ram][a] = v; same(k, h, r, "after the set"); k.state(text(r));
  if (there) { h.set(ram, a, 77); REQUIRE("compare-back", h.compare(o) && o.compare(h), "compare is false after the cell was set back"); }
}
// compare is true exactly for equal contents
SUITE(compare) {
  static const std::vector<Cells> cs = {{}, {{1, 1}}, {{1, 2}}, {{2, 1}}, {{1, 1}, {2, 1}}, {{1ull << 32, 1}}, {{0, 1}}, {{(1ull << 32) + 1, 1}}};
  auto some = [&](int n) { Rams r; for (int i = 0; i < n; i++) r.push_back(k.pick(cs)); return r; };
  int n = 1 + k.choose(2); Rams a = some(n); int m = k.choose(4) ? n : 3 - n; Rams b = some(m); if ((n == 1 && a[0].empty()) || (m == 1 && b[0].empty())) return;
  api::RDH x(text(a)), y(text(b)); bool want = a == b, g = x.compare(y), h = y.compare(x); k.step(2); k.log(text(a), " and ", text(b));
  REQUIRE("compare", g == want && h == want, "compare of ", text(a), " and ", text(b), " is ", g, " and ", h); same(k, x, a, "compared", false); same(k, y, b, "compared", false); k.state(text(a) + "|" + text(b));
}
// the data a model saved, edited and put back
SUITE(edits) {
  struct C { int E, base; VV m; }; static const std::vector<C> confs = {{3, 2, {{0, 1}, {2, 1}, {0, 1, 2}}}, {2, 3, {{0, 1}, {1}}}, {4, 2, {{3, 2, 1, 0}}}, {2, 1000000, {{0, 1}, {1, 0}}}};
  const C& c = confs[k.choose((int)confs.size())]; json o = {{"mapping", c.m}, {"base", c.base}}; api::Disc d(2, c.E, o); ref::Disc r(c.E, c.m, c.base);
  VV all = c.base < 10 ? ref::all_entries(c.E, c.base) : VV{{0, 0}, {999999, 1}, {999999, 999999}, {0, 5}};
  int n = k.choose(3); for (int i = 0; i < n; i++) { const V& x = i == 1 && !k.thorough ? all[1] : all[k.choose((int)all.size())]; d.train(x); r.train(x); }
  bool file = k.flip(); std::string dir = k.dir(); json doc = json::parse(file ? d.json_(true, dir) : d.json_()); api::RDH h(doc["data"].get<std::string>());
  Rams want; for (size_t i = 0; i < c.m.size(); i++) want.push_back(ref::cells_of(r, (int)i)); if (c.m.size() > 1 || !want[0].empty()) same(k, h, want, "of a model", false); else return;
  int edits = 1 + k.choose(2), first = 0;
  for (int e = 0; e < edits; e++) { int ram = e && !k.thorough ? (first + 1) % (int)c.m.size() : k.choose((int)c.m.size()); first = ram; const V& x = e && !k.thorough ? all[k.choose(2)] : all[k.choose((int)all.size())]; int v = e == 0 ? k.pick({1, 6, 2147483647, 0, -3}) : 4; ull a = 0, p = 1; for (int q : c.m[ram]) { a += x[q] * p; p *= c.base; } h.set(ram, a, v); r.rams[ram][r.key(ram, x)] = v; k.log("set(", ram, ",", a, ",", v, ")"); }
  if (k.flip()) { doc["data"] = h.data(); } else { std::string t; for (size_t i = 0; i < c.m.size(); i++) t += (i ? "." : "") + h.data((int)i); doc["data"] = t; }
  api::Disc b(doc.dump()); k.step(5);
  for (auto& x : all) { V g = b.classify(x), w = r.votes(x); REQUIRE("put-back", g == w, "after putting the edited data back ", str(x), " gets ", str(g), " instead of ", str(w)); }
  json ws = json::parse(api::Wis(2, json{{"base", c.base}}).json_()); json cl = doc; cl.erase("version"); ws["classes"] = {{"a", cl}}; api::Wis w(ws.dump()); MapSV im = w.getMentalImages();
  std::vector<int> mi = r.mental(); bool over = false; for (auto& e : r.rams) for (auto& cc : e) over = over || cc.second > 1000000; if (!over) REQUIRE("put-back-image", im["a"] == mi, "mental image ", str(im["a"]), " instead of ", str(mi));
  k.state(r.show());
}
// larger handles
SUITE(scale) {
  int n = k.pick({1, 2, 9, 10, 11, 100}), cells = k.pick({1, 2, 7, 64, 1000}); Rams r(n); for (int i = 0; i < n; i++) for (int j = 0; j < cells; j++) r[i][Ctx::mix((ull)i * 1000003 + j)] = 1 + (j * 37 + i) % 70000;
  if (n * cells > 20000) return; api::RDH h(text(r)); same(k, h, r, "large", false); int ram = k.choose(3) * (n - 1) / 2; h.set(ram, 5, 4); r[ram][5] = 4; same(k, h, r, "large, one set", n * cells < 1000); k.log(n, " RAMs of ", cells); k.state(str(n, cells, ram));
}
// handles made from files, and (in C++) saved to them
SUITE(files) {
  int n = k.pick({1, 2, 3, 11, 60}), cells = k.pick({0, 1, 3, 40}); Rams r(n); for (int i = 0; i < n; i++) for (int j = 0; j < (i % 3 == 2 ? 0 : cells); j++) r[i][Ctx::mix((ull)i * 1000003 + j)] = 1 + (j * 37 + i) % 70000;
  if (n == 1 && r[0].empty()) return; std::string dir = k.dir(), f = dir + "x.wdpkg"; { std::ofstream o(f); o << text(r); } api::RDH h(f); k.step(); same(k, h, r, "from a file", n < 12); h.set(n - 1, 5, 4); REQUIRE("file", ref::slurp(f) == text(r), "set changes the file"); r[n - 1][5] = 4; same(k, h, r, "from a file, after a set", n < 12);
#ifdef MC_BACKEND_CPP
  h.save(dir + "y"); api::RDH g(dir + "y.wdpkg"); same(k, g, r, "saved and loaded", n < 12); h.save(dir + "x"); api::RDH x(f); same(k, x, r, "saved over another and loaded", n < 12); k.step(4);
#endif
  k.log(n, " RAMs of ", cells, " cells"); k.state(str(n, cells));
}
// every read of a load fails, once or from there on, or gives less than was asked for
SUITE(read_faults) {
  int n = k.pick({1, 5, 400}), at = k.choose(n == 400 ? 16 : 5), mode = k.choose(5); std::string f = k.dir() + "x.wdpkg"; Rams r(n); for (int i = 0; i < n; i++) for (int j = 0; j < 1 + i % 4; j++) r[i][i + j] = j + 1;
  { std::ofstream o(f); o << text(r); } Reads rd; bad_reads(rd, at, mode); std::unique_ptr<api::RDH> h; bool no = refused([&] { h.reset(new api::RDH(f)); }); read_hook = nullptr; k.step(); k.log("read ", at, " of ", rd.n, mode < 2 ? " fails" : " is short", no ? ": refused" : ": loaded");
  if (rd.failed == 0) REQUIRE("refused-load", !no, "a load without any fault is refused");
  if (!no) same(k, *h, r, rd.failed ? "loaded although a read failed" : "read in other pieces", n < 10); api::RDH g(f); same(k, g, r, "loaded after a load that may fail", n < 10); k.state(str(n, at, mode));
}
// no file can be opened, or one at a time; or there is no file
SUITE(no_descriptors) {
  int n = k.pick({1, 2, 5, 400}), allow = k.choose(3), load = 1 + k.choose(2); std::string f = k.dir() + "x.wdpkg"; Rams r(n); for (int i = 0; i < n; i++) for (int j = 0; j < 1 + i % 4; j++) r[i][i + j] = j + 1;
  { std::ofstream o(f); o << text(r); } if (load == 2) unlink(f.c_str()); std::unique_ptr<api::RDH> h; bool no; { NoFiles x(allow); no = refused([&] { h.reset(new api::RDH(f)); }); } k.step(); k.log("load with ", allow, " file descriptors", no ? ": refused" : ": done");
  REQUIRE("no-file", no || (allow && load < 2), load == 2 ? "a file that is missing is loaded" : "without a file descriptor nothing is reported"); if (!no) same(k, *h, r, "loaded", n < 12); k.state(str(n, allow, load));
}
SUITE(directories) { std::string n = k.dir() + "sub.wdpkg"; if (mkdir(n.c_str(), 0700)) k.internal("mkdir"); REQUIRE("directory", refused([&] { api::RDH d(n); }), "a directory is loaded as RAM data"); k.step(); k.state(n); }
#ifdef MC_BACKEND_CPP
// places and failing writes: what is saved without an error loads
SUITE(write_faults) {
  int n = k.pick({1, 5, 2000}), at = k.choose(n == 2000 ? 20 : 5), mode = k.choose(3); std::string dir = k.dir(); Rams r(n); for (int i = 0; i < n; i++) for (int j = 0; j < 1 + i % 4; j++) r[i][i + j] = j + 1; api::RDH h(text(r));
  int c = 0, failed = 0; if (mode < 2) write_hook = [&](int, const void*, size_t) -> long { int i = c++; if (i < at || (mode == 0 && i > at)) return -2; failed++; return -1; };
  std::string place = mode == 2 && at == 0 ? dir + "missing/x" : mode == 2 && at == 1 ? std::string("/dev/null/x") : dir + "x"; bool no = refused([&] { h.save(place); }); write_hook = nullptr; k.step(); k.log("write ", at, " of ", c, " fails, mode ", mode); same(k, h, r, "after a save that may fail", false);
  if (mode == 2 && at < 2) REQUIRE("place", no, "a save to ", place, " is not refused"); else if (!failed) REQUIRE("refused-save", !no, "a save that can succeed is refused");
  if (!no) { api::RDH g(dir + "x.wdpkg"); same(k, g, r, "loaded although a write failed", false); } k.state(str(n, at, mode));
}
#endif
// very many RAMs, or one of very many cells
SUITE(many) {
  int n = k.pick({126, 127, 128, 129, 254, 255, 256, 257, 300, 1000, 4097, 70000}), big = k.choose(4); if (PY && n > 5000) return; if (big == 3 && n != 129 && n != 4097 && n != 70000) return; bool one = big == 3; int cells = one ? n : 1; if (one) n = 2; Rams r(n); for (int i = 0; i < n; i++) { if (i % 5 == 3) continue; for (int j = 0; j < (one && i == 0 ? 3 : cells); j++) r[i][one ? (ull)j * 3 : Ctx::mix((ull)i * 1000003)] = 1 + (j * 37 + i) % 70000; }
  std::string t = text(r); api::RDH h(t), o(t); k.log(n, " RAMs of ", cells); k.step(2);
  auto cmp = [&](api::RDH& g, const char* when) { std::string d = g.data(); auto parts = ref::split(d, '.'); REQUIRE("data-rams", parts.size() == r.size(), when, ": data() has ", parts.size(), " RAMs instead of ", r.size()); for (int i = 0; i < n; i++) { Cells c; if (!ref::unpack_cells(parts[i], c) || nz(c) != nz(r[i])) k.fail("data", str(when, ": RAM ", i, " of ", n, " of data() is wrong")); if (n < 2000 || i % 97 == 0 || i > n - 3) { if (nz(g.get(i)) != nz(r[i])) k.fail("ram", str(when, ": RAM ", i, " of ", n, " is wrong")); for (auto& e : r[i]) { int v = g.get(i, e.first); if (v != e.second) k.fail("cell", str(when, ": cell ", e.first, " of RAM ", i, " of ", n, " reads ", v, " instead of ", e.second)); } if (nz([&] { Cells q; ref::unpack_cells(g.data(i), q); return q; }()) != nz(r[i])) k.fail("data-ram", str(when, ": data(", i, ") of ", n, " is wrong")); } } k.step(n); };
  cmp(h, "built"); REQUIRE("compare", h.compare(o) && o.compare(h), "two handles of one text differ"); int ram = big == 0 ? 0 : big == 1 ? n / 2 : n - 1; ull a = big == 1 ? 1ull << 40 : 5; h.set(ram, a, 4); r[ram][a] = 4; cmp(h, "after a set"); REQUIRE("compare", !h.compare(o) && !o.compare(h), "a changed cell of RAM ", ram, " of ", n, " compares equal");
  o.set(ram, a, 4); REQUIRE("compare", h.compare(o), "the same set makes them differ"); if (!r[ram].empty()) { h.set(ram, a, 0); r[ram][a] = 0; cmp(h, "after setting to 0"); } k.state(str(n, big));
}
// RAMs added one after another
SUITE(adding) {
  int start = k.pick({1, 2, 5, 8}), more = k.pick({1, 2, 6, 30}), kind = k.choose(3); Rams r(start); for (int i = 0; i < start; i++) r[i][i + 1] = i + 2; api::RDH h(text(r)); k.log(start, " RAMs and ", more, " more");
  for (int i = 0; i < more; i++) { ull a = ADDR[(i * 7 + kind) % ADDR.size()]; int v = VALS[(i + kind) % 9]; h.set((int)r.size(), a, v); r.push_back(Cells{{a, v}}); if (kind == 1) { h.set((int)r.size() - 1, 9, 5); r.back()[9] = 5; } if (kind == 2 && i % 2) { h.set(0, 1000 + i, 3); r[0][1000 + i] = 3; } k.step(); same(k, h, r, "a RAM more", i + 1 == more); }
  k.state(str(start, more, kind));
}
