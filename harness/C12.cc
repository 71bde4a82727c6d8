// C12: DataSet keeps its entries and labels, in memory and through files.
#include "confs.hpp"
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace mc;

struct Row { VSh x; std::string l; };
typedef std::vector<Row> Rows;
static std::string show(const Rows& r) { std::string s; for (auto& e : r) s += str(e.x) + "'" + e.l + "' "; return s; }
static void same(Ctx& k, const api::Data& d, const Rows& r, const char* when) {
  REQUIRE("size", d.size() == r.size(), when, ": size ", d.size(), " instead of ", r.size());
  for (size_t i = 0; i < r.size(); i++) {
    api::Bin b = d.get((int)i); REQUIRE("entry-size", b.size() == r[i].x.size(), when, ": entry ", i, " has ", b.size(), " bits instead of ", r[i].x.size());
    for (size_t j = 0; j < r[i].x.size(); j++) REQUIRE("entry", b.get(j) == r[i].x[j], when, ": bit ", j, " of entry ", i, " is ", b.get(j), " in ", show(r));
    std::string l; bool none = refused([&] { l = d.getLabel(i); });
    if (r[i].l.empty()) REQUIRE("no-label", none || l.empty(), when, ": entry ", i, " has the label '", l, "' it was not given");
    else { REQUIRE("label-lost", !none, when, ": entry ", i, " has no label instead of '", r[i].l, "'"); REQUIRE("label", l == r[i].l, when, ": entry ", i, " has the label '", l, "' instead of '", r[i].l, "'"); }
  }
  for (int i : {(int)r.size(), (int)r.size() + 1, -1, -(int)r.size(), 2147483647, -2147483647 - 1}) { if (i < 0 || i >= (int)r.size()) REQUIRE("get-beyond", refused([&] { d.get(i); }), when, ": get(", i, ") of ", r.size(), " is not refused"); }
  for (ull i : {(ull)r.size(), (ull)r.size() + 1, 1ull << 31, 1ull << 32, (1ull << 32) + 1, 1ull << 63, ~0ull}) REQUIRE("label-beyond", refused([&] { d.getLabel(i); }), when, ": getLabel(", i, ") of ", r.size(), " is not refused");
  k.step(2 * r.size() + 14);
}
static void put(api::Data& d, Rows& r, const VSh& x, const std::string& l, bool packed, bool given) {
  if (packed) { if (given) d.add(api::Bin(x), l); else d.add(api::Bin(x)); } else { if (given) d.add(x, l); else d.add(x); }
  r.push_back({x, given ? l : ""});
}
static void round(Ctx& k, api::Data& d, const Rows& r, const std::string& prefix) {
  d.save(prefix); k.step(); same(k, d, r, "after saving"); api::Data e(prefix + ".wpkds"); k.step(); same(k, e, r, "loaded");
  e.save(prefix); api::Data f(prefix + ".wpkds"); k.step(2); same(k, f, r, "saved and loaded again"); k.state(show(r));
}
// every sequence of additions, saves and loads
SUITE(histories) {
  static const std::vector<VSh> xs = {{}, {1}, {0, 1, 1}, {1, 0, 0, 0, 1, 1, 0, 1}, {0, 0, 1, 0, 1, 0, 1, 1, 1}}; static const VS ls = {"", "a", "a.b#c", "\xc3\xa9 d"};
  std::string dir = k.dir(); api::Data d; Rows r; int depth = k.thorough ? 5 : 4; bool packed = k.flip();
  for (int i = 0; i < depth; i++) {
    int w = k.choose(9);
    if (w < 5) { int l = (i + w + (packed ? 1 : 0)) % 5; put(d, r, xs[w], l == 4 ? "" : ls[l], packed, l != 4); k.log("add ", str(xs[w])); }
    else if (w == 5) { put(d, r, xs[3], "z", !packed, true); k.log("add labelled"); }
    else if (w == 6) { d.save(dir + "p"); k.log("save"); }
    else if (w == 7) { d.save(dir + "p"); d = api::Data(dir + "p.wpkds"); k.log("save and load"); }
    else { if (i == 0) { d.save(dir + "p"); put(d, r, xs[1], "q", false, true); } else { api::Data e; Rows q; put(e, q, xs[2], "x", false, true); put(e, q, xs[4], "", true, false); e.save(dir + "p"); api::Data f(dir + "p.wpkds"); same(k, f, q, "another one"); k.log("another data set saved to the same place"); } }
    k.step(); same(k, d, r, "after a step");
  }
  round(k, d, r, dir + "p");
}
// every list of labels and entry lengths
SUITE(shapes) {
  int n = k.choose(k.thorough ? 5 : 4); api::Data d; Rows r; static const V lens = {0, 1, 7, 8, 9, 17};
  for (int i = 0; i < n; i++) { int len = k.pick(lens), l = k.choose(3); VSh x(len); for (int j = 0; j < len; j++) x[j] = (j * 3 + i) >> 1 & 1; put(d, r, x, l == 2 ? "b" : l == 1 ? "aa" : "", i % 2, l > 0); }
  round(k, d, r, k.dir() + "q"); k.log(show(r));
}
// label texts
SUITE(labels) {
  VS odd = ODD; for (int c = 1; c < 256; c++) if (!PY || c < 128) odd.push_back(std::string(1, (char)c)); for (int i = 2; i < 8; i++) odd.push_back(std::string(i, 'k')); odd.push_back(std::string("a\0b", 3)); odd.push_back(std::string(1, '\0')); odd.push_back(std::string(20000, 'L'));
  int i = k.choose((int)odd.size()); api::Data d; Rows r; put(d, r, {1, 0, 1}, odd[i], k.flip(), true); put(d, r, {0, 1}, "", true, false); put(d, r, {1}, odd[(i * 7 + 3) % odd.size()], false, true);
  round(k, d, r, k.dir() + "q"); k.log("label ", i);
}
// larger ones
SUITE(scale) {
  int n = k.pick({9, 10, 11, 100, 101, 255, 256, 257, 1000, 3000}), len = k.pick({1, 8, 64, 257}); int lab = k.choose(4); if (PY && n * len > 30000) return; if (n * len > 300000) return; api::Data d; Rows r;
  for (int i = 0; i < n; i++) { VSh x(len); for (int j = 0; j < len; j++) x[j] = (i * (j + 3) + j * j) >> 1 & 1; put(d, r, x, "l" + std::to_string(i), i % 3 == 0, lab == 0 || (lab == 1 && i % 2) || (lab == 2 && i == n - 1)); }
  same(k, d, r, "built"); round(k, d, r, k.dir() + "q"); k.log(n, " entries of ", len);
}
// places and failing writes: what is saved without an error loads
SUITE(faults) {
  int n = k.pick({1, 5, 400}); int at = k.choose(n == 400 ? 20 : 5), mode = k.choose(3); std::string dir = k.dir(); api::Data d; Rows r; for (int i = 0; i < n; i++) put(d, r, VSh(60, (short)(i & 1)), "label" + std::to_string(i), false, true);
  int c = 0, failed = 0; write_hook = [&](int, const void*, size_t) -> long { int i = c++; if (mode == 2 ? false : i < at || (mode == 0 && i > at)) return -2; if (mode == 2) return -2; failed++; return -1; };
  std::string place = mode == 2 ? (at == 0 ? dir + "missing/x" : at == 1 ? std::string("/dev/null/x") : dir + "x") : dir + "x"; bool ref_ = refused([&] { d.save(place); }); write_hook = nullptr; k.step(); k.log("write ", at, " of ", c, " fails, mode ", mode);
  same(k, d, r, "after a save that may fail"); bool must = failed == 0 && !(mode == 2 && at < 2);
  if (must) REQUIRE("refused-save", !ref_, "a save that can succeed is refused");
  if (mode == 2 && at < 2) REQUIRE("place", ref_, "a save to ", place, " is not refused");
  if (!ref_) { api::Data e(dir + "x.wpkds"); same(k, e, r, "loaded although a write failed"); }
  k.state(str(n, at, mode));
}
// every read of a load fails, once or from there on, or gives less than was asked for
SUITE(read_faults) {
  int n = k.pick({1, 5, 400}), at = k.choose(n == 400 ? 16 : 5), mode = k.choose(5); std::string dir = k.dir(); api::Data d; Rows r; for (int i = 0; i < n; i++) put(d, r, VSh(60, (short)(i & 1)), i % 3 ? "label" + std::to_string(i) : "", false, i % 3);
  d.save(dir + "x"); Reads rd; bad_reads(rd, at, mode); std::unique_ptr<api::Data> e; bool no = refused([&] { e.reset(new api::Data(dir + "x.wpkds")); }); read_hook = nullptr; k.step(2); k.log("read ", at, " of ", rd.n, mode < 2 ? " fails" : " is short", no ? ": refused" : ": loaded");
  if (rd.failed == 0) REQUIRE("refused-load", !no, "a load without any fault is refused");
  if (!no) same(k, *e, r, rd.failed ? "loaded although a read failed" : "read in other pieces");
  api::Data f(dir + "x.wpkds"); same(k, f, r, "loaded after a load that may fail"); k.state(str(n, at, mode));
}
// no file can be opened, or one at a time; or there is no file
SUITE(no_descriptors) {
  int n = k.pick({0, 1, 5, 400}), allow = k.choose(3), load = k.choose(3); std::string dir = k.dir(); api::Data d; Rows r; for (int i = 0; i < n; i++) put(d, r, VSh(60, (short)(i & 1)), i % 3 ? "label" + std::to_string(i) : "", false, i % 3);
  d.save(dir + "x"); std::unique_ptr<api::Data> e; bool no; if (load == 2) unlink((dir + "x.wpkds").c_str()); { NoFiles f(allow); if (load) no = refused([&] { e.reset(new api::Data(dir + "x.wpkds")); }); else no = refused([&] { d.save(dir + "x"); }); } k.step(); k.log(load ? "load" : "save", " with ", allow, " file descriptors", no ? ": refused" : ": done");
  REQUIRE("no-file", no || (allow && load < 2), load == 2 ? "a file that is missing is loaded" : "without a file descriptor nothing is reported"); same(k, d, r, "the set itself"); if (no) { d.save(dir + "x"); } if (!e) e.reset(new api::Data(dir + "x.wpkds")); same(k, *e, r, "loaded"); k.state(str(n, allow, load));
}
SUITE(directories) { std::string dir = k.dir(); int i = k.choose(2); std::string n = dir + (i ? "sub.wpkds" : ".wpkds"); if (mkdir(n.c_str(), 0700)) k.internal("mkdir"); REQUIRE("directory", refused([&] { api::Data d(n); }), "a directory is loaded as a data set"); k.step(); k.state(n); }
// names that are not data sets
SUITE(names) {
  static const VS bad = {"", "x", "wpkds", ".wpkd", "x.wpkdS", "x.wdpkg", "x.wpkds.", "x.wpkdsx", "pkds", "s"}; const std::string& n = k.pick(bad); std::string dir = k.dir();
  REQUIRE("name", refused([&] { api::Data d(n); }), "DataSet('", n, "') is not refused"); REQUIRE("name", refused([&] { api::Data d(n.empty() ? n : dir + n); }), "DataSet('", dir + n, "') is not refused"); k.step(2); k.state(n);
}
// entries that are refused
SUITE(refused_entries) {
  api::Data d; Rows r; static const V bad = {2, -1, 255, 256, -32768}; int depth = k.thorough ? 5 : 4;
  for (int i = 0; i < depth; i++) { int w = k.choose(6); k.log("step ", w); k.step();
    if (w < 2) put(d, r, VSh{1, (short)(i & 1), 1}, "x", w == 1, true); else if (w < 4) put(d, r, VSh{0, (short)(i & 1)}, "", w == 3, false);
    else { VSh x(3 + i * 3, 1); x[i * 2] = (short)bad[(i + w) % 5]; REQUIRE("refused", refused([&] { if (w == 4) d.add(x, "wrong"); else d.add(x); }), "an entry ", str(x), " is not refused"); }
    same(k, d, r, "after a step"); }
  if (k.choose(2)) { put(d, r, VSh{1}, "", false, false); same(k, d, r, "one more"); } round(k, d, r, k.dir() + "q");
}
// very long entries, and long labels next to them
SUITE(long_entries) {
  int len = k.pick({1023, 4096, 8191, 32767, 32768, 65535, 65536, 65537, 262145, 524289, 1000001, 4200001}), kind = k.choose(3); if (PY && len > 70000) return; if (len > 2000000 && kind) return; api::Data d; Rows r;
  VSh x(len); for (int j = 0; j < len; j++) x[j] = kind == 0 ? (Ctx::mix((ull)j) & 1) : kind == 1 ? j + 1 == len : 1; put(d, r, VSh{1, 0}, "first", false, true); put(d, r, x, kind == 1 ? "" : "long", kind == 2, kind != 1); put(d, r, VSh{0, 1, 1}, std::string(kind == 2 ? 70000 : 3, 'z'), true, true);
  auto all = [&](const api::Data& g, const char* when) { REQUIRE("size", g.size() == r.size(), when, ": size ", g.size()); for (size_t i = 0; i < r.size(); i++) { api::Bin b = g.get((int)i); REQUIRE("entry-size", b.size() == r[i].x.size(), when, ": entry ", i, " has ", b.size(), " bits instead of ", r[i].x.size()); for (size_t j = 0; j < r[i].x.size(); j++) if (b.get(j) != r[i].x[j]) k.fail("entry", str(when, ": bit ", j, " of entry ", i, " of ", r[i].x.size(), " differs")); if (!r[i].l.empty()) REQUIRE("label", g.getLabel(i) == r[i].l, when, ": the label of entry ", i, " differs"); else REQUIRE("no-label", refused([&] { if (!g.getLabel(i).empty()) return; throw std::runtime_error(""); }), when, ": entry ", i, " has a label"); } k.step(r.size()); };
  std::string p = k.dir() + "q"; all(d, "built"); d.save(p); api::Data e(p + ".wpkds"); all(e, "loaded"); e.save(p); api::Data f(p + ".wpkds"); all(f, "saved and loaded again"); k.step(4); k.log("entry of ", len, " bits, content ", kind); k.state(str(len, kind));
}
