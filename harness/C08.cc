// C08: file-backed saves reload to the same model or report failure.
#include "confs.hpp"
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace mc;

static VS files(const std::string& dir) {
  VS out; DIR* d = opendir(dir.c_str()); if (!d) return out;
  while (dirent* e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") out.push_back(dir + n); }
  closedir(d); std::sort(out.begin(), out.end()); return out;
}
static VS names(const std::string& doc) {   // the files a document refers to
  VS out; std::function<void(const json&)> walk = [&](const json& j) { if (j.is_string()) { std::string s = j.get<std::string>(); if (ref::ends_with(s, ".wdpkg")) out.push_back(s); } else if (j.is_structured()) for (auto& x : j) walk(x); };
  walk(json::parse(doc)); return out;
}
// The generator starts again at every save, as with srand(time) within one second: it repeats one answer `stuck`
// times and then goes its way.
static void restart(int kind, int stuck) { auto f = ref::stream(kind); int n = 0; rand_hook = [=]() mutable { return n < stuck ? (n++, 77) : f(); }; }

struct Save { std::string doc, content; };
template <typename M> static void check_saves(Ctx& k, const std::vector<Save>& saves, const VV& all, bool bits, const char* when) {
  for (size_t i = 0; i < saves.size(); i++) {
    std::string got;
    try { M b(saves[i].doc); got = obs::of(b, all, bits); } catch (std::exception& e) { k.fail("restore", str(when, ": save ", i + 1, " can not be restored: ", e.what())); }
    REQUIRE("restored", got == saves[i].content, when, ": save ", i + 1, " is not what was saved: ", obs::diff(saves[i].content, got)); k.step(2);
  }
}
// histories of training and saving; train(m, step) performs a training
template <typename M, typename T> static void drive(Ctx& k, M& m, const VV& all, bool bits, int trainings, int depth, T train) {
  std::string dir = k.dir(); std::vector<Save> saves; int kind = 4 + k.choose(2), stuck = k.pick({0, 10, 25, 50});
  const VS prefixes = {dir, dir + "m_"};
  for (int i = 0; i < depth; i++) {
    int w = k.choose(trainings + 3);
    if (w < trainings) { rand_hook = nullptr; train(m, w); k.step(); k.log("train ", w); }
    else if (w < trainings + 2) {
      std::string before = obs::of(m, all, bits); restart(kind, stuck); Save s;
      try { s.doc = m.json_(true, prefixes[w - trainings]); } catch (std::exception& e) { rand_hook = nullptr; k.fail("refused-save", str("a save that can succeed is refused: ", e.what())); }
      rand_hook = nullptr; k.step(); k.log("json(true, ", w - trainings, ") #", saves.size() + 1);
      s.content = obs::of(m, all, bits); REQUIRE("changed", s.content == before, "saving changes the model: ", obs::diff(before, s.content)); saves.push_back(s);
      std::string inl = ref::canon(m.json_()), fil = ref::canon(s.doc); REQUIRE("content", inl == fil, "the file-backed document differs from the inline one: ", obs::diff(inl, fil));
    } else { if (saves.empty()) return; m = M(saves[i % saves.size()].doc); k.step(); k.log("restore save ", i % saves.size() + 1); }
    check_saves<M>(k, saves, all, bits, "after a step");
  }
  k.state(obs::of(m, all, bits));
}
SUITE(discriminators) {
  const DC& c = disc_confs()[k.choose((int)disc_confs().size())]; k.log("Discriminator(", c.n, ",", c.E, ",", c.o.dump(), ")");
  api::Disc a(c.n, c.E, c.o); VV all = ref::all_entries(c.E, c.base()); VV pool = pool3(all);
  drive(k, a, all, c.base() == 2, 2, k.thorough ? 5 : 4, [&](api::Disc& d, int w) { d.train(pool[w]); });
}
SUITE(wisards) {
  const DC& c = wis_confs()[k.choose((int)wis_confs().size())]; k.log("Wisard(", c.n, ",", c.o.dump(), ")");
  api::Wis a(c.n, c.o); VV all = ref::all_entries(c.E, c.base()); VV pool = pool3(all);
  drive(k, a, all, c.base() == 2, 3, k.thorough ? 4 : 3, [&](api::Wis& d, int w) { if (w < 2) d.train(VV{pool[1 + w]}, VS{"a"}); else d.train(VV{pool[0], pool[2]}, VS{"b", "c"}); });
}
SUITE(cluswisards) {
  const CC& c = clus_confs()[k.choose((int)clus_confs().size())]; k.log("ClusWisard(", c.n, ",", c.min, ",", c.th, ",", c.lim, ",", c.o.dump(), ")");
  api::Clus a(c.n, c.min, c.th, c.lim, c.o); VV all = ref::all_entries(c.E, c.base()); VV pool = pool3(all);
  drive(k, a, all, false, 3, k.thorough ? 4 : 3, [&](api::Clus& d, int w) { if (w == 0) d.train(pool, VS{"a", "unsupervised_cluster", "a"}); else if (w == 1) d.trainUnsupervised(pool); else d.train(VV{pool[1]}, VS{"b"}); });
}
// many saves to one path within a second
SUITE(repeated) {
  std::string dir = k.dir(); int n = k.pick({2, 5, 12}), what = k.choose(3), stuck = k.pick({0, 10, 60}); int kind = k.pick({2, 3, 4, 5}); std::vector<Save> saves; VV all = ref::all_entries(4, 2);
  auto go = [&](std::function<void(int)> train, std::function<std::string()> save, std::function<std::string()> see) { for (int i = 0; i < n; i++) { train(i); Save s; restart(kind, stuck); s.doc = save(); rand_hook = nullptr; s.content = see(); saves.push_back(s); k.step(2); } };
  if (what == 0) { api::Disc d(2, 4, {}); go([&](int i) { d.train(all[i]); }, [&] { return d.json_(true, dir); }, [&] { return obs::of(d, all, true); }); check_saves<api::Disc>(k, saves, all, true, "at the end"); }
  else if (what == 1) { api::Wis d(2, {}); go([&](int i) { d.train(VV{all[i]}, VS{i % 2 ? "a" : "b"}); }, [&] { return d.json_(true, dir); }, [&] { return obs::of(d, all, true); }); check_saves<api::Wis>(k, saves, all, true, "at the end"); }
  else { api::Clus d(2, 0.6f, 5, 4, {}); go([&](int i) { d.train(VV{all[i]}, VS{i % 2 ? "a" : "b"}); d.trainUnsupervised(VV{all[i]}); }, [&] { return d.json_(true, dir); }, [&] { return obs::of(d, all, false); }); check_saves<api::Clus>(k, saves, all, false, "at the end"); }
  k.log(n, " saves of model ", what);
}
// many discriminators, classes or RAMs, saved and restored more than once
SUITE(many) {
  std::string dir = k.dir(); int what = k.choose(3), D = k.pick({2, 9, 10, 11, 12, 26, 101}), E = k.pick({7, 16}); std::vector<Save> saves; VV some; VV xs; VS ys, zs;
  for (int i = 0; i < D; i++) { V x(E); for (int j = 0; j < E; j++) x[j] = i >> j & 1; xs.push_back(x); ys.push_back("class" + std::to_string(i)); zs.push_back(i % 2 || D > 26 ? "a" : "b"); } for (int i = 0; i < D; i += 1 + D / 12) some.push_back(xs[i]);
  auto go = [&](std::function<std::string(int)> save, std::function<std::string()> see) { for (int i = 0; i < 2; i++) { Save s; restart(5, 10); s.doc = save(i); rand_hook = nullptr; s.content = see(); saves.push_back(s); k.step(2); } };
  if (what == 0) { VV m; for (int i = 0; i < D; i++) m.push_back({i % E, (i * 3 + 1) % E}); api::Disc d(2, E, json{{"mapping", m}}); d.train(xs); go([&](int i) { if (i) d.train(xs[0]); return d.json_(true, dir); }, [&] { return obs::of(d, some, true); }); check_saves<api::Disc>(k, saves, some, true, "many RAMs"); }
  else if (what == 1) { api::Wis d(2, {}); d.train(xs, ys); go([&](int i) { if (i) d.train(VV{xs[0]}, VS{ys[D / 2]}); return d.json_(true, dir); }, [&] { return obs::of(d, some, true); }); check_saves<api::Wis>(k, saves, some, true, "many classes"); }
  else { api::Clus d(2, 1.0f, 1, D, {}); d.train(xs, zs); d.trainUnsupervised(xs); go([&](int i) { if (i) d.train(VV{xs[0]}, VS{"a"}); return d.json_(true, dir); }, [&] { return obs::of(d, some, false); }); check_saves<api::Clus>(k, saves, some, false, "many discriminators"); }
  k.log("model ", what, " with ", D, " parts"); k.state(str(what, D, E));
}
// any label text: restored or refused
SUITE(labels) {
  VS odd = ODD; odd.push_back("a/b"); odd.push_back("../x"); odd.push_back("unsupervised_cluster"); odd.push_back("a__0"); odd.push_back("x.wdpkg"); odd.push_back("."); odd.push_back("..");
  std::string dir = k.dir() + "sub/"; mkdir(dir.c_str(), 0700); bool clus = k.flip(); const std::string& l1 = k.pick(odd); const std::string& l2 = k.pick(odd); VV all = ref::all_entries(3, 2); std::vector<Save> s(1);
  k.log("labels ", obs::show(VS{l1, l2}));
  auto path = [](const std::string& l) { return l.find('/') == std::string::npos && l.find('\0') == std::string::npos; };   // can be part of a file name
  bool must = path(l1) && path(l2) && l1.size() < 200 && l2.size() < 200;
  auto no = [&](std::exception& e) { if (must) k.fail("refused-save", str("a save that can succeed is refused: ", e.what())); };
  if (!clus) { api::Wis a(2, {}); a.train(VV{all[1], all[6], all[7]}, VS{l1, l2, l1}); restart(4, 10); try { s[0].doc = a.json_(true, dir); } catch (std::exception& e) { no(e); return; } rand_hook = nullptr; s[0].content = obs::of(a, all, true); check_saves<api::Wis>(k, s, all, true, "odd labels"); }
  else { api::Clus a(2, 0.9f, 5, 3, {}); a.train(VV{all[1], all[6], all[7]}, VS{l1, l2, l1}); a.trainUnsupervised(all); restart(4, 10); try { s[0].doc = a.json_(true, dir); } catch (std::exception& e) { no(e); return; } rand_hook = nullptr; s[0].content = obs::of(a, all, false); check_saves<api::Clus>(k, s, all, false, "odd labels"); }
  k.step(2); k.state(obs::show(VS{l1, l2}));
}
// one large model of each kind, for faults and damage
struct Big {
  int what; VV some; api::Disc d; api::Wis w; api::Clus c;
  Big(int what_, int E, int N) : what(what_), d(4, E, {}), w(4, {}), c(4, 0.5f, 5, 3, {}) {
    VV xs; VS ys; for (int i = 0; i < N; i++) { V x(E); for (int j = 0; j < E; j++) x[j] = (i * i + j * (i % 5 + 1) + (j >> 2)) & 1; xs.push_back(x); ys.push_back(i % 2 ? "a" : "b"); }
    some.assign(xs.begin(), xs.begin() + std::min(N, 4));
    if (what == 0) d.train(xs); else if (what == 1) w.train(xs, ys); else { c.train(xs, ys); c.trainUnsupervised(some); }
  }
  std::string save(const std::string& p) { return what == 0 ? d.json_(true, p) : what == 1 ? w.json_(true, p) : c.json_(true, p); }
  std::string see() { return what == 0 ? obs::of(d, some, true) : what == 1 ? obs::of(w, some, true) : obs::of(c, some, false); }
  std::string content() { return ref::canon(what == 0 ? d.json_() : what == 1 ? w.json_() : c.json_()); }
  std::string reload(const std::string& doc) { if (what == 0) { api::Disc m(doc); return obs::of(m, some, true); } if (what == 1) { api::Wis m(doc); return obs::of(m, some, true); } api::Clus m(doc); return obs::of(m, some, false); }
};
// every write of a save fails, one at a time or from there on, completely or half way
SUITE(write_faults) {
  int what = k.choose(3), size = k.choose(3); std::string dir = k.dir(); Big b(what, size == 0 ? 4 : size == 1 ? 64 : 400, size == 0 ? 3 : size == 1 ? 40 : 120);
  std::string before = b.see(), earlier = b.save(dir); k.step(2);
  int at = k.choose(size == 2 ? 24 : 6), mode = k.choose(4); int n = 0, failed = 0;
  write_hook = [&](int fd, const void* buf, size_t len) -> long {
    int i = n++; if (i < at || ((mode & 1) == 0 && i > at)) return -2;
    if (mode & 2) { if (len > 1 && i == at && buf) { failed++; static bool in = false; if (!in) { in = true; ssize_t r = write(fd, buf, len / 2); in = false; return r; } } failed++; return -1; }
    failed++; return -1; };
  std::string doc; bool refused_ = false;
  try { doc = b.save(dir); } catch (std::exception&) { refused_ = true; }
  write_hook = nullptr; k.step(); k.log("model ", what, " size ", size, ", write ", at, " of ", n, " fails, mode ", mode, refused_ ? ": refused" : ": saved");
  if (!refused_) { std::string got; try { got = b.reload(doc); } catch (std::exception& e) { k.fail("lost", str("a save with a failed write (", failed, " of ", n, ") is not reported, and restoring says ", e.what())); }
    REQUIRE("lost", got == before, "a save with a failed write (", failed, " of ", n, ") is not reported and lost knowledge: ", obs::diff(before, got)); }
  if (failed == 0) REQUIRE("refused-save", !refused_, "a save without any fault is refused");
  REQUIRE("changed", b.see() == before, "a failed save changes the model"); REQUIRE("earlier", b.reload(earlier) == before, "a failed save damages an earlier one");
  std::string again = b.save(dir); REQUIRE("again", b.reload(again) == before, "the save after a failed one does not restore"); k.step(4);
  k.state(str(what, size, at, mode, n));
}
// every read of a restore fails, once or from there on, or gives less than was asked for
SUITE(read_faults) {
  int what = k.choose(3), size = k.choose(3); std::string dir = k.dir(); Big b(what, size == 0 ? 4 : size == 1 ? 64 : 400, size == 0 ? 3 : size == 1 ? 40 : 120);
  std::string before = b.see(), doc = b.save(dir), got; int at = k.choose(size == 2 ? 16 : 6), mode = k.choose(5); Reads rd; bad_reads(rd, at, mode); int &n = rd.n, &failed = rd.failed;
  std::string why; bool r = false; try { got = b.reload(doc); } catch (std::exception& e) { r = true; why = e.what(); }
  read_hook = nullptr; k.step(2); k.log("model ", what, " size ", size, ", read ", at, " of ", n, mode < 2 ? " fails" : " is short", ", mode ", mode, r ? ": refused " + why : ": restored");
  if (failed == 0) REQUIRE("restored", !r && got == before, "a file read in other pieces is not restored: ", r ? why : obs::diff(before, got));
  else REQUIRE("lost-read", r || got == before, "a restore with a failed read (", failed, " of ", n, ") is not reported and lost knowledge: ", obs::diff(before, got));
  REQUIRE("again", b.reload(doc) == before, "the restore after a failed one"); k.state(str(what, size, at, mode, n));
}
// no file can be opened, or one at a time
SUITE(no_descriptors) {
  int what = k.choose(3), allow = k.choose(3), load = k.choose(2); std::string dir = k.dir(); Big b(what, 18, 7); std::string before = b.see(), doc = b.save(dir), got, other; k.step(2);
  bool r; if (load) { NoFiles f(allow); r = refused([&] { got = b.reload(doc); }); } else { NoFiles f(allow); r = refused([&] { other = b.save(dir); }); } k.log("model ", what, load ? " restored" : " saved", " with ", allow, " file descriptors", r ? ": refused" : ": done"); k.step();
  REQUIRE("no-file", r || allow, "without a file descriptor nothing is reported"); if (!r) { if (!load) got = b.reload(other); REQUIRE("content", got == before, "with ", allow, " file descriptors knowledge is lost: ", obs::diff(before, got)); }
  REQUIRE("again", b.see() == before && b.reload(doc) == before, "after that the model or its earlier save differ"); k.state(str(what, allow, load));
}
// a name that can be opened but not read
SUITE(directories) {
  int what = k.choose(3); std::string dir = k.dir(); Big b(what, 18, 7); std::string doc = b.save(dir), before = b.see(); VS f = names(doc); const std::string& v = k.pick(f);
  unlink(v.c_str()); mkdir(v.c_str(), 0700); k.log("model ", what, ", ", v, " is a directory"); bool r = refused([&] { b.reload(doc); }); k.step(2); REQUIRE("directory", r, "a directory in place of a file of RAM data is not reported"); k.state(str(what));
}
// places that can not be written
SUITE(places) {
  int what = k.choose(3); std::string dir = k.dir(); Big b(what, 8, 5); std::string before = b.see(); int place = k.choose(5);
  std::string p = place == 0 ? dir + "missing/" : place == 1 ? dir + "file/x" : place == 2 ? "/proc/version/x" : place == 3 ? dir + std::string(250, 'y') : "/dev/null/";
  if (place == 1) { std::ofstream(dir + "file") << "x"; }
  bool r = refused([&] { b.save(p); }); k.step(); k.log("model ", what, " saved to ", p);
  REQUIRE("place", r, "saving to ", p, " is not refused"); REQUIRE("changed", b.see() == before, "a refused save changes the model"); k.state(str(what, place));
}
// without a path the files are made where the process stands
SUITE(here) {
  int what = k.choose(3); std::string dir = k.dir(); if (chdir(dir.c_str())) k.internal("chdir"); Big b(what, 8, 5); std::string before = b.see();
  std::string doc; if (what == 0) doc = k.flip() ? b.d.json_(true) : b.d.json_(true, ""); else if (what == 1) doc = k.flip() ? b.w.json_(true) : b.w.json_(true, ""); else doc = k.flip() ? b.c.json_(true) : b.c.json_(true, "");
  REQUIRE("here", b.reload(doc) == before, "a save without a path does not restore"); REQUIRE("files", files(dir).size() == names(doc).size(), files(dir).size(), " files for ", names(doc).size(), " names");
  bool plain = names(what == 0 ? b.d.json_(false, dir) : what == 1 ? b.w.json_(false, dir) : b.c.json_(false, dir)).empty(); REQUIRE("inline", plain && files(dir).size() == names(doc).size(), "json(False, path) writes files"); k.step(4);
  if (chdir("/")) k.internal("chdir"); k.state(str(what));
}
// a file is missing, or holds too few RAMs
SUITE(missing) {
  int what = k.choose(3); std::string dir = k.dir(); Big b(what, 18, 7); std::string doc = b.save(dir); VS f = names(doc); std::string before = b.see();
  REQUIRE("restored", b.reload(doc) == before, "an untouched save does not restore");
  const std::string& v = k.pick(f); std::string text = ref::slurp(v); int rams = 1 + (int)std::count(text.begin(), text.end(), '.'); int how = k.choose(rams + 1);
  if (how == 0) unlink(v.c_str());
  else { size_t cut = 0; for (int i = 1; i < how; i++) cut = text.find('.', cut) + 1; cut = how == rams ? text.rfind('.') : text.find('.', cut); std::ofstream(v, std::ios::trunc) << text.substr(0, cut); }
  bool r = refused([&] { b.reload(doc); }); k.step(2); k.log("model ", what, ", file ", v, how == 0 ? " removed" : str(" cut to ", how, " of ", rams, " RAMs"));
  REQUIRE("missing", r, how == 0 ? std::string("a missing file of RAM data is not reported") : str("a file with ", how, " of ", rams, " RAMs is not reported"));
  std::ofstream(v, std::ios::trunc) << text; REQUIRE("put-back", b.reload(doc) == before, "the file put back does not restore"); k.state(str(what, how));
}
// RAMs with very many cells
SUITE(cells) {
  int what = k.choose(3), n = k.pick({1000, 4096, 4681, 10000, 16384, 70000}), where = k.choose(2); if (PY && n > 17000) return; std::string dir = k.dir(); int E = 4; std::vector<Save> s(1); ref::Disc r(E, VV{{0, 1}, {2, 3}}, 1000003); r.count = n;
  for (int i = 0; i < n; i++) r.rams[where][V{(i * 7919) % 1000003, i % 997}] = 1 + i % 300; r.rams[1 - where][V{5, 6}] = 2; VV some; for (int i : {0, 1, n / 2, n - 2, n - 1}) { V x = {5, 6, 5, 6}; x[2 * where] = (i * 7919) % 1000003; x[2 * where + 1] = i % 997; some.push_back(x); }
  json d = {{"entrySize", E}, {"mapping", r.mapping}, {"count", n}, {"data", ref::data_of(r)}, {"base", 1000003}, {"ignoreZero", false}, {"version", json::parse(api::Disc(2, 4, json()).json_())["version"]}}; k.log("model ", what, " with a RAM of ", n, " cells");
  auto rams = [&](const std::string& doc) { std::string f = ref::canon(doc); return f; };
  if (what == 0) { api::Disc a(d.dump()); s[0].content = obs::of(a, some, false); std::string c = rams(a.json_()); restart(5, 10); s[0].doc = a.json_(true, dir); rand_hook = nullptr; check_saves<api::Disc>(k, s, some, false, "many cells"); api::Disc b(s[0].doc); REQUIRE("cells", rams(b.json_()) == c, "a RAM of ", n, " cells is not what was saved"); V g = b.classify(some[2]), w = r.votes(some[2]); REQUIRE("votes", g == w, "votes ", str(g), " instead of ", str(w)); }
  else if (what == 1) { json j = json::parse(api::Wis(2, json{{"base", 1000003}}).json_()); json e = d; e.erase("version"); j["classes"] = {{"a", e}}; api::Wis a(j.dump()); s[0].content = obs::of(a, some, false); std::string c = rams(a.json_()); restart(5, 10); s[0].doc = a.json_(true, dir); rand_hook = nullptr; check_saves<api::Wis>(k, s, some, false, "many cells"); api::Wis b(s[0].doc); REQUIRE("cells", rams(b.json_()) == c, "a RAM of ", n, " cells is not what was saved"); }
  else { json j = json::parse(api::Clus(2, 0.5f, 5, 3, json{{"base", 1000003}}).json_()); json e = d; e.erase("version"); json u = {{"entrySize", E}, {"discriminators", {e}}}; j["unsupervisedCluster"] = u; j["clusters"] = {{"a", u}}; api::Clus a(j.dump()); s[0].content = obs::of(a, some, false); std::string c = rams(a.json_()); restart(5, 10); s[0].doc = a.json_(true, dir); rand_hook = nullptr; check_saves<api::Clus>(k, s, some, false, "many cells"); api::Clus b(s[0].doc); REQUIRE("cells", rams(b.json_()) == c, "a RAM of ", n, " cells is not what was saved"); }
  k.step(3); k.state(str(what, n, where));
}
