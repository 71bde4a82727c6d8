// C35: the library does what it is asked and nothing else, and its surroundings do not matter to what it does. Standard output and
// error, files, the working directory, the state of the streams and of the process are compared around every call.
#include "acts.hpp"
#include <clocale>
#include <csignal>
#include <dirent.h>
#include <ext/stdio_sync_filebuf.h>
#include <fcntl.h>
#include <cfenv>
#include <fstream>
#include <iostream>
#include <locale>
#include <new>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace acts;
extern char** environ;
#ifdef MC_BACKEND_CPP
namespace api { inline json to_py(const json& j) { return j; } }
#endif

static void constant() { rand_hook = [] { return 0; }; }
// ---- what the process prints, while this lives
struct Capture {
  int out, err, in, o0, e0, i0; std::streambuf* usual;    // the explorer turns the stream off
  Capture() { flush(); static __gnu_cxx::stdio_sync_filebuf<char> real(stdout); usual = std::cout.rdbuf(&real); out = (int)syscall(SYS_memfd_create, "out", 1); err = (int)syscall(SYS_memfd_create, "err", 1); in = (int)syscall(SYS_memfd_create, "in", 1); if (pwrite(in, "a line\nanother line\n", 20, 0) != 20) in = -1; o0 = fcntl(1, F_DUPFD_CLOEXEC, 20); e0 = fcntl(2, F_DUPFD_CLOEXEC, 20); i0 = fcntl(0, F_DUPFD_CLOEXEC, 20); dup2(out, 1); dup2(err, 2); dup2(in, 0); }
  ~Capture() { flush(); std::cout.rdbuf(usual); dup2(o0, 1); dup2(e0, 2); if (i0 >= 0) dup2(i0, 0); for (int f : {out, err, in, o0, e0, i0}) if (f >= 0) close(f); }
  static void flush() {
    std::cout.flush(); std::cerr.flush(); std::clog.flush(); fflush(stdout); fflush(stderr);
#ifdef MC_BACKEND_PY
    for (auto n : {"stdout", "stderr"}) { py::object s = py::module_::import("sys").attr(n); if (!s.is_none()) s.attr("flush")(); }
#endif
  }
  static std::string all(int fd) { std::string s; char b[4096]; off_t at = 0; ssize_t n; while ((n = pread(fd, b, sizeof b, at)) > 0) { s.append(b, n); at += n; } if (ftruncate(fd, 0)) {} lseek(fd, 0, SEEK_SET); return s; }
  std::string printed() { flush(); return all(out); }
  std::string complained() { flush(); return all(err); }
};
// ---- the files below a directory, with their content
static void files(const std::string& dir, std::map<std::string, std::string>& m) {
  DIR* d = opendir(dir.c_str()); if (!d) return; std::vector<std::string> names; while (dirent* e = readdir(d)) names.push_back(e->d_name); closedir(d);
  for (auto& n : names) { if (n == "." || n == "..") continue; std::string p = dir + n; struct stat st; if (lstat(p.c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) { m[p] = "directory"; files(p + "/", m); } else { std::ifstream f(p); m[p] = str(st.st_mode, " ", std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>())); } }
}
static std::map<std::string, std::string> files(const std::string& dir) { std::map<std::string, std::string> m; files(dir, m); return m; }
static std::string stream(const std::ios& s) { return str((long)s.flags(), " ", s.precision(), " ", s.width(), " ", (long)s.rdstate(), " ", (long)s.exceptions(), " ", (void*)s.rdbuf(), " ", s.getloc().name(), " ", (void*)s.tie()); }
// the state of the process
static std::string process() {
  char cwd[4096]; std::string s = getcwd(cwd, sizeof cwd) ? cwd : "?"; mode_t m = umask(0); umask(m); s += str(" umask ", m, " locale ", setlocale(LC_ALL, nullptr), " ", std::locale().name(), " rounding ", fegetround(), " ", fegetexcept());
  s += " out " + stream(std::cout) + str(" ", (int)std::cout.fill()) + " err " + stream(std::cerr) + " log " + stream(std::clog) + " in " + stream(std::cin) + str(" handlers ", (void*)std::get_new_handler(), " ", (void*)std::get_terminate(), " input at ", (long)lseek(0, 0, SEEK_CUR));
  for (int i = 1; i < 32; i++) { struct sigaction a; memset(&a, 0, sizeof a); if (!sigaction(i, nullptr, &a)) s += str(i == 1 ? " signals " : ",", (void*)a.sa_handler); } sigset_t q; sigprocmask(SIG_SETMASK, nullptr, &q); for (int i = 1; i < 32; i++) if (sigismember(&q, i)) s += str(" blocked ", i);
  for (char** e = environ; e && *e; e++) s += std::string(" ") + *e; int tasks = 0; if (DIR* d = opendir("/proc/self/task")) { while (dirent* e = readdir(d)) tasks += e->d_name[0] != '.'; closedir(d); } s += str(" threads ", tasks, " children ", waitpid(-1, nullptr, WNOHANG) == 0 || errno != ECHILD); int fds = 0; for (int i = 0; i < 256; i++) fds += fcntl(i, F_GETFD) != -1; s += str(" descriptors ", fds);
#ifdef MC_BACKEND_PY
  py::module_ sys = py::module_::import("sys"), gc = py::module_::import("gc"); s += str(" python ", (void*)sys.attr("stdout").ptr(), (void*)sys.attr("stderr").ptr(), " ", py::str(sys.attr("path")).cast<std::string>(), " modules ", py::len(sys.attr("modules")), " ", sys.attr("getrecursionlimit")().cast<int>(), " gc ", gc.attr("isenabled")().cast<bool>(), " error ", PyErr_Occurred() != nullptr);
#endif
  return s;
}
static bool starts(const char* n, const char* w) { return !strncmp(n, w, strlen(w)); }
static bool writes(const char* n) { return starts(n, "json(True, path") || starts(n, "restore from files") || starts(n, "restore from damaged files") || !strcmp(n, "save") || !strcmp(n, "load") || !strcmp(n, "load damaged"); }
static void make(Obj& o, int kind, int v, const std::string& dir, bool verbose) {
  build(o, kind, v, dir); auto with = [&](json j) { if (j.is_null()) j = json::object(); j["verbose"] = verbose; return j; };
  if (kind == WIS) { auto& c = wis_confs()[v]; o.w.reset(new api::Wis(c.n, with(c.o))); } if (kind == CLUS) { auto& c = clus_confs()[v]; o.c.reset(new api::Clus(c.n, c.min, c.th, c.lim, with(c.o))); }
}
static std::string see(Obj& o) {
  constant(); VV a = o.d || o.w || o.c ? ref::all_entries(o.E, o.base) : VV();
  if (o.d) return obs::of(*o.d, a, o.base == 2); if (o.w) return obs::of(*o.w, a, o.base == 2) + o.w->jsonConfig(); if (o.c) return obs::of(*o.c, a) + o.c->jsonConfig();
  if (o.s) { std::string s = str(o.s->size()); for (ull i = 0; i < o.s->size(); i++) { std::string l = "-"; refused([&] { l = o.s->getLabel(i); }); s += " " + l + "=" + o.s->get((int)i).data(); } return s; }
  if (o.h) return o.h->data(); if (o.b) return o.b->data(); if (o.k) return str(o.k->transform(VVD{{1, 2}, {3, 0}, {-1, 8}, {0.5, 0.25}})); return str(o.y->make());
}
static std::string look(Obj& o) { std::string s = "cannot be asked"; refused([&] { s = see(o); }); return s; }
struct Inside { std::string was; Inside(const std::string& dir) { char b[4096]; was = getcwd(b, sizeof b) ? b : "/"; if (chdir(dir.c_str())) {} } ~Inside() { if (chdir(was.c_str())) {} } };
// every call of every kind of object, made, used and destroyed
SUITE(effects) {
  constant(); int kind = k.choose(KINDS), v = k.choose(variants(kind)), n = (int)all(kind).size(), depth = kind <= CLUS ? (k.thorough ? 3 : 2) : (k.thorough ? 4 : 3); bool verbose = (kind == WIS || kind == CLUS) && k.choose(2); std::string dir = k.dir(), home = dir + "home/", what = NAME[kind]; mkdir(home.c_str(), 0700); mkdir((dir + "w").c_str(), 0700);
  std::string had_home = getenv("HOME") ? getenv("HOME") : "", had_tmp = getenv("TMPDIR") ? getenv("TMPDIR") : ""; struct Env { std::string h, t; ~Env() { h.empty() ? unsetenv("HOME") : setenv("HOME", h.c_str(), 1); t.empty() ? unsetenv("TMPDIR") : setenv("TMPDIR", t.c_str(), 1); } } env{had_home, had_tmp}; setenv("HOME", home.c_str(), 1); setenv("TMPDIR", home.c_str(), 1);
  { Capture io; Inside here(home); std::unique_ptr<Obj> o; auto call = [&](const char* name, bool may_print, bool must_print, bool may_write, const std::function<bool()>& f) {
      auto f0 = files(dir); std::string p0 = process(), ok; bool good = f(); k.step(); std::string p1 = process(), out = io.printed(), err = io.complained(); auto f1 = files(dir);
      REQUIRE("error-output", err.empty(), what, ": ", name, " prints to the standard error: ", err); REQUIRE("output", may_print || out.empty(), what, verbose ? " (verbose)" : " (not verbose)", ": ", name, " prints ", out); REQUIRE("progress", !must_print || !good || !out.empty(), what, " (verbose): ", name, " shows no progress");
      REQUIRE("process", p0 == p1, what, ": ", name, " changes the process: ", obs::diff(p1, p0));
      for (auto& e : f0) { auto g = f1.find(e.first); REQUIRE("file", (g != f1.end() && g->second == e.second) || may_write, what, ": ", name, " changes the file ", e.first); } for (auto& e : f1) if (!f0.count(e.first)) REQUIRE("file", may_write && e.first.compare(0, dir.size() + 2, dir + "w/") == 0, what, ": ", name, " makes the file ", e.first); };
    call("the constructor", false, false, false, [&] { o.reset(new Obj()); make(*o, kind, v, dir + "w/", verbose); return true; });
    for (int i = 0; i < depth; i++) { auto& a = all(kind)[k.choose(n)]; k.log(a.name); what += std::string(", ") + a.name; bool model = kind == WIS || kind == CLUS, says = model && verbose && (starts(a.name, "train") || starts(a.name, "classify") || starts(a.name, "leave") || starts(a.name, "copy")); bool must = says && (starts(a.name, "train ") || starts(a.name, "classify")); call(a.name, says, must, writes(a.name), [&] { return !refused([&] { a.f(*o); }); }); }
    call("the destructor", false, false, false, [&] { o.reset(); return true; }); }
  k.state(what + str(v, verbose));
}
// what a verbose model shows, and that showing it changes nothing
static std::vector<std::pair<int, int>> counts(const std::string& s) { std::vector<std::pair<int, int>> v; for (size_t p = s.find(" of "); p != std::string::npos; p = s.find(" of ", p + 1)) { size_t b = p; while (b > 0 && isdigit((unsigned char)s[b - 1])) b--; v.push_back({atoi(s.c_str() + b), atoi(s.c_str() + p + 4)}); } return v; }
SUITE(progress) {
  constant(); int kind = WIS + k.choose(2), v = k.choose(variants(kind)), depth = k.thorough ? 3 : 2; Obj a, b; std::string what = NAME[kind]; Capture io; constant(); make(a, kind, v, "", true); constant(); make(b, kind, v, "", false); if (kind == WIS && wis_confs()[v].o.count("mapping")) constant();
  for (int i = 0; i < depth; i++) {
    int w = k.choose(5), n = k.choose(k.thorough ? 5 : 4); VV p = pool(a), xs; VS ys; std::map<int, std::string> semi; for (int j = 0; j < n; j++) { xs.push_back(p[(i + j) % 3]); ys.push_back(j % 2 ? "b" : "a"); if (j % 2) semi[j] = "a"; } std::string ra, rb, shown, quiet; io.printed();
    auto run = [&](Obj& o) -> std::string { constant(); std::string r; bool no = refused([&] {
        if (kind == WIS) { if (w == 0) o.w->train(xs, ys); if (w == 1 || w == 3) { api::Data d; for (int j = 0; j < n; j++) { V x = xs[j]; for (int& q : x) q = q > 0; d.add(ref::shorts(x), ys[j]); } if (w == 1) o.w->train(d); else r = obs::show(o.w->classify(d)); } if (w == 2) r = obs::full(*o.w, xs); if (w == 4) o.w->leaveMoreOut(xs, ys); }
        else { if (w == 0) o.c->train(xs, ys); if (w == 1) o.c->train(xs, semi); if (w == 2) r = obs::full(*o.c, xs); if (w == 3) r = obs::show(o.c->classifyUnsupervised(xs)); if (w == 4) o.c->trainUnsupervised(xs); } }); return str(no, r); };
    ra = run(a); shown = io.printed(); rb = run(b); quiet = io.printed(); k.step(2); what += str(" ", w, "(", n, ")"); k.log("call ", w, " with ", n, " entries shows ", shown); REQUIRE("quiet", quiet.empty(), what, ", not verbose: prints ", quiet); REQUIRE("verbose-differs", ra == rb, what, ": verbose gives ", ra, " instead of ", rb);
    bool ok = ra[0] == '0'; auto c = counts(shown); if (ok && !(kind == CLUS && (w == 1 || w == 4))) { bool right = (int)c.size() == n; for (int j = 0; j < n && right; j++) right = c[j].first == j + 1 && c[j].second == n; REQUIRE("progress", right, what, ", verbose: shows ", shown); }
    if (ok && kind == CLUS && w == 1 && n) { int rest = n - (int)semi.size(); bool right = (int)c.size() == n + rest; for (int j = 0; j < n + rest && right; j++) right = c[j].first == (j < n ? j + 1 : j - n + 1) && c[j].second == (j < n ? n : rest); REQUIRE("progress", right, what, ", verbose: shows ", shown); }
  }
  auto rest = [](std::string s) { for (std::string f : {"\"verbose\":true", "\"verbose\": true", "verbose=true"}) for (size_t p; (p = s.find(f)) != std::string::npos;) s.replace(p + f.size() - 4, 4, "false"); return s; };
  std::string x = rest(look(a)), y = rest(look(b)); io.printed(); REQUIRE("complaint", io.complained().empty(), what, ": prints to the standard error"); REQUIRE("verbose-differs", x == y, what, ": verbose gives ", obs::diff(x, y)); k.state(y);
}
// ---- surroundings
struct Punct : std::numpunct<char> { char do_decimal_point() const { return ','; } char do_thousands_sep() const { return '.'; } std::string do_grouping() const { return "\1"; } std::string do_truename() const { return "ja"; } std::string do_falsename() const { return "nein"; } };
static const char* const AROUND[] = {"as usual", "with other formats of the streams", "with a global C++ locale of its own", "with a C locale that writes 1,5", "with another working directory, umask and errno", "without standard input and output", "with streams that throw"};
static bool comma(const std::string& scratch) {   // a locale with a decimal comma, made once per process
  static int have = -1; if (have >= 0) return have;
  std::string dir = scratch + "/locale", src = dir + "/comma.src"; mkdir(dir.c_str(), 0700); std::ofstream f(src); f << "comment_char %\nescape_char /\n"; f << "LC_NUMERIC\ndecimal_point \",\"\nthousands_sep \".\"\ngrouping 3;3\nEND LC_NUMERIC\n"; f.close();
  if (system(("localedef -c -i " + src + " -f UTF-8 " + dir + "/comma >/dev/null 2>&1").c_str())) {} setenv("LOCPATH", dir.c_str(), 1); bool ok = setlocale(LC_NUMERIC, "comma") && localeconv()->decimal_point[0] == ','; setlocale(LC_NUMERIC, "C"); return (have = ok);
}
struct Around {
  int how; std::ios format; std::locale old; mode_t mask; std::unique_ptr<Inside> here; int o0 = -1, i0 = -1; std::string num; std::streambuf* buf = nullptr;
  Around(Ctx& k, int h, const std::string& dir) : how(h), format(nullptr) {
    if (how == 1) { format.copyfmt(std::cout); std::cout << std::hex << std::showbase << std::showpoint << std::boolalpha << std::scientific; std::cout.precision(1); std::cout.fill('*'); std::cout.width(12); }
    if (how == 2) { old = std::locale(); std::locale::global(std::locale(std::locale::classic(), new Punct)); } if (how == 3) { num = setlocale(LC_NUMERIC, nullptr); if (comma(k.scratch)) setlocale(LC_NUMERIC, "comma"); else k.log("localedef is missing"); }
    if (how == 4) { mask = umask(077); here.reset(new Inside(dir)); errno = ERANGE; } if (how == 5) { Capture::flush(); o0 = fcntl(1, F_DUPFD_CLOEXEC, 20); i0 = fcntl(0, F_DUPFD_CLOEXEC, 20); close(1); close(0); open("/dev/null", O_RDONLY); open("/dev/null", O_RDONLY); }
    if (how == 6) { format.copyfmt(std::cout); std::cout.setstate(std::ios::failbit | std::ios::badbit); }
  }
  ~Around() {
    if (how == 1) { std::cout.copyfmt(format); std::cout.width(0); } if (how == 2) std::locale::global(old); if (how == 3) setlocale(LC_NUMERIC, num.c_str()); if (how == 4) umask(mask); if (how == 5) { Capture::flush(); dup2(o0, 1); if (i0 >= 0) dup2(i0, 0); else close(0); close(o0); if (i0 >= 0) close(i0); std::cout.clear(); clearerr(stdout); } if (how == 6) { std::cout.clear(); std::cout.copyfmt(format); }
  }
};
SUITE(surroundings) {
  constant(); int kind = k.choose(KINDS), v = k.choose(variants(kind)), how = 1 + k.choose(6), n = (int)all(kind).size(), depth = kind <= CLUS ? (k.thorough ? 3 : 2) : (k.thorough ? 4 : 3); V script; for (int i = 0; i < depth; i++) script.push_back(k.choose(n)); std::string dir = k.dir(), what = str(NAME[kind], " configuration ", v), names; for (int a : script) names += std::string(", ") + all(kind)[a].name; k.log(what, names, " ", AROUND[how]);
  // the usual outcome is remembered: many surroundings, one script
  static std::map<std::string, std::string> memo; auto play = [&]() -> std::string { env_reset(); constant(); k.dir(); std::string r; Obj o; make(o, kind, v, dir, kind == WIS || kind == CLUS); for (int a : script) { bool no = refused([&] { all(kind)[a].f(o); }); r += no ? "refused " : "done "; k.step(); } return r + look(o); };
  std::string key = str(kind, v, script), got; Capture io; if (memo.size() > 20000) memo.clear(); auto f = memo.find(key); if (f == memo.end()) f = memo.insert(std::make_pair(key, play())).first;
  { Around around(k, how, dir); got = play(); } REQUIRE("surroundings", got == f->second, what, names, " ", AROUND[how], ": ", obs::diff(got, f->second)); k.state(got);
}
// a model saved in one surrounding is the same in another
SUITE(carried) {
  constant(); int kind = k.choose(3), v = k.choose(variants(kind)), from = k.choose(7), to = k.choose(7), n = (int)all(kind).size(), act = k.choose(n); std::string dir = k.dir(), t, want, got; k.log(NAME[kind], " configuration ", v, ", ", all(kind)[act].name, ", ", AROUND[from], ", then ", AROUND[to]); Capture io; k.step(4);
  { Around a(k, from, dir); constant(); Obj o; make(o, kind, v, dir, false); refused([&] { all(kind)[act].f(o); }); t = o.d ? o.d->json_() : o.w ? o.w->json_() : o.c->json_(); want = look(o); }
  { Around a(k, to, dir); constant(); Obj o; o.kind = kind; build(o, kind, v, dir); if (o.d) o.d.reset(new api::Disc(t)); if (o.w) o.w.reset(new api::Wis(t)); if (o.c) o.c.reset(new api::Clus(t)); got = look(o); }
  REQUIRE("carried", want == got, NAME[kind], " configuration ", v, " saved ", AROUND[from], " and restored ", AROUND[to], ": ", obs::diff(got, want)); k.state(got);
}
// calls with many entries are as silent as those with few, and leave no more behind
SUITE(large) {
  constant(); int kind = k.choose(3), n = k.pick({63, 65, 100, 101, 256, 257, 501, 1000, 1001, 1025, 5000, 10001}), op = k.choose(5); std::string dir = k.dir(); if (PY && n > 2000) return; std::string what = str("call ", op, " of ", NAME[kind], " with ", n, " entries"); k.log(what); VV xs; VS ys; std::map<int, std::string> semi; for (int i = 0; i < n; i++) { V x(6); for (int j = 0; j < 6; j++) x[j] = (i * 7 >> j) & 1; xs.push_back(x); ys.push_back(i % 3 ? "a" : "b"); if (i % 2) semi[i] = ys[i]; }
  Capture io; Inside here(dir); auto f0 = files(dir); std::string p0 = process();
  if (kind == DISC) { api::Disc d(2, 6, json()); d.train(xs); if (op == 1) for (auto& x : xs) d.classify(x); if (op == 2) { api::Disc e(d.json_()); e.getsizeof(); } }
  else if (kind == WIS) { api::Wis w(2, json()); if (op == 3) { api::Data d; for (int i = 0; i < n; i++) d.add(ref::shorts(xs[i]), ys[i]); w.train(d); w.classify(d); } else w.train(xs, ys); if (op == 1) obs::full(w, xs); if (op == 2) { api::Wis e(w.json_()); e.getMentalImages(); } if (op == 4) w.leaveMoreOut(xs, ys); }
  else { api::Clus c(2, 0.4f, 3, 4, json()); if (op == 1) c.train(xs, semi); else if (op == 2) c.trainUnsupervised(xs); else c.train(xs, ys); if (op == 0) obs::full(c, xs); if (op == 2) c.classifyUnsupervised(xs); if (op == 4) { api::Clus e(c.json_()); e.getMentalImages(); } }
  k.step(2 * n); std::string p1 = process(), out = io.printed(), err = io.complained(); REQUIRE("large-output", out.empty(), what, " prints ", out.substr(0, 200)); REQUIRE("large-error-output", err.empty(), what, " prints to the standard error: ", err.substr(0, 200)); REQUIRE("large-process", p0 == p1, what, " changes the process: ", obs::diff(p1, p0)); REQUIRE("large-files", f0 == files(dir), what, " leaves files"); k.state(what);
}
