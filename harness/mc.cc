#include "mc.hpp"
#include <cerrno>
#include <chrono>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <csignal>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>
#include <dirent.h>

namespace mc {
bool in_env = false;
struct Env { Env() { in_env = true; } ~Env() { in_env = false; } };
std::function<int()> rand_hook;
std::function<void(unsigned)> srand_hook;
std::function<long(int, const void*, size_t)> write_hook;
std::function<long(int, void*, size_t)> read_hook;
long clock_now = 1700000000;
uint64_t rand_calls, srand_calls, time_calls;
static uint64_t lcg = 1;
void env_reset() {
  rand_hook = nullptr; srand_hook = nullptr; write_hook = nullptr; read_hook = nullptr;
  lcg = 1; clock_now = 1700000000;
}
std::vector<Suite>& suites() { static std::vector<Suite> s; return s; }
static uint64_t now_ms() {
  return (uint64_t)std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
[[noreturn]] void Ctx::internal(const char* what) {
  if (sh) { sh->status = 3; snprintf(sh->msg, sizeof sh->msg, "internal: %s", what); }
  else fprintf(stderr, "internal: %s\n", what);
  _exit(77);
}
}

extern "C" {
int rand(void) {
  mc::rand_calls++;
  if (mc::rand_hook) { mc::Env e; return mc::rand_hook(); }
  mc::lcg = mc::lcg * 6364136223846793005ULL + 1442695040888963407ULL;
  return (int)((mc::lcg >> 33) & 0x7fffffff);
}
void srand(unsigned s) {
  mc::srand_calls++;
  if (mc::srand_hook) { mc::Env e; mc::srand_hook(s); return; }
  mc::lcg = s * 2862933555777941757ULL + 3037000493ULL;
}
time_t time(time_t* t) {
  mc::time_calls++;
  if (t) *t = mc::clock_now;
  return mc::clock_now;
}
ssize_t write(int fd, const void* b, size_t n) {
  if (mc::write_hook && fd > 2) { mc::Env e; long r = mc::write_hook(fd, b, n); if (r != -2) { if (r < 0) errno = ENOSPC; return r; } }
  return syscall(SYS_write, fd, b, n);
}
ssize_t read(int fd, void* b, size_t n) {
  if (mc::read_hook && fd > 2) { mc::Env e; long r = mc::read_hook(fd, b, n); if (r != -2) { if (r < 0) errno = EIO; return r; } }
  return syscall(SYS_read, fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (mc::write_hook && fd > 2) {
    mc::Env e; size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
    long r = mc::write_hook(fd, nullptr, n); if (r != -2) { if (r < 0) errno = ENOSPC; return r; } }
  return syscall(SYS_writev, fd, v, c);
}
}

namespace mc {
static struct rlimit files_before;
NoFiles::NoFiles(int allow) {
  int n = 0; while (fcntl(n, F_GETFD) != -1 || errno != EBADF) n++;
  getrlimit(RLIMIT_NOFILE, &files_before); struct rlimit r = files_before; r.rlim_cur = n + allow; setrlimit(RLIMIT_NOFILE, &r);
}
NoFiles::~NoFiles() { setrlimit(RLIMIT_NOFILE, &files_before); }
void bad_reads(Reads& r, int at, int mode) {
  read_hook = [&r, at, mode](int fd, void* buf, size_t len) -> long {
    if (r.busy) return -2;
    int i = r.n++; if (i < at || ((mode == 0 || mode == 2) && i > at)) return -2;
    if (mode < 2) { r.failed++; return -1; }
    if (mode == 4 && i > at) len = std::min<size_t>(len, 1 + len / 7);
    r.busy = true; ssize_t got = read(fd, buf, len > 1 ? len / 2 : len); r.busy = false; return got; };
}
static void wipe(const std::string& dir) {     // scratch directories only
  DIR* d = opendir(dir.c_str());
  if (!d) return;
  while (dirent* e = readdir(d)) {
    std::string n = e->d_name; if (n == "." || n == "..") continue;
    std::string p = dir + "/" + n; struct stat st;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { wipe(p); rmdir(p.c_str()); } else unlink(p.c_str());
  }
  closedir(d);
}

std::string Ctx::dir() { std::string d = scratch + "/d/"; wipe(d); mkdir(d.c_str(), 0700); return d; }

// One execution of a body; returns false if pruned. Throws Violation.
static bool run_once(Ctx& k, const Suite& s) {
  k.pos = 0; k.idx = 0; k.prod = 1; k.assigned = false; k.pruned = false;
  env_reset();
  if (k.sh) { k.sh->pathlen = 0; k.sh->start_ms = now_ms(); k.sh->running = 1; }
  bool ok = true;
  try { s.body(k); }
  catch (Prune&) { ok = false; }
  catch (Violation&) { env_reset(); if (!k.pruned) throw; }
  catch (std::exception& e) { env_reset(); if (!k.pruned) throw Violation{"exception", std::string("unexpected exception: ") + e.what()}; }
  env_reset();
  if (k.sh) k.sh->running = 0;
  return ok && !k.pruned;
}
static bool backtrack(Ctx& k) {
  k.path.resize(k.pos); k.arity.resize(k.pos);
  while (!k.path.empty()) {
    if (k.path.back() + 1 < k.arity.back()) { k.path.back()++; return true; }
    k.path.pop_back(); k.arity.pop_back();
  }
  return false;
}

struct Stats { uint64_t execs = 0, steps = 0, maxdepth = 0, states = 0, rands = 0; double secs = 0; bool capped = false; bool complete = false; };

static std::string esc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

struct Opt { bool thorough = false; int shards = 8; double budget = 600; double hang = 60; std::string out, replay, only, scratch, known; };

static void shard_main(Shared* sh, const Opt& o, int shard, const std::string& statfile) {
  std::ofstream st(statfile, std::ios::binary);
  uint64_t t0 = now_ms();
  std::set<std::string> known;
  { std::ifstream kf(o.known); std::string l; while (std::getline(kf, l)) known.insert(l); }
  std::map<std::string, uint64_t> knownhits;
  bool capped = false;
  for (size_t s = 0; s < suites().size(); s++) {
    if (!o.only.empty() && o.only != suites()[s].name) continue;
    sh->suite = (int)s;
    Ctx k; k.thorough = o.thorough; k.sh = sh; k.nshards = o.shards; k.shard = shard; k.scratch = o.scratch + "/s" + std::to_string(shard);
    std::unordered_set<uint64_t> states; k.states = &states;
    Stats x; uint64_t ts = now_ms(); uint64_t r0 = rand_calls;
    std::vector<std::vector<int>> samples;
    do {
      if ((double)(now_ms() - t0) > o.budget * 1000) { capped = true; break; }
      bool done = false;
      try { done = run_once(k, suites()[s]); }
      catch (Violation& v) {
        if (known.count(v.key)) { knownhits[v.key]++; k.assigned = true; done = true; }
        else {
          snprintf(sh->key, sizeof sh->key, "%s", v.key.c_str());
          snprintf(sh->msg, sizeof sh->msg, "%s", v.msg.c_str());
          sh->status = 2; _exit(3);
        }
      }
      if (done && !k.assigned && !k.mine()) done = false;
      if (done) {
        x.execs++; sh->execs = sh->execs + 1;
        if (k.pos > x.maxdepth) x.maxdepth = k.pos;
        if (x.execs == 2 || x.execs == 50 || x.execs == 5000) samples.push_back(std::vector<int>(k.path.begin(), k.path.begin() + k.pos));
      }
    } while (backtrack(k));
    x.steps = k.steps; x.secs = (now_ms() - ts) / 1000.0; x.rands = rand_calls - r0; x.capped = capped;
    uint64_t hdr[7] = {s, x.execs, x.steps, x.maxdepth, (uint64_t)(x.secs * 1000), x.rands, (uint64_t)capped};
    st.write((char*)hdr, sizeof hdr);
    uint64_t n = states.size(); st.write((char*)&n, 8);
    for (uint64_t h : states) st.write((char*)&h, 8);
    n = samples.size(); st.write((char*)&n, 8);
    for (auto& p : samples) { n = p.size(); st.write((char*)&n, 8); st.write((char*)p.data(), p.size() * sizeof(int)); }
    if (capped) break;
  }
  st.close();
  { std::ofstream kf(statfile + ".known"); for (auto& h : knownhits) kf << h.first << "\n"; }
  sh->status = capped ? 4 : 1;
  _exit(0);
}

// A bug that eats memory must not reach the rest of the machine: 3 GB more than at the start, then it counts as a crash.
static size_t statm(int field) {   // pages; no allocation
  char b[256]; int fd = open("/proc/self/statm", O_RDONLY); if (fd < 0) return 0;
  ssize_t n = syscall(SYS_read, fd, b, sizeof b - 1); close(fd); if (n <= 0) return 0; b[n] = 0;
  char* p = b; for (int i = 0; i < field && p; i++) { p = strchr(p, ' '); if (p) p++; } return p ? strtoull(p, nullptr, 10) : 0;
}
static void no_memory() {
  if (statm(1) * 4096 < (2ull << 30)) throw std::bad_alloc();     // one request that was far too large
  static const char m[] = "the execution uses up all memory\n"; (void)!syscall(SYS_write, 2, m, sizeof m - 1); abort();
}
static void limit_memory() {
  struct rlimit r; size_t now = statm(5) * 4096; if (!now || getrlimit(RLIMIT_DATA, &r)) return;
  r.rlim_cur = std::min<rlim_t>(r.rlim_max, now + (3ull << 30)); setrlimit(RLIMIT_DATA, &r); std::set_new_handler(no_memory);
}
struct Replay { int outcome; /*0 ok 2 violation 5 crash 6 hang 3 internal*/ std::string key, msg, log; };
static Replay replay(const Opt& o, int suite, const std::vector<int>& path, double limit, const std::string& errfile) {
  Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void*)sh, 0, 4096);
  fflush(nullptr);
  std::string dir = o.scratch + "/replay"; mkdir(dir.c_str(), 0700); wipe(dir);
  pid_t pid = fork();
  if (pid == 0) {
    limit_memory();
    if (!errfile.empty()) { int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2); close(fd); }
    Ctx k; k.thorough = o.thorough; k.sh = sh; k.logging = true; k.forced = true; k.scratch = dir;
    k.path = path; k.arity.assign(path.size(), 0);
    sh->suite = suite;
    try { run_once(k, suites()[suite]); }
    catch (Violation& v) {
      snprintf(sh->key, sizeof sh->key, "%s", v.key.c_str()); snprintf(sh->msg, sizeof sh->msg, "%s", v.msg.c_str());
      sh->status = 2; _exit(3);
    }
    sh->status = 1; _exit(0);
  }
  Replay r; uint64_t t0 = now_ms(); int ws = 0;
  for (;;) {
    pid_t w = waitpid(pid, &ws, WNOHANG);
    if (w == pid) break;
    if ((double)(now_ms() - t0) > limit * 1000) { kill(pid, SIGKILL); waitpid(pid, &ws, 0); r.outcome = 6; r.key = "hang"; r.msg = "no answer"; r.log.assign(sh->log, sh->loglen); munmap(sh, sizeof *sh); wipe(dir); return r; }
    usleep(2000);
  }
  r.log.assign(sh->log, sh->loglen);
  if (sh->status == 3) { r.outcome = 3; r.msg = sh->msg; }
  else if (sh->status == 2) { r.outcome = 2; r.key = sh->key; r.msg = sh->msg; }
  else if (sh->status == 1) r.outcome = 0;
  else {
    r.outcome = 5; r.key = "crash";
    r.msg = WIFSIGNALED(ws) ? str("killed by signal ", WTERMSIG(ws)) : str("exit status ", WEXITSTATUS(ws), " (sanitizer report or abort)");
    if (WIFSIGNALED(ws) && WTERMSIG(ws) == SIGKILL) r.outcome = 3;
    if (!errfile.empty()) { std::ifstream f(errfile); std::string l; int n = 0; while (std::getline(f, l) && n < 14) { if (l.find("ERROR") != std::string::npos || l.find("#") != std::string::npos || l.find("Assert") != std::string::npos) { r.msg += "\n" + l; n++; } } }
  }
  munmap(sh, sizeof *sh); wipe(dir);
  return r;
}

static std::string pathstr(const std::vector<int>& p) { std::string s; for (size_t i = 0; i < p.size(); i++) s += (i ? "," : "") + std::to_string(p[i]); return s; }

int explore_main(int argc, char** argv, const char* backend) {
  Opt o;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto v = [&]() { return std::string(argv[++i]); };
    if (a == "--tier") o.thorough = v() == "thorough";
    else if (a == "--shards") o.shards = atoi(v().c_str());
    else if (a == "--budget") o.budget = atof(v().c_str());
    else if (a == "--hang") o.hang = atof(v().c_str());
    else if (a == "--out") o.out = v();
    else if (a == "--suite") o.only = v();
    else if (a == "--scratch") o.scratch = v();
    else if (a == "--known") o.known = v();
    else if (a == "--replay") o.replay = v();   // SUITE:1,2,3
  }
  if (o.scratch.empty()) { fprintf(stderr, "--scratch is needed\n"); return 2; }
  { static std::ofstream null("/dev/null"); std::cout.rdbuf(null.rdbuf()); }   // the library's verbose output
  backend_init();
  auto parse = [](const std::string& s) { std::vector<int> p; std::stringstream ss(s); std::string t; while (std::getline(ss, t, ',')) p.push_back(atoi(t.c_str())); return p; };
  if (!o.replay.empty()) {
    size_t c = o.replay.find(':'); std::string name = o.replay.substr(0, c); int s = -1;
    for (size_t i = 0; i < suites().size(); i++) if (name == suites()[i].name) s = (int)i;
    if (s < 0) { fprintf(stderr, "no suite %s\n", name.c_str()); return 2; }
    Replay r = replay(o, s, parse(o.replay.substr(c + 1)), 300, o.scratch + "/replay.err");
    printf("%s", r.log.c_str());
    printf("outcome: %s\n", r.outcome == 0 ? "ok" : (r.key + ": " + r.msg).c_str());
    return r.outcome == 0 ? 0 : r.outcome == 3 ? 2 : 1;
  }
  uint64_t t0 = now_ms();
  std::vector<Shared*> shs; std::vector<pid_t> pids;
  for (int i = 0; i < o.shards; i++) {
    Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*)sh, 0, 4096);
    shs.push_back(sh);
    std::string dir = o.scratch + "/s" + std::to_string(i); mkdir(dir.c_str(), 0700);
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
      limit_memory();
      std::string ef = o.scratch + "/err" + std::to_string(i); int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2); close(fd);
      shard_main(sh, o, i, o.scratch + "/stat" + std::to_string(i));
    }
    pids.push_back(p);
  }
  int live = o.shards; int bad = -1; Replay viol; bool internal_err = false; std::string ierr; bool capped = false;
  std::vector<bool> done(o.shards, false);
  while (live > 0 && bad < 0 && !internal_err) {
    for (int i = 0; i < o.shards && bad < 0 && !internal_err; i++) {
      if (done[i]) continue;
      int ws; pid_t w = waitpid(pids[i], &ws, WNOHANG); Shared* sh = shs[i];
      if (w == pids[i]) {
        done[i] = true; live--;
        if (sh->status == 1) {}
        else if (sh->status == 4) capped = true;
        else if (sh->status == 2) { bad = i; viol.outcome = 2; viol.key = sh->key; viol.msg = sh->msg; }
        else if (sh->status == 3) { internal_err = true; ierr = sh->msg; }
        else if (sh->running == 0) { internal_err = true; ierr = str("shard died outside a body, wait status ", ws); }
        else { bad = i; viol.outcome = 5; viol.key = "crash"; viol.msg = WIFSIGNALED(ws) ? str("killed by signal ", WTERMSIG(ws)) : str("exit status ", WEXITSTATUS(ws)); }
      } else if (sh->running && sh->status == 0 && now_ms() > sh->start_ms + (uint64_t)(o.hang * 1000)) {
        kill(pids[i], SIGKILL); waitpid(pids[i], &ws, 0); done[i] = true; live--;
        bad = i; viol.outcome = 6; viol.key = "hang"; viol.msg = "no answer";
      }
    }
    usleep(10000);
  }
  for (int i = 0; i < o.shards; i++) if (!done[i]) { kill(pids[i], SIGKILL); int ws; waitpid(pids[i], &ws, 0); }
  std::ofstream out(o.out);
  out << "{\"backend\":\"" << backend << "\"";
  int rc = 0;
  if (bad >= 0) {
    Shared* sh = shs[bad];
    int suite = sh->suite; std::vector<int> p(sh->path, sh->path + sh->pathlen);
    bool reproduced = false; Replay r;
    for (int t = 0; t < 3 && !reproduced; t++) { r = replay(o, suite, p, viol.outcome == 6 ? 4 * o.hang : 300, o.scratch + "/replay.err"); reproduced = r.outcome == 2 || r.outcome == 5 || r.outcome == 6; }
    if (!reproduced && (viol.outcome == 6 || (viol.outcome == 5 && viol.msg == "killed by signal 9"))) {
      internal_err = true; ierr = "a slow or killed execution that passes alone: " + viol.msg;
    } else {
      if (reproduced) viol = r;
      rc = 1;
      out << ",\"violation\":{\"suite\":\"" << suites()[suite].name << "\",\"path\":\"" << pathstr(p) << "\",\"reproduced\":" << (reproduced ? "true" : "false")
          << ",\"key\":\"" << esc(viol.key) << "\",\"message\":\"" << esc(viol.msg) << "\",\"log\":\"" << esc(viol.log) << "\"}";
    }
  }
  if (internal_err) { rc = 2; out << ",\"error\":\"" << esc(ierr) << "\""; }
  // statistics of finished shards
  std::map<int, Stats> tot; std::map<int, std::unordered_set<uint64_t>> st; std::map<int, std::vector<std::vector<int>>> samples; std::set<std::string> knownhits;
  for (int i = 0; i < o.shards; i++) {
    std::ifstream f(o.scratch + "/stat" + std::to_string(i), std::ios::binary); uint64_t h[7];
    while (f.read((char*)h, sizeof h)) {          // a killed shard may leave a record that is cut off
      uint64_t n, v; std::vector<uint64_t> hs; std::vector<std::vector<int>> sm;
      if (!f.read((char*)&n, 8)) break;
      while (n > 0 && f.read((char*)&v, 8)) { hs.push_back(v); n--; }
      if (n > 0 || !f.read((char*)&n, 8) || n > 16) break;
      bool whole = true;
      while (whole && n-- > 0) { uint64_t m = 0; whole = f.read((char*)&m, 8) && m <= (uint64_t)MAXPATH; if (!whole) break; std::vector<int> p(m); whole = m == 0 || f.read((char*)p.data(), m * sizeof(int)); sm.push_back(p); }
      if (!whole) break;
      Stats& x = tot[(int)h[0]]; x.execs += h[1]; x.steps += h[2]; x.maxdepth = std::max(x.maxdepth, h[3]); x.secs = std::max(x.secs, h[4] / 1000.0); x.rands += h[5]; x.capped |= h[6] != 0;
      st[(int)h[0]].insert(hs.begin(), hs.end());
      if (i == 0) for (auto& p : sm) samples[(int)h[0]].push_back(p);
    }
    std::ifstream kf(o.scratch + "/stat" + std::to_string(i) + ".known"); std::string l; while (std::getline(kf, l)) knownhits.insert(l);
  }
  out << ",\"complete\":" << (rc == 0 && !capped ? "true" : "false") << ",\"wall_s\":" << (now_ms() - t0) / 1000.0 << ",\"known\":[";
  { bool first = true; for (auto& x : knownhits) { out << (first ? "" : ",") << "\"" << esc(x) << "\""; first = false; } }
  out << "],\"suites\":[";
  bool first = true;
  for (auto& e : tot) {
    out << (first ? "" : ",") << "{\"name\":\"" << suites()[e.first].name << "\",\"executions\":" << e.second.execs << ",\"steps\":" << e.second.steps
        << ",\"states\":" << st[e.first].size() << ",\"max_choices\":" << e.second.maxdepth << ",\"rand_answers\":" << e.second.rands << ",\"secs\":" << e.second.secs
        << ",\"capped\":" << (e.second.capped ? "true" : "false") << ",\"samples\":[";
    first = false;
    if (rc == 0) {
      bool f2 = true; int n = 0;
      for (auto& p : samples[e.first]) { if (n++ >= 2) break; Replay r = replay(o, e.first, p, 300, o.scratch + "/replay.err"); if (r.log.size() > 1500) r.log = r.log.substr(0, 1500) + "..."; out << (f2 ? "" : ",") << "{\"path\":\"" << pathstr(p) << "\",\"log\":\"" << esc(r.log) << "\"}"; f2 = false; if (r.outcome != 0 && knownhits.empty()) { fprintf(stderr, "sample replay differs: %s %s\n", r.key.c_str(), r.msg.c_str()); rc = 2; } }
    }
    out << "]}";
  }
  out << "]}\n";
  out.close();
  return rc;
}
}

#ifndef MC_BACKEND_NAME
#define MC_BACKEND_NAME "?"
#endif
int main(int argc, char** argv) {
  int rc = mc::explore_main(argc, argv, MC_BACKEND_NAME);
  fflush(nullptr);
  _exit(rc);
}
