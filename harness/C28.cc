// C28: threads. Two operations in two threads do not touch the same memory (unless both only read, or through locks and
// atomics): then every interleaving of them is equivalent to one after the other, and none is a data race.
#include "race.hpp"
#include "mc.hpp"
#include <dlfcn.h>
#include <semaphore.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace mc;
namespace {
struct Plug {
  void* so = nullptr; std::string path; int (*kinds)(); int (*variants)(int); int (*acts)(int); const char* (*kind)(int); const char* (*act)(int, int); int (*query)(int, int); void* (*build)(int, int, const char*); int (*run)(void*, int, int); void (*drop)(void*);
};
std::vector<Plug>& plugs() {
  static std::vector<Plug> v;
  if (v.empty()) for (const char* n : {"GEN", "HDR"}) {
    Plug p; p.path = std::string(getenv("PLUGS")) + "/" + n + ".so"; if (access(p.path.c_str(), R_OK)) continue;
    p.so = dlopen(p.path.c_str(), RTLD_NOW | RTLD_LOCAL); if (!p.so) { fprintf(stderr, "%s\n", dlerror()); abort(); }
    auto get = [&](const char* s) { void* f = dlsym(p.so, s); if (!f) { fprintf(stderr, "no %s\n", s); abort(); } return f; };
    p.kinds = (int (*)())get("plug_kinds"); p.variants = (int (*)(int))get("plug_variants"); p.acts = (int (*)(int))get("plug_acts"); p.kind = (const char* (*)(int))get("plug_kind"); p.act = (const char* (*)(int, int))get("plug_act");
    p.query = (int (*)(int, int))get("plug_query"); p.build = (void* (*)(int, int, const char*))get("plug_build"); p.run = (int (*)(void*, int, int))get("plug_run"); p.drop = (void (*)(void*))get("plug_drop");
    for (int i = 0; i < p.kinds(); i++) { p.acts(i); p.variants(i); }
    v.push_back(p);
  }
  return v;
}
struct Task { Plug* p; void* obj; int kind, variant, act; std::string dir; sem_t done, quit; };   // act -1: build, -2: build and destroy
void work(Task& t) { if (t.act >= 0) t.p->run(t.obj, t.kind, t.act); else { void* o = t.p->build(t.kind, t.variant, t.dir.c_str()); if (t.act == -2) t.p->drop(o); } }
void* thread1(void* x) { Task& t = *(Task*)x; race::enter(1); work(t); race::leave(); sem_post(&t.done); sem_wait(&t.quit); return nullptr; }
void* thread2(void* x) { Task& t = *(Task*)x; race::enter(2); work(t); race::leave(); return nullptr; }
struct Result { bool finished, conflict; race::Conflict c; uint64_t n1, n2; race::up base; };
std::string where(const Plug& p, race::up base, race::up pc) {
  char cmd[600]; snprintf(cmd, sizeof cmd, "addr2line -Cfe %s 0x%lx 2>/dev/null", p.path.c_str(), (unsigned long)(pc - base - 1)); std::string s; if (FILE* f = popen(cmd, "r")) { char b[2000]; while (fgets(b, sizeof b, f)) { s += b; s.back() = ' '; } pclose(f); } return s;
}
struct Side { int kind, variant; std::vector<int> script; int act; };
std::string name(const Plug& p, const Side& s) { std::string t = std::string(p.kind(s.kind)) + " (configuration " + std::to_string(s.variant); for (int a : s.script) t += std::string(", ") + p.act(s.kind, a); return t + "): " + (s.act >= 0 ? p.act(s.kind, s.act) : s.act == -1 ? "build another" : "build and destroy another"); }
// in a process of its own, so that nothing is initialised that the two operations have not initialised themselves
void pair(Ctx& k, Plug& p, const Side& a, const Side& b, bool same) {
  std::string d1 = k.dir() + "1/", d2 = k.dir() + "2/"; mkdir(d1.c_str(), 0700); mkdir(d2.c_str(), 0700);
  static Result* r = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); *r = Result();
  k.log("thread 1: ", name(p, a)); k.log("thread 2: ", same ? "the same object: " : "", name(p, b));
  fflush(nullptr); pid_t pid = fork(); if (pid < 0) k.internal("fork");
  if (pid == 0) {
    env_reset(); Task t[2]; const Side* s[2] = {&a, &b};
    for (int i = 0; i < 2; i++) {
      t[i].p = &p; t[i].kind = s[i]->kind; t[i].variant = s[i]->variant; t[i].act = s[i]->act; t[i].dir = i ? d2 : d1; t[i].obj = nullptr;
      if (i && same) t[i].obj = t[0].obj; else if (s[i]->act >= 0) { t[i].obj = p.build(s[i]->kind, s[i]->variant, t[i].dir.c_str()); for (int x : s[i]->script) p.run(t[i].obj, s[i]->kind, x); }
      sem_init(&t[i].done, 0, 0); sem_init(&t[i].quit, 0, 0);
    }
    pthread_t x, y; if (pthread_create(&x, nullptr, thread1, &t[0])) _exit(9); sem_wait(&t[0].done); if (pthread_create(&y, nullptr, thread2, &t[1])) _exit(9); pthread_join(y, nullptr); sem_post(&t[0].quit); pthread_join(x, nullptr);
    Dl_info in; dladdr((void*)p.run, &in); r->base = (race::up)in.dli_fbase; r->conflict = race::any; r->c = race::found; r->n1 = race::accesses[1]; r->n2 = race::accesses[2]; r->finished = true; _exit(0);
  }
  int st = 0; waitpid(pid, &st, 0); k.step(2);
  if (!r->finished) { if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) k.internal("killed"); k.fail("crash", str("the process ends with status ", st)); }
  if (r->conflict) k.fail("conflict", str(same ? "two queries of one object" : "operations on different objects", " touch the same memory without a lock: thread 1 ", r->c.w1 ? "writes" : "reads", " it in ", where(p, r->base, r->c.pc1), "and thread 2 ", r->c.w2 ? "writes" : "reads", " it in ", where(p, r->base, r->c.pc2)));
  k.state(str(r->n1, ",", r->n2, name(p, a), name(p, b)));
}
}
namespace mc { void backend_init() { plugs(); } }
// every ordered pair of operations on different objects
SUITE(different) {
  Plug& p = plugs()[k.choose((int)plugs().size())]; int K = p.kinds(); Side a, b; a.kind = k.choose(K); b.kind = k.choose(K); a.act = k.choose(p.acts(a.kind) + 2) - 2; b.act = k.choose(p.acts(b.kind) + 2) - 2;
  int how = k.choose(k.thorough ? 8 : 2), va = p.variants(a.kind), vb = p.variants(b.kind); a.variant = (a.act + 2 + how * 3) % va; b.variant = (how & 1 ? a.act + b.act + 4 : how) % vb; if (how & 1) { a.script = {0}; b.script = {0, p.acts(b.kind) / 2}; }
  pair(k, p, a, b, false);
}
// every ordered pair of queries of one object
SUITE(same) {
  Plug& p = plugs()[k.choose((int)plugs().size())]; Side a, b; a.kind = k.choose(p.kinds()); a.variant = k.choose(p.variants(a.kind)); std::vector<int> queries, changes; for (int i = 0; i < p.acts(a.kind); i++) (p.query(a.kind, i) ? queries : changes).push_back(i);
  int len = changes.empty() ? 0 : k.choose(k.thorough ? 3 : 2); for (int i = 0; i < len; i++) a.script.push_back(changes[k.choose((int)changes.size())]); b = a; a.act = queries[k.choose((int)queries.size())]; b.act = queries[k.choose((int)queries.size())];
  pair(k, p, a, b, true);
}
