// A small stateless model checker: a harness body asks for choices, the explorer runs it once for every
// path of choices (depth first, simplest choice first), in several forked shards, on the real code.
#ifndef MC_HPP
#define MC_HPP
#include <algorithm>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

extern bool in_env;   // a hook of the environment is running
struct Violation { std::string key, msg; };  // deliberately not a std::exception
struct Prune {};

const int MAXPATH = 4096;

struct Shared {
  volatile uint64_t execs, start_ms;
  volatile int running;               // inside a body
  volatile int suite;
  volatile int pathlen;
  int path[MAXPATH];
  volatile int status;                // 0 exploring, 1 finished, 2 violation, 3 internal error, 4 capped
  char key[256];
  char msg[8192];
  volatile uint32_t loglen;
  char log[1 << 18];
};

template <typename T> void put(std::ostringstream& o, const T& t) { o << t; }
template <typename T> void put(std::ostringstream& o, const std::vector<T>& v) { o << "["; for (size_t i = 0; i < v.size(); i++) { if (i) o << ","; put(o, v[i]); } o << "]"; }
inline void append(std::ostringstream&) {}
template <typename T, typename... R> void append(std::ostringstream& o, const T& t, const R&... r) { put(o, t); append(o, r...); }
template <typename... A> std::string str(const A&... a) { std::ostringstream o; o.imbue(std::locale::classic()); append(o, a...); return o.str(); }

class Ctx {
public:
  bool thorough = false, logging = false;
  Shared* sh = nullptr;
  int nshards = 1, shard = 0;
  // exploration state
  std::vector<int> path, arity;
  size_t pos = 0;
  bool forced = false;                // replay: the path is complete
  uint64_t idx = 0, prod = 1;
  bool assigned = false;
  uint64_t steps = 0;
  std::unordered_set<uint64_t>* states = nullptr;
  std::string scratch;                // a directory of this shard

  bool pruned = false;                // inside an environment call nothing can be thrown: run on, recording nothing

  int choose(int n) {
    if (n < 1) internal("choose of nothing");
    if (pruned) return 0;
    int c;
    if (pos < path.size()) {
      c = path[pos];
      if (c >= n || (arity[pos] != 0 && arity[pos] != n)) internal("replay diverged");
      arity[pos] = n;
    } else {
      if (forced) internal("replay path too short");
      if (path.size() >= (size_t)MAXPATH) internal("path too long");
      c = 0; path.push_back(0); arity.push_back(n);
    }
    if (sh) { sh->path[pos] = c; sh->pathlen = (int)pos + 1; }
    pos++;
    if (!assigned && n > 1) {
      idx = idx * n + c; prod *= n;
      if (prod >= (uint64_t)nshards * 24) { assigned = true; if (!forced && !mine()) { if (!in_env) throw Prune(); pruned = true; } }
    }
    return c;
  }
  bool flip() { return choose(2) == 1; }
  template <typename T> const T& pick(const std::vector<T>& v) { return v[choose((int)v.size())]; }
  template <typename T> T pick(std::initializer_list<T> v) { return *(v.begin() + choose((int)v.size())); }
  bool mine() const { return nshards <= 1 || mix(idx + 0x9e37 * prod) % nshards == (uint64_t)shard; }
  static uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; return x ^ (x >> 33); }

  void step(uint64_t n = 1) { steps += n; }            // operations performed on the real implementation
  void state(const std::string& s) {                    // a state of the model that was compared with the implementation
    if (states && states->size() < 3000000) states->insert(std::hash<std::string>()(s)); }
  template <typename... A> void log(const A&... a) {
    if (!logging || !sh) return;
    std::string s = str(a...) + "\n";
    uint32_t n = sh->loglen;
    if (n + s.size() < sizeof(sh->log)) { memcpy(sh->log + n, s.data(), s.size()); sh->loglen = n + (uint32_t)s.size(); }
  }
  std::string dir();                  // a new empty directory of this execution, with a slash at the end
  [[noreturn]] void fail(const std::string& key, const std::string& msg) { throw Violation{key, msg}; }
  [[noreturn]] void internal(const char* what);
};

// The environment: the C random generator and the clock belong to the explorer.
extern std::function<int()> rand_hook;          // when set, answers rand()
extern std::function<void(unsigned)> srand_hook;
extern long clock_now;
extern uint64_t rand_calls, srand_calls, time_calls;
void env_reset();                                // deterministic generator, fixed clock
extern std::function<long(int, const void*, size_t)> write_hook;  // answers write/writev to files (fault injection)
extern std::function<long(int, void*, size_t)> read_hook;         // answers read from files (-2: really read, -1: fails)
struct NoFiles { NoFiles(int allow); ~NoFiles(); };                // while it lives no more than `allow` further files can be open
// one read (from number `at` on) goes wrong: 0 fails once, 1 fails from there on, 2 is short once, 3 is short from there on, 4 comes in small pieces
struct Reads { int n = 0, failed = 0; bool busy = false; };
void bad_reads(Reads& r, int at, int mode);

typedef void (*Body)(Ctx&);
struct Suite { const char* name; Body body; };
std::vector<Suite>& suites();
struct Registrar { Registrar(const char* n, Body b) { suites().push_back({n, b}); } };

int explore_main(int argc, char** argv, const char* backend);
void backend_init();
}

#define SUITE(name) static void name(mc::Ctx&); static mc::Registrar reg_##name(#name, name); static void name(mc::Ctx& k)
#define REQUIRE(key, cond, ...) do { if (!(cond)) k.fail(key, mc::str(__VA_ARGS__)); } while (0)
#endif
