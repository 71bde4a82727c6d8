// C30: running out of memory. Every allocation of every operation is made to fail, alone and with all that follow.
#include "memory.hpp"
#include "acts.hpp"
#include <cstring>
#include <dirent.h>
#include <unistd.h>
using namespace acts;

static void constant() { rand_hook = [] { return 0; }; }
static void empty(const std::string& dir) { DIR* d = opendir(dir.c_str()); if (!d) return; while (dirent* e = readdir(d)) if (e->d_name[0] != '.') unlink((dir + e->d_name).c_str()); closedir(d); }
static std::string look(Obj& o) {
  constant(); VV a = o.d || o.w || o.c ? ref::all_entries(o.E, o.base) : VV();
  if (o.d) return obs::of(*o.d, a, o.base == 2); if (o.w) return obs::of(*o.w, a, o.base == 2); if (o.c) return obs::of(*o.c, a); if (o.b) return o.b->data() + str(o.b->size());
  if (o.s) { std::string s = str(o.s->size()); for (ull i = 0; i < o.s->size(); i++) { std::string l = "-"; refused([&] { l = o.s->getLabel(i); }); s += " " + l + "=" + o.s->get((int)i).data(); } api::Data more(*o.s); more.add(VSh{1}); refused([&] { s += " one more: " + more.getLabel(o.s->size()); }); return s; }
  if (o.h) { std::string s; for (int r = 0; r < 4; r++) { for (auto& e : o.h->get(r)) s += str(r, ":", e.first, "=", e.second, " "); } return s; }   // an empty RAM more is no content
  if (o.k) return str(o.k->transform(VVD{{1, 2}, {3, 0}, {-1, 8}})); return str(o.y->make());
}
static std::string see(Obj& o) { std::string s; if (!refused([&] { s = look(o); })) return s; return ref::canon(o.d ? o.d->json_() : o.w ? o.w->json_() : o.c->json_()); }   // trained with entries of another size
// operations whose first examples may already be learned when memory runs out: the same with fewer examples
struct Part { const char* name; std::function<void(Obj&, int)> f; };
static const std::map<std::string, Part>& parts(int kind) {
  static std::map<std::string, Part> t[KINDS]; static bool made;
  if (!made) {
    made = true;
    t[DISC]["train list"] = {"", [](Obj& o, int n) { VV p = pool(o); o.d->train(VV(p.begin(), p.begin() + n)); }};
    auto wis = [](Obj& o, int n, VV x, VS y) { x.resize(n); y.resize(n); o.w->train(x, y); };
    t[WIS]["train list"] = {"", [wis](Obj& o, int n) { wis(o, n, pool(o), VS{"a", LONG, "c"}); }}; t[WIS]["train DataSet"] = {"", [](Obj& o, int n) { api::Data d; if (n > 0) d.add(bits(pool(o)[1]), "a"); if (n > 1) d.add(bits(pool(o)[2]), "b"); o.w->train(d); }};
    t[WIS]["train wrong value"] = {"", [wis](Obj& o, int n) { wis(o, std::min(n, 1), pool(o), VS{"a", "", ""}); }}; t[WIS]["leaveMoreOut"] = {"", [](Obj& o, int n) { VV x = {pool(o)[0], pool(o)[1]}; VS y = {"a", "unknown"}; x.resize(std::min(n, 2)); y.resize(x.size()); o.w->leaveMoreOut(x, y); }};
    auto clus = [](Obj& o, int n, VV x, VS y) { x.resize(n); y.resize(n); o.c->train(x, y); };
    t[CLUS]["train list"] = {"", [clus](Obj& o, int n) { clus(o, n, pool(o), VS{"a", LONG, "a"}); }}; t[CLUS]["train wrong value"] = {"", [clus](Obj& o, int n) { clus(o, std::min(n, 1), pool(o), VS{"a", "", ""}); }};
    t[CLUS]["train semi"] = {"", [](Obj& o, int n) { VV p = pool(o); if (n == 1) o.c->train(VV{p[1]}, VS{"b"}); if (n == 2) o.c->train(VV{p[0], p[1]}, std::map<int, std::string>{{1, "b"}}); if (n == 3) o.c->train(p, std::map<int, std::string>{{1, "b"}}); }};
    t[CLUS]["trainUnsupervised"] = {"", [](Obj& o, int n) { VV p = pool(o); o.c->trainUnsupervised(VV(p.begin(), p.begin() + n)); }};
  }
  return t[kind];
}
static void prepare(Obj& o, int kind, int v, const V& script, const std::string& dir) { constant(); build(o, kind, v, dir); for (int a : script) { constant(); auto& f = all(kind)[a].f; refused([&] { f(o); }); } empty(dir); constant(); }
enum Outcome { DONE, THREW, OTHER };
// runs the act with the n-th request (and `more` following ones) failing
static Outcome attempt(Obj& o, const Act& a, long n, long more, long* requests = nullptr) {
  constant(); memory::requests = 0; memory::fail_at = n; memory::fail_for = more; Outcome r = DONE; memory::count = true;
  try { a.f(o); } catch (std::exception&) { r = THREW; } catch (...) { r = OTHER; }
  memory::count = false; memory::fail_at = -1; if (requests) *requests = memory::requests; constant(); return r;
}
static std::string names(int kind, const V& script) { std::string s; for (int a : script) s += std::string(s.empty() ? "" : ", ") + all(kind)[a].name; return s; }
SUITE(operations) {
  int kind = k.choose(KINDS), v = k.choose(variants(kind)), n = (int)all(kind).size(), a = k.choose(n); const Act& act = all(kind)[a]; V script, changes; for (int i = 0; i < n; i++) if (!all(kind)[i].query) changes.push_back(i);
  if (kind <= CLUS ? strstr(act.name, "json") || strstr(act.name, "restore") : kind == KERN && strstr(act.name, "canvas")) return;   // nlohmann::json itself asserts or loses a block then
  int len = k.choose(k.thorough ? 3 : 2); for (int i = 0; i < len && !changes.empty(); i++) script.push_back(k.pick(changes)); long more = k.choose(2) ? 1L << 40 : 1; std::string dir = k.dir();
  std::string before, after; std::vector<std::string> allowed; long N = 0; bool fine;
  { Obj o; prepare(o, kind, v, script, dir); before = see(o); fine = attempt(o, act, -1, 0, &N) == DONE; after = see(o); empty(dir); }
  { Obj o; prepare(o, kind, v, script, dir); attempt(o, act, -1, 0, &N); after = see(o); empty(dir); }     // requests once everything is warm
  allowed.push_back(before); auto p = parts(kind).find(act.name); if (p != parts(kind).end()) for (int i = 1; i <= 3; i++) { Obj o; prepare(o, kind, v, script, dir); constant(); refused([&] { p->second.f(o, i); }); allowed.push_back(see(o)); }
  k.log(NAME[kind], " configuration ", v, " after ", names(kind, script), ": ", act.name, ", ", N, " requests of memory, ", more > 1 ? "all from one on fail" : "one fails");
  for (long i = 0; i < N; i++) {
    std::string what = str(NAME[kind], " configuration ", v, " after ", names(kind, script), ": ", act.name, " without memory from request ", i, more > 1 ? " on" : " only");
    long blocks = memory::blocks; int fds = memory::descriptors(); bool failed = false;
    { Obj o; prepare(o, kind, v, script, dir); Outcome r = attempt(o, act, i, more); empty(dir); k.step(2); failed = r != DONE;
      REQUIRE("exception", r != OTHER, what, " raises something that is no std::exception");
      std::string now; if (refused([&] { now = see(o); })) k.fail("unusable", what + ": the object can not be used any more");
      if (r == DONE) REQUIRE("wrong", now == after && (fine || act.query), what, " succeeds, but not with the usual result: ", obs::diff(now, after));
      else { REQUIRE("partial", std::count(allowed.begin(), allowed.end(), now) > 0, what, " fails and leaves a part: ", obs::diff(now, before)); }
      if (r != DONE && p == parts(kind).end()) { Outcome again = attempt(o, act, -1, 0); REQUIRE("again", (again == DONE) == fine && see(o) == after, what, ": trying again later differs: ", obs::diff(see(o), after)); empty(dir); }
      long b = memory::blocks; k.state(now); blocks += memory::blocks - b; }
    (void)failed;
    REQUIRE("descriptors", memory::descriptors() == fds, what, " leaves a file descriptor open");
    if (i > 0) REQUIRE("leak", memory::blocks == blocks, what, " leaves ", memory::blocks - blocks, " blocks behind");
  }
}
// one example for many places at once: the RAMs of a discriminator, the discriminators of a cluster that all take it. Each gets new cells, so memory can run out at any of them.
SUITE(many_places) {
  int m = 2 + k.choose(k.thorough ? 6 : 4), kind = k.choose(3); long more = k.choose(2) ? 1L << 40 : 1;
  enum { NOT_AT_ALL = -2, WITH_MEMORY = -1 };
  auto play = [&](long n, Outcome& r, long& N) {
    constant(); Obj o; json opt = {{"base", m}}; if (kind == 0) o.d.reset(new api::Disc(2, 2 * m, opt)); else o.c.reset(new api::Clus(2, 0.0f, 1000, m, opt));
    auto learn = [&](const V& x) { if (kind == 0) o.d->train(x); else if (kind == 2) o.c->trainUnsupervised(VV{x}); else o.c->train(VV{x}, VS{"a"}); };
    auto text = [&] { return kind == 0 ? o.d->json_() : o.c->json_(); };
    learn(V(2 * m, 0)); json j = json::parse(text()); VV map = (kind == 0 ? j : kind == 2 ? j["unsupervisedCluster"]["discriminators"][0] : j["clusters"]["a"]["discriminators"][0])["mapping"];
    for (int i = 1; i < m; i++) { constant(); learn(V(2 * m, i)); }          // nothing in common in any RAM: one discriminator each
    V x(2 * m); for (int i = 0; i < m; i++) { for (int p : map[i]) x[p] = i; if (kind == 0) x[map[i][0]] = (i + 1) % m; }     // RAM i reads what discriminator i knows there
    Act a{"", false, [&](Obj&) { learn(x); }}; if (n != NOT_AT_ALL) r = attempt(o, a, n, more, &N);
    return ref::canon(text());
  };
  std::string what = str(kind == 0 ? "a discriminator of " : kind == 2 ? "unlabelled clusters, " : "a class of ", m, kind == 0 ? " RAMs" : " discriminators", ": a new example for all of them");
  Outcome r = DONE; long N = 0, M = 0; std::string before = play(NOT_AT_ALL, r, N), after = play(WITH_MEMORY, r, N); REQUIRE("refused", r == DONE && before != after, what, " is not learned"); play(WITH_MEMORY, r, N);
  k.log(what, ", ", N, " requests of memory, ", more > 1 ? "all from one on fail" : "one fails");
  for (long i = 0; i < N; i++) {
    std::string now = play(i, r, M), w = str(what, " without memory from request ", i, more > 1 ? " on" : " only"); k.step(2); k.state(now);
    REQUIRE("exception", r != OTHER, w, " raises something that is no std::exception");
    REQUIRE("partial", now == (r == DONE ? after : before), w, r == DONE ? " succeeds, but not with the usual result: " : " fails and leaves a part: ", obs::diff(now, r == DONE ? after : before));
  }
}
