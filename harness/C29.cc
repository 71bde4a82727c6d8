// C29: nothing is left behind. The allocator, the file descriptors and the directory are compared before and after.
#include "memory.hpp"
#include "acts.hpp"
#include <dirent.h>
#include <iostream>
#include <unistd.h>
using namespace acts;

struct Mark { long blocks, bytes; int fds; };
static void settle() {
#ifdef MC_BACKEND_PY
  PyType_ClearCache(); PyGC_Collect();      // the interpreter keeps the names of methods it looked up; what only the collector frees is not lost
#endif
}
static Mark mark() { settle(); return Mark{memory::blocks, memory::bytes, memory::descriptors()}; }
static void empty(const std::string& dir) { DIR* d = opendir(dir.c_str()); if (!d) return; while (dirent* e = readdir(d)) if (e->d_name[0] != '.') unlink((dir + e->d_name).c_str()); closedir(d); }
// one life of an object: made, used, destroyed
static void life(int kind, int v, const V& script, const std::string& dir) { { Obj o; build(o, kind, v, dir); for (int a : script) { auto& act = all(kind)[a].f; refused([&] { act(o); }); } } empty(dir); env_reset(); }
static void same(Ctx& k, int kind, const V& script, const std::function<void()>& f) {
  const int WARM = PY ? 3 : 1; for (int i = 0; i < WARM; i++) f();
  Mark a = mark(); f(); Mark b = mark(); f(); Mark c = mark(); k.step(script.size() * (WARM + 2));
  REQUIRE("descriptors", c.fds == a.fds, NAME[kind], " ", str(script), ": ", c.fds - a.fds, " file descriptors are left open");
  if (PY && (c.bytes != b.bytes || c.blocks != b.blocks)) { for (int i = 0; i < 6; i++) f(); b = mark(); f(); c = mark(); }    // the interpreter's own caches settle first
  REQUIRE("memory", c.blocks == b.blocks && c.bytes == b.bytes, NAME[kind], " ", str(script), ": one more life of the object leaves ", c.blocks - b.blocks, " blocks (", c.bytes - b.bytes, " bytes) behind");
  if (!PY) REQUIRE("memory", b.blocks == a.blocks && b.bytes == a.bytes, NAME[kind], " ", str(script), ": the first life after a warming up leaves ", b.blocks - a.blocks, " blocks (", b.bytes - a.bytes, " bytes) behind");
}
static std::string names(int kind, const V& script) { std::string s; for (int a : script) s += std::string(s.empty() ? "" : ", ") + all(kind)[a].name; return s; }
// every life of bounded length of every kind of object in every configuration
SUITE(lives) {
  int kind = k.choose(KINDS), v = k.choose(variants(kind)), n = (int)all(kind).size(), depth = kind <= CLUS ? (PY ? 2 : k.thorough ? 4 : 3) : kind == SYNTH ? 5 : (k.thorough && !PY ? 4 : 3); V script; int len = k.choose(2) ? depth : k.choose(depth); for (int i = 0; i < len; i++) script.push_back(k.choose(n));
  std::string dir = k.dir(); k.log(NAME[kind], " configuration ", v, ": ", names(kind, script)); same(k, kind, script, [&] { life(kind, v, script, dir); }); k.state(str(kind, v, script));
}
// constructors that are refused
SUITE(refused_objects) {
  int w = k.choose(12); static const VS bad = {"", "{", "[]", "{}", "1", "\"x\"", "{\"entrySize\":3,\"mapping\":[[0,9]],\"base\":2,\"ignoreZero\":false,\"data\":\"\"}", "{\"addressSize\":2,\"classes\":{\"a\":{\"entrySize\":2,\"mapping\":[[0,1],[1,0]],\"data\":\"AQAAAAAAAAABAAAA.AAA\"}}}", "{\"addressSize\":2,\"minScore\":0.1,\"threshold\":1,\"discriminatorsLimit\":1,\"clusters\":{\"a\":{\"entrySize\":2,\"discriminators\":[{\"entrySize\":2,\"mapping\":[[0,1],[1,0]],\"data\":\"AQAAAAAAAAABAAAA.AAA\"}]}}}", "AAA", "nowhere.wdpkg", "nowhere.wpkds"};
  const std::string& t = bad[w]; k.log("text ", t); std::function<void()> f = [&] { refused([&] { api::Disc d(t); }); refused([&] { api::Wis d(t); }); refused([&] { api::Clus d(t); }); refused([&] { api::Bin d(t); }); refused([&] { api::Data d(t); }); refused([&] { api::RDH d(t); }); refused([&] { api::Disc d(2, 3, json{{"indexes", {0, 0, 0}}}); }); refused([&] { api::Wis d(2, json{{"base", 1}}); d.train(VV{V(3, 0)}, VS{"a"}); }); refused([&] { api::Clus d(2, 2.0f, 1, 1, json()); }); refused([&] { api::Kern d(2, -1, json()); }); env_reset(); };
  same(k, DISC, V(10), f); k.state(t);
}
// what an object holds does not grow by being asked
SUITE(steady) {
  int kind = k.choose(KINDS), v = k.choose(variants(kind)); V script; std::vector<int> queries, changes; for (size_t a = 0; a < all(kind).size(); a++) (all(kind)[a].query ? queries : changes).push_back((int)a); int len = k.choose(k.thorough ? 4 : 3); for (int i = 0; i < len && !changes.empty(); i++) script.push_back(k.pick(changes)); int q = k.pick(queries), q2 = k.thorough ? k.pick(queries) : q;
  std::string dir = k.dir(); k.log(NAME[kind], " configuration ", v, ": ", names(kind, script), "; asked ", all(kind)[q].name); Obj o; build(o, kind, v, dir); for (int a : script) { auto& act = all(kind)[a].f; refused([&] { act(o); }); }
  auto ask = [&] { refused([&] { all(kind)[q].f(o); }); if (q2 != q) refused([&] { all(kind)[q2].f(o); }); empty(dir); }; for (int i = 0; i < (PY ? 4 : 2); i++) ask();
  Mark a = mark(); for (int i = 0; i < 3; i++) ask(); Mark b = mark(); k.step(script.size() + 6); if (PY && b.blocks != a.blocks) { for (int i = 0; i < 6; i++) ask(); a = mark(); for (int i = 0; i < 3; i++) ask(); b = mark(); }
  REQUIRE("descriptors", a.fds == b.fds, NAME[kind], " after ", names(kind, script), ": ", all(kind)[q].name, " leaves ", b.fds - a.fds, " file descriptors open");
  REQUIRE("grows", a.blocks == b.blocks && a.bytes == b.bytes, NAME[kind], " after ", names(kind, script), ": asking ", all(kind)[q].name, " three times more keeps ", b.blocks - a.blocks, " more blocks (", b.bytes - a.bytes, " bytes)"); k.state(str(kind, v, script, q));
}
// every combination of the switches
template <typename M> static void use(M& m, int act, const VV& all, const VS& ys) { m.train(all, ys); if (act == 0) obs::full(m, all); if (act == 1) { obs::full(m, VV{all[0]}); obs::full(m, VV()); } if (act == 2) refused([&] { obs::full(m, VV{all[1], V(4, 2)}); }); if (act == 3) { m.getMentalImages(); m.json_(); m.jsonConfig(); } }
SUITE(switches) {
  int kind = k.choose(2), bits = k.choose(64), act = k.choose(5); static const char* const NAMES[] = {"verbose", "returnConfidence", "returnActivationDegree", "returnClassesDegrees", "searchBestConfidence", "ignoreZero"}; json o = json::object(); for (int i = 0; i < 6; i++) o[NAMES[i]] = (bits >> i & 1) == 1; k.log(kind ? "ClusWisard" : "Wisard", o.dump()); VV all = ref::all_entries(4, 2); VS ys; for (int i = 0; i < 16; i++) ys.push_back(i % 3 ? "a" : "b");
  std::function<void()> f = [&] { if (kind == 0) { api::Wis m(2, o); use(m, act, all, ys); if (act == 4) { api::Data d; d.add(ref::shorts(all[3])); d.add(ref::shorts(all[9])); m.classify(d); } } else { api::Clus m(2, 0.3f, 2, 3, o); use(m, act, all, ys); m.trainUnsupervised(all); if (act == 4) m.classifyUnsupervised(all); } env_reset(); };
  same(k, kind ? CLUS : WIS, V(4), f); k.state(str(kind, bits, act));
}
