// C24: the Synthesizer, over every outcome of its random draw.
#include "ref.hpp"
using namespace mc;

// the generator's answer that is outcome j of max, whether the draw takes the remainder or the proportion of it
static int outcome(int j, int max) { long long v = ((long long)j * 2147483648ll + max - 1) / max; v += ((j - v) % max + max) % max; long long top = ((long long)(j + 1) * 2147483648ll + max - 1) / max; if (v >= top) v = j; return (int)v; }
static int next_answer = 0;
static V draw(Ctx& k, api::Synth& s, int j, int max) { int a = outcome(j, max); rand_hook = [a] { return a; }; V v = s.make(); rand_hook = nullptr; k.step(); return v; }
static void form(Ctx& k, const V& m, const V& v, const char* when) { REQUIRE("length", v.size() == m.size(), when, ": ", v.size(), " values for ", m.size(), " positions"); for (size_t i = 0; i < v.size(); i++) REQUIRE("value", v[i] == 0 || v[i] == 1, when, ": value ", v[i], " at position ", i); }
// every outcome once: exactly intensity[i] of max turn position i on
static void counts(Ctx& k, api::Synth& s, const V& m, const char* when) {
  int max = 0; for (int x : m) max = std::max(max, x); if (max == 0) { V v = draw(k, s, 0, 1); form(k, m, v, when); for (size_t i = 0; i < v.size(); i++) REQUIRE("count", v[i] == 0, when, ": position ", i, " of a blank image is on"); return; }
  V n(m.size(), 0); for (int j = 0; j < max; j++) { V v = draw(k, s, j, max); form(k, m, v, when); for (size_t i = 0; i < v.size(); i++) n[i] += v[i]; k.state(str(m, j, v)); }
  for (size_t i = 0; i < m.size(); i++) REQUIRE("count", n[i] == m[i], when, ": position ", i, " with intensity ", m[i], " of ", max, " is on in ", n[i], " of ", max, " outcomes; image ", str(m));
}
static const V I = {0, 1, 2, 3, 5, 7};
// every image of up to 4 positions, every outcome
SUITE(images) { int n = k.choose(k.thorough ? 6 : 5); V m; for (int i = 0; i < n; i++) m.push_back(k.pick(I)); rand_hook = ref::stream(k.choose(4)); api::Synth s(m); k.step(); k.log("image ", str(m)); counts(k, s, m, "first"); counts(k, s, m, "again"); }
// every sequence of outcomes: the same outcome draws the same image, whatever was drawn before
SUITE(sequences) {
  static const VV M = {{1}, {0, 1}, {3, 1, 0, 2}, {2, 2}, {4, 0, 1}, {5, 4, 3, 2, 1, 0}}; const V& m = k.pick(M); int max = *std::max_element(m.begin(), m.end()); api::Synth s(m); std::map<int, V> seen; int depth = k.thorough ? 6 : 5; if (max > 4) depth--;
  for (int i = 0; i < depth; i++) { if (k.choose(6) == 5) clock_now += 1; int j = k.choose(max); V v = draw(k, s, j, max); form(k, m, v, "sequence"); k.log("outcome ", j, " gives ", str(v)); auto f = seen.insert(std::make_pair(j, v)).first; REQUIRE("history", f->second == v, "outcome ", j, " gave ", str(f->second), " before and ", str(v), " now"); k.state(str(m, i, j, v)); }
}
// larger intensities and images
SUITE(scale) {
  int max = k.pick({8, 9, 10, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 4095}), n = k.pick({1, 2, 10, 64, 101}); V m; for (int i = 0; i < n; i++) m.push_back((int)((long long)i * 7919 % (max + 1))); int where = k.choose(3); m[where == 0 ? 0 : where == 1 ? n - 1 : n / 2] = max; if (where && n > 1) m[0] = 0; api::Synth s(m); k.log("max ", max, " over ", n, " positions"); counts(k, s, m, "scale");
}
// intensities beyond 16 bits: every outcome
SUITE(large) {
  int max = k.pick({8191, 8192, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 100003, 131073, 300000, 1000003}), kind = k.choose(3); if (PY && max > 33000) return; V m = kind == 0 ? V{max, max - 1, max / 2, 1, 0} : kind == 1 ? V{0, max / 3, max} : V{max}; api::Synth s(m); V n(m.size(), 0); k.log("max ", max, " image ", str(m));
  for (int j = 0; j < max; j++) { V v = draw(k, s, j, max); form(k, m, v, "large"); for (size_t i = 0; i < v.size(); i++) n[i] += v[i]; } REQUIRE("count", n == m, "of all ", max, " outcomes the positions are on in ", str(n), " instead of ", str(m)); k.state(str(max, kind));
}
SUITE(wide) {
  int n = k.pick({255, 256, 257, 1000, 1001, 4096, 65537}), max = k.pick({1, 2, 5}), kind = k.choose(3); V m(n); for (int i = 0; i < n; i++) m[i] = kind == 0 ? i % (max + 1) : kind == 1 ? i + 1 == n ? max : 0 : max - (i % 2); m[n - 1] = max; api::Synth s(m); V c(n, 0); k.log(n, " positions, max ", max); for (int j = 0; j < max; j++) { V v = draw(k, s, j, max); form(k, m, v, "wide"); for (int i = 0; i < n; i++) c[i] += v[i]; } for (int i = 0; i < n; i++) REQUIRE("count", c[i] == m[i], "position ", i, " of ", n, " with intensity ", m[i], " of ", max, " is on in ", c[i], " outcomes"); k.state(str(n, max, kind));
}
SUITE(extremes) { int max = k.pick({65535, 65536, 1000000}); V m = {0, max, 1, max - 1}; api::Synth s(m); k.log("max ", max); for (int j : {0, 1, 2, max / 2, max - 2, max - 1}) { V v = draw(k, s, j, max); form(k, m, v, "extremes"); REQUIRE("extreme", v[0] == 0 && v[1] == 1, "intensity 0 gives ", v[0], " and the maximum ", v[1]); } }
// with the usual generator successive draws differ, within one second and from one to the next
SUITE(fresh) {
  static const VV M = {{1, 2}, {1, 3, 2}, {1, 5, 10}, {50, 100, 0}, {0, 1, 2, 3, 4, 5}, V(101, 3), V(257, 2), V(1025, 9), V(140, 24)}; int which = k.choose((int)M.size()); V m = M[which]; for (size_t i = 0; which > 4 && i < m.size(); i += 3) m[i] = (int)(i / 3) % (m[1] + 1); clock_now = k.pick({1700000000l, 0l, 1l, 1234567890l}); bool tick = k.flip(); int others = k.choose(3); api::Synth s(m); std::set<V> seen; V on(m.size(), 0); int max = *std::max_element(m.begin(), m.end());
  for (int i = 0; i < 400; i++) { if (tick) clock_now++; if (others == 1 && i == 100) api::Synth o(V{3, 1}); if (others == 2) { api::Disc d(2, 4, json()); d.getsizeof(); (void)d; if (i > 0) break; } V v = s.make(); k.step(); form(k, m, v, "fresh"); seen.insert(v); for (size_t q = 0; q < v.size(); q++) on[q] += v[q]; }
  if (others == 2) { for (int i = 0; i < 400; i++) { V v = s.make(); k.step(); seen.insert(v); for (size_t q = 0; q < v.size(); q++) on[q] += v[q]; } }
  std::set<int> levels; for (int x : m) if (x) levels.insert(x); REQUIRE("frozen", seen.size() > 1 && seen.size() >= levels.size() - (levels.size() > 2 ? 1 : 0), "400 draws from ", str(m), " gave only ", seen.size(), " different results"); for (size_t q = 0; q < m.size(); q++) { REQUIRE("never", m[q] || !on[q], "intensity 0 was on"); REQUIRE("always", m[q] < max || on[q] >= 400, "the maximum was on in ", on[q], " of 400 draws"); } k.state(str(m, on, clock_now, tick));
}
// images of trained models
SUITE(models) {
  int E = k.pick({4, 6}), n = k.pick({2, 3}), N = k.pick({1, 2, 5}), count = 0; api::Wis w(n, json()); V sum(E, 0); for (int i = 0; i < N; i++) { V x(E, 0); for (int j = 0; j < E; j++) x[j] = k.thorough || i < 2 ? (j < 4 ? k.choose(2) : (i + j) % 2) : (i * j) % 2; w.train(VV{x}, VS{"a"}); count++; } V m = w.getMentalImages()["a"]; k.step(N + 1); api::Synth s(m); k.log("image ", str(m)); counts(k, s, m, "model");
}
