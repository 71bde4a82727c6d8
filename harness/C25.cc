// C25: KernelCanvas with kernels placed by the explorer; built with the address sanitizer.
#include "ref.hpp"
using namespace mc;

struct Canvas { int dim, n, bits; bool dir; VVD kernels; int klo, khi; };
static int A(const Canvas& c) { return c.dir ? c.dim + 2 * (c.dim - 1) : c.dim; }
static int width(const Canvas& c) { return c.dir ? 3 * A(c) : c.dim; }
static double place(int r) { return r / 2147483647.0 * 2.0 - 1.0; }
// the points as the kernels see them: every dimension centred and scaled by its spread through tanh (0 where nothing varies);
// with directions: each point with the unit vectors to its successor, together with its two predecessors
static VVD seen(const Canvas& c, const VVD& s) {
  int N = (int)s.size(); VD mean(c.dim, 0), dev(c.dim, 0); for (auto& p : s) for (int j = 0; j < c.dim; j++) mean[j] += p[j]; for (double& m : mean) m /= N; for (auto& p : s) for (int j = 0; j < c.dim; j++) dev[j] += (mean[j] - p[j]) * (mean[j] - p[j]); for (double& d : dev) d = std::sqrt(d / N);
  VVD f; for (auto& p : s) { VD q; for (int j = 0; j < c.dim; j++) q.push_back(dev[j] > 0 ? std::tanh((mean[j] - p[j]) / dev[j]) : 0); f.push_back(q); }
  if (!c.dir) return f;
  VVD g; for (int i = 0; i < N; i++) { VD q = f[i]; for (int j = 1; j < c.dim; j++) { double dx = 0, dy = 0; if (i + 1 < N) { dx = f[i + 1][j - 1] - f[i][j - 1]; dy = f[i + 1][j] - f[i][j]; double h = std::sqrt(dx * dx + dy * dy); dx = h > 0 ? dx / h : 0; dy = h > 0 ? dy / h : 0; } else if (i > 0) { dx = g[i - 1][c.dim + 2 * (j - 1)]; dy = g[i - 1][c.dim + 2 * (j - 1) + 1]; } q.push_back(dx); q.push_back(dy); } g.push_back(q); }
  VVD w; for (int i = 0; i < N; i++) { VD q; for (int b = 0; b < 3; b++) { const VD& x = g[std::max(0, i - b)]; q.insert(q.end(), x.begin(), x.end()); } w.push_back(q); } return w;
}
static const double NEAR = 1e-7;
// every bit is right: kernels that must be on are on, those that cannot be are off (ties leave both open)
static void form(Ctx& k, const Canvas& c, const VVD& s, const V& out, const std::string& when) {
  REQUIRE("length", (int)out.size() == c.n * c.bits, when, ": ", out.size(), " values instead of ", c.n * c.bits); int on = 0;
  for (int i = 0; i < c.n; i++) { for (int b = 0; b < c.bits; b++) { int v = out[i * c.bits + b]; REQUIRE("value", v == 0 || v == 1, when, ": value ", v); REQUIRE("kernel-bits", v == out[i * c.bits], when, ": the bits of kernel ", i, " differ: ", str(out)); } on += out[i * c.bits]; }
  int P = (int)s.size(); REQUIRE("how-many", on >= (P ? c.klo : 0) && on <= std::min((long long)c.n, (long long)c.khi * P), when, ": ", on, " kernels are on with ", P, " points and ", c.khi, " kernels each: ", str(out));
}
static void right(Ctx& k, const Canvas& c, const VVD& s, const V& out, const std::string& when) {
  form(k, c, s, out, when); std::vector<bool> must(c.n, false), may(c.n, false); int open = 0;
  for (auto& p : seen(c, s)) {
    VD d; for (auto& q : c.kernels) { double x = 0; for (size_t j = 0; j < q.size(); j++) x += (p[j] - q[j]) * (p[j] - q[j]); d.push_back(std::sqrt(x)); }
    for (int i = 0; i < c.n; i++) { int closer = 0, same = 0; for (int j = 0; j < c.n; j++) { if (d[j] < d[i] - NEAR) closer++; else if (d[j] <= d[i] + NEAR) same++; } if (closer + same <= c.klo) must[i] = true; if (closer < c.khi) may[i] = true; if (closer < c.klo && closer + same > c.klo) open++; }
  }
  for (int i = 0; i < c.n; i++) { bool o = out[i * c.bits]; REQUIRE("nearest", !must[i] || o, when, ": kernel ", i, " is among the nearest but off, kernels ", str(c.kernels), " points ", str(s), " output ", str(out)); REQUIRE("far", may[i] || !o, when, ": kernel ", i, " is on but not among the nearest of any point, kernels ", str(c.kernels), " points ", str(s), " output ", str(out)); }
}
static void activated(Canvas& c, float degree) { float x = degree * c.n; if ((double)x == (double)degree * c.n && std::floor((double)x * 2) == (double)x * 2) { c.klo = c.khi = (int)std::floor((double)x + 0.5); return; }   // exactly computed: halves round up
  c.klo = (int)std::floor(x + 0.5 - 1e-4); c.khi = (int)std::floor(x + 0.5 + 1e-4); c.klo = std::max(0, std::min(c.klo, c.n)); c.khi = std::min(c.khi, c.n); }
static json options(const Canvas& c, float degree) { return {{"bitsByKernel", c.bits}, {"activationDegree", degree}, {"useDirection", c.dir}}; }
// a canvas whose kernels are the answers of the generator in order
static api::Kern make(Canvas& c, float degree, const std::function<int()>& answer) {
  activated(c, degree); int w = width(c); c.kernels.assign(c.n, VD()); VD drawn; rand_hook = [&] { int r = answer(); drawn.push_back(place(r)); return r; }; srand_hook = [](unsigned) {}; api::Kern r(c.dim, c.n, options(c, degree)); env_reset();
  for (int i = 0; i < c.n; i++) for (int j = 0; j < w; j++) c.kernels[i].push_back((size_t)(i * w + j) < drawn.size() ? drawn[i * w + j] : 0);
  return r;
}
static VVD rows(const VD& flat, int dim) { VVD s; for (size_t i = 0; i + dim <= flat.size(); i += dim) s.push_back(VD(flat.begin() + i, flat.begin() + i + dim)); return s; }
static V call(Ctx& k, api::Kern& c, const VVD& s) { k.step(); return c.transform(s); }
static const V GRID = {0, 700000000, 1073741824, 2147483647};
// every placement of a few kernels on a grid, every short sequence over three values
SUITE(placements) {
  Canvas c; static const VV S = {{1, 2}, {1, 3}, {1, 4}, {2, 2}, {2, 3}, {3, 2}}; const V& s = S[k.choose(k.thorough ? 6 : 5)]; c.dim = s[0]; c.n = s[1]; c.bits = 1 + k.choose(2); c.dir = false; float degree = k.pick({0.34f, 0.5f, 1.0f}); int g = k.thorough ? 4 : c.dim * c.n > 4 ? 3 : 4;
  api::Kern t = make(c, degree, [&] { return GRID[k.choose(g)]; }); k.log("dimension ", c.dim, " kernels ", str(c.kernels)); static const VD val = {-1, 0, 2.5}; int most = c.dim == 1 ? 4 : c.dim == 2 ? 3 : 2;
  for (int len = 0; len <= most; len++) { int N = len * c.dim; if (N > (c.n > 3 && !k.thorough ? 3 : c.n * c.dim > 5 && !k.thorough ? 4 : 6)) break; for (auto& x : ref::all_entries(N, 3)) { VD flat; for (int v : x) flat.push_back(val[v]); VVD q = rows(flat, c.dim); V out = call(k, t, q); right(k, c, q, out, "placement"); k.state(str(out, x, c.kernels)); } }
}
// with directions: every short sequence, several placements
SUITE(directions) {
  Canvas c; c.dim = 1 + k.choose(k.thorough ? 4 : 3); c.n = k.pick({1, 2, 5, 17}); c.bits = 1; c.dir = true; float degree = k.pick({0.2f, 0.5f, 1.0f}); int kind = k.choose(k.thorough ? 12 : 6); auto g = ref::stream(kind); api::Kern t = make(c, degree, g); k.log("dimension ", c.dim, " kernels ", c.n, " stream ", kind);
  static const VD val = {-1, 0, 2.5}; int cells = k.thorough ? 8 : 6; for (int len = 0; len * c.dim <= cells; len++) for (auto& x : ref::all_entries(len * c.dim, 3)) { VD flat; for (int v : x) flat.push_back(val[v]); VVD q = rows(flat, c.dim); V out = call(k, t, q); right(k, c, q, out, "direction"); k.state(str(out, x, kind)); }
}
// more kernels, dimensions and points
SUITE(scale) {
  Canvas c; c.dim = k.pick({1, 2, 3, 5, 9}); c.n = k.pick({1, 3, 16, 17, 50, 200}); c.bits = k.pick({1, 3, 8}); c.dir = k.flip(); float degree = k.pick({0.0f, 0.01f, 0.07f, 0.3f, 0.999f, 1.0f}); int kind = 4 + k.choose(3); api::Kern t = make(c, degree, ref::stream(kind)); k.log("dimension ", c.dim, " kernels ", c.n, " bits ", c.bits, " directions ", c.dir, " degree ", degree);
  for (int len : {1, 2, 3, 7, 40}) { VVD s; for (int i = 0; i < len; i++) { VD p; for (int j = 0; j < c.dim; j++) p.push_back((double)(Ctx::mix((ull)i * 31 + j * 7 + kind) % 2001) / 100 - 10); s.push_back(p); } V out = call(k, t, s); right(k, c, s, out, "scale"); if (len > 2) for (auto& p : s) p[0] = 4; out = call(k, t, s); right(k, c, s, out, "constant dimension"); k.state(str(out, len)); }
}
// defaults
SUITE(defaults) { int n = k.pick({1, 2, 3, 7, 8, 20, 100, 512}), dim = 1 + k.choose(4); Canvas c; c.dim = dim; c.n = n; c.bits = 3; c.dir = false; activated(c, 0.07f); auto g = ref::stream(5 + k.choose(3)); VD drawn; rand_hook = [&] { int r = g(); drawn.push_back(place(r)); return r; }; api::Kern t(dim, n, k.flip() ? json() : json{{"useDirection", false}}); env_reset(); c.kernels = rows(drawn, dim); c.kernels.resize(n, VD(dim, 0)); for (int len : {0, 1, 2, 5}) { VVD s; for (int i = 0; i < len; i++) s.push_back(VD(dim, i * i * 0.5)); V o = call(k, t, s); right(k, c, s, o, "defaults"); k.state(str(o)); } }
// what one canvas gives depends on its kernels and the sequence alone
SUITE(repeatable) {
  Canvas c; c.dim = 2; c.n = 6; c.bits = 2; c.dir = k.flip(); api::Kern t = make(c, 0.34f, ref::stream(5)); static const std::vector<VVD> S = {{}, {{1, 2}}, {{1, 2}, {3, 1}}, {{0, 0}, {0, 0}}, {{1, 5}, {2, 5}, {-3, 5}, {4, 5}}, {{9, 1}, {8, 2}, {1, 1}}}; std::vector<V> first; for (auto& s : S) { api::Kern u = make(c, 0.34f, ref::stream(5)); first.push_back(call(k, u, s)); }
  int depth = k.thorough ? 5 : 4; for (int i = 0; i < depth; i++) { int w = k.choose((int)S.size() + 2); if (w == (int)S.size()) { clock_now += 100; rand_hook = ref::stream(6); api::Kern o(3, 4, json()); o.transform(VVD{{1, 2, 3}}); env_reset(); k.log("another canvas"); } else if (w > (int)S.size()) { bool r = refused([&] { t.transform(VVD{{1, 2}, {1, 2, 3}}); }); REQUIRE("dimension", r, "a point of another dimension is accepted"); k.log("refused sequence"); } else { V o = call(k, t, S[w]); k.log("sequence ", str(S[w]), " gives ", str(o)); REQUIRE("history", o == first[w], "sequence ", str(S[w]), " gives ", str(o), " after other calls instead of ", str(first[w])); k.state(str(o, i)); } }
}
SUITE(refusals) {
  Canvas c; c.dim = 1 + k.choose(4); c.n = k.pick({1, 20}); c.bits = 1; c.dir = k.flip(); api::Kern t = make(c, 0.5f, ref::stream(4)); int len = 1 + k.choose(4), at = k.choose(len), size = k.choose(7); if (size == c.dim) return; VVD s; for (int i = 0; i < len; i++) s.push_back(VD(i == at ? size : c.dim, i * 1.5)); k.log("dimension ", c.dim, " with a point of ", size, " at ", at, " of ", len); bool r = refused([&] { t.transform(s); }); k.step(); REQUIRE("dimension", r, "a point of ", size, " dimensions is accepted by a canvas of ", c.dim); s[at].assign(c.dim, at * 1.5); V o = call(k, t, s); right(k, c, s, o, "after a refusal"); k.state(str(o));
}
SUITE(parameters) {
  static const std::vector<float> D = {-1e30f, -1.0f, -0.0001f, 0.0f, 0.5f, 1.0f, 1.0001f, 2.0f, 1e30f, NAN, INFINITY, -INFINITY}; static const V N = {-2147483647 - 1, -1, 0, 1, 2, 17}; int dim = k.pick(N), n = k.pick(N), bits = k.pick(N); int d = k.choose((int)D.size()); bool dir = k.flip(); bool ok = dim >= 1 && n >= 1 && bits >= 1 && D[d] >= 0 && D[d] <= 1; k.log("dimension ", dim, " kernels ", n, " bits ", bits, " degree ", D[d], " directions ", dir);
  bool r = refused([&] { api::Kern t(dim, n, json{{"bitsByKernel", bits}, {"activationDegree", D[d]}, {"useDirection", dir}}); V o = t.transform(VVD{VD(dim, 0.5), VD(dim, 1.5)}); REQUIRE("length", (int)o.size() == n * bits, o.size(), " values"); }); k.step(2);
  REQUIRE("parameters", r == !ok, "dimension ", dim, " kernels ", n, " bits ", bits, " degree ", D[d], " is ", r ? "refused" : "accepted"); k.state(str(dim, n, bits, d, dir));
}
// extreme and undefined coordinates: the output keeps its form and memory is safe
SUITE(extremes) {
  static const VD X = {0, 1, -1e-300, 1e-320, 1e150, -1e308, 1.7976931348623157e308, INFINITY, -INFINITY, NAN}; Canvas c; c.dim = 1 + k.choose(3); c.n = k.pick({2, 17, 40}); c.bits = 2; c.dir = k.flip(); api::Kern t = make(c, 0.3f, ref::stream(4)); int len = 1 + k.choose(3); VVD s; double a = k.pick(X), b = k.pick(X), e = k.pick(X); for (int i = 0; i < len; i++) { VD p; for (int j = 0; j < c.dim; j++) p.push_back((i + j) % 3 == 0 ? a : (i + j) % 3 == 1 ? b : e); s.push_back(p); } k.log("sequence ", str(s)); V o = call(k, t, s), o2 = call(k, t, s); form(k, c, s, o, "extremes"); REQUIRE("history", o == o2, "the same sequence gives two results"); k.state(str(o));
}
// degrees whose product with the number of kernels is a whole number or exactly halfway, every number of kernels
SUITE(halves) {
  Canvas c; c.dim = 1 + k.choose(2); c.n = 1 + k.choose(k.thorough ? 64 : 24); c.bits = 1; c.dir = k.flip(); float degree = k.choose(65) / 64.0f; int kind = 4 + k.choose(2); api::Kern t = make(c, degree, ref::stream(kind)); k.log("kernels ", c.n, " degree ", degree, " activates ", c.klo, "..", c.khi);
  for (int len : {0, 1, 2, 4}) { VVD s; for (int i = 0; i < len; i++) s.push_back(VD(c.dim, i * i - 1.5)); V o = call(k, t, s); right(k, c, s, o, "halves"); k.state(str(o, len)); }
}
// very many kernels, points or dimensions, one at a time
SUITE(large) {
  struct L { int dim, n, len; bool dir; float degree; }; static const std::vector<L> ls = {{1, 255, 3, false, 0.3f}, {1, 257, 3, true, 0.3f}, {1, 1025, 2, false, 0.5f}, {1, 2049, 2, false, 0.25f}, {2, 1025, 1, true, 0.999f}, {1, 1500, 1, false, 1.0f}, {2, 3, 255, false, 0.34f}, {2, 3, 257, true, 0.34f}, {1, 3, 999, false, 0.34f}, {2, 4, 1001, false, 0.25f}, {1, 2, 1025, true, 0.5f}, {1, 4, 5000, false, 0.25f}, {1, 3, 70000, false, 0.34f}, {15, 5, 4, false, 0.2f}, {16, 5, 4, false, 0.2f}, {17, 5, 4, false, 0.2f}, {17, 5, 4, true, 0.2f}, {33, 5, 4, false, 0.4f}, {65, 4, 4, true, 0.25f}, {129, 4, 3, false, 0.25f}, {257, 4, 3, false, 0.25f}, {300, 3, 3, true, 0.34f}, {1025, 3, 3, false, 0.34f}};
  const L& l = ls[k.choose((int)ls.size())]; int kind = 4 + k.choose(3), shape = k.choose(3); if (PY && l.len > 2000) return; Canvas c; c.dim = l.dim; c.n = l.n; c.bits = 1 + kind % 2; c.dir = l.dir; auto g = ref::stream(kind); int cnt = 0, w = width(c); api::Kern t = make(c, l.degree, [&] { int i = cnt++; int r = g(); return shape == 2 && i % w + 1 < w && w > 3 ? 1073741824 : r; }); k.log("dimension ", c.dim, " kernels ", c.n, " points ", l.len, " directions ", c.dir);
  // in shape 1 one late point stands apart; in shape 2 only the last coordinate varies
  VVD s; for (int i = 0; i < l.len; i++) { VD p; for (int j = 0; j < c.dim; j++) { double v = (double)(Ctx::mix((ull)i * 31 + j * 7 + kind) % 2001) / 100 - 10; if (shape == 1) v = i + 1 == l.len ? (kind == 4 ? 50 : -50) : v / 100; if (shape == 2 && j + 1 < c.dim) v = 3; p.push_back(v); } s.push_back(p); } V out = call(k, t, s);
  if (l.len * (long)c.n * c.n > 30000000) form(k, c, s, out, "large"); else right(k, c, s, out, "large"); k.state(str(out, kind, shape, l.len));
}
