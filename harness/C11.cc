// C11: BinInput is a faithful packed array of bits.
#include "ref.hpp"
using namespace mc;

static const std::vector<ull> BEYOND = {0, 1, 2, 7, 8, 9, 63, 64, 65, 1ull << 31, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 1, 1ull << 35, 1ull << 63, ~0ull - 8, ~0ull - 1};
// reads everything, also through a copy made from the text
static void same(Ctx& k, const api::Bin& b, const VSh& r, const char* when, bool text = true) {
  REQUIRE("size", b.size() == r.size(), when, ": size ", b.size(), " instead of ", r.size());
  for (size_t i = 0; i < r.size(); i++) { int g = b.get(i); REQUIRE("bit", g == r[i], when, ": bit ", i, " of ", r.size(), " reads ", g, " instead of ", r[i]); int h = b.at(i); REQUIRE("bit-index", h == r[i], when, ": [", i, "] of ", r.size(), " reads ", h); }
  k.step(2 * r.size() + 1);
  if (!text) return;
  std::string t = b.data(); api::Bin c(t); k.step(2); same(k, c, r, "from its text", false);
  std::string u = c.data(); REQUIRE("text", t == u, when, ": the text ", t, " becomes ", u);
  std::string raw; REQUIRE("base64", ref::b64dec(t, raw), when, ": data() is not Base64: ", t);
}
static void beyond(Ctx& k, api::Bin& b, const VSh& r, const char* when) {
  for (ull d : BEYOND) {
    ull i = r.size() + d; if (i < r.size()) continue;
    REQUIRE("get-beyond", refused([&] { b.get(i); }), when, ": reading bit ", i, " of ", r.size(), " is not refused");
    REQUIRE("at-beyond", refused([&] { b.at(i); }), when, ": reading [", i, "] of ", r.size(), " is not refused");
    REQUIRE("set-beyond", refused([&] { b.set(i, 1); }) && refused([&] { b.set(i, 0); }), when, ": writing bit ", i, " of ", r.size(), " is not refused"); k.step(4);
  }
  same(k, b, r, "after refused calls");
}
// every bit pattern
SUITE(patterns) {
  int max = k.thorough && !PY ? 16 : PY ? 10 : 13; int n = k.choose(max + 1); VSh r(n); int split = std::min(n, 6);
  for (int i = 0; i < split; i++) r[i] = k.choose(2);
  for (int m = 0; m < 1 << (n - split); m++) {
    for (int i = split; i < n; i++) r[i] = m >> (i - split) & 1;
    api::Bin b(r); same(k, b, r, "from a list"); k.state(str(VSh(r)));
    if (m < 2) beyond(k, b, r, "from a list");
    api::Bin s((ull)n); for (int i = n - 1; i >= 0; i--) s.set(i, r[i]);
    REQUIRE("equal", s.data() == b.data(), "set bit by bit the text is ", s.data(), " instead of ", b.data());
  }
  k.log(n, " bits");
}
// every sequence of sets
SUITE(sets) {
  int n = 1 + k.choose(PY ? 9 : 17); int depth = k.thorough ? 5 : 4; if (n > 8) depth = k.thorough ? 4 : 3; if (n > 8 && PY) depth = 2;
  int init = k.choose(3); VSh r(n, 0); if (init) for (int i = 0; i < n; i++) r[i] = init == 1 ? 1 : (i * 5 >> 1) & 1;
  api::Bin b = init == 0 ? api::Bin((ull)n) : api::Bin(r); if (init == 2) { std::string t = b.data(); b = api::Bin(t); }
  k.log(n, " bits, ", str(r)); same(k, b, r, "at first");
  for (int d = 0; d < depth; d++) { int i = k.choose(n), v = k.choose(2); b.set(i, v); r[i] = v; k.step(); k.log("set(", i, ",", v, ")"); }
  same(k, b, r, "after the sets"); k.state(str(r));
}
// every length, sparse and dense contents
SUITE(lengths) {
  static const std::vector<ull> longer = {1023, 1024, 1025, 8191, 8192, 8193, 65535, 65536, 65537, 262144, 1000001}; int c = k.choose(200 + (int)longer.size()); ull n = c < 200 ? c : longer[c - 200]; if (PY && n > 9000) return; int kind = k.choose(6);
  VSh r(n); for (ull i = 0; i < n; i++) r[i] = kind == 0 ? 0 : kind == 1 ? 1 : kind == 2 ? i + 1 == n : kind == 3 ? i == 0 : kind == 4 ? i % 2 : (i * i >> 3) & 1;
  api::Bin b(r); same(k, b, r, "from a list"); beyond(k, b, r, "from a list");
  api::Bin z(n); same(k, z, VSh(n, 0), "new"); beyond(k, z, VSh(n, 0), "new");
  if (n) { ull i = kind * n / 6; b.set(i, !r[i]); r[i] = !r[i]; same(k, b, r, "one bit set"); b.set(i, r[i]); same(k, b, r, "the same again"); z.set(n - 1 - i, 1); z.set(n - 1 - i, 0); z.set(i, 1); VSh q(n, 0); q[i] = 1; same(k, z, q, "one bit of a new one set"); }
  k.state(str(n, "/", kind)); k.log(n, " bits, content ", kind);
}
// values that are no bits
SUITE(other_values) {
  static const V values = {2, 3, -1, -2, 4, 127, 128, 255, 256, 257, -128, -256, 32767, -32768, 32768, 65536, 65537, 1 << 30, 2147483647, -2147483647 - 1};
  int n = 1 + k.choose(PY ? 10 : 26), i = k.choose(n), v = k.pick(values), init = k.choose(3); VSh r(n, 0); for (int j = 0; j < n; j++) r[j] = init == 0 ? 0 : init == 1 ? 1 : (j * 5 >> 1) & 1;
  k.log("bit ", i, " of ", str(r), " to ", v); api::Bin b(r);
  REQUIRE("set-value", refused([&] { b.set(i, v); }), "setting bit ", i, " of ", n, " to ", v, " is not refused"); same(k, b, r, "after a refused value"); b.set(i, !r[i]); r[i] = !r[i]; same(k, b, r, "set again"); k.step(2);
  if (v >= -32768 && v <= 32767) { VSh q = r; q[i] = (short)v; REQUIRE("list-value", refused([&] { api::Bin c(q); }), "a list with the value ", v, " at ", i, " of ", n, " is not refused"); k.step(); }
  k.state(str(n, i, v, init));
}
// arrays beyond 2^31, 2^32 and 2^34 bits: the ends and the bits around the powers of two
SUITE(huge) {
  static const std::vector<ull> sizes = {(1ull << 31) - 1, 1ull << 31, (1ull << 32) - 7, 1ull << 32, (1ull << 32) + 9, (1ull << 34) + 17}; int c = k.choose(PY ? 1 : (int)sizes.size()); ull n = PY ? sizes[4] : sizes[c]; k.log(n, " bits");
  api::Bin b(n); std::set<ull> at = {0, 1, 7, 8, n / 2, n - 9, n - 2, n - 1}; for (int p = 30; p < 35; p++) for (int d = -1; d < 2; d++) if ((1ull << p) + d < n) at.insert((1ull << p) + d); std::set<ull> on;
  auto all = [&](const char* when) { REQUIRE("huge-size", b.size() == n, when, ": size ", b.size(), " instead of ", n); for (ull i : at) { int g = b.get(i), h = b.at(i); REQUIRE("huge-bit", g == (int)on.count(i) && h == g, when, ": bit ", i, " of ", n, " reads ", g, " and ", h); } k.step(2 * at.size()); };
  all("new"); for (ull i : at) { b.set(i, 1); on.insert(i); if (on.size() % 4 == 1) all("while setting"); } for (ull i : {n - 1, 1ull << 30}) { b.set(i, 0); on.erase(i); } all("after the sets");
  for (ull i : {n, n + 1, n + 8, 2 * n, ~0ull}) REQUIRE("huge-beyond", refused([&] { b.get(i); }) && refused([&] { b.set(i, 1); }), "bit ", i, " of ", n, " is not refused"); all("after refused calls"); k.state(str(n));
}
