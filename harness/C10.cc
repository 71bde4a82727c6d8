// C10: Base64 is standard and lossless.
#include "ref.hpp"
using namespace mc;

static std::string hex(const std::string& s) { std::string o; char b[4]; for (size_t i = 0; i < s.size() && i < 40; i++) { snprintf(b, 4, "%02x", (unsigned char)s[i]); o += b; } return o + (s.size() > 40 ? "..." : ""); }
#ifdef MC_BACKEND_CPP
static void both(Ctx& k, const std::string& s) {
  std::string want = ref::b64enc(s), got = wp::Base64::encode(s);
  if (got != want) k.fail("encode", str("encode of ", s.size(), " bytes ", hex(s), " is ", got.substr(0, 80), " instead of ", want.substr(0, 80)));
  std::string back = wp::Base64::decode(want);
  if (back != s) k.fail("decode", str("decode of ", want.substr(0, 80), " is ", back.size(), " bytes ", hex(back), " instead of ", s.size(), " bytes ", hex(s)));
  k.step(2);
}
static void damaged(const std::string& t) { try { wp::Base64::decode(t); } catch (std::exception&) {} }
#else
// In Python the codec is seen through BinInput: one byte with the number of unused bits, then the bits.
static void both(Ctx& k, const std::string& in) {
  std::string s = in; if (s.empty()) s = std::string(1, 0); s[0] = (char)((unsigned char)s[0] % 8); if (s.size() == 1) s[0] = 0; if (s.size() > 1 && s[0]) s[s.size() - 1] = (char)((unsigned char)s[s.size() - 1] & ~((1 << s[0]) - 1));
  std::string want = ref::b64enc(s); api::Bin b(want); std::string got = b.data();
  if (got != want) k.fail("round", str("BinInput(", want.substr(0, 80), ").data() is ", got.substr(0, 80)));
  size_t n = (s.size() - 1) * 8 - s[0]; VSh bits; for (size_t i = 0; i < n; i++) bits.push_back((unsigned char)s[1 + i / 8] >> (7 - i % 8) & 1);
  if (b.size() != n) k.fail("size", str("BinInput(", want.substr(0, 80), ") has ", b.size(), " bits instead of ", n));
  if (n < 400) for (size_t i = 0; i < n; i++) if (b.get(i) != bits[i]) k.fail("decode", str("bit ", i, " of BinInput(", want.substr(0, 80), ") is ", b.get(i)));
  std::string enc = api::Bin(bits).data();
  if (enc != want) k.fail("encode", str("BinInput of ", hex(s), " is ", enc.substr(0, 80), " instead of ", want.substr(0, 80)));
  k.step(3);
}
static void damaged(const std::string& t) { try { api::Bin b(t); } catch (std::exception&) {} }
#endif

// every string of up to 3 bytes
SUITE(small) {
  int len = k.choose(4); std::string s(len, 0); if (len == 0) { both(k, s); return; }
  int step = PY && len == 3 ? (k.thorough ? 5 : 37) : PY && len == 2 ? 3 : 1;
  s[0] = (char)k.choose(256); if (PY && (unsigned char)s[0] > 7) return;
  if (len == 1) { both(k, s); k.state(s); return; }
  if (len == 2) { for (int b = 0; b < 256; b += step) { s[1] = (char)b; both(k, s); } k.state(s); return; }
  s[1] = (char)k.choose(256); for (int c = (s[0] + s[1]) & 1; c < 256; c += step) { s[2] = (char)c; both(k, s); }
  if (!PY) for (int c = 0; c < 256; c++) { s[2] = (char)c; both(k, s); }
  k.state(s);
}
// longer strings over the bytes where signs and boundaries lie
SUITE(blocks) {
  static const std::vector<unsigned char> by = {0x00, 0x01, 0x03, 0x0f, 0x3f, 0x40, 0x7f, 0x80, 0xf0, 0xfc, 0xff, '=', 0xfb};
  int len = 4 + k.choose(k.thorough && !PY ? 4 : 3); std::string s(len, 0); size_t m = len == 4 ? 13 : len == 5 ? 9 : len == 6 ? 7 : 5; if (PY) m = len == 4 ? 9 : 5;
  for (int i = 0; i < len - 2; i++) s[i] = (char)by[(k.choose((int)m) + 2 * i) % by.size()];
  for (auto a : by) for (auto b : by) { s[len - 2] = (char)a; s[len - 1] = (char)b; both(k, s); }
  k.state(s);
}
// every length up to 300 and some long ones, several contents
SUITE(lengths) {
  int len = k.choose(310); static const V longer = {1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 1000000}; if (len >= 300) len = longer[len - 300]; if (PY && len > 5000) return;
  int kind = k.choose(6); std::string s(len, 0);
  for (int i = 0; i < len; i++) s[i] = (char)(kind == 0 ? 0 : kind == 1 ? 255 : kind == 2 ? i : kind == 3 ? i * 131 + (i >> 8) : kind == 4 ? 0x80 | i : 'A' + i % 26);
  both(k, s); k.state(str(len, "/", kind)); k.log("length ", len, " content ", kind);
}
// coding one text never influences another, damaged ones included
SUITE(interleaved) {
  static const VS bad = {"", "=", "==", "====", "A", "AA", "AAA", "!!!!", "A===", "=AAA", "AA=A", "\xff\xff\xff\xff", "\x80\x81\x82\x83", "    ", "-_-_", "AAAAA", "QUJD=", "QUJD\n", ".#.#", std::string(4, '\0')};
  int n = k.thorough ? 3 : 2; for (int i = 0; i < n; i++) { const std::string& t = k.pick(bad); k.log("decode damaged '", t, "'"); damaged(t); k.step(); }
  for (int c = 0; c < 256; c++) { both(k, std::string(1, (char)c)); both(k, std::string("a") + (char)c + (char)(255 - c)); }
  std::string all; for (int i = 0; i < 768; i++) all += (char)(i * 7 + i / 256); both(k, all);
}
