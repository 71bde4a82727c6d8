// The reference models: boring, independent of the library's code.
#ifndef REF_HPP
#define REF_HPP
#include "api.hpp"
#include <cmath>
#include <fstream>
#include <set>
#include <iterator>

namespace ref {

// ---------------------------------------------------------------- text coding
inline std::string b64enc(const std::string& in) {
  static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string out; size_t i = 0;
  while (i < in.size()) {
    unsigned b[3] = {0, 0, 0}; int n = 0;
    for (; n < 3 && i < in.size(); n++) b[n] = (unsigned char)in[i++];
    unsigned v = b[0] << 16 | b[1] << 8 | b[2];
    out += A[v >> 18]; out += A[v >> 12 & 63]; out += n > 1 ? A[v >> 6 & 63] : '='; out += n > 2 ? A[v & 63] : '=';
  }
  return out;
}
inline bool b64dec(const std::string& in, std::string& out) {
  out.clear();
  if (in.size() % 4) return false;
  auto val = [](char c) -> int { if (c >= 'A' && c <= 'Z') return c - 'A'; if (c >= 'a' && c <= 'z') return c - 'a' + 26; if (c >= '0' && c <= '9') return c - '0' + 52; if (c == '+') return 62; if (c == '/') return 63; return -1; };
  for (size_t i = 0; i < in.size(); i += 4) {
    int n = 3; unsigned v = 0;
    for (int j = 0; j < 4; j++) {
      int x = val(in[i + j]);
      if (in[i + j] == '=' && i + 4 == in.size() && j >= 2) { n = std::min(n, j - 1); x = 0; }
      if (x < 0) return false;
      v = v << 6 | (unsigned)x;
    }
    char b[3] = {(char)(v >> 16), (char)(v >> 8), (char)v};
    out.append(b, n);
  }
  return true;
}
inline std::string pack_cells(const Cells& c) {   // one RAM: blocks of 8 byte address, 4 byte count
  std::string s;
  for (auto& e : c) { ull a = e.first; int v = e.second; s.append((char*)&a, 8); s.append((char*)&v, 4); }
  return b64enc(s);
}
inline bool unpack_cells(const std::string& t, Cells& c) {
  std::string s; c.clear();
  if (!b64dec(t, s) || s.size() % 12) return false;
  for (size_t i = 0; i < s.size(); i += 12) { ull a; int v; memcpy(&a, &s[i], 8); memcpy(&v, &s[i + 8], 4); c[a] = v; }
  return true;
}
inline std::vector<std::string> split(const std::string& s, char sep) {
  std::vector<std::string> out(1);
  for (char ch : s) { if (ch == sep) out.push_back(""); else out.back() += ch; }
  return out;
}
inline bool ends_with(const std::string& s, const std::string& e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; }
inline std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }

// The knowledge written in a saved document, in a canonical form: cells sorted, file contents read in.
inline std::string canon_disc(const json& d) {
  std::string data = d.count("data") && d.at("data").is_string() ? d.at("data").get<std::string>() : "";
  if (ends_with(data, ".wdpkg")) data = slurp(data);
  std::string o = "E" + (d.count("entrySize") ? d.at("entrySize").dump() : "?") + "n" + (d.count("count") ? d.at("count").dump() : "0") + "m" + d.at("mapping").dump() + "{";
  auto parts = split(data, '.');
  for (size_t i = 0; i < d.at("mapping").size(); i++) {
    Cells c; bool ok = i < parts.size() ? unpack_cells(parts[i], c) : true;
    o += ok ? "[" : "[BAD";
    for (auto& e : c) o += std::to_string(e.first) + ":" + std::to_string(e.second) + ",";
    o += "]";
  }
  return o + "}";
}
inline std::string canon(const std::string& text) {
  json j = json::parse(text); std::string o;
  for (auto it = j.begin(); it != j.end(); ++it) {
    const std::string& key = it.key();
    if (key == "classes" && !it.value().is_null()) { for (auto c = it.value().begin(); c != it.value().end(); ++c) o += "class " + c.key() + canon_disc(c.value()) + "\n"; }
    else if (key == "clusters") { for (auto c = it.value().begin(); c != it.value().end(); ++c) { o += "cluster " + c.key() + "(" + c.value().at("entrySize").dump(); if (!c.value().at("discriminators").is_null()) for (auto& d : c.value().at("discriminators")) o += canon_disc(d); o += ")\n"; } }
    else if (key == "unsupervisedCluster") { o += "unsupervised(" + it.value().at("entrySize").dump(); if (!it.value().at("discriminators").is_null()) for (auto& d : it.value().at("discriminators")) o += canon_disc(d); o += ")\n"; }
    else if (key == "data" || key == "count" || key == "entrySize") {}
    else if (key == "mapping" && it.value().is_array()) o += canon_disc(j) + "\n";
    else o += key + "=" + it.value().dump() + "\n";
  }
  return o;
}
inline VV mapping_of(const json& d) { return d.at("mapping").get<VV>(); }

// ---------------------------------------------------------------- models
struct Disc {
  int E, base; bool ignoreZero; VV mapping; int count = 0;
  std::vector<std::map<V, int>> rams;
  Disc() : E(0), base(2), ignoreZero(false) {}
  Disc(int e, const VV& m, int b = 2, bool z = false) : E(e), base(b), ignoreZero(z), mapping(m), rams(m.size()) {}
  V key(int r, const V& x) const { V a; for (int i : mapping[r]) a.push_back(x[i]); return a; }
  void train(const V& x) { count++; for (size_t r = 0; r < mapping.size(); r++) rams[r][key(r, x)]++; }
  void untrain(const V& x) { count--; for (size_t r = 0; r < mapping.size(); r++) { V a = key(r, x); if (--rams[r][a] == 0) rams[r].erase(a); } }
  V votes(const V& x) const {
    V o;
    for (size_t r = 0; r < mapping.size(); r++) {
      V a = key(r, x); bool zero = true; for (int v : a) zero = zero && v == 0;
      auto it = rams[r].find(a);
      o.push_back(ignoreZero && zero ? 0 : it == rams[r].end() ? 0 : it->second);
    }
    return o;
  }
  V mental() const {
    V o(E, 0);
    for (size_t r = 0; r < mapping.size(); r++) for (auto& c : rams[r]) for (size_t i = 0; i < mapping[r].size(); i++) if (c.first[i] > 0) o[mapping[r][i]] += c.second;
    return o;
  }
  std::string show() const {
    std::string o = std::to_string(count) + mc::str(mapping) + "{";
    for (auto& r : rams) { o += "["; for (auto& c : r) o += mc::str(c.first) + ":" + std::to_string(c.second) + ","; o += "]"; }
    return o + "}";
  }
};

typedef std::map<std::string, int> Scores;
inline int count_at(const V& votes, int b) { int n = 0; for (int v : votes) n += v >= b; return n; }
inline Scores bleach(const MapSV& votes, bool on, int confidence, int* threshold = nullptr) {
  std::set<int> seen; for (auto& e : votes) for (int v : e.second) seen.insert(v);
  for (int b = 1;;) {
    Scores s; V sorted;
    for (auto& e : votes) { s[e.first] = count_at(e.second, b); sorted.push_back(s[e.first]); }
    std::sort(sorted.rbegin(), sorted.rend());
    bool close = sorted.size() > 1 && sorted[0] - sorted[1] < confidence;
    if (threshold) *threshold = b;
    if (!on || !close || sorted[0] <= 1) return s;
    auto next = seen.lower_bound(b);      // nothing changes between two counts; above the highest all scores are 0
    if (next == std::prev(seen.end())) { for (auto& e : s) e.second = 0; if (threshold) *threshold = *next == 2147483647 ? *next : *next + 1; return s; }
    b = *next + 1;
  }
}
inline std::string winner(const Scores& s) {
  std::string w; int best = -1;
  for (auto& e : s) if (e.second >= best) { best = e.second; w = e.first; }
  return w;
}

struct Wis {
  int n = 2; bool bleaching = true, ignoreZero = false; int base = 2, confidence = 1;
  std::map<std::string, Disc> cls;
  MapSV votes(const V& x) const { MapSV o; for (auto& c : cls) o[c.first] = c.second.votes(x); return o; }
  Scores scores(const V& x) const { return bleach(votes(x), bleaching, confidence); }
  std::string classify(const V& x) const { return winner(scores(x)); }
  MapSV mental() const { MapSV o; for (auto& c : cls) o[c.first] = c.second.mental(); return o; }
  std::string show() const { std::string o; for (auto& c : cls) o += c.first + "=" + c.second.show() + ";"; return o; }
};

// the cells of a RAM, as the reference model knows them (addresses in the documented packing: position i times base^i)
inline Cells cells_of(const Disc& d, int r) {
  Cells c;
  for (auto& e : d.rams[r]) { ull a = 0, p = 1; for (int v : e.first) { a += v * p; p *= d.base; } c[a] += e.second; }
  return c;
}
inline std::string data_of(const Disc& d) { std::string o; for (size_t r = 0; r < d.rams.size(); r++) o += (r ? "." : "") + pack_cells(cells_of(d, r)); return o; }
// what canon() gives for a discriminator with this knowledge
inline std::string canon_ref(const Disc& d) {
  json m = d.mapping;
  std::string o = "E" + std::to_string(d.E) + "n" + std::to_string(d.count) + "m" + m.dump() + "{";
  for (size_t r = 0; r < d.rams.size(); r++) { o += "["; for (auto& e : cells_of(d, r)) o += std::to_string(e.first) + ":" + std::to_string(e.second) + ","; o += "]"; }
  return o + "}";
}

// all entries of E digits in base b, in counting order
inline VV all_entries(int E, int b) {
  VV out; V x(E, 0);
  for (;;) { out.push_back(x); int i = 0; while (i < E && ++x[i] == b) x[i++] = 0; if (i == E) return out; }
}
// the generator answers with this stream: constant 0, constant 1, all ones, counting, or a linear congruence with a seed
inline std::function<int()> stream(int kind) {
  unsigned long long x = (unsigned long long)kind * 7919 + 17; int n = 0;
  if (kind == 0) return [] { return 0; };
  if (kind == 1) return [] { return 2147483647; };
  if (kind == 2) return [n]() mutable { return n++; };
  if (kind == 3) return [n]() mutable { return 1000000007 - 3 * n++; };
  return [x]() mutable { x = x * 6364136223846793005ULL + 1442695040888963407ULL; return (int)((x >> 33) & 0x7fffffff); };
}
inline VSh shorts(const V& x) { return VSh(x.begin(), x.end()); }
}
#endif
