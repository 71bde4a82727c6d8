// The growth rule of clusters, judged from the saved documents before and after one training.
#ifndef CLUS_HPP
#define CLUS_HPP
#include "confs.hpp"
using namespace mc;
namespace clus {
inline ref::Disc disc_of(const json& d, int base, bool z) {
  ref::Disc r(d.at("entrySize").get<int>(), d.at("mapping").get<VV>(), base, z); r.count = d.count("count") && !d.at("count").is_null() ? d.at("count").get<int>() : 0;
  auto parts = ref::split(d.at("data").get<std::string>(), '.');
  for (size_t i = 0; i < r.mapping.size(); i++) { Cells c; if (i < parts.size()) ref::unpack_cells(parts[i], c); for (auto& e : c) { ull a = e.first; V key; for (size_t j = 0; j < r.mapping[i].size(); j++) { key.push_back((int)(a % base)); a /= base; } r.rams[i][key] += e.second; } }
  return r;
}
typedef std::vector<ref::Disc> Ds;
struct State { std::map<std::string, Ds> cl; Ds un; };
inline State state(const std::string& doc, int base, bool z) {
  State s; json j = json::parse(doc);
  if (j.count("clusters") && !j["clusters"].is_null()) for (auto it = j["clusters"].begin(); it != j["clusters"].end(); ++it) { Ds& v = s.cl[it.key()]; for (auto& d : it.value()["discriminators"]) v.push_back(disc_of(d, base, z)); }
  if (j.count("unsupervisedCluster") && !j["unsupervisedCluster"].is_null()) for (auto& d : j["unsupervisedCluster"]["discriminators"]) s.un.push_back(disc_of(d, base, z));
  return s;
}
inline std::string show(const Ds& v) { std::string s; for (auto& d : v) s += d.show(); return s; }
inline std::string show(const State& s) { std::string o; for (auto& e : s.cl) o += e.first + "=" + show(e.second) + ";"; return o + "u=" + show(s.un); }
inline bool eq(const ref::Disc& a, const ref::Disc& b) { return a.E == b.E && a.count == b.count && a.mapping == b.mapping && a.rams == b.rams; }
inline bool eq(const Ds& a, const Ds& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!eq(a[i], b[i])) return false; return true; }
struct Rule { float min; int th, lim; int n, E; bool comp; };
// 1 accepts, 0 does not, 2 too close to call in floating point
inline int accepts(const V& votes, int count, const Rule& r, double& score) {
  int max = 0; long long sum = 0; for (int v : votes) { max = std::max(max, v); sum += v; }
  score = max == 0 ? 0 : (double)sum / ((double)max * votes.size());
  double limit = (double)r.min + (double)count / r.th; bool top = limit >= 1; if (top) limit = 1;
  bool near = std::fabs(score - limit) <= 1e-6 * std::max(score, limit), near1 = std::fabs((double)r.min + (double)count / r.th - 1) < 1e-6;
  if (!near) return score >= limit;
  if (top && !near1) return max > 0 && sum == (long long)max * (long long)votes.size();      // all RAMs agree: exactly 1
  auto dyadic = [](double x) { return std::floor(x * 4096) == x * 4096; };
  bool exact = dyadic(r.min) && (r.th & (r.th - 1)) == 0 && r.th <= 4096 && count < 4096 && max > 0 && dyadic(score);
  return exact ? score >= limit : (sum == (long long)max * (long long)votes.size() && max > 0 && limit <= 1) ? (near1 && !dyadic(r.min) ? 2 : 1) : 2;
}
// what one training of x did to a cluster
inline void grew(Ctx& k, const Ds& before, const Ds& after, const V& x, const Rule& r, const std::string& who) {
  std::string where = who + " learning " + str(x) + " (min " + str(r.min) + " threshold " + str(r.th) + " limit " + str(r.lim) + ") with " + show(before) + " became " + show(after);
  REQUIRE("limit", (int)after.size() <= std::max(r.lim, (int)before.size()), where, ": more discriminators than the limit");
  REQUIRE("vanished", after.size() >= before.size(), where, ": a discriminator vanished");
  std::vector<bool> learned; V acc; std::vector<double> score; double best = -1; bool any = false, maybe = false;
  for (size_t i = 0; i < before.size(); i++) {
    double s; acc.push_back(accepts(before[i].votes(x), before[i].count, r, s)); score.push_back(s); best = std::max(best, s); any = any || acc[i] == 1; maybe = maybe || acc[i] == 2;
    ref::Disc t = before[i]; t.train(x); bool l = eq(after[i], t); learned.push_back(l);
    REQUIRE("damaged", l || eq(after[i], before[i]), where, ": discriminator ", i, " neither learned the example nor stayed as it was");
  }
  int n = 0; for (bool l : learned) n += l; bool opened = after.size() > before.size();
  REQUIRE("opened", after.size() <= before.size() + 1, where, ": more than one new discriminator");
  REQUIRE("not-learned", n > 0 || opened, where, ": the example was not learned");
  for (size_t i = 0; i < before.size(); i++) if (acc[i] == 1) REQUIRE("accepting", learned[i], where, ": discriminator ", i, " accepts the example (score ", score[i], ") but did not learn it");
  bool taken = any; for (size_t i = 0; i < before.size(); i++) taken = taken || (learned[i] && acc[i] == 2);
  if (taken) {
    REQUIRE("opened", !opened, where, ": a new discriminator although one accepts the example");
    for (size_t i = 0; i < before.size(); i++) if (acc[i] == 0 && learned[i]) { REQUIRE("rejecting", !any && maybe && n == 1 && score[i] >= best - 1e-6, where, ": discriminator ", i, " learned the example with score ", score[i], " below its limit"); }
  } else if ((int)before.size() < r.lim) {
    REQUIRE("opened", opened && n == 0, where, ": no discriminator accepts the example, a new one is possible but ", opened ? "others learned it too" : "was not opened");
  } else {
    REQUIRE("best", n == 1 && !opened, where, ": ", n, " discriminators learned an example nobody accepts");
    for (size_t i = 0; i < before.size(); i++) if (learned[i]) REQUIRE("best", score[i] >= best - 1e-6, where, ": discriminator ", i, " with score ", score[i], " learned it, the best score is ", best);
  }
  if (opened) {
    const ref::Disc& d = after.back(); ref::Disc t(r.E, d.mapping, d.base, d.ignoreZero); t.train(x);
    size_t rams = r.E / r.n + (r.comp && r.E % r.n ? 1 : 0); REQUIRE("new-shape", d.mapping.size() == rams, where, ": the new discriminator has ", d.mapping.size(), " RAMs instead of ", rams);
    for (auto& m : d.mapping) { REQUIRE("new-shape", (int)m.size() == r.n, where, ": the new discriminator has a RAM of ", m.size(), " positions"); for (int p : m) REQUIRE("new-shape", p >= 0 && p < r.E, where, ": the new discriminator reads position ", p); }
    REQUIRE("new-content", eq(d, t), where, ": the new discriminator does not hold exactly the example");
  }
}
// only the clusters named may differ
inline void untouched(Ctx& k, const State& a, const State& b, const std::string& label, bool un, const char* what) {
  for (auto& e : a.cl) if (un || e.first != label) { auto f = b.cl.find(e.first); REQUIRE("other-label", f != b.cl.end() && eq(e.second, f->second), what, " changed label '", e.first, "': ", show(e.second), " became ", f == b.cl.end() ? "nothing" : show(f->second)); }
  for (auto& e : b.cl) if (un || e.first != label) REQUIRE("other-label", a.cl.count(e.first), what, " made the label '", e.first, "'");
  if (!un) REQUIRE("unsupervised", eq(a.un, b.un), what, " changed the unsupervised clusters: ", show(a.un), " became ", show(b.un));
}
inline Ds of(const State& s, const std::string& l) { auto f = s.cl.find(l); return f == s.cl.end() ? Ds() : f->second; }
// a saved discriminator with one-position RAMs: RAM r reads position first+r, value v there was seen table[v] times
inline json votes_disc(int E, int first, int R, const V& table, int count) {
  VV m; std::string data; Cells c; for (size_t v = 0; v < table.size(); v++) if (table[v]) c[v] = table[v];
  for (int r = 0; r < R; r++) { m.push_back(V{first + r}); data += (r ? "." : "") + ref::pack_cells(c); }
  return {{"entrySize", E}, {"mapping", m}, {"count", count}, {"data", data}};
}
}
#endif
