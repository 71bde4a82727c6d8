// C31: the saved form is fixed. An independent writer's documents are restored; an independent reader reads what is saved.
#include "clus.hpp"
using clus::Ds;

// ---------------------------------------------------------------- the independent writer
static std::string quoted(const std::string& s, bool ascii) {     // JSON text of a string, non-ASCII characters as they are or escaped
  return ascii ? json(s).dump(-1, ' ', true) : json(s).dump();
}
static std::string text(const json& j, int style) {               // 0 compact, 1 indented, 2 keys in reverse order, 3 escaped and spaced
  if (style == 1) return j.dump(3);
  if (style == 0) return j.dump();
  if (j.is_object()) { VS parts; for (auto it = j.begin(); it != j.end(); ++it) parts.push_back(quoted(it.key(), style == 3) + (style == 3 ? " :\n" : ":") + text(it.value(), style)); if (style == 2) std::reverse(parts.begin(), parts.end()); std::string o = "{"; for (size_t i = 0; i < parts.size(); i++) o += (i ? "," : "") + parts[i]; return o + "}"; }
  if (j.is_array()) { std::string o = "["; for (size_t i = 0; i < j.size(); i++) o += (i ? (style == 3 ? " , " : ",") : "") + text(j[i], style); return o + "]"; }
  if (j.is_string()) return quoted(j.get<std::string>(), style == 3);
  return j.dump();
}
static std::string cells(const Cells& c, int order) {             // cells in any order, which must not matter
  std::vector<std::pair<ull, int>> v(c.begin(), c.end()); if (order == 1) std::reverse(v.begin(), v.end()); if (order == 2) for (size_t i = 0; i + 1 < v.size(); i += 2) std::swap(v[i], v[i + 1]);
  std::string s; for (auto& e : v) { for (int i = 0; i < 8; i++) s += (char)(e.first >> 8 * i); for (int i = 0; i < 4; i++) s += (char)((unsigned)e.second >> 8 * i); } return ref::b64enc(s);
}
static std::string data(const ref::Disc& d, int order) { std::string o; for (size_t r = 0; r < d.rams.size(); r++) o += (r ? "." : "") + cells(ref::cells_of(d, (int)r), order); return o; }
enum Shape { PLAIN, NO_COUNT, NO_VERSION, OTHER_VERSION, MORE, REVERSED, SWAPPED, INDENTED, BACKWARDS, ESCAPED, FILES, NO_DATA, SHAPES };
static const char* const SHAPE[] = {"plain", "without counts", "without version", "another version", "with other fields", "cells backwards", "cells swapped", "indented", "fields backwards", "escaped", "in files", "without data"};
static int order(int s) { return s == REVERSED ? 1 : s == SWAPPED ? 2 : 0; }
static int style(int s) { return s == INDENTED ? 1 : s == BACKWARDS ? 2 : s == ESCAPED ? 3 : 0; }
static json disc(const ref::Disc& d, int s, const std::string& file) {
  json j = {{"entrySize", d.E}, {"mapping", d.mapping}}; if (s != NO_COUNT) j["count"] = d.count;
  std::string t = data(d, order(s)); if (s == FILES) { std::ofstream(file + ".wdpkg", std::ios::binary) << t; t = file + ".wdpkg"; }
  if (s == NO_DATA && d.count == 0) j["data"] = nullptr; else j["data"] = t; if (s == MORE) { j["comment"] = "x"; j["rams"] = json::array(); }
  return j;
}
static void top(json& j, int s) { if (s == OTHER_VERSION) j["version"] = "0.9"; else if (s != NO_VERSION) j["version"] = "1.6.3"; if (s == MORE) j["note"] = {1, 2}; }
static ref::Disc counted(ref::Disc d, int s) { if (s == NO_COUNT) d.count = 0; return d; }

// ---------------------------------------------------------------- the independent reader
static void field(Ctx& k, const json& j, const char* name, bool (json::*is)() const, const std::string& in) { REQUIRE("field", j.count(name) && (j.at(name).*is)(), in, " has no proper field '", name, "': ", j.dump().substr(0, 300)); }
static void read(Ctx& k, const json& j, const ref::Disc& want, const std::string& in, bool file = false) {
  field(k, j, "entrySize", &json::is_number_integer, in); field(k, j, "count", &json::is_number_integer, in); field(k, j, "mapping", &json::is_array, in); field(k, j, "data", &json::is_string, in);
  REQUIRE("entry-size", j["entrySize"] == want.E, in, ": entry size ", j["entrySize"].dump()); REQUIRE("count", j["count"] == want.count, in, ": count ", j["count"].dump(), " instead of ", want.count); REQUIRE("mapping", j["mapping"] == json(want.mapping), in, ": mapping ", j["mapping"].dump());
  std::string t = j["data"]; if (file) { REQUIRE("file-name", ref::ends_with(t, ".wdpkg"), in, ": the file of RAM data is called ", t); t = ref::slurp(t); } else REQUIRE("inline", !ref::ends_with(t, ".wdpkg"), in, ": data in a file");
  if (want.rams.empty()) { REQUIRE("data", t.empty(), in, ": data ", t); return; }
  auto parts = ref::split(t, '.'); REQUIRE("rams", parts.size() == want.rams.size(), in, ": ", parts.size(), " RAMs in ", t);
  for (size_t r = 0; r < parts.size(); r++) { std::string b; REQUIRE("base64", ref::b64dec(parts[r], b) && b.size() % 12 == 0, in, ": RAM ", r, " is ", parts[r]); Cells c; for (size_t i = 0; i < b.size(); i += 12) { ull a = 0; unsigned v = 0; for (int q = 7; q >= 0; q--) a = a << 8 | (unsigned char)b[i + q]; for (int q = 11; q >= 8; q--) v = v << 8 | (unsigned char)b[i + q]; REQUIRE("twice", !c.count(a), in, ": cell ", a, " twice"); c[a] = (int)v; }
    Cells w = ref::cells_of(want, (int)r); REQUIRE("cells", c == w, in, ": RAM ", r, " of ", want.show(), " is written as ", parts[r]); }
}
static void options(Ctx& k, const json& j, const json& given, bool wis) {
  static const char* const B[] = {"bleachingActivated", "verbose", "ignoreZero", "completeAddressing", "returnConfidence", "returnActivationDegree", "returnClassesDegrees"};
  for (auto n : B) { field(k, j, n, &json::is_boolean, "the document"); bool want = given.count(n) ? given[n].get<bool>() : !strcmp(n, "bleachingActivated") || !strcmp(n, "completeAddressing"); REQUIRE("option", j[n] == want, n, " is ", j[n].dump()); }
  for (auto n : {"base", "confidence", "addressSize"}) field(k, j, n, &json::is_number_integer, "the document"); REQUIRE("option", j["base"] == (given.count("base") ? given["base"].get<int>() : 2), "base ", j["base"].dump()); REQUIRE("option", j["confidence"] == (given.count("confidence") ? given["confidence"].get<int>() : 1), "confidence ", j["confidence"].dump());
  field(k, j, "version", &json::is_string, "the document"); if (wis) { field(k, j, "indexes", &json::is_array, "the document"); REQUIRE("option", j["indexes"] == (given.count("indexes") ? given["indexes"] : json::array()), "indexes ", j["indexes"].dump()); }
}

// ---------------------------------------------------------------- histories
static const std::vector<VV> MAPS = {{{0, 2}, {0, 1}}, {{0}, {1, 2}, {2, 2}, {0, 1, 2}}, {{2, 1, 0}}, {{}, {1, 0}}, {}};
static ref::Disc trained(Ctx& k, const VV& map, int base, bool z, int depth, const VV& pool) { ref::Disc d(3, map, base, z); for (int i = 0; i < depth; i++) { int w = k.choose((int)pool.size() + 1); if (w == (int)pool.size()) break; d.train(pool[w]); } return d; }
static VV pool_of(const VV& all) { return {all[1], all.back(), all[all.size() / 2], all[all.size() - 2]}; }
SUITE(write_disc) {
  int base = 2 + k.choose(2), s = k.choose(SHAPES); bool z = k.flip(); VV all = ref::all_entries(3, base), p = pool_of(all); const VV& m = k.pick(MAPS); ref::Disc d = trained(k, m, base, z, k.thorough ? 4 : 3, p); if (s == NO_DATA && d.count) return; std::string dir = k.dir();
  json j = disc(d, s, dir + "ram"); j["base"] = base; j["ignoreZero"] = z; top(j, s); std::string t = text(j, style(s)); k.log("a document ", SHAPE[s], ": ", t); api::Disc a(t); d = counted(d, s); k.step();
  auto check = [&](const char* when) { for (auto& x : all) { V got = a.classify(x), want = d.votes(x); REQUIRE("votes", got == want, when, ": ", str(x), " gets ", str(got), " instead of ", str(want), " from ", t); } k.step(all.size() + 1); json out = json::parse(a.json_()); read(k, out, d, when); if (!d.rams.empty()) field(k, out, "ignoreZero", &json::is_boolean, when); REQUIRE("option", d.rams.empty() || (out["base"] == base && out["ignoreZero"] == z), when, ": base ", out["base"].dump(), " ignoreZero ", out["ignoreZero"].dump());
#ifdef MC_BACKEND_CPP
    REQUIRE("image", a.getMentalImage() == d.mental() && a.getNumberOfTrainings() == d.count && a.getNumberOfRAMS() == (int)d.rams.size(), when, ": image ", str(a.getMentalImage()), " of ", d.show());
#endif
  };
  check("restored"); d.train(p[0]); a.train(p[0]); d.train(p[1]); a.train(p[1]); k.step(2); check("trained on"); json f = json::parse(a.json_(true, dir + "out")); read(k, f, d, "saved to a file", true); k.state(d.show() + SHAPE[s]);
}
SUITE(write_wisard) {
  static const std::vector<VS> LABELS = {{}, {"a"}, {"b", "a"}, {"", "a::1", "\xc3\xa9\xe2\x82\xac", "10", "9"}}; int s = k.choose(SHAPES), ln = k.choose((int)LABELS.size()), base = 2 + k.choose(2), opt = k.choose(6); VV all = ref::all_entries(3, base), p = pool_of(all); json o = json::object();
  if (opt == 1) o = {{"ignoreZero", true}, {"verbose", true}}; if (opt == 2) o = {{"bleachingActivated", false}, {"returnConfidence", true}}; if (opt == 3) o = {{"confidence", 2}, {"returnActivationDegree", true}}; if (opt == 4) o = {{"completeAddressing", false}, {"returnClassesDegrees", true}}; if (opt == 5) o = {{"indexes", {2, 0, 1}}};
  bool z = o.count("ignoreZero"); ref::Wis r; r.n = 2; r.base = base; r.bleaching = !o.count("bleachingActivated"); r.ignoreZero = z; r.confidence = o.count("confidence") ? 2 : 1; std::string dir = k.dir(); json classes = json::object(); int n = 0;
  for (auto& l : LABELS[ln]) { const VV& m = MAPS[(n + opt) % 4]; ref::Disc d = n < 2 ? trained(k, m, base, z, k.thorough ? 3 : 2, p) : ref::Disc(3, m, base, z); if (n >= 2) { d.train(p[n % 4]); d.train(p[0]); } if (s == NO_DATA && d.count) return; classes[l] = disc(d, s, dir + "ram" + std::to_string(n)); r.cls[l] = counted(d, s); n++; }
  json j = {{"addressSize", 2}, {"base", base}, {"bleachingActivated", r.bleaching}, {"classes", n ? classes : json()}, {"completeAddressing", !o.count("completeAddressing")}, {"confidence", r.confidence}, {"ignoreZero", z}, {"indexes", o.count("indexes") ? o["indexes"] : json::array()}, {"returnActivationDegree", o.count("returnActivationDegree") > 0}, {"returnClassesDegrees", o.count("returnClassesDegrees") > 0}, {"returnConfidence", o.count("returnConfidence") > 0}, {"verbose", z}};
  top(j, s); o["base"] = base; std::string t = text(j, style(s)); k.log("a document ", SHAPE[s], ": ", t); api::Wis w(t); k.step();
  auto check = [&](const char* when) {
    VS got = w.classify(all); for (size_t i = 0; i < all.size(); i++) { std::string want = r.classify(all[i]); REQUIRE("answer", got[i] == want, when, ": ", str(all[i]), " is '", got[i], "' instead of '", want, "' from ", t); } REQUIRE("images", w.getMentalImages() == r.mental(), when, ": mental images ", obs::show(w.getMentalImages())); k.step(all.size() + 2);
    json out = json::parse(w.json_()); options(k, out, o, true); REQUIRE("addressSize", out["addressSize"] == 2, "address size ", out["addressSize"].dump()); REQUIRE("classes", out.count("classes") && out["classes"].size() == r.cls.size(), when, ": ", out.dump().substr(0, 400)); for (auto& e : r.cls) { REQUIRE("class", out["classes"].count(e.first), when, ": no class '", e.first, "'"); read(k, out["classes"][e.first], e.second, when); } };
  check("restored"); if (n) { const std::string& l = LABELS[ln][0]; w.train(VV{p[1], p[0]}, VS{l, l}); r.cls[l].train(p[1]); r.cls[l].train(p[0]); check("trained on"); }
  if (opt == 5) { w.train(VV{p[0]}, VS{"new"}); ref::Disc d(3, {{2, 0}}, base, z); d.train(p[0]); r.cls["new"] = d; check("with a new class"); }
  json f = json::parse(w.json_(true, dir + "out")); for (auto& e : r.cls) read(k, f["classes"][e.first], e.second, "saved to files", true); k.state(r.show() + SHAPE[s] + str(opt));
}
SUITE(write_cluswisard) {
  static const std::vector<VS> LABELS = {{}, {"a"}, {"b", "x::0"}}; int s = k.choose(SHAPES), ln = k.choose(3), un = k.choose(3), base = 2 + k.choose(2), opt = k.choose(4); VV all = ref::all_entries(3, base), p = pool_of(all); json o = json::object(); if (opt == 1) o = {{"ignoreZero", true}, {"verbose", true}}; if (opt == 2) o = {{"bleachingActivated", false}, {"returnConfidence", true}, {"completeAddressing", false}}; if (opt == 3) o = {{"confidence", 2}, {"returnActivationDegree", true}, {"returnClassesDegrees", true}};
  bool z = o.count("ignoreZero"), bl = !o.count("bleachingActivated"); int conf = o.count("confidence") ? 2 : 1; std::string dir = k.dir(); json cl = json::object(), uc; clus::State st; int n = 0; float min = 0.25f; int th = 8, lim = 3;
  auto cluster = [&](Ds& ds, int many) { json a = json::array(); for (int i = 0; i < many; i++) { ref::Disc d = n == 0 ? trained(k, MAPS[opt], base, z, k.thorough ? 3 : 2, p) : ref::Disc(3, MAPS[(n + opt) % 4], base, z); if (n) { d.train(p[n % 4]); d.train(p[(n + 1) % 4]); } a.push_back(disc(d, s, dir + "ram" + std::to_string(n))); ds.push_back(counted(d, s)); n++; } return json{{"entrySize", 3}, {"discriminators", a}}; };
  int l0 = 0; for (auto& l : LABELS[ln]) cl[l] = cluster(st.cl[l], 1 + l0++); if (un) uc = cluster(st.un, un); if (s == NO_DATA && n) return;
  json j = {{"addressSize", 2}, {"base", base}, {"bleachingActivated", bl}, {"completeAddressing", opt != 2}, {"confidence", conf}, {"discriminatorsLimit", lim}, {"ignoreZero", z}, {"minScore", min}, {"returnActivationDegree", opt == 3}, {"returnClassesDegrees", opt == 3}, {"returnConfidence", opt == 2}, {"threshold", th}, {"verbose", opt == 1}}; if (ln) j["clusters"] = cl; if (un) j["unsupervisedCluster"] = uc;
  top(j, s); o["base"] = base; std::string t = text(j, style(s)); k.log("a document ", SHAPE[s], ": ", t); api::Clus c(t); k.step();
  auto best = [&](const Ds& ds, const V& x, int cf) { MapSV v; for (size_t i = 0; i < ds.size(); i++) v[std::to_string(1000 + i)] = ds[i].votes(x); auto sc = ref::bleach(v, bl, cf); int b = 0; for (auto& e : sc) b = std::max(b, e.second); std::set<int> w; for (auto& e : sc) if (e.second == b) w.insert(std::stoi(e.first) - 1000); return w; };
  auto check = [&](const char* when, bool file) {
    if (ln) { VS got = c.classify(all); Ds every; VS owner; for (auto& e : st.cl) for (auto& d : e.second) { every.push_back(d); owner.push_back(e.first); } for (size_t i = 0; i < all.size(); i++) { auto w = best(every, all[i], conf); bool ok = false; for (int q : w) ok = ok || owner[q] == got[i]; REQUIRE("answer", ok, when, ": ", str(all[i]), " is '", got[i], "' from ", t); } }
    if (un) { VS got = c.classifyUnsupervised(all); for (size_t i = 0; i < all.size(); i++) { auto w = best(st.un, all[i], 1); bool ok = false; for (int q : w) ok = ok || std::to_string(q) == got[i]; REQUIRE("unsupervised", ok, when, ": ", str(all[i]), " is '", got[i], "' from ", t); } }
    MapSVV im = c.getMentalImages(), want; for (auto& e : st.cl) for (auto& d : e.second) want[e.first].push_back(d.mental()); REQUIRE("images", im == want, when, ": images ", obs::show(im)); k.step(2 * all.size() + 2);
    json out = json::parse(file ? c.json_(true, dir + "out") : c.json_()); options(k, out, o, false); REQUIRE("numbers", out["addressSize"] == 2 && out["threshold"] == th && out["discriminatorsLimit"] == lim && out["minScore"].is_number() && out["minScore"].get<float>() == min, when, ": ", out.dump().substr(0, 300));
    if (ln) { REQUIRE("clusters", out.count("clusters") && out["clusters"].size() == st.cl.size(), when, ": ", out.dump().substr(0, 300)); for (auto& e : st.cl) { REQUIRE("cluster", out["clusters"].count(e.first), when, ": no cluster '", e.first, "'"); json& q = out["clusters"][e.first]; field(k, q, "entrySize", &json::is_number_integer, when); field(k, q, "discriminators", &json::is_array, when); REQUIRE("discriminators", q["entrySize"] == 3 && q["discriminators"].size() == e.second.size(), when, ": ", q.dump().substr(0, 300)); for (size_t i = 0; i < e.second.size(); i++) read(k, q["discriminators"][i], e.second[i], when, file); } }
    if (un) { REQUIRE("unsupervised", out.count("unsupervisedCluster"), when, ": no unsupervised cluster"); json& q = out["unsupervisedCluster"]; field(k, q, "discriminators", &json::is_array, when); REQUIRE("discriminators", q["entrySize"] == 3 && q["discriminators"].size() == st.un.size(), when, ": ", q.dump().substr(0, 300)); for (size_t i = 0; i < st.un.size(); i++) read(k, q["discriminators"][i], st.un[i], when, file); } };
  check("restored", false); check("saved to files", true); k.state(clus::show(st) + SHAPE[s] + str(opt));
  if (opt == 0 && s != NO_COUNT) { for (auto& e : st.cl) { Ds before = e.second; c.train(VV{p[0]}, VS{e.first}); Ds after = clus::state(c.json_(), base, z).cl[e.first]; clus::grew(k, before, after, p[0], clus::Rule{min, th, lim, 2, 3, true}, "the restored cluster " + e.first); k.step(); } }
}
// what the models themselves save
SUITE(read_models) {
  int what = k.choose(3); std::string dir = k.dir(); bool file = k.flip(); int depth = k.thorough ? 5 : 4;
  if (what == 0) { const DC& c = disc_confs()[k.choose((int)disc_confs().size())]; api::Disc a(c.n, c.E, c.o); VV p = pool3(ref::all_entries(c.E, c.base())); ref::Disc r(c.E, json::parse(a.json_())["mapping"].get<VV>(), c.base()); for (int i = 0; i < depth; i++) { int w = k.choose(3); a.train(p[w]); r.train(p[w]); k.step(); json j = json::parse(file ? a.json_(true, dir + "x") : a.json_()); read(k, j, r, "Discriminator " + c.o.dump(), file); field(k, j, "version", &json::is_string, "Discriminator"); REQUIRE("option", r.rams.empty() || (j["base"] == c.base() && j["ignoreZero"] == (c.o.count("ignoreZero") > 0)), j.dump()); k.state(r.show()); } }
  if (what == 1) { const DC& c = wis_confs()[k.choose((int)wis_confs().size())]; api::Wis a(c.n, c.o); VV p = pool3(ref::all_entries(c.E, c.base())); std::map<std::string, ref::Disc> r; for (int i = 0; i < depth; i++) { int w = k.choose(6); std::string l = w < 3 ? "a" : "b"; a.train(VV{p[w % 3]}, VS{l}); k.step(); json j = json::parse(file ? a.json_(true, dir + "x") : a.json_()); options(k, j, c.o, true); REQUIRE("class", j["classes"].count(l), "no class ", l); if (!r.count(l)) r[l] = ref::Disc(c.E, j["classes"][l]["mapping"].get<VV>(), c.base()); r[l].train(p[w % 3]); for (auto& e : r) read(k, j["classes"][e.first], e.second, "Wisard " + c.o.dump(), file); k.state(r[l].show()); } }
  if (what == 2) { const CC& c = clus_confs()[k.choose((int)clus_confs().size())]; api::Clus a(c.n, c.min, c.th, c.lim, c.o); VV p = pool3(ref::all_entries(c.E, c.base())); for (int i = 0; i < depth; i++) { int w = k.choose(7); if (w < 6) a.train(VV{p[w % 3]}, VS{w < 3 ? "a" : "b"}); else a.trainUnsupervised(VV{p[0], p[1]}); k.step(); json j = json::parse(file ? a.json_(true, dir + "x") : a.json_()); options(k, j, c.o, false); clus::State st = clus::state(a.json_(), c.base(), c.o.count("ignoreZero"));
    for (auto& e : st.cl) for (size_t q = 0; q < e.second.size(); q++) read(k, j["clusters"][e.first]["discriminators"][q], e.second[q], "ClusWisard " + c.o.dump(), file); for (size_t q = 0; q < st.un.size(); q++) read(k, j["unsupervisedCluster"]["discriminators"][q], st.un[q], "ClusWisard, unsupervised", file);
    size_t total = 0; for (auto& e : st.cl) total += e.second.size(); REQUIRE("learned", w == 6 || total > 0, "nothing was saved"); k.state(clus::show(st)); } }
}
// packed inputs: one byte with the number of unused bits, then the bits from the highest of each byte on
static std::string packed(const VSh& v) { std::string b((v.size() + 7) / 8, 0); for (size_t i = 0; i < v.size(); i++) if (v[i]) b[i / 8] |= (char)(0x80 >> i % 8); return ref::b64enc(std::string(1, (char)((8 - v.size() % 8) % 8)) + b); }
SUITE(packed_inputs) {
  VSh v; int n = k.choose(k.thorough ? 15 : 12) + 1; if (k.flip()) { n = n * 7 + k.choose(7); int pat = k.choose(5); for (int i = 0; i < n; i++) v.push_back(pat == 0 ? 0 : pat == 1 ? 1 : pat == 2 ? i & 1 : pat == 3 ? i % 3 == 0 : (i * i >> 2) & 1); } else for (int i = 0; i < n; i++) v.push_back(k.choose(2));
  std::string t = packed(v); api::Bin a(v); REQUIRE("written", a.data() == t, str(v), " is saved as ", a.data(), " instead of ", t); api::Bin b(t); REQUIRE("size", b.size() == v.size(), t, " has ", b.size(), " bits"); for (int i = 0; i < n; i++) REQUIRE("bit", b.get(i) == v[i], "bit ", i, " of ", t, " is ", b.get(i)); k.step(n + 2); k.state(t);
}
SUITE(data_sets) {
  static const VS L = {"", "a", "a#b.c", "\xe2\x82\xac", std::string("\0x", 2), "wpkds"}; int n = k.choose(k.thorough ? 5 : 4); std::string dir = k.dir(), t; std::vector<VSh> xs; VS ls; for (int i = 0; i < n; i++) { VSh v(k.pick({1, 3, 8, 17}), 0); for (size_t q = 0; q < v.size(); q++) v[q] = (q * (i + 2)) % 3 == 1; xs.push_back(v); ls.push_back(k.pick(L)); t += (i ? "." : "") + ref::b64enc(ls[i]) + "#" + packed(v); }
  k.log("file ", t); { std::ofstream(dir + "in.wpkds", std::ios::binary) << t; } api::Data d(dir + "in.wpkds"); REQUIRE("size", d.size() == (ull)n, d.size(), " entries in ", t); api::Data e; for (int i = 0; i < n; i++) { REQUIRE("entry", d.get(i).data() == packed(xs[i]), "entry ", i, " of ", t, " is ", d.get(i).data()); std::string l; refused([&] { l = d.getLabel(i); }); REQUIRE("label", l == ls[i], "label ", i, " of ", t, " is ", l); if (ls[i].empty()) e.add(xs[i]); else e.add(xs[i], ls[i]); }
  e.save(dir + "out"); std::string got = ref::slurp(dir + "out.wpkds"); REQUIRE("written", got == t, "saved as ", got, " instead of ", t); k.step(3 * n + 2); k.state(t);
}
SUITE(ram_data) {
  static const std::vector<Cells> C = {{}, {{0, 1}}, {{1, 2}, {256, 3}}, {{~0ull, 2147483647}, {1ull << 32, 65536}, {7, 255}}, {{5, -1}}}; int n = 1 + k.choose(3), ord = k.choose(3); std::vector<Cells> r; std::string t; for (int i = 0; i < n; i++) { r.push_back(k.pick(C)); t += (i ? "." : "") + cells(r[i], ord); } if (n == 1 && r[0].empty()) return; k.log("text ", t); std::string dir = k.dir(); bool file = k.flip(); if (file) std::ofstream(dir + "x.wdpkg", std::ios::binary) << t; api::RDH h(file ? dir + "x.wdpkg" : t);
  for (int i = 0; i < n; i++) { REQUIRE("cells", h.get(i) == r[i], "RAM ", i, " of ", t); Cells c; REQUIRE("written", ref::unpack_cells(h.data(i), c) && c == r[i] && h.data(i).size() == 16 * r[i].size(), "RAM ", i, " is written as ", h.data(i)); } auto parts = ref::split(h.data(), '.'); REQUIRE("rams", (int)parts.size() == n, h.data()); for (int i = 0; i < n; i++) REQUIRE("whole", parts[i] == h.data(i), h.data(), " and ", h.data(i)); k.step(3 * n); k.state(t);
}
// texts saved by version 1.6.3
SUITE(old_texts) {
  int w = k.choose(3); VV all = ref::all_entries(3, 2); k.step(9);
  if (w == 0) { api::Disc d("{\"base\":2,\"count\":3,\"data\":\"AwAAAAAAAAABAAAAAQAAAAAAAAACAAAA.AgAAAAAAAAABAAAAAAAAAAAAAAACAAAA\",\"entrySize\":3,\"ignoreZero\":false,\"mapping\":[[0,2],[0,1]],\"version\":\"1.6.3\"}"); VV want = {{0, 2}, {2, 0}, {0, 1}, {2, 0}, {0, 2}, {1, 0}, {0, 1}, {1, 0}}; for (int i = 0; i < 8; i++) REQUIRE("votes", d.classify(all[i]) == want[i], str(all[i]), " gets ", str(d.classify(all[i]))); }
  if (w == 1) { api::Wis m("{\"addressSize\":2,\"base\":2,\"bleachingActivated\":true,\"classes\":{\"a\":{\"count\":1,\"data\":\"AQAAAAAAAAABAAAA.AwAAAAAAAAABAAAA\",\"entrySize\":3,\"mapping\":[[0,1],[2,2]]},\"b\":{\"count\":1,\"data\":\"AAAAAAAAAAABAAAA.AAAAAAAAAAABAAAA\",\"entrySize\":3,\"mapping\":[[2,0],[1,1]]}},\"completeAddressing\":true,\"confidence\":1,\"ignoreZero\":false,\"indexes\":[],\"returnActivationDegree\":false,\"returnClassesDegrees\":false,\"returnConfidence\":false,\"verbose\":false,\"version\":\"1.6.3\"}"); VS got = m.classify(all); ref::Wis r; ref::Disc a(3, {{0, 1}, {2, 2}}), b(3, {{2, 0}, {1, 1}}); a.train(V{1, 0, 1}); b.train(V{0, 0, 0}); r.cls["a"] = a; r.cls["b"] = b; for (int i = 0; i < 8; i++) REQUIRE("answer", got[i] == r.classify(all[i]), str(all[i]), " is ", got[i]); }
  if (w == 2) { api::Clus c("{\"addressSize\":2,\"base\":2,\"bleachingActivated\":true,\"clusters\":{\"a\":{\"discriminators\":[{\"count\":1,\"data\":\"AQAAAAAAAAABAAAA.AwAAAAAAAAABAAAA\",\"entrySize\":3,\"mapping\":[[0,1],[2,2]]}],\"entrySize\":3}},\"completeAddressing\":true,\"confidence\":1,\"discriminatorsLimit\":3,\"ignoreZero\":false,\"minScore\":0.10000000149011612,\"returnActivationDegree\":false,\"returnClassesDegrees\":false,\"returnConfidence\":false,\"threshold\":10,\"unsupervisedCluster\":{\"discriminators\":[{\"count\":1,\"data\":\"AwAAAAAAAAABAAAA.AwAAAAAAAAABAAAA\",\"entrySize\":3,\"mapping\":[[1,2],[1,0]]}],\"entrySize\":3},\"verbose\":false,\"version\":\"1.6.3\"}"); REQUIRE("image", c.getMentalImages()["a"] == VV({{1, 0, 2}}), obs::show(c.getMentalImages())); REQUIRE("answers", c.classify(all) == VS(8, "a") && c.classifyUnsupervised(all) == VS(8, "0"), "other answers"); }
  k.state(str(w));
}
