// A Wisard and a Discriminator next to their reference models.
#ifndef SUT_HPP
#define SUT_HPP
#include "ref.hpp"
using namespace mc;

struct WisSut {
  api::Wis w; ref::Wis r; int n, E, base; json o;
  WisSut(int n_, json o_, int e) : w(n_, o_), n(n_), E(e), base(o_.count("base") ? o_["base"].get<int>() : 2), o(o_) {
    r.n = n; r.base = base;
    if (o.count("bleachingActivated")) r.bleaching = o["bleachingActivated"];
    if (o.count("ignoreZero")) r.ignoreZero = o["ignoreZero"];
    if (o.count("confidence")) r.confidence = o["confidence"];
  }
  json saved(const std::string& l) { json c = json::parse(w.json_())["classes"]; return c.is_null() || !c.count(l) ? json() : c[l]; }
  // the reference learns; a class seen for the first time brings its addressing
  void learn(Ctx& k, const V& x, const std::string& l) {
    auto f = r.cls.find(l);
    if (f == r.cls.end()) { json d = saved(l); REQUIRE("class-missing", !d.is_null(), "no class '", l, "' after training it"); f = r.cls.insert(std::make_pair(l, ref::Disc(E, ref::mapping_of(d), base, r.ignoreZero))).first; }
    f->second.train(x);
  }
  void train(Ctx& k, const VV& xs, const VS& ys) { k.log("train ", str(xs), " as ", json(ys).dump()); w.train(xs, ys); k.step(); for (size_t i = 0; i < xs.size(); i++) learn(k, xs[i], ys[i]); }
  void trainData(Ctx& k, const VV& xs, const VS& ys) { k.log("train DataSet ", str(xs), " as ", json(ys).dump()); api::Data d; for (size_t i = 0; i < xs.size(); i++) d.add(ref::shorts(xs[i]), ys[i]); w.train(d); k.step(); for (size_t i = 0; i < xs.size(); i++) learn(k, xs[i], ys[i]); }
  // every class holds exactly what the reference holds
  void content(Ctx& k, const std::string& when) {
    json c = json::parse(w.json_())["classes"]; size_t got = 0; k.step();
    if (!c.is_null()) for (auto it = c.begin(); it != c.end(); ++it, got++) {
      auto f = r.cls.find(it.key());
      REQUIRE("unknown-class", f != r.cls.end(), when, ": a class '", it.key(), "' that was never trained");
      std::string g = ref::canon_disc(it.value()), want = ref::canon_ref(f->second);
      REQUIRE("content", g == want, when, ": class '", it.key(), "' is ", g, " instead of ", want);
    }
    REQUIRE("missing-class", got == r.cls.size(), when, ": ", got, " classes instead of ", r.cls.size());
  }
  void answers(Ctx& k, const VV& all, const std::string& when) {
    VS got = w.classify(all); k.step(all.size());
    REQUIRE("answers", got.size() == all.size(), when, ": ", got.size(), " answers");
    for (size_t i = 0; i < all.size(); i++) { std::string want = r.classify(all[i]); REQUIRE("answer", got[i] == want, when, ": ", str(all[i]), " is '", got[i], "' instead of '", want, "' with ", r.show()); }
  }
  void images(Ctx& k, const std::string& when) {
    MapSV g = w.getMentalImages(), want = r.mental(); k.step();
    REQUIRE("images", g == want, when, ": mental images ", show(g), " instead of ", show(want), " with ", r.show());
  }
  static std::string show(const MapSV& m) { std::string s; for (auto& e : m) s += "'" + e.first + "' " + str(e.second) + " "; return s; }
  void all(Ctx& k, const VV& entries, const std::string& when) { content(k, when); answers(k, entries, when); images(k, when); k.state(r.show()); }
  void restore(Ctx& k) { std::string t = w.json_(); w = api::Wis(t); k.step(2); k.log("restored from its json"); }
};
#endif
