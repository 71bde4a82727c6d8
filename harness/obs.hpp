// Everything a user can ask a model, in one text.
#ifndef OBS_HPP
#define OBS_HPP
#include "ref.hpp"
namespace obs {
inline std::string show(const VS& v) { std::string o = "["; for (auto& x : v) o += "'" + x + "',"; return o + "]"; }
inline std::string show(const MapSV& m) { std::string s; for (auto& e : m) s += e.first + "=" + mc::str(e.second) + " "; return s; }
inline std::string show(const MapSVV& m) { std::string s; for (auto& e : m) s += e.first + "=" + mc::str(e.second) + " "; return s; }
#ifndef MC_BACKEND_NONE
#ifdef MC_BACKEND_PY
template <typename M> std::string full(M& m, const VV& xs) { return api::from_py(m.full(xs)).dump(); }
#else
template <typename M> std::string full(M& m, const VV& xs) { return show(m.classify(xs)); }
#endif
inline std::string of(api::Disc& d, const VV& all, bool bits) {
  std::string s = ref::canon(d.json_()) + "votes";
  for (auto& x : all) { s += " " + mc::str(d.classify(x)); if (bits) s += mc::str(d.classify(api::Bin(ref::shorts(x)))); }
#ifdef MC_BACKEND_CPP
  s += " image " + mc::str(d.getMentalImage()) + " trainings " + std::to_string(d.getNumberOfTrainings()) + " rams " + std::to_string(d.getNumberOfRAMS());
#endif
  return s + " size " + std::to_string(d.getsizeof());
}
inline std::string of(api::Wis& w, const VV& all, bool bits) {
  std::string s = ref::canon(w.json_()) + "answers " + full(w, all);
  if (bits) { api::Data d; for (auto& x : all) d.add(ref::shorts(x)); s += show(w.classify(d)); }
  return s + " images " + show(w.getMentalImages()) + " size " + std::to_string(w.getsizeof());
}
inline std::string of(api::Clus& c, const VV& all, bool = false, const VS& labels = {"a", "b"}) {
  std::string s = ref::canon(c.json_()) + "answers " + full(c, all) + " unsupervised " + show(c.classifyUnsupervised(all)) + " images " + show(c.getMentalImages());
  for (auto& l : labels) s += " " + l + mc::str(c.getMentalImage(l));
  return s + " size " + std::to_string(c.getsizeof());
}
#endif
// the first difference of two texts
inline std::string diff(const std::string& a, const std::string& b) {
  size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  size_t f = i > 60 ? i - 60 : 0;
  return "..." + a.substr(f, 160) + " <> ..." + b.substr(f, 160);
}
#ifndef MC_BACKEND_NONE
// number of discriminators by label, and of the unsupervised cluster
inline std::string shape(api::Clus& c) {
  json j = json::parse(c.json_()); std::string s;
  if (j.count("clusters")) for (auto it = j["clusters"].begin(); it != j["clusters"].end(); ++it) s += it.key() + ":" + std::to_string(it.value()["discriminators"].size()) + " ";
  if (j.count("unsupervisedCluster")) s += "u:" + std::to_string(j["unsupervisedCluster"]["discriminators"].size());
  return s;
}
#endif
}
#endif
