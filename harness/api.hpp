// The public API of the library, in one shape for the three implementations that are checked:
//   MC_BACKEND_CPP  a C++ header (generated from the sources or the committed one, WP_HEADER names it)
//   MC_BACKEND_PY   the Python binding, called through Python objects of an embedded interpreter
#ifndef API_HPP
#define API_HPP
#include "mc.hpp"
#include <memory>

typedef unsigned long long ull;
typedef std::vector<int> V;
typedef std::vector<V> VV;
typedef std::vector<std::string> VS;
typedef std::vector<short> VSh;
typedef std::vector<double> VD;
typedef std::vector<VD> VVD;
typedef std::map<std::string, V> MapSV;
typedef std::map<std::string, VV> MapSVV;
typedef std::map<ull, int> Cells;

#ifdef MC_BACKEND_CPP
#include WP_HEADER
namespace wp = wisardpkg;
typedef nlohmann::json json;
const bool PY = false;
namespace api {
struct Bin {
  wp::BinInput b;
  Bin(const wp::BinInput& x) : b(x) {}
  explicit Bin(ull n) : b((wp::index_size_t)n) {}
  explicit Bin(const VSh& v) : b(v) {}
  explicit Bin(const std::string& s) : b(s) {}
  int get(ull i) const { return b.get(i); }
  int at(ull i) const { return b[i]; }
  void set(ull i, int v) { b.set(i, v); }
  ull size() const { return b.size(); }
  std::string data() const { return b.data(); }
};
struct Data {
  wp::DataSet d;
  Data() {}
  explicit Data(const std::string& f) : d(f) {}
  void add(const Bin& b) { d.add(b.b); }
  void add(const Bin& b, const std::string& l) { d.add(b.b, l); }
  void add(const VSh& b) { d.add(b); }
  void add(const VSh& b, const std::string& l) { d.add(b, l); }
  Bin get(int i) const { return Bin(d.get(i)); }
  std::string getLabel(ull i) const { return d.getLabel(i); }
  ull size() const { return d.size(); }
  void save(const std::string& p) { d.save(p); }
};
struct RDH {
  wp::RAMDataHandle h;
  explicit RDH(const std::string& s) : h(s) {}
  int get(int r, ull a) { return h.get(r, a); }
  Cells get(int r) { auto m = h.get(r); return Cells(m.begin(), m.end()); }
  void set(int r, ull a, int v) { h.set(r, a, v); }
  std::string data() { return h.data(); }
  std::string data(int r) { return h.data(r); }
  bool compare(RDH& o) { return h.compare(o.h); }
  void save(const std::string& p) { h.save(p); }
};
struct Disc {
  wp::Discriminator d;
  explicit Disc(const std::string& s) : d(s) {}
  Disc(int n, int e, json o) : d(n, e, o) {}
  void train(const V& x) { d.train(x); }
  void train(const VV& x) { d.train(x); }
  void train(const Bin& x) { d.train(x.b); }
  V classify(const V& x) { return d.classify(x); }
  V classify(const Bin& x) { return d.classify(x.b); }
  std::string jsonConfig() { return d.jsonConfig(); }
  std::string json_() { return d.json(); }
  std::string json_(bool h) { return d.json(h); }
  std::string json_(bool h, const std::string& p) { return d.json(h, p); }
  long getsizeof() { return d.getsizeof(); }
  // C++ only
  void untrain(const V& x) { d.untrain(x); }
  V getMentalImage() { return d.getMentalImage(); }
  int getNumberOfTrainings() { return d.getNumberOfTrainings(); }
  int getNumberOfRAMS() { return d.getNumberOfRAMS(); }
};
struct Wis {
  wp::Wisard w;
  explicit Wis(const std::string& s) : w(s) {}
  Wis(int n, json o) : w(n, o) {}
  void train(const VV& x, const VS& y) { w.train(x, y); }
  void train(const Data& d) { w.train(d.d); }
  VS classify(const VV& x) { return w.classify(x); }
  VS classify(const Data& d) { return w.classify(d.d); }
  MapSV getMentalImages() { return w.getMentalImages(); }
  void leaveOneOut(const V& x, const std::string& l) { w.leaveOneOut(x, l); }
  void leaveMoreOut(const VV& x, const VS& l) { w.leaveMoreOut(x, l); }
  std::string jsonConfig() { return w.jsonConfig(); }
  std::string json_() { return w.json(); }
  std::string json_(bool h) { return w.json(h); }
  std::string json_(bool h, const std::string& p) { return w.json(h, p); }
  long getsizeof() { return w.getsizeof(); }
};
struct Clus {
  wp::ClusWisard w;
  explicit Clus(const std::string& s) : w(s) {}
  Clus(int n, float m, int t, int l, json o) : w(n, m, t, l, o) {}
  void train(const VV& x, const VS& y) { w.train(x, y); }
  void train(const VV& x, const std::map<int, std::string>& y) { std::map<int, std::string> z = y; w.train(x, z); }
  void trainUnsupervised(const VV& x) { w.trainUnsupervised(x); }
  VS classify(const VV& x) { return w.classify(x); }
  VS classifyUnsupervised(const VV& x) { return w.classifyUnsupervised(x); }
  VV getMentalImage(const std::string& l) { return w.getMentalImage(l); }
  MapSVV getMentalImages() { return w.getMentalImages(); }
  std::string jsonConfig() { return w.jsonConfig(); }
  std::string json_() { return w.json(); }
  std::string json_(bool h) { return w.json(h); }
  std::string json_(bool h, const std::string& p) { return w.json(h, p); }
  long getsizeof() { return w.getsizeof(); }
};
struct Synth {
  wp::Synthesizer s;
  explicit Synth(const V& m) : s(m) {}
  V make() { return s.make(); }
};
struct Kern {
  wp::KernelCanvas c;
  Kern(int d, int n, json o) : c(d, n, o) {}
  V transform(const VVD& x) { return c.transform(x); }
};
}
#elif defined(MC_BACKEND_NONE)
#include "json.hpp"
typedef nlohmann::json json;
const bool PY = false;
#else
#include <pybind11/embed.h>
#include <pybind11/stl.h>
#include "json.hpp"
namespace py = pybind11;
typedef nlohmann::json json;
const bool PY = true;
namespace api {
py::object cls(const char* name);
inline py::object to_py(const json& j) {
  if (j.is_boolean()) return py::bool_(j.get<bool>());
  if (j.is_number_integer()) return py::int_(j.get<long long>());
  if (j.is_number_float()) return py::float_(j.get<double>());
  if (j.is_string()) return py::str(j.get<std::string>());
  if (j.is_array()) { py::list l; for (auto& x : j) l.append(to_py(x)); return l; }
  if (j.is_object()) { py::dict d; for (auto it = j.begin(); it != j.end(); ++it) d[py::str(it.key())] = to_py(it.value()); return d; }
  return py::none();
}
inline json from_py(py::handle h) {
  if (py::isinstance<py::bool_>(h)) return h.cast<bool>();
  if (py::isinstance<py::int_>(h)) return h.cast<long long>();
  if (py::isinstance<py::float_>(h)) return h.cast<double>();
  if (py::isinstance<py::str>(h)) return h.cast<std::string>();
  if (py::isinstance<py::list>(h)) { json a = json::array(); for (auto x : h) a.push_back(from_py(x)); return a; }
  if (py::isinstance<py::dict>(h)) { json o = json::object(); for (auto x : py::reinterpret_borrow<py::dict>(h)) o[x.first.cast<std::string>()] = from_py(x.second); return o; }
  return nullptr;
}
struct Obj {
  py::object o;
  Obj(py::object x) : o(x) {}
  template <typename... A> py::object call(const char* n, A&&... a) const { return o.attr(n)(std::forward<A>(a)...); }
};
struct Bin : Obj {
  Bin(py::object x) : Obj(x) {}
  explicit Bin(ull n) : Obj(cls("BinInput")(n)) {}
  explicit Bin(const VSh& v) : Obj(cls("BinInput")(v)) {}
  explicit Bin(const std::string& s) : Obj(cls("BinInput")(s)) {}
  int get(ull i) const { return call("get", i).cast<int>(); }
  int at(ull i) const { return call("__getitem__", i).cast<int>(); }
  void set(ull i, int v) { call("set", i, v); }
  ull size() const { return call("size").cast<ull>(); }
  std::string data() const { return call("data").cast<std::string>(); }
};
struct Data : Obj {
  Data() : Obj(cls("DataSet")()) {}
  explicit Data(const std::string& f) : Obj(cls("DataSet")(f)) {}
  void add(const Bin& b) { call("add", b.o); }
  void add(const Bin& b, const std::string& l) { call("add", b.o, l); }
  void add(const VSh& b) { call("add", b); }
  void add(const VSh& b, const std::string& l) { call("add", b, l); }
  Bin get(int i) const { return Bin(call("get", i)); }
  std::string getLabel(ull i) const { return call("getLabel", i).cast<std::string>(); }
  ull size() const { return call("size").cast<ull>(); }
  void save(const std::string& p) { call("save", p); }
};
struct RDH : Obj {
  explicit RDH(const std::string& s) : Obj(cls("RAMDataHandle")(s)) {}
  int get(int r, ull a) { return call("get", r, a).cast<int>(); }
  Cells get(int r) { return call("get", r).cast<Cells>(); }
  void set(int r, ull a, int v) { call("set", r, a, v); }
  std::string data() { return call("data").cast<std::string>(); }
  std::string data(int r) { return call("data", r).cast<std::string>(); }
  bool compare(RDH& x) { return call("compare", x.o).cast<bool>(); }
};
struct Model : Obj {
  using Obj::Obj;
  std::string jsonConfig() { return call("jsonConfig").cast<std::string>(); }
  std::string json_() { return call("json").cast<std::string>(); }
  std::string json_(bool h) { return call("json", h).cast<std::string>(); }
  std::string json_(bool h, const std::string& p) { return call("json", h, p).cast<std::string>(); }
  long getsizeof() { return call("getsizeof").cast<long>(); }
};
struct Disc : Model {
  explicit Disc(const std::string& s) : Model(cls("Discriminator")(s)) {}
  Disc(int n, int e, json o) : Model(cls("Discriminator")(n, e, **py::dict(to_py(o.is_null() ? json::object() : o)))) {}
  void train(const V& x) { call("train", x); }
  void train(const VV& x) { call("train", x); }
  void train(const Bin& x) { call("train", x.o); }
  V classify(const V& x) { return call("classify", x).cast<V>(); }
  V classify(const Bin& x) { return call("classify", x.o).cast<V>(); }
};
inline VS labels_of(py::object r) {
  VS out;
  for (auto x : r) out.push_back(py::isinstance<py::str>(x) ? x.cast<std::string>() : x[py::str("class")].cast<std::string>());
  return out;
}
struct Wis : Model {
  explicit Wis(const std::string& s) : Model(cls("Wisard")(s)) {}
  Wis(int n, json o) : Model(cls("Wisard")(n, **py::dict(to_py(o.is_null() ? json::object() : o)))) {}
  void train(const VV& x, const VS& y) { call("train", x, y); }
  void train(const Data& d) { call("train", d.o); }
  VS classify(const VV& x) { return labels_of(call("classify", x)); }
  VS classify(const Data& d) { return labels_of(call("classify", d.o)); }
  py::object full(const VV& x) { return call("classify", x); }
  py::object full(const Data& d) { return call("classify", d.o); }
  MapSV getMentalImages() { return call("getMentalImages").cast<MapSV>(); }
  void leaveOneOut(const V& x, const std::string& l) { call("leaveOneOut", x, l); }
  void leaveMoreOut(const VV& x, const VS& l) { call("leaveMoreOut", x, l); }
};
struct Clus : Model {
  explicit Clus(const std::string& s) : Model(cls("ClusWisard")(s)) {}
  Clus(int n, float m, int t, int l, json o) : Model(cls("ClusWisard")(n, m, t, l, **py::dict(to_py(o.is_null() ? json::object() : o)))) {}
  void train(const VV& x, const VS& y) { call("train", x, y); }
  void train(const VV& x, const std::map<int, std::string>& y) { call("train", x, y); }
  void trainUnsupervised(const VV& x) { call("trainUnsupervised", x); }
  VS classify(const VV& x) { return labels_of(call("classify", x)); }
  py::object full(const VV& x) { return call("classify", x); }
  VS classifyUnsupervised(const VV& x) { return call("classifyUnsupervised", x).cast<VS>(); }
  VV getMentalImage(const std::string& l) { return call("getMentalImage", l).cast<VV>(); }
  MapSVV getMentalImages() { return call("getMentalImages").cast<MapSVV>(); }
};
struct Synth : Obj {
  explicit Synth(const V& m) : Obj(cls("Synthesizer")(m)) {}
  V make() { return call("make").cast<V>(); }
};
struct Kern : Obj {
  Kern(int d, int n, json o) : Obj(cls("KernelCanvas")(d, n, **py::dict(to_py(o.is_null() ? json::object() : o)))) {}
  V transform(const VVD& x) { return call("transform", x).cast<V>(); }
};
}
#endif

// Calls f and says whether it raised a C++ exception (or a Python one); anything else propagates.
template <typename F> bool refused(F f) { try { f(); return false; } catch (std::exception&) { return true; } }
#endif
