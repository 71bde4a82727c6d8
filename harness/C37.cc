// C37: Python values of every kind, in every place of every argument of every call: they mean the plain value they stand for
// or they are refused without a trace.
#include "confs.hpp"
#include <condition_variable>
#include <mutex>
#include <new>
#include <thread>
using namespace mc;
// While the library runs without the interpreter lock, another Python thread may run: at the n-th allocation or question to the
// generator made without the lock it runs a whole call. A library that keeps it out with a lock of its own is not waited for long.
static struct { bool on; int at, n; py::object* act; std::thread* other; bool finished; } W;
static void opportunity() {
  if (!W.on || PyGILState_Check() || W.n++ != W.at) return;
  W.on = false; static std::mutex m; static std::condition_variable cv; W.finished = false;
  W.other = new std::thread([] { { py::gil_scoped_acquire g; try { (*W.act)(); } catch (py::error_already_set&) {} } std::lock_guard<std::mutex> l(m); W.finished = true; cv.notify_all(); });
  std::unique_lock<std::mutex> l(m); cv.wait_for(l, std::chrono::milliseconds(300), [] { return W.finished; });
}
void* operator new(size_t n) { opportunity(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
static void watch(int at, py::object act) { W.act = new py::object(act); W.at = at; W.n = 0; W.other = nullptr; W.on = true; }
static bool unwatch() { W.on = false; bool hit = W.other; if (hit) { { py::gil_scoped_release r; W.other->join(); } delete W.other; W.other = nullptr; } delete W.act; return hit; }
static const char* const SCRIPT = R"PY(
import array, collections, decimal, enum, fractions, sys, types
import wisardpkg as wp
REFUSE, ANY = object(), object()
class Either:                                                     # refused, or what this plain value does
    def __init__(self, plain): self.plain = plain
class Index:
    def __init__(self, v): self.v = v
    def __index__(self): return self.v
class Int:
    def __init__(self, v): self.v = v
    def __int__(self): return self.v
class Float:
    def __init__(self, v): self.v = v
    def __float__(self): return self.v
class Truth:
    def __init__(self, v): self.v = v
    def __bool__(self): return self.v
class MyInt(int): pass
class MyStr(str): pass
class MyList(list): pass
class MyTuple(tuple): pass
class MyDict(dict): pass
class Strange(list):                                              # a list that tells iteration, length and items as a list does
    def __eq__(self, o): raise ValueError("no comparing")
    __hash__ = None
class Enum(enum.IntEnum):
    ZERO = 0
    ONE = 1
    TWO = 2
    THREE = 3
class Raises:
    def __init__(self, how, e): self.how, self.e = how, e
    def go(self): raise self.e("raised on purpose")
    def __index__(self): return self.go() if "index" in self.how else "text" if "wrong" in self.how else 0
    def __int__(self): return self.go() if "index" in self.how else "text" if "wrong" in self.how else 0
    def __float__(self): return self.go() if "float" in self.how else "text" if "wrong" in self.how else 0.0
    def __bool__(self): return self.go() if "bool" in self.how else "text" if "wrong" in self.how else False
class Seq:                                                        # a sequence of one's own
    def __init__(self, v, at=None, act=None, length=None): self.v, self.at, self.act, self.length = list(v), at, act, length
    def hit(self, i):
        if self.act is not None and self.at == i:
            a = self.act; self.act = a if getattr(a, "always", False) else None; a()
    def __len__(self): self.hit(-1); return len(self.v) if self.length is None else self.length
    def __getitem__(self, i): self.hit(i); return self.v[i]
class Raise:
    always = True
    def __init__(self, e): self.e = e
    def __call__(self): raise self.e("raised on purpose")
class Nothing: pass

I32, I16, U64, F, S, B = "i32", "i16", "u64", "f", "s", "b"
LIMITS = {I32: (-2**31, 2**31 - 1), I16: (-2**15, 2**15 - 1), U64: (0, 2**64 - 1)}
def L(t): return ("L", t)
def M(kt, vt): return ("M", kt, vt)
def small(v): return isinstance(v, int) and 0 <= v <= 3
def leafs(t, v):
    r = []
    if t in LIMITS:
        lo, hi = LIMITS[t]
        r += [("a bool", lambda: bool(v), Either(int(bool(v)))), ("__index__", lambda: Index(v), Either(v)), ("__int__", lambda: Int(v), Either(v)), ("a subclass of int", lambda: MyInt(v), Either(v)),
              ("a whole float", lambda: float(v), Either(v)), ("Decimal", lambda: decimal.Decimal(v), Either(v)), ("Fraction", lambda: fractions.Fraction(v), Either(v))]
        if small(v): r.append(("IntEnum", lambda: Enum(v), Either(v)))
        r += [("%r" % x, (lambda x: lambda: x)(x), REFUSE) for x in (0.5, 1.9, 1e300, float("nan"), float("inf"), -0.5, 1j, "1", "", b"1", None, 2**64, 2**64 + 1, 2**64 - 2**32, hi + 1, lo - 1, -2**63 - 1, 2**128 + 1, Ellipsis) if not (isinstance(x, int) and lo <= x <= hi)]
        r += [("float text", lambda: "%d.0" % v, REFUSE), ("text", lambda: str(v), REFUSE), ("__float__ alone", lambda: Float(1.0), REFUSE), ("an __index__ too large", lambda: Index(hi + 1), REFUSE), ("an __index__ far too large", lambda: Index(2**64 + (v & 3)), REFUSE), ("a list of it", lambda: [v], REFUSE), ("an object", lambda: Nothing(), REFUSE), ("a class", lambda: int, REFUSE)]
        r += [("__index__ raises", lambda: Raises("index", ValueError), REFUSE), ("__index__ is interrupted", lambda: Raises("index", KeyboardInterrupt), REFUSE), ("__index__ gives text", lambda: Raises("wrong", ValueError), REFUSE)]
    elif t == F:
        r += [("int", lambda: int(v) if v == int(v) else v, Either(v)), ("__float__", lambda: Float(v), Either(v)), ("Decimal", lambda: decimal.Decimal(v), Either(v)), ("Fraction", lambda: fractions.Fraction(v), Either(v)), ("a bool", lambda: True, Either(1.0)), ("__index__", lambda: Index(2), Either(2.0))]
        r += [("%r" % x, (lambda x: lambda: x)(x), REFUSE) for x in ("1.0", "", b"1", None, 1j, Ellipsis)] + [("10**400", lambda: 10**400, REFUSE), ("a list of it", lambda: [v], REFUSE), ("an object", lambda: Nothing(), REFUSE), ("__float__ raises", lambda: Raises("float index", ValueError), REFUSE), ("__float__ gives text", lambda: Raises("wrong", ValueError), REFUSE)]
    elif t == S:
        r += [("bytes", lambda: v.encode(), Either(v)), ("bytearray", lambda: bytearray(v.encode()), Either(v)), ("a subclass of str", lambda: MyStr(v), Either(v)), ("joined text", lambda: "".join(list(v)), Either(v))]
        r += [("%r" % (x,), (lambda x: lambda: x)(x), REFUSE) for x in (0, 1.5, None, True, [], ("a",), ["a"], {}, "\ud800", Ellipsis)] + [("an object", lambda: Nothing(), REFUSE), ("memoryview", lambda: memoryview(v.encode()), Either(v))]
    elif t == "no":
        r += [("%r" % (x,), (lambda x: lambda: x)(x), Either(False)) for x in (0, 0.0, None, "", [], {})] + [("__bool__", lambda: Truth(False), Either(False)), ("__bool__ raises", lambda: Raises("bool", ValueError), REFUSE), ("__bool__ gives text", lambda: Raises("wrong", ValueError), REFUSE)]
    elif t == B:
        r += [("%r" % (x,), (lambda x: lambda: x)(x), Either(bool(x))) for x in (0, 1, 2, -1, 0.0, 0.5, None)] + [("__bool__", lambda: Truth(v), Either(v)), ("an object", lambda: Nothing(), Either(True)), ("text", lambda: "x", Either(True)), ("empty text", lambda: "", Either(False)), ("a list", lambda: [0], Either(True)), ("an empty list", lambda: [], Either(False)), ("__bool__ raises", lambda: Raises("bool", ValueError), REFUSE), ("__bool__ gives text", lambda: Raises("wrong", ValueError), REFUSE)]
    elif t in ("Bin", "Data", "RDH"):
        cls = {"Bin": wp.BinInput, "Data": wp.DataSet, "RDH": wp.RAMDataHandle}[t]
        sub = type("Mine", (cls,), {"get": lambda self, *a: 1 / 0, "size": lambda self: 1 / 0, "data": lambda self, *a: 1 / 0})
        r += [("%r" % (x,), (lambda x: lambda: x)(x), REFUSE) for x in (None, 1, 1.0, True, "AA==", b"AA==", {}, Ellipsis)] + [("an object", lambda: Nothing(), REFUSE), ("the class", lambda: cls, REFUSE)]
        r += [("a list of it", lambda: [v.now()], REFUSE), ("a subclass", lambda: v.now(sub), Either(v)), ("another kind", lambda: (wp.DataSet if t != "Data" else wp.BinInput)(*([] if t != "Data" else [3])), REFUSE)]
    return r
class New:                                                        # an object made anew for each call
    def __init__(self, f): self.f = f
    def now(self, cls=None): return self.f(cls)
def bad_seq(v, at, e): return lambda: Seq(v, at, Raise(e))
def containers(t, v):
    e = t[1]; ints = e in LIMITS; plain = list(v); r = []
    r += [("tuple", lambda: tuple(v), Either(v)), ("a subclass of list", lambda: MyList(v), Either(v)), ("a subclass of tuple", lambda: MyTuple(v), Either(v)), ("a list not to be compared", lambda: Strange(v), Either(v)), ("deque", lambda: collections.deque(v), Either(v)), ("UserList", lambda: collections.UserList(v), Either(v)), ("a sequence of one's own", lambda: Seq(v), Either(v)),
          ("a generator", lambda: (x for x in v), Either(v)), ("an iterator", lambda: iter(v), Either(v)), ("map", lambda: map(lambda x: x, v), Either(v)), ("keys", lambda: dict.fromkeys(map(str, range(len(v)))).keys(), REFUSE if ints or e == F or isinstance(e, tuple) else ANY), ("values", lambda: dict(enumerate(v)).values(), Either(v)), ("a dict", lambda: dict(enumerate(v)), REFUSE if not (ints and len(v) == 0) else ANY)]
    if ints:
        r += [("array", lambda: array.array("q", v), Either(v)), ("memoryview", lambda: memoryview(array.array("q", v)), Either(v)), ("array of floats", lambda: array.array("d", v), Either(v)), ("array of fractions", lambda: array.array("d", [x + 0.5 for x in v]), REFUSE if len(v) else ANY), ("digits", lambda: "".join(map(str, v)), REFUSE), ("empty text", lambda: "", REFUSE)]
        if all(0 <= x < 256 for x in v): r += [("bytes", lambda: bytes(v), Either(v)), ("bytearray", lambda: bytearray(v), Either(v))]
        if len(set(v)) == len(v): r += [("a set", lambda: set(v), Either(list(set(v))))]
        if list(v) == list(range(len(v))): r += [("range", lambda: range(len(v)), Either(v))]
        r += [("complex", lambda: [complex(x) for x in v], REFUSE if len(v) else ANY)]
    if e == F: r += [("array", lambda: array.array("d", v), Either(v)), ("text", lambda: "1.5", REFUSE), ("bytes", lambda: b"\1\2", ANY)]
    if e == S: r += [("text", lambda: "".join(x[:1] for x in v), REFUSE), ("one text", lambda: "ab", REFUSE), ("bytes", lambda: b"ab", REFUSE)]
    if isinstance(e, tuple): r += [("a list of texts", lambda: ["01", "10"], REFUSE), ("one text", lambda: "01", REFUSE), ("bytes", lambda: b"01", REFUSE), ("a list of None", lambda: [None], REFUSE), ("a list of sets of text", lambda: [{"a"}], REFUSE)]
    r += [("%r" % (x,), (lambda x: lambda: x)(x), REFUSE) for x in (None, 1.5, 1j, Ellipsis, True, 0)] + [("an object", lambda: Nothing(), REFUSE), ("list itself", lambda: list, REFUSE)]
    r += [("length raises", bad_seq(v, -1, ValueError), REFUSE), ("interrupted at its length", bad_seq(v, -1, KeyboardInterrupt), REFUSE), ("too long", lambda: Seq(v, length=2**62), REFUSE), ("longer than it says by none", lambda: Seq(v, length=len(v)), Either(v)), ("shorter than it says", lambda: Seq(v, length=len(v) + 2), Either(v)), ("a negative length", lambda: Seq(v, length=-3), REFUSE), ("length is text", lambda: Seq(v, length="3"), REFUSE)]
    for i in range(len(v)):
        for ex in (ValueError, StopIteration, MemoryError, KeyboardInterrupt): r.append(("item %d raises %s" % (i, ex.__name__), bad_seq(v, i, ex), REFUSE))
        r.append(("item %d is missing" % i, bad_seq(v, i, IndexError), REFUSE if i else ANY))
    def popping():
        l = []
        class P:
            def __index__(self): l[:] = []; return 0
            def __float__(self): l[:] = []; return 0.0
        l += [P()] * max(3, len(v)); return l
    if ints or e == F: r.append(("a list that empties itself", popping, ANY))
    def selfish(): l = []; l.append(l); return l
    r.append(("a list of itself", selfish, REFUSE))
    return r
def maps(t, v):
    return [("OrderedDict", lambda: collections.OrderedDict(v), Either(v)), ("defaultdict", lambda: collections.defaultdict(str, v), Either(v)), ("a subclass of dict", lambda: MyDict(v), Either(v)), ("UserDict", lambda: collections.UserDict(v), Either(v)), ("MappingProxyType", lambda: types.MappingProxyType(v), Either(v)), ("ChainMap", lambda: collections.ChainMap(v), Either(v)), ("reversed", lambda: dict(reversed(list(v.items()))), Either(v)), ("keys of another kind", lambda: {Index(0) if t[1] != S else 0: x for x in v.values()}, ANY if t[1] != S else REFUSE),
            ("pairs", lambda: list(v.items()), REFUSE), ("items", lambda: v.items(), REFUSE), ("an object", lambda: Nothing(), REFUSE)] + [("%r" % (x,), (lambda x: lambda: x)(x), REFUSE) for x in (None, 1, "ab", 1.5, Ellipsis)]
def replacements(t, v):
    if isinstance(t, tuple): return containers(t, v) if t[0] == "L" else maps(t, v)
    return leafs(t, v)
# every place inside a value: (path, type, value); a path goes through ("i", index), ("k", key) and ("v", key)
def places(t, v, path=()):
    yield path, t, v
    if isinstance(t, tuple) and t[0] == "L":
        for i, x in enumerate(v):
            if i in (0, len(v) - 1): yield from places(t[1], x, path + (("i", i),))
    if isinstance(t, tuple) and t[0] == "M":
        for i, (a, b) in enumerate(v.items()):
            if i in (0, len(v) - 1):
                yield path + (("k", a),), t[1], a
                yield from places(t[2], b, path + (("v", a),))
def put(v, path, new):
    if not path: return new
    how, x = path[0]
    if how == "i": w = list(v); w[x] = put(w[x], path[1:], new); return w
    if how == "k": return {(new if a == x and type(a) == type(x) else a): b for a, b in v.items()}
    w = dict(v); w[x] = put(w[x], path[1:], new); return w
def real(v):                                                      # with the objects made
    if isinstance(v, New): return v.now()
    if type(v) is list: return [real(x) for x in v]
    if type(v) is dict: return {real(a): real(b) for a, b in v.items()}
    return v

# the objects
MAP, IDX = {"a": [[0], [1, 2]], "b": [[2, 1, 0], [2]]}, [2, 0, 1]
def bits(cls=None): return (cls or wp.BinInput)([1, 0, 1])
def data(cls=None): d = (cls or wp.DataSet)(); wp.DataSet.add(d, [1, 0, 1], "a"); wp.DataSet.add(d, wp.BinInput([0, 1, 1]), "b"); return d
TEXT = None
def rdh(cls=None): return (cls or wp.RAMDataHandle)(TEXT)
def plain_rdh(text): global TEXT; TEXT = text
def trained(w, state):
    if state: w.train([[0, 1, 1], [1, 0, 1], [1, 1, 1]], ["a", "b", "a"])
    return w
ALL = [[i >> 2 & 1, i >> 1 & 1, i & 1] for i in range(8)]
def disc(state, cls=None):
    d = (cls or wp.Discriminator)(2, 3, completeAddressing=True)
    if state: d.train([[0, 1, 1], [1, 0, 1]])
    return d
def wis(state, cls=None): return trained((cls or wp.Wisard)(2, returnConfidence=True, returnClassesDegrees=True), state)
def clus(state, cls=None):
    c = trained((cls or wp.ClusWisard)(2, 0.5, 2, 3), state)
    if state: wp.ClusWisard.trainUnsupervised(c, [[0, 0, 1], [1, 1, 0]])
    return c
def dataset(state, cls=None): return data(cls) if state else (cls or wp.DataSet)()
def bininput(state, cls=None): return (cls or wp.BinInput)([1, 0, 1, 1, 0, 0, 1, 0, 1] if state else [0, 0, 0])
def kernel(state, cls=None): return (cls or wp.KernelCanvas)(2, 4, bitsByKernel=2, activationDegree=0.5)
def handle(state, cls=None): return (cls or wp.RAMDataHandle)(TEXT if state else "")
def synth(state, cls=None): return (cls or wp.Synthesizer)([3, 0, 2])
def look(o):
    if isinstance(o, wp.Discriminator): return [canon(wp.Discriminator.json(o)), [wp.Discriminator.classify(o, x) for x in ALL]]
    if isinstance(o, wp.Wisard): return [canon(wp.Wisard.json(o)), wp.Wisard.classify(o, ALL), wp.Wisard.getMentalImages(o)]
    if isinstance(o, wp.ClusWisard): return [canon(wp.ClusWisard.json(o)), wp.ClusWisard.classify(o, ALL), wp.ClusWisard.classifyUnsupervised(o, ALL), wp.ClusWisard.getMentalImages(o)]
    if isinstance(o, wp.BinInput): return [wp.BinInput.size(o), wp.BinInput.data(o)]
    if isinstance(o, wp.DataSet):
        r = []
        for i in range(wp.DataSet.size(o)):
            try: l = wp.DataSet.getLabel(o, i)
            except Exception: l = None
            r.append([wp.DataSet.get(o, i).data(), l])
        return r
    if isinstance(o, wp.RAMDataHandle): return [sorted(wp.RAMDataHandle.get(o, r).items()) for r in range(4)]
    if isinstance(o, wp.KernelCanvas): return wp.KernelCanvas.transform(o, [[1.0, 2.0], [3.0, 0.0]])
    if isinstance(o, wp.Synthesizer): return wp.Synthesizer.make(o)
    if isinstance(o, (list, tuple)): return [look(x) for x in o]
    if isinstance(o, dict): return {a: look(b) for a, b in o.items()}
    return o
X, XS, YS = [0, 1, 1], [[1, 1, 0], [0, 1, 0]], ["a", "c"]
# (name, object, types of the arguments, arguments, names of the arguments given by name, what else the first argument may be)
def C(name, f, types, args, names=(), also=""): return (name, f, types, args, names, also)
CALLS = [
  C("Discriminator.train", disc, [L(I32)], [X], also="nest Bin"), C("Discriminator.train", disc, [L(L(I32))], [XS], also="nest Bin"), C("Discriminator.train", disc, ["Bin"], [New(bits)], also="nest"), C("Discriminator.classify", disc, [L(I32)], [X], also="Bin"), C("Discriminator.classify", disc, ["Bin"], [New(bits)]), C("Discriminator.json", disc, ["no"], [False]),
  C("Wisard.train", wis, [L(L(I32)), L(S)], [XS, YS]), C("Wisard.train", wis, ["Data"], [New(data)]), C("Wisard.classify", wis, [L(L(I32))], [XS]), C("Wisard.classify", wis, ["Data"], [New(data)]), C("Wisard.leaveOneOut", wis, [L(I32), S], [[1, 0, 1], "b"]), C("Wisard.leaveMoreOut", wis, [L(L(I32)), L(S)], [[[0, 1, 1], [1, 0, 1]], ["a", "b"]]), C("Wisard.json", wis, ["no"], [False]),
  C("ClusWisard.train", clus, [L(L(I32)), L(S)], [XS, YS], also="dict"), C("ClusWisard.train", clus, [L(L(I32)), M(I32, S)], [XS, {0: "a", 1: "c"}]), C("ClusWisard.trainUnsupervised", clus, [L(L(I32))], [XS]), C("ClusWisard.classify", clus, [L(L(I32))], [XS]), C("ClusWisard.classifyUnsupervised", clus, [L(L(I32))], [XS]), C("ClusWisard.getMentalImage", clus, [S], ["a"]), C("ClusWisard.json", clus, ["no"], [False]),
  C("BinInput.get", bininput, [U64], [2]), C("BinInput.__getitem__", bininput, [U64], [1]), C("BinInput.set", bininput, [U64, I16], [1, 1]),
  C("DataSet.add", dataset, [L(I16)], [X]), C("DataSet.add", dataset, [L(I16), S], [X, "z"]), C("DataSet.add", dataset, ["Bin"], [New(bits)], also="list"), C("DataSet.add", dataset, ["Bin", S], [New(bits), "z"], also="list"), C("DataSet.get", dataset, [I32], [1]), C("DataSet.getLabel", dataset, [U64], [1]),
  C("RAMDataHandle.get", handle, [I32], [1]), C("RAMDataHandle.get", handle, [I32, U64], [1, 3]), C("RAMDataHandle.set", handle, [I32, U64, I32], [1, 3, 2]), C("RAMDataHandle.data", handle, [I32], [1]), C("RAMDataHandle.compare", handle, ["RDH"], [New(rdh)]),
  C("KernelCanvas.transform", kernel, [L(L(F))], [[[1.0, 2.5], [0.0, 3.0]]]),
  C("new Discriminator", None, [I32, I32], [2, 3]), C("new Discriminator", None, [I32, I32, B, B, I32], [2, 3, True, True, 3], ("ignoreZero", "completeAddressing", "base")), C("new Discriminator", None, [I32, I32, L(I32)], [2, 3, IDX], ("indexes",), "empty"), C("new Discriminator", None, [I32, I32, L(L(I32))], [2, 3, [[0, 1], [2, 0]]], ("mapping",), "empty"),
  C("new Wisard", None, [I32], [2]), C("new Wisard", None, [I32, B, B, B, B], [2, False, True, False, True], ("bleachingActivated", "ignoreZero", "completeAddressing", "searchBestConfidence")), C("new Wisard", None, [I32, B, B, B, I32, I32], [2, True, True, True, 3, 2], ("returnConfidence", "returnActivationDegree", "returnClassesDegrees", "base", "confidence")), C("new Wisard", None, [I32, L(I32)], [2, IDX], ("indexes",), "empty"), C("new Wisard", None, [I32, M(S, L(L(I32)))], [2, MAP], ("mapping",), "empty"),
  C("new ClusWisard", None, [I32, F, I32, I32], [2, 0.5, 3, 2]), C("new ClusWisard", None, [I32, F, I32, I32, B, B, B, I32, I32], [2, 0.5, 3, 2, False, True, True, 3, 2], ("bleachingActivated", "ignoreZero", "returnConfidence", "base", "confidence")),
  C("new KernelCanvas", None, [I32, I32], [2, 4]), C("new KernelCanvas", None, [I32, I32, I32, F, B], [2, 4, 2, 0.5, True], ("bitsByKernel", "activationDegree", "useDirection")), C("new BinInput", None, [L(I16)], [X], also="int text"), C("new BinInput", None, [U64], [9], also="list text"), C("new Synthesizer", None, [L(I32)], [[0, 2]], also="empty"),
]
def also(spec, place, name, new):
    a = spec[5]
    if not a: return False
    if "dict" in a: return place == (1, ()) and isinstance(new(), dict)
    top = place[0] == (0 if spec[1] or not spec[4] else len(spec[2]) - 1) and not place[1]
    if not top: return "nest" in a and place[1] and name.startswith("a list of") or "empty" in a and False
    n = new() if not isinstance(new, type) else new
    return ("Bin" in a and isinstance(n, wp.BinInput)) or ("nest" in a and name in ("a list of it",)) or ("list" in a and isinstance(n, (list, tuple))) or ("int" in a and isinstance(n, (int, Index, Int, Raises)) ) or ("text" in a and isinstance(n, (str, bytes, bytearray)))
def spots():
    out = []
    for c, spec in enumerate(CALLS):
        mine = []
        for i, (t, v) in enumerate(zip(spec[2], spec[3])):
            for path, pt, pv in places(t, v):
                for name, new, mean in replacements(pt, pv):
                    try: skip = also(spec, (i, path), name, new)
                    except BaseException: skip = False
                    if path and path[-1][0] == "k":
                        try: hash(new())
                        except TypeError: skip = True
                    if not skip: mine.append(((i, path), name, new, mean))
        out.append(mine)
    return out
SPOTS = spots()
def outcome(spec, args, state, before=None, obj=None):
    """what the call did: (refused, result, object afterwards)"""
    names = spec[4]; pos = args[:len(args) - len(names)]; kw = dict(zip(names, args[len(args) - len(names):]))
    if spec[1] is None:
        try: o = getattr(wp, spec[0].split()[1])(*pos, **kw)
        except BaseException as e: return (e, None, None, None)
        try: return (None, None, looked(o), o)
        except BaseException as e: return (None, "cannot be asked: %s" % type(e).__name__, None, o)
    o = obj if obj is not None else spec[1](state)
    if before: before(o)
    m = getattr(type(o) if obj is None else o, spec[0].split(".")[1]) if False else getattr(o, spec[0].split(".")[1])
    try: r = m(*pos, **kw)
    except BaseException as e: return (e, None, look(o), o)
    return (None, look(r), look(o), o)
def looked(o):
    r = look(o)
    if isinstance(o, wp.Wisard): o.train([[0, 1, 1], [1, 0, 1]], ["a", "b"]); r = [r, look(o)]
    elif isinstance(o, wp.ClusWisard): o.train([[0, 1, 1], [1, 0, 1]], ["a", "b"]); o.trainUnsupervised([[0, 0, 1], [1, 1, 0], [1, 1, 1]]); r = [r, look(o)]
    elif isinstance(o, wp.Discriminator): o.train([[0, 1, 1], [1, 0, 1]]); r = [r, look(o)]
    return r
def show(spec, changes): return spec[0] + "(" + ", ".join("argument %d%s: %s" % (p[0], "".join("[%s %r]" % x for x in p[1]), n) for p, n in changes) + ")"
def nspots(c): return len(SPOTS[c])
def place_of(c, i): return SPOTS[c][i][0]
# two places of which neither is inside the other
def apart(c, i, j):
    p, q = SPOTS[c][i][0], SPOTS[c][j][0]
    if p[0] != q[0]: return True
    n = min(len(p[1]), len(q[1])); return p[1][:n] != q[1][:n] and not any(x[0] == "k" for x in (p[1] + q[1]))
def run(c, state, which):
    """'' or what is wrong"""
    spec = CALLS[c]; args = [real(v) for v in spec[3]]; plain = [real(v) for v in spec[3]]; refuse = False; any_ = False; text = show(spec, [(SPOTS[c][w][0], SPOTS[c][w][1]) for w in which])
    for w in which:
        (i, path), name, new, mean = SPOTS[c][w]
        args[i] = put(args[i], path, new())
        if mean is REFUSE: refuse = True
        elif mean is ANY: any_ = True
        else: plain[i] = put(plain[i], path, real(mean.plain))
    before = look(spec[1](state)) if spec[1] else None
    e, r, after, o = outcome(spec, args, state)
    if isinstance(e, SystemError): return "broken|%s breaks a rule of Python: %s" % (text, e)
    if e is not None:
        if spec[1] and repr(after) != repr(before): return "trace|%s was refused (%s) but left a trace: %r instead of %r" % (text, type(e).__name__, after, before)
        if spec[1]:                                               # and the call with plain values does what it always does
            args = [real(v) for v in spec[3]]; a = outcome(spec, args, state, obj=o); b = outcome(spec, [real(v) for v in spec[3]], state)
            if repr(a[1:3]) != repr(b[1:3]) or (a[0] is None) != (b[0] is None): return "later|after %s was refused the call with plain values gives %r instead of %r" % (text, a[1:3], b[1:3])
        return ""
    if refuse: return "accepted|%s was accepted: %r %r" % (text, r, after)
    if any_: return ""
    e2, r2, after2, o2 = outcome(spec, plain, state)
    if e2 is not None: return "accepted|%s was accepted but the plain value is refused (%s)" % (text, e2)
    if repr(r) != repr(r2): return "result|%s gives %r instead of %r" % (text, r, r2)
    if repr(after) != repr(after2): return "object|%s makes it %r instead of %r" % (text, after, after2)
    return ""
# while an argument is read, the object is used
ACTS = {"Discriminator": [lambda o: o.train([1, 1, 0]), lambda o: o.train([[1, 1, 1], [0, 0, 0]]), lambda o: o.classify([0, 1, 1]), lambda o: o.json(), lambda o: o.train(wp.BinInput([0, 0, 1]))],
        "Wisard": [lambda o: o.train([[1, 1, 0]], ["new"]), lambda o: o.train([[1, 1, 0]], ["a"]), lambda o: o.classify([[0, 1, 1]]), lambda o: o.json(), lambda o: o.getMentalImages(), lambda o: o.train(data())],
        "ClusWisard": [lambda o: o.train([[1, 1, 0]], ["new"]), lambda o: o.train([[1, 1, 0]], ["a"]), lambda o: o.trainUnsupervised([[0, 1, 1]]), lambda o: o.classify([[0, 1, 1]]), lambda o: o.json(), lambda o: o.train([[1, 0, 0]], {0: "a"})],
        "BinInput": [lambda o: o.set(0, 1), lambda o: o.data()], "DataSet": [lambda o: o.add([1, 1, 1], "in between"), lambda o: o.get(0) if o.size() else None], "RAMDataHandle": [lambda o: o.set(1, 3, 77), lambda o: o.get(1)], "KernelCanvas": [lambda o: o.transform([[9.0, 9.0]])]}
def hooked(t, v, act, count):
    """the same value, reading it calls act once, at the count-th opportunity; numbers of opportunities so far in a list"""
    box = hooked.box
    def touch():
        i = box[0]; box[0] += 1
        if i == count: act()
    if isinstance(t, tuple) and t[0] == "L":
        s = Seq([hooked(t[1], x, act, count) for x in v])
        s.hit = lambda i: touch(); return s
    if t in LIMITS:
        class H:
            def __index__(self): touch(); return v
        return H()
    if t == F:
        class H:
            def __float__(self): touch(); return v
        return H()
    if t == "no":
        class H:
            def __bool__(self): touch(); return v
        return H()
    if isinstance(t, tuple) and t[0] == "M":
        return {hooked(t[1], a, act, count): hooked(t[2], b, act, count) for a, b in v.items()}
    return real(v)
def reentrant(c, state, act, count):
    spec = CALLS[c]; kind = spec[0].split(".")[0]; o = spec[1](state); done = []
    def f(o):
        try: ACTS[kind][act](o)
        except Exception: pass
    def go(): done.append(1); f(o)
    hooked.box = [0]
    args = [hooked(t, v, go, count) for t, v in zip(spec[2], spec[3])]
    e, r, after, o = outcome(spec, args, state, obj=o)
    if not done: return "-" if e is None or count > 200 else ""                # fewer opportunities
    text = "%s with call %d on the same object while its argument is read, at opportunity %d" % (spec[0], act, count)
    twin = spec[1](state); f(twin)
    if e is not None:
        if repr(after) != repr(look(twin)): return "trace|%s was refused (%s) but the object is %r instead of %r" % (text, type(e).__name__, after, look(twin))
        return ""
    e2, r2, after2, o2 = outcome(spec, [real(v) for v in spec[3]], state, obj=twin)
    if e2 is not None or repr(r) != repr(r2) or repr(after) != repr(after2): return "reentrant|%s gives %r %r instead of %r %r" % (text, r, after, r2, after2)
    return ""
def nacts(c): return len(ACTS[CALLS[c][0].split(".")[0]]) if CALLS[c][1] else 0
# another thread calls the same object while a call runs
def threads(c, state, act, at):
    spec = CALLS[c]; kind, method = spec[0].split("."); o = spec[1](state); f = ACTS[kind][act]; args = [real(v) for v in spec[3]]
    def attempt(g):
        try: return [None, look(g())]
        except Exception as e: return [type(e).__name__, None]
    seen = []
    watch(at, lambda: seen.append(attempt(lambda: f(o))))
    try: r = [None, getattr(o, method)(*args)]
    except Exception as e: r = [type(e).__name__, None]
    finally: hit = unwatch()
    if not hit: return "-"
    got = repr([r[0], look(r[1]), seen, look(o)]); allowed = []
    for order in 0, 1:
        twin = spec[1](state); mine = lambda: getattr(twin, method)(*[real(v) for v in spec[3]])
        if order: a = attempt(lambda: f(twin)); b = attempt(mine)
        else: b = attempt(mine); a = attempt(lambda: f(twin))
        allowed.append(repr(b + [[a], look(twin)]))
    if got not in allowed: return "threads|%s with call %d of another thread on the same object, at opportunity %d: %s is not what either order gives: %s" % (spec[0], act, at, got, " or ".join(allowed))
    return ""
# classes derived from those of the library
def derived(c, state, how):
    spec = CALLS[c]; kind = spec[0].split(".")[0]; cls = getattr(wp, kind)
    if how == 0: sub = type("Mine", (cls,), {"extra": 5})
    elif how == 1:
        def init(self, *a, **k): cls.__init__(self, *a, **k); self.extra = {}
        sub = type("Mine", (cls,), {"__init__": init})
    elif how == 2: sub = type("Mine", (cls,), {n: (lambda self, *a: 1 / 0) for n in dir(cls) if not n.startswith("_") and n != spec[0].split(".")[1] and n != "train"})      # overridden methods are not the library's business
    elif how == 3: sub = type("Mine", (type("Inner", (cls,), {}),), {"__slots__": ("x",)})
    else:                                                          # never made
        def init(self): pass
        sub = type("Mine", (cls,), {"__init__": init})
        try: o = sub()
        except TypeError: return ""
        try: getattr(o, spec[0].split(".")[1])(*[real(v) for v in spec[3]])
        except TypeError: return ""
        except Exception: return ""
        return "unborn|%s works on an object that was never made" % spec[0]
    o = spec[1](state, sub) if how != 2 else spec[1](state, sub)
    a = outcome(spec, [real(v) for v in spec[3]], state, obj=o); b = outcome(spec, [real(v) for v in spec[3]], state)
    if (a[0] is None) != (b[0] is None) or repr(a[1:3]) != repr(b[1:3]): return "derived|%s of a derived class (%d) gives %r instead of %r" % (spec[0], how, a[:3], b[:3])
    return ""
# no reference to an argument or a result is kept
def kept(c, state, which):
    spec = CALLS[c]; args = [real(v) for v in spec[3]]
    for w in which: args[SPOTS[c][w][0][0]] = put(args[SPOTS[c][w][0][0]], SPOTS[c][w][0][1], SPOTS[c][w][2]())
    flat = []
    def walk(x):
        if isinstance(x, (list, tuple, dict, str, bytes, float, Seq, wp.BinInput, wp.DataSet, wp.RAMDataHandle, array.array)) : flat.append(x)
        if type(x) in (list, tuple):
            for y in x: 
                if y is not x: walk(y)
        if isinstance(x, Seq):
            for y in x.v: walk(y)
    for a in args: walk(a)
    o = spec[1](state) if spec[1] else None; names = spec[4]; pos = args[:len(args) - len(names)]; kw = dict(zip(names, args[len(args) - len(names):]))
    f = getattr(o, spec[0].split(".")[1]) if o is not None else getattr(wp, spec[0].split()[1])
    def go():
        try: return f(*pos, **kw)
        except BaseException: return None
    go(); before = [sys.getrefcount(x) for x in flat]
    for i in range(3):
        r = go()
        if isinstance(r, (list, dict, tuple, wp.BinInput)) and sys.getrefcount(r) > 2: return "result|someone else holds the result of %s" % spec[0]
        r = None
    after = [sys.getrefcount(x) for x in flat]
    if before != after: return "kept|%s keeps %r of its arguments" % (show(spec, [(SPOTS[c][w][0], SPOTS[c][w][1]) for w in which]), [x for x, a, b in zip(flat, before, after) if a != b])
    return ""
)PY";
static py::dict* G;
static void constant() { env_reset(); rand_hook = [] { opportunity(); return 0; }; }
static void ready() {
  constant(); if (G) return;
  G = new py::dict(); (*G)["__builtins__"] = py::module_::import("builtins"); (*G)["canon"] = py::cpp_function([](const std::string& t) { return ref::canon(t); });
  (*G)["watch"] = py::cpp_function(watch); (*G)["unwatch"] = py::cpp_function(unwatch);
  try { py::exec(SCRIPT, *G); } catch (py::error_already_set& e) { fprintf(stderr, "C37: %s\n", e.what()); _Exit(2); }
  (*G)["plain_rdh"](ref::pack_cells(Cells{{5, 2}}) + "." + ref::pack_cells(Cells{{3, 3}, {~0ull, 4}}));
}
template <typename... A> std::string call(const char* f, A&&... a) { constant(); std::string s = (*G)[f](std::forward<A>(a)...).template cast<std::string>(); if (PyErr_Occurred()) { PyErr_Clear(); return "pending|an exception is left behind"; } return s; }
static int number(const char* f, int c) { return (*G)[f](c).cast<int>(); }
static int calls() { return (int)py::len((*G)["CALLS"]); }
static std::string name(int c) { return py::object(py::object((*G)["CALLS"])[py::int_(c)])[py::int_(0)].cast<std::string>(); }
static bool object(int c) { return !py::object(py::object((*G)["CALLS"])[py::int_(c)])[py::int_(1)].is_none(); }
static void judge(Ctx& k, const std::string& s) { if (s.empty()) return; size_t b = s.find('|'); k.fail(s.substr(0, b), s.substr(b + 1)); }
// one value, or two in places apart
SUITE(one) {
  ready(); int c = k.choose(calls()), n = number("nspots", c), w = k.choose(n), state = object(c) ? k.choose(2) : 0; k.log(name(c), " spot ", w); std::string s = call("run", c, state, V{w}); k.step(3); judge(k, s); k.state(str(c, " ", w, " ", state));
}
SUITE(two) {
  ready(); int c = k.choose(calls()), n = number("nspots", c), w = k.choose(n), u = k.choose(n); if (u <= w) return; if (!(*G)["apart"](c, w, u).cast<bool>()) return;
  k.log(name(c), " spots ", w, " ", u); std::string s = call("run", c, 1, V{w, u}); k.step(3); judge(k, s); k.state(str(c, " ", w, " ", u));
}
// while an argument is read, the object is used
SUITE(reentrant) {
  ready(); int c = k.choose(calls()), acts = number("nacts", c); if (!acts) return; int a = k.choose(acts), state = k.choose(2), at = k.choose(k.thorough ? 200 : 60); k.log(name(c), " act ", a, " at ", at); std::string s = call("reentrant", c, state, a, at); if (s == "-") return; k.step(3); judge(k, s); k.state(str(c, " ", a, " ", at, " ", state));
}
// another thread calls the same object while a call runs
SUITE(threads) {
  ready(); int c = k.choose(calls()), acts = number("nacts", c); if (!acts) return; int a = k.choose(acts), state = k.choose(2), at = k.choose(k.thorough ? 100 : 40); k.log(name(c), " act ", a, " of another thread at ", at); std::string s = call("threads", c, state, a, at); if (s == "-") return; k.step(3); judge(k, s); k.state(str(c, " ", a, " ", at, " ", state));
}
SUITE(derived) {
  ready(); int c = k.choose(calls()); if (!object(c)) return; int state = k.choose(2), how = k.choose(5); k.log(name(c), " derived ", how); std::string s = call("derived", c, state, how); k.step(3); judge(k, s); k.state(str(c, " ", how, " ", state));
}
SUITE(kept) {
  ready(); int c = k.choose(calls()), n = number("nspots", c), w = k.choose(n + 1) - 1, state = object(c) ? k.choose(2) : 0; k.log(name(c), " spot ", w); std::string s = call("kept", c, state, w < 0 ? V() : V{w}); k.step(4); judge(k, s); k.state(str(c, " ", w, " ", state));
}
