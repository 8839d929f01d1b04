"""No operation changes its operands."""
import copy as copymodule
import pickle
import numpy
from symnp.harness import eqcond
from .common import *
from .zoo import ZOO, build, kinds

def leaves(E, x):
    """the numpy arrays that x (an array of any kind, or lists and dicts of them) is made of"""
    out, seen = [], set()
    def walk(x):
        if id(x) in seen:
            return
        seen.add(id(x))
        if isinstance(x, E.np.ndarray):
            out.append(x)
            if x.dtype.kind == "O":
                for y in x.reshape(-1).tolist():
                    walk(y)
        elif isinstance(x, E.ak.AwkwardArray):
            for n in sorted(x.__dict__):
                walk(x.__dict__[n])
        elif isinstance(x, E.ak.array.table.Table.Row):
            walk(x._table)
        elif isinstance(x, dict):
            for y in x.values():
                walk(y)
        elif isinstance(x, (list, tuple)):
            for y in x:
                walk(y)
    walk(x)
    return out

def cells(x):
    return [y if isinstance(y, (bool, int, float)) or hasattr(y, "_e") else repr(y) for y in x.reshape(-1).tolist()]

class Plain(object):
    """the environment of a harness in which the contents of arrays (but not their structure) are fixed"""
    VALUES = {"i": (3, -1, 0, 5), "u": (3, 1, 0, 200), "f": (float("nan"), 2.5, -1.0, 0.0), "b": (True, False, True, True)}
    def __init__(self, E):
        self._E = E
    def __getattr__(self, name):
        return getattr(self._E, name)
    def array(self, name, n, dtype="int64", lo=None, hi=None):
        dt = numpy.dtype(dtype)
        if lo is not None or hi is not None or dt.kind == "b" and not name.startswith("a.content"):
            return self._E.array(name, n, dtype, lo, hi)
        return self._E.np.array((self.VALUES[dt.kind] * n)[:n], dtype=dtype)

def shape(E, x):
    """containers, as far as they are lists, tuples and dicts of arrays"""
    if isinstance(x, dict):
        return [(k, shape(E, y)) for k, y in x.items()]
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [shape(E, y) for y in x])
    if isinstance(x, E.ak.AwkwardArray):
        return (type(x).__name__, len(x))
    if isinstance(x, E.np.ndarray):
        return ("ndarray", str(x.dtype), list(x.shape))
    return type(x).__name__

PARTS = ("starts", "stops", "mask", "maskedwhen", "index", "tags", "offset", "columns", "rowname", "default", "coordinates", "lsborder", "chunksizes", "encoding", "args", "kwargs", "content", "contents", "chunks")

class Watch(object):
    """everything about the operands that no operation may change"""
    def __init__(self, E, *operands):
        self.E, self.operands = E, operands
        self.before = [(x, cells(x), list(x.shape), x.dtype) for x in leaves(E, list(operands))]
        self.values = [self.value(x) for x in operands]
    def value(self, x):
        E = self.E
        parts = {}
        if isinstance(x, E.ak.AwkwardArray):
            for n in PARTS:
                if not isinstance(x, (E.ak.VirtualArray, E.ak.ChunkedArray)) or n == "columns":
                    if n == "mask" and isinstance(x, E.ak.BitMaskedArray):
                        continue      # the bits after the last item are arbitrary
                    o = E.attempt(lambda: E.norm(getattr(x, n)))
                    if o.ok:
                        parts[n] = o.value
            parts["type"] = str(E.attempt(lambda: E.ak.type.fromarray(x)).value)
            parts["kinds"] = repr(kinds(E, x))
        return {"shape": repr(shape(E, x)), "items": E.norm(x), "parts": parts}
    def data(self, label):
        """no number in memory changed"""
        E = self.E
        for x, was, shp, dt in self.before:
            now = cells(x)
            if list(x.shape) != shp or x.dtype != dt:
                E.fail(label + ": an operand was reshaped", repr((list(x.shape), x.dtype)))
            if not all(p is q or raw(p) is raw(q) for p, q in zip(now, was)):
                E.require(label + ": the data of an operand changed", eqcond(now, was), lambda: "{0!r}, before {1!r}".format(now, was))
    def check(self, label):
        self.data(label)
        for i, (x, was) in enumerate(zip(self.operands, self.values)):
            self.E.same(label + ": operand", self.value(x), was)

def raw(x):
    return getattr(x, "_e", x)

def run(E, a, ops, *others, **kwargs):
    w = Watch(E, a, *others)
    for label, op in ops:
        o = E.attempt(op)
        if o.ok and kwargs.get("look", True):
            o = E.attempt(lambda: E.norm(o.value) and None)
        E.note(label, o.ok)
        w.data(label)
        if not E.symbolic:
            quietly(E, lambda: w.check(label))
    w.check("after all")

def quietly(E, fn):
    """find out in a replay which of the operations it was"""
    n = len(E.log)
    fn()
    del E.log[n:]

KINDS = sorted(ZOO)

def common(E, a, n):
    np, ak = E.np, E.ak
    return [
        ("a[0]", lambda: a[0]), ("a[-1]", lambda: a[-1]), ("a[n]", lambda: a[n]), ("a[1:]", lambda: a[1:]), ("a[::-1]", lambda: a[::-1]), ("a[:0]", lambda: a[:0]), ("a[5:]", lambda: a[5:]),
        ("a[[]]", lambda: a[[]]), ("a[()]", lambda: a[()]), ("a[list]", lambda: a[[n - 1, 0, -1]]), ("a[[n]]", lambda: a[[n]]), ("a[bools]", lambda: a[[True] + [False] * (n - 1)]), ("a[too many bools]", lambda: a[[True] * (n + 1)]),
        ("a[0, 0]", lambda: a[0, 0]), ("a[:, 0]", lambda: a[:, 0]), ("a[:, ::-1]", lambda: a[:, ::-1]), ("a[[0], [0]]", lambda: a[[0], [0]]), ("a[::-1, :1]", lambda: a[::-1, :1]), ("a[:, [0, 0]]", lambda: a[:, [0, 0]]),
        ("a['x']", lambda: a["x"]), ("a[['x']]", lambda: a[["x"]]), ("a['nosuch']", lambda: a["nosuch"]), ("a.x", lambda: a.x), ("a[columns]", lambda: a[a.columns]), ("a[[columns]][1:]", lambda: a[a.columns[:1]][1:]),
        ("a[object]", lambda: a[None]), ("a[2.5]", lambda: a[2.5]), ("reversed twice", lambda: a[::-1][::-1]),
    ]

@harness("C18", quick=[{"kind": k} for k in KINDS], bounds="one array of every kind and layout (57 of them: <=3 items, lists of <=2 items, free contents, masks and indexes): 28 selections one after the other, also refused ones")
def pure_select(E, kind):
    a, ref = build(E, kind)
    run(E, a, common(E, a, len(ref)))
    E.same("items", a, ref)

MANY = ("bitL", "chunked", "chunked jagged", "jagged jagged", "jagged masked", "indexed jagged", "union jagged", "jagged any", "jagged table any", "jagged offsets", "masked jagged", "sparse", "sparse default")

@harness("C18", quick=[{"kind": k, "k": 1 if k in MANY else 2} for k in KINDS], thorough=[{"kind": k, "k": 2} for k in KINDS], bounds="every kind of array: selection by an array of any two positions (of one position for 13 kinds with many layouts, in the quick tier) in range (negative too), by a one-dimensional mask, by jagged positions and masks; the array and what selects")
def pure_index(E, kind, k):
    a, ref = build(E, kind)
    np, ak = E.np, E.ak
    n = len(ref)
    what = E.choice("what", ["ints", "bools", "jagged"])
    if what == "ints":
        ix = E.array("ix", k, "int64", -n, max(n - 1, -n))
        run(E, a, [("a[ix]", lambda: a[ix]), ("a[ix, 0]", lambda: a[ix, 0]), ("a[:, ix]", lambda: a[:, ix])], ix)
    elif what == "bools":
        m = E.array("ix", n, "bool") if n <= 3 else np.array([True, False] * 5)[:n]
        run(E, a, [("a[m]", lambda: a[m]), ("a[m, :1]", lambda: a[m, :1]), ("a[m][m]", lambda: a[m][m])], m)
    else:
        counts = [min(len(r), 1) if isinstance(r, list) and (i == 0 or k > 1) else 0 for i, r in enumerate(ref)]
        ji = ak.JaggedArray.fromcounts(counts, E.array("ix", sum(counts), "int64", -1, 0))
        if isinstance(a, ak.JaggedArray):
            m = E.attempt(lambda: ak.JaggedArray.fromcounts([len(r) for r in ref], np.array([True, False] * 9)[:sum(len(r) for r in ref)]))
            if m.ok:
                run(E, a, [("a[ji]", lambda: a[ji]), ("a[jm]", lambda: a[m.value])], ji, m.value)
        run(E, a, [("a[ji]", lambda: a[ji])], ji)

@harness("C18", quick=[{"kind": k} for k in KINDS], bounds="every kind of array: 21 functions and operators (in-place ones too), alone, with itself, a number, an array, a list per item")
def pure_compute(E, kind):
    a, ref = build(Plain(E), kind)
    np, ak = E.np, E.ak
    n = len(ref)
    b = np.arange(n) + 1
    def inplace():
        x = a
        x += 1
        return x
    j = ak.JaggedArray.fromcounts([len(r) if isinstance(r, list) else 1 for r in ref], np.arange(sum(len(r) if isinstance(r, list) else 1 for r in ref)))
    run(E, a, [
        ("a + 1", lambda: a + 1), ("1 - a", lambda: 1 - a), ("a * a", lambda: a * a), ("-a", lambda: -a), ("abs(a)", lambda: abs(a)), ("a < 2", lambda: a < 2), ("a == a", lambda: a == a), ("~a", lambda: ~a),
        ("a + b", lambda: a + b), ("b - a", lambda: b - a), ("a + j", lambda: a + j), ("j - a", lambda: j - a), ("isnan", lambda: np.isnan(a)), ("a += 1", inplace), ("out=a", lambda: np.add(a, 1, out=a)), ("out=b", lambda: np.add(a, 1, out=b)),
        ("maximum", lambda: np.maximum(a, b)), ("a & True", lambda: a & True), ("a != 'x'", lambda: a != "x"), ("a + [..]", lambda: a + list(range(n))), ("add.reduce", lambda: np.add.reduce(a)),
    ], b, j, look=False)

@harness("C18", quick=[{"kind": k} for k in KINDS], bounds="every kind of array: all reductions")
def pure_reduce(E, kind):
    a, ref = build(Plain(E), kind)
    np = E.np
    run(E, a, [(f, lambda f=f: getattr(a, f)()) for f in ("any", "all", "count", "count_nonzero", "sum", "prod", "min", "max", "argmin", "argmax", "mean", "var", "std")] + [
        ("sum(regularaxis)", lambda: a.sum(regularaxis=0)), ("moment", lambda: a.moment(1)), ("argmax twice", lambda: a[a.argmax()])], look=False)

@harness("C18", quick=[{"kind": k} for k in KINDS], bounds="every kind of array: 38 restructuring, copying and inspecting operations one after the other")
def pure_restructure(E, kind):
    a, ref = build(Plain(E), kind)
    np, ak = E.np, E.ak
    n = len(ref)
    b, bref = ak.JaggedArray.fromcounts([1] * n, np.arange(n)), None
    ops = [
        ("flatten", lambda: a.flatten()), ("pad", lambda: a.pad(2)), ("clip", lambda: a.pad(1, clip=True)), ("pad1", lambda: a.pad(1, axis=1)), ("fillna", lambda: a.fillna(5)), ("pad fillna", lambda: a.pad(2).fillna(0)), ("regular", lambda: a.regular()),
        ("compact", lambda: a.compact()), ("concatenate", lambda: a.concatenate([a])), ("concatenate1", lambda: a.concatenate([a], axis=1)), ("concatenate b", lambda: a.concatenate([b])), ("zip", lambda: ak.JaggedArray.zip(x=a, y=b)), ("zip a", lambda: ak.JaggedArray.zip(a, b)),
        ("unzip", lambda: a.unzip()), ("tojagged", lambda: a.tojagged(b)), ("b.tojagged", lambda: b.tojagged(a)), ("cross", lambda: a.cross(b)), ("b cross", lambda: b.cross(a, nested=True)), ("pairs", lambda: a.pairs()), ("distincts", lambda: a.distincts()), ("argpairs", lambda: a.argpairs()), ("choose", lambda: a.choose(2)),
        ("ones_like", lambda: a.ones_like()), ("zeros_like", lambda: a.zeros_like()), ("empty_like", lambda: len(a.empty_like())), ("astype", lambda: a.astype("float32")), ("copy", lambda: a.copy()), ("deepcopy", lambda: a.deepcopy()), ("copy.copy", lambda: copymodule.copy(a)), ("copy.deepcopy", lambda: copymodule.deepcopy(a)), ("boolmask", lambda: a.boolmask()),
        ("tolist", lambda: a.tolist()), ("iteration", lambda: list(a)), ("np.array", lambda: np.array(a) is not None and None), ("counts", lambda: a.counts), ("index", lambda: a.index), ("parents", lambda: a.parents), ("valid", lambda: a.valid()),
    ]
    run(E, a, ops, b, look=False)

@harness("C18", quick=[{"kind": k} for k in KINDS], bounds="every kind of array: describing, storing, pickling, converting")
def pure_convert(E, kind):
    a, ref = build(Plain(E), kind)
    np, ak = E.np, E.ak
    storage = {"other": b"xx"}
    ops = [("type", lambda: str(a.type)), ("hash", lambda: hash(a.type) and None), ("dtype", lambda: str(a.dtype)), ("shape", lambda: a.shape), ("nbytes", lambda: a.nbytes and None), ("layout", lambda: str(a.layout) and None), ("columns", lambda: a.columns), ("len", lambda: len(a)),
           ("serialize", lambda: ak.persist.serialize(a, {}) and None), ("serialize named", lambda: ak.persist.serialize(a, {}, "name", delimiter="/") and None), ("topython", lambda: ak.persist.topython(a) and None), ("pickle", lambda: pickle.dumps(a) and None),
           ("repr", lambda: len(repr(a[:0]))), ("memo", lambda: copymodule.deepcopy([a, a]) and None)]
    run(E, a, ops)
    E.require("storage", list(storage) == ["other"], lambda: "changed")

@harness("C18", quick=[{"kind": k} for k in KINDS], bounds="every kind of array: all data of a deep copy overwritten")
def pure_deepcopy(E, kind):
    a, ref = build(E, kind)
    np = E.np
    how = E.choice("how", ["deepcopy", "copy.deepcopy"])
    w = Watch(E, a)
    b = E.attempt(lambda: a.deepcopy() if how == "deepcopy" else copymodule.deepcopy(a))
    E.note("made", b.ok)
    if not b.ok:
        return
    E.same("same items", b.value, ref)
    done = 0
    for x in leaves(E, b.value):
        if x.dtype.kind in "biuf" and x.size and x.flags.writeable:
            x[...] = ~x if x.dtype.kind == "b" else x + 1
            done += 1
    E.note("overwritten", done)
    w.check(how)

@harness("C18", quick=[{"kind": k} for k in KINDS], bounds="every kind of array: every part of a shallow copy, of a selection or of the array under another name assigned anew; columns added to and removed from copies and selections")
def pure_copy(E, kind):
    a, ref = build(E, kind)
    ak, np = E.ak, E.np
    w = Watch(E, a)
    b = E.attempt(lambda: a.copy())
    if not b.ok:
        E.note("copy", False)
        return
    b = b.value
    E.same("same items", b, ref)
    for n in PARTS[:-3] + ("content",):
        if n in ("columns", "chunksizes"):
            continue
        o = E.attempt(lambda: getattr(b, n))
        if o.ok and isinstance(o.value, np.ndarray):
            p = E.attempt(lambda: setattr(b, n, o.value[::-1]))
        elif o.ok and n == "content":
            p = E.attempt(lambda: setattr(b, n, o.value[:0]))
        elif o.ok and n == "rowname":
            p = E.attempt(lambda: setattr(b, n, "Another"))
        else:
            continue
        E.note("set " + n, p.ok)
        w.check("set " + n)
    for label, make in (("copy", lambda: a.copy()), ("[:]", lambda: a[:]), ("[::-1]", lambda: a[::-1]), ("columns", lambda: a[a.columns])):
        o = E.attempt(make)
        if not o.ok or len(E.attempt(lambda: a.columns).value or []) == 0:
            continue
        if label != "columns" and not isinstance(a, ak.Table):
            continue      # the copy refers to the same table, of which columns are assigned
        c = o.value
        for f in (lambda: c.__setitem__("new", np.arange(len(c))), lambda: c.__delitem__(a.columns[0])):
            p = E.attempt(f)
            E.note(label + " columns", p.ok)
            w.check(label + " columns")

def containers(E, x):
    """lists, tuples and dicts as they are, arrays by their items"""
    if isinstance(x, dict):
        return ("dict", [(k, containers(E, y)) for k, y in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [containers(E, y) for y in x])
    return E.norm(x)

def untouched(E, ops):
    """every operation gets operands of its own; then the result is changed in every allowed way"""
    for label, operands, op in ops:
        w = Watch(E, *[x for x in operands if isinstance(x, (E.np.ndarray, E.ak.AwkwardArray))])
        before = containers(E, operands)
        o = E.attempt(lambda: op(*operands))
        if o.ok:
            E.attempt(lambda: E.norm(o.value))
        E.note(label, o.ok)
        w.check(label)
        E.same(label, containers(E, operands), before)
        if o.ok:
            yield label, o.value
            E.same(label + ", then changed", containers(E, operands), before)

@harness("C18", quick=[{"what": w} for w in ("jagged", "masked", "indexed", "others", "python", "assign")], bounds="all constructors: arrays of <=3 free items or of structure, lists, dictionaries and other arguments given to them, also after columns, chunks or items were added to the result")
def pure_construct(E, what):
    ak, np = E.ak, E.np
    c = E.array("c", 3)
    f = lambda *x: np.array(x, dtype="int64")
    J, M = ak.JaggedArray, ak.MaskedArray
    words = {"a": [1, 2, {"b": [3.5, None]}], "c": u"x"}
    if what == "jagged":
        p = E.array("p", 3, "int64", -1, 2)
        u = E.array("u", 3, "int64", 0, 1)
        n = E.array("n", 2, "int64", 0, 2)
        ops = [
            ("JaggedArray", [f(0, 1), f(1, 3), c], J), ("JaggedArray lists", [[0, 1], [1, 3], [1, 2, 3]], J), ("fromcounts", [n, c], J.fromcounts), ("fromoffsets", [f(0, 1, 3), c], J.fromoffsets), ("fromoffsets list", [[0, 1, 3], c], J.fromoffsets),
            ("fromparents", [p, c], J.fromparents), ("fromparents length", [p, c, 4], J.fromparents), ("fromuniques", [u, c], J.fromuniques), ("fromiter", [[[1], [2, 3], []]], J.fromiter), ("fromjagged", [J.fromcounts([1, 2], c)], J.fromjagged),
            ("fromregular", [c.reshape((3, 1))], J.fromregular), ("fromfolding", [c, 2], J.fromfolding), ("offsets2parents", [f(0, 1, 3)], J.offsets2parents), ("counts2offsets", [n], J.counts2offsets), ("startsstops2parents", [f(0, 1), f(1, 3)], J.startsstops2parents), ("parents2startsstops", [p], J.parents2startsstops), ("uniques2offsetsparents", [u], J.uniques2offsetsparents),
            ("ByteJaggedArray", [f(0, 8), f(8, 16), c.view(np.uint8), np.dtype("int64")], ak.ByteJaggedArray if hasattr(ak, "ByteJaggedArray") else lambda *a: None), ("zip", [J.fromcounts([1, 2], c), c[:2]], J.zip), ("concatenate", [[J.fromcounts([1, 2], c), J.fromcounts([3], c)]], J.concatenate),
        ]
    elif what == "masked":
        m = E.array("m", 3, "bool")
        ops = [
            ("MaskedArray", [m, c, True], M), ("MaskedArray lists", [[True, False, True], [1, 2, 3]], M), ("boolmask", [m, c], ak.BitMaskedArray.fromboolmask), ("boolmask lsb", [m, c, False, True], lambda m, c, w, l: ak.BitMaskedArray.fromboolmask(m, c, maskedwhen=w, lsborder=l)), ("bit2bool", [np.array([5], dtype="uint8"), True], ak.BitMaskedArray.bit2bool), ("bool2bit", [m], ak.BitMaskedArray.bool2bit),
            ("IndexedMaskedArray", [f(-1, 0, 2), c], ak.IndexedMaskedArray), ("fromboolmask", [f(0, -1, 1), c, -1], ak.IndexedMaskedArray), ("fromiter", [[1, None, 2]], ak.fromiter),
        ]
    elif what == "indexed":
        i = E.array("i", 2, "int64", -3, 2)
        j = E.array("j", 2, "int64", 0, 3)
        t = E.array("t", 3, "uint8", 0, 1)
        x = ak.SparseArray(5, f(1, 3), c[:2])
        ops = [
            ("IndexedArray", [i, c], ak.IndexedArray), ("invert", [f(2, 0, 1)], ak.IndexedArray.invert), ("SparseArray", [5, f(1, 3), c[:2], 7], ak.SparseArray), ("sparse[..]", [x, j], lambda x, j: x[j]), ("sparse[-..]", [x, -1 - j], lambda x, j: x[j]), ("UnionArray", [t, f(0, 1, 2), [c, c * 1.5]], ak.UnionArray),
            ("fromtags", [t, [c, [1.5, 2.5, 3.5]]], ak.UnionArray.fromtags), ("sparse mask", [x, np.array([True, False, True, False, False])], lambda x, m: x[m]), ("dense", [x], lambda x: x.dense), ("from dense", [c], lambda c: ak.SparseArray.fromdense(c) if hasattr(ak.SparseArray, "fromdense") else None),
        ]
    elif what == "others":
        d = {"x": c, "y": J.fromcounts([1, 0, 2], c)}
        kw = {"kw": [1, 2]}
        lst = [c, c[:1]]
        ops = [
            ("Table(**)", [d], lambda d: ak.Table(**d)), ("Table(dict)", [d], ak.Table), ("Table([..])", [["x", "y"], [c, c]], lambda n, c: ak.Table(list(zip(n, c)))), ("contents=", [d], lambda d: setcontents(ak.Table(), d)), ("ObjectArray", [c, [1], kw], lambda c, a, k: ak.ObjectArray(c, made, *a, **k)), ("fromiter strings", [["a", "bc"]], ak.StringArray.fromiter),
            ("ChunkedArray", [lst, [3, 1]], ak.ChunkedArray), ("ChunkedArray unknown", [lst], ak.ChunkedArray), ("AppendableArray", [(2,), "int64", [c[:2]]], lambda s, d, k: ak.AppendableArray(s, np.dtype(d), k)), ("VirtualArray", [[c], kw], lambda a, k: ak.VirtualArray(produce, a, k)), ("concatenate", [[c, c]], ak.AwkwardArray.concatenate), ("ChunkedArray.concatenate", [[ak.ChunkedArray([c]), ak.ChunkedArray([c])]], ak.ChunkedArray.concatenate),
        ]
    elif what == "python":
        ops = [("fromiter", [[words, dict(words)]], ak.fromiter), ("fromiter list", [[[1, 2], [], [3, None]]], ak.fromiter), ("tuples", [[(1, [2]), (3, [])]], ak.fromiter), ("mixed", [[1, u"a", [2], None, words]], ak.fromiter)]
    else:
        t = ak.Table(x=c)
        new = E.array("new", 3)
        jag = J.fromcounts([1, 0, 2], new)
        ops = [("t[..] =", [new], lambda v: t.__setitem__("new", v)), ("t[[..]] =", [ak.Table(a=new, b=jag)], lambda v: t.__setitem__(["p", "q"], v)), ("jagged[..] =", [jag], lambda v: J.fromcounts([1, 0, 2], ak.Table(x=c)).__setitem__("new", v)), ("jagged[..] = flat", [new], lambda v: J.fromcounts([1, 0, 2], ak.Table(x=c)).__setitem__("new", v)), ("masked[..] =", [new], lambda v: M([True, False, False], ak.Table(x=c)).__setitem__("new", v)),
               ("append", [f(1, 2)], lambda v: ak.AppendableArray((2,), np.dtype("int64")).extend(v)), ("indexed[..] =", [new], lambda v: ak.IndexedArray([2, 0, 1], ak.Table(x=c)).__setitem__("new", v)), ("chunked[..] =", [ak.ChunkedArray([new, new])], lambda v: ak.ChunkedArray([ak.Table(x=c), ak.Table(x=c)]).__setitem__("new", v))]
    for label, x in untouched(E, [E.choice("op", ops)]):
        for change in (lambda: x.__setitem__("extra", np.arange(len(x))), lambda: x.append(4), lambda: x.append(np.array([1, 2])), lambda: x.extend([7, 8]), lambda: x.__delitem__(x.columns[0]), lambda: x.knowchunksizes()):
            p = E.attempt(change)
            E.note(label, p.ok)

def setcontents(t, d):
    t.contents = d
    return t

def made(x, *args, **kwargs):
    return Thing(x)

class Thing(object):
    def __init__(self, x):
        self.x = x
    def _normal_(self):
        return self.x

def produce(c, **kwargs):
    return c
