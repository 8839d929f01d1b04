"""Virtual arrays: transparent, materialized once per eviction, with assigned and deleted columns surviving."""
import gc
from .common import *

class Forgetful(object):
    """a cache that keeps nothing (docs/classes.adoc recommends one for "no caching")"""
    def __getitem__(self, k):
        raise KeyError(k)
    def __setitem__(self, k, v):
        pass
    def __delitem__(self, k):
        pass
    def clear(self):
        pass

class Counting(object):
    def __init__(self, make):
        self.make, self.calls = make, 0
    def __call__(self, *args, **kwargs):
        self.calls += 1
        return self.make(*args, **kwargs)

def content(E, what, n=3):
    ak, np = E.ak, E.np
    if what == "flat":
        return E.array("c", n)
    if what == "bools":
        return E.array("c", n, "bool")
    if what == "floats":
        return E.array("c", 2, "float64")
    c = E.array("c", 4, lo=-9, hi=9)
    if what == "jagged":
        return ak.JaggedArray.fromcounts(E.sizes("counts", 2, 0, 2), c)
    if what == "table":
        return ak.Table(x=c[:n], y=c[1:n + 1])
    if what == "masked":
        return ak.MaskedArray(E.array("m", n, "bool"), c[:n])
    if what == "jaggedtable":
        return ak.JaggedArray.fromcounts(E.sizes("counts", 2, 0, 2), ak.Table(x=c, y=c[::-1]))
    if what == "2d":
        return c.reshape((2, 2))
    if what == "indexed":
        return ak.IndexedArray([2, 0, 2], c)
    if what == "chunked":
        return ak.ChunkedArray([c[:1], c[1:]])
    if what == "union":
        return ak.UnionArray([0, 1, 0], [0, 0, 1], [c, E.array("d", 2, "float64")])
    if what == "tuple":
        return [c[0], c[1]]
    raise AssertionError(what)

CACHES = ("none", "dict", "key", "forgetful", "typed", "held", "evicted")

def virtual(E, array, how):
    gen = Counting(lambda: array)
    ak = E.ak
    if how == "none":
        return ak.VirtualArray(gen), gen
    if how == "dict":
        return ak.VirtualArray(gen, cache={}), gen
    if how == "key":
        return ak.VirtualArray(gen, cache={}, persistentkey="here"), gen
    if how == "forgetful":
        return ak.VirtualArray(gen, cache=Forgetful()), gen
    if how == "typed":
        return ak.VirtualArray(gen, type=ak.type.fromarray(array)), gen
    v = ak.VirtualArray(gen, cache={} if how == "evicted" else None)
    v.materialize()
    if how == "evicted":
        v.cache.clear()
    return v, gen

WHAT = ("flat", "bools", "floats", "jagged", "table", "masked", "jaggedtable", "2d", "indexed", "chunked", "union", "tuple")

def both(E, label, op, v, plain):
    """the operation gives on the virtual array what it gives on the plain one, which other properties' checks judge"""
    def want():
        try:
            r = op(plain)
            return E.norm(r)
        except Exception as err:
            raise Fail("{0}: {1}".format(type(err).__name__, err))
    E.agree(label, lambda: op(v), want)

def select_ops(E, n):
    np = E.np
    i = E.int("i", -n - 1, n, py=True)
    b = E.array("b", n, "bool")
    ops = [("tolist", lambda a: a), ("len", len), ("iter", list), ("a[i]", lambda a: a[i]), ("a[1:]", lambda a: a[1:]), ("a[::-1]", lambda a: a[::-1]), ("a[b]", lambda a: a[b]),
           ("a[[0]]", lambda a: a[[0]]), ("a[()]", lambda a: a[()]), ("a[[]]", lambda a: a[np.array([], dtype="int64")]), ("a[:, 0]", lambda a: a[:, 0]), ("a['x']", lambda a: a["x"]), ("a[['x']]", lambda a: a[["x"]]), ("a[['x', 'y']][1:]", lambda a: a[["x", "y"]][1:]),
           ("a['nothing']", lambda a: a["nothing"]), ("a.x", lambda a: a.x), ("columns", lambda a: a.columns if not isinstance(a, np.ndarray) else []), ("shape", lambda a: a.shape), ("str", lambda a: len(a.tolist()))]
    return ops

def compute_ops(E, n, what):
    np, ak = E.np, E.ak
    ops = [("a + 1", lambda a: a + 1), ("1 - a", lambda a: 1 - a), ("a + a", lambda a: a + a), ("-a", lambda a: -a), ("a == a", lambda a: a == a), ("a < 1", lambda a: a < 1),
           ("divmod", lambda a: np.isnan(a) if what == "floats" else np.add(a, a))]
    if what in ("flat", "masked", "floats"):
        ops += [("array + a", lambda a: np.arange(n) + a), ("a * array", lambda a: a * np.arange(n)), ("jagged + a", lambda a: ak.JaggedArray.fromcounts([1] * n, np.arange(n)) + a)]
    return ops

def reduce_ops(E, n, what):
    names = ["any", "all", "count", "count_nonzero"] + (["sum", "prod", "max", "min"] if what != "floats" else ["max", "min"])
    awk = lambda a: a if isinstance(a, E.ak.array.base.AwkwardArray) else E.ak.IndexedArray(E.np.arange(len(a)), a)
    return [(k, lambda a, k=k: getattr(awk(a), k)()) for k in names]

def structure_ops(E, n, what):
    np, ak = E.np, E.ak
    base = ak.array.base.AwkwardArray
    awk = lambda a: a if isinstance(a, base) else ak.IndexedArray(np.arange(len(a)), a)
    ops = [("counts", lambda a: awk(a).counts), ("boolmask", lambda a: awk(a).boolmask()), ("regular", lambda a: awk(a).regular()), ("flatten", lambda a: awk(a).flatten()), ("fillna", lambda a: awk(a).fillna(7)),
           ("pad", lambda a: awk(a).pad(2)), ("zeros_like", lambda a: awk(a).zeros_like()), ("ones_like", lambda a: awk(a).ones_like()), ("empty_like", lambda a: len(awk(a).empty_like())),
           ("argmax", lambda a: a.argmax() if isinstance(a, base) and what.startswith("jagged") else None), ("astype", lambda a: a.astype("float64")),
           ("concatenate", lambda a: awk(a).concatenate([awk(a)])), ("concatenate after", lambda a: awk(a if isinstance(a, ak.VirtualArray) else a).concatenate([])),
           ("jagged of it", lambda a: ak.JaggedArray.fromcounts([1, 0, len(a) - 1], a)), ("jagged of it [1:]", lambda a: ak.JaggedArray.fromcounts([1, 0, len(a) - 1], a)[1:].flatten()),
           ("masked of it", lambda a: ak.MaskedArray([True] + [False] * (len(a) - 1), a)), ("indexed of it", lambda a: ak.IndexedArray([1, 0, 1], a)), ("table of it", lambda a: ak.Table(z=a)["z"]), ("rows of it", lambda a: ak.Table(z=a)[::-1].tolist()),
           ("chunked of it", lambda a: ak.ChunkedArray([a, a])), ("chunked of it [1:]", lambda a: ak.ChunkedArray([a, a])[1:]), ("union of it", lambda a: ak.UnionArray([0, 1, 0], [0, 0, 1], [a, np.arange(2) * 0.5])), ("sparse of it", lambda a: ak.SparseArray(5, [0, 3], a)[[0, 3]]), ("objects of it", lambda a: ak.ObjectArray(a, Holder))]
    if "table" in what:
        ops = [(k, op) for k, op in ops if k != "regular"]     # makes one array of compound items
    if what.startswith("jagged"):
        ops += [("pairs", lambda a: a.pairs()), ("argpairs", lambda a: a.argpairs()), ("distincts", lambda a: a.distincts()), ("choose", lambda a: a.choose(2)), ("cross", lambda a: a.cross(a)), ("argcross", lambda a: a.argcross(a, nested=True)), ("choose2", lambda a: a.argchoose(2)), ("argdistincts", lambda a: a.argdistincts())]
    return ops

class Holder(object):
    def __init__(self, x):
        self.x = x
    def _normal_(self):
        return ("held", self.x)

def check(E, what, how, ops):
    plain = content(E, what)
    v, gen = virtual(E, plain, how)
    reference = E.np.array(plain) if isinstance(plain, list) else plain
    before = E.norm(reference)
    for label, op in ops(E, len(plain), what) if ops is not select_ops else ops(E, len(plain)):
        both(E, label, op, v, reference)
    E.same("the generator's array is as it was", reference, before)
    if how in ("none", "dict", "key", "typed", "held"):
        E.agree("generated once", lambda: gen.calls, lambda: 1)
        E.agree("materialized", lambda: v.ismaterialized, lambda: True)
        E.reached("once")

def _params(names, first, others=("none",)):
    return [{"what": w, "how": h} for w in names for h in (CACHES if w in first else others)]

for _name, _ops, _first in (("select", select_ops, ("flat", "table")), ("compute", compute_ops, ("flat", "jagged")), ("reduce", reduce_ops, ("jagged",)), ("structure", structure_ops, ("jagged", "table"))):
    def _make(ops):
        def f(E, what, how):
            check(E, what, how, ops)
        return f
    _f = _make(_ops)
    _f.__name__ = "virtual_" + _name
    harness("C14", quick=_params(WHAT, _first), thorough=_params(WHAT, WHAT), bounds="12 kinds of generated arrays of 2 to 4 items, without cache, with a dict, a persistent key, a cache that keeps nothing, a given type, materialized or evicted before: the operation gives what it gives on the generated array, and the generator ran once", need=())(_f)

def newvalues(E, name, n):
    c = E.array(name, n)
    return c, E.items(c)

@harness("C14", quick=[{"how": h, "first": f} for h in ("none", "dict", "key", "forgetful", "typed") for f in ("read", "set", "new", "del", "dellist")], thorough=[{"how": h, "first": f, "steps": 3} for h in ("none", "dict", "key", "forgetful", "typed") for f in ("read", "set", "new", "del", "dellist", "setlist", "evict", "copy")],
         bounds="a table of 2 rows and 2 columns: 3 (4) steps of reading, assigning an old or new column (or two at once), deleting one or two, evicting, copying; the columns are the assigned ones afterwards and after another eviction", need=("assigned", "deleted", "evicted"))
def virtual_history(E, how, first, steps=2):
    ak = E.ak
    c = E.array("c", 4)
    it = E.items(c)
    base = ak.Table(x=c[:2], y=c[2:])
    original = {"x": it[:2], "y": it[2:]}
    ref = dict(original)
    gen = Counting(lambda: base)
    cache = {"none": None, "typed": None, "forgetful": Forgetful()}[how] if how in ("none", "typed", "forgetful") else {}
    v = ak.VirtualArray(gen, cache=cache, persistentkey="here" if how == "key" else None, type=ak.type.fromarray(base) if how == "typed" else None)
    kept, evictions = [], 0
    for j in range(steps + 1):
        what = first if j == 0 else E.choice("step%d" % j, ["read", "set", "new", "del", "dellist", "evict"] + (["setlist", "copy"] if j == steps or steps > 2 else []))
        if what == "read":
            E.agree("read", lambda: v["x"] if "x" in ref else v, lambda: ref["x"] if "x" in ref else rows(ref))
        elif what in ("set", "new"):
            name = "x" if what == "set" else "z"
            w, wi = newvalues(E, "w%d" % j, 2)
            E.agree(what, lambda: v.__setitem__(name, w), lambda: None)
            ref[name] = wi
            E.reached("assigned")
        elif what == "setlist":
            w, wi = newvalues(E, "w%d" % j, 4)
            E.agree(what, lambda: v.__setitem__(["y", "z"], ak.Table(p=w[:2], q=w[2:])), lambda: None)
            ref["y"], ref["z"] = wi[:2], wi[2:]
        elif what == "del":
            E.agree("del", lambda: v.__delitem__("x"), lambda: ref.pop("x") and None if "x" in ref else gone(), errors=(KeyError, ValueError))
            E.reached("deleted")
        elif what == "dellist":
            if "x" in ref and "y" in ref:
                E.agree("del", lambda: v.__delitem__(["y", "x"]), lambda: None)
                del ref["x"], ref["y"]
        elif what == "evict":
            if cache is not None:
                cache.clear()
                evictions += 1
                E.reached("evicted")
        elif what == "copy" and how != "key":
            v2 = v.copy() if E.flag("shallow") else v.deepcopy()
            kept.append((v, dict(ref)))
            v = v2
    if not kept and how != "forgetful":
        E.agree("calls", lambda: gen.calls <= 1 + evictions, lambda: True)
    w, wi = newvalues(E, "last", 2)
    def state(label, v, ref):
        E.agree(label, lambda: v, lambda: rows(ref))
        E.agree(label + " columns", lambda: sorted(v.columns), lambda: sorted(ref))
        for n in sorted(ref):
            E.agree(label + " " + n, lambda: v[n], lambda: ref[n])
    state("after", v, ref)
    for old, oldref in kept:
        state("copied from", old, oldref)
    if cache is not None:
        cache.clear()
        state("after eviction", v, ref)
        for old, oldref in kept:
            state("copied from, after eviction", old, oldref)
    E.same("the generator's table", base, rows(original))

def gone():
    raise Fail("no such column")

def rows(ref):
    return [dict((n, x[i]) for n, x in ref.items()) for i in range(2)] if ref else []

@harness("C14", quick=[{"what": w} for w in ("jagged", "masked", "indexed", "chunked")], bounds="tables inside of jagged, masked, indexed and chunked arrays: columns assigned to and deleted from the virtual array survive eviction and do not reach the generator's array")
def virtual_nested_columns(E, what):
    ak, np = E.ak, E.np
    c = E.array("c", 3)
    it = E.items(c)
    t = ak.Table(x=c, y=c[::-1])
    w = E.array("w", 3)
    wi = E.items(w)
    if what == "jagged":
        counts = [2, 0, 1]
        base, new = ak.JaggedArray.fromcounts(counts, t), ak.JaggedArray.fromcounts(counts, w)
        fold = lambda x: [x[:2], [], x[2:]]
    elif what == "masked":
        base, new = ak.MaskedArray([False, True, False], t), ak.MaskedArray([False, True, False], w)
        fold = lambda x: [x[0], None, x[2]]
    elif what == "indexed":
        base, new = ak.IndexedArray([2, 0, 1], t), w
        fold = lambda x: [x[2], x[0], x[1]]
        wi = [wi[1], wi[2], wi[0]]
    else:
        base, new = ak.ChunkedArray([t[:2].deepcopy(), t[2:].deepcopy()]), ak.ChunkedArray([w[:2], w[2:]])
        fold = lambda x: x
    before = E.norm(base)
    cache = {}
    v = ak.VirtualArray(Counting(lambda: base), cache=cache)
    v["z"] = new
    E.agree("z", lambda: v["z"], lambda: fold(wi))
    E.agree("x", lambda: v["x"], lambda: fold(it))
    if what in ("indexed", "jagged", "chunked"):
        del v["y"]
        E.agree("columns", lambda: v.columns, lambda: ["x", "z"])
    cache.clear()
    E.agree("z after eviction", lambda: v["z"], lambda: fold(wi))
    E.agree("columns", lambda: sorted(v.columns), lambda: ["x", "y", "z"] if what == "masked" else ["x", "z"])
    E.same("the generator's array", base, before)

@harness("C14", quick=[{}], bounds="several virtual arrays in one cache: each has its own data, also after one of them was deleted or copied, given another generator, another cache or no cache")
def virtual_keys(E):
    ak = E.ak
    c, d = E.array("c", 2), E.array("d", 2)
    ci, di = E.items(c), E.items(d)
    cache = {}
    v, w = ak.VirtualArray(lambda: c, cache=cache), ak.VirtualArray(lambda: d, cache=cache)
    E.agree("v", lambda: v, lambda: ci)
    E.agree("w", lambda: w, lambda: di)
    u = v.copy()
    E.agree("two keys", lambda: u.key == v.key, lambda: False)
    E.agree("u", lambda: u, lambda: ci)
    u.materialize()
    del u
    E.agree("v kept", lambda: v.ismaterialized, lambda: True)
    u = v.copy()
    del v
    for j in range(6):       # ids are reused
        other = ak.VirtualArray(lambda: d, cache=cache)
        other.materialize()
        E.agree("u", lambda: u, lambda: ci)
        if j % 2:
            del other
    alone = {}
    t = ak.VirtualArray(lambda: c, cache=alone)
    k = ak.VirtualArray(lambda: d, cache=alone, persistentkey="here")
    t.materialize(), k.materialize()
    E.agree("held", lambda: len(alone), lambda: 2)
    del t, k
    gc.collect()
    E.agree("only the persistent key is left", lambda: list(alone), lambda: ["here"])
    g = u.copy(generator=lambda: d)
    E.agree("other generator", lambda: g, lambda: di)
    E.agree("args", lambda: ak.VirtualArray(lambda x, y: x if y else d, (c,), {"y": True}), lambda: ci)
    E.agree("args copied", lambda: ak.VirtualArray(lambda x: x, c).copy(args=d), lambda: di)
    m = ak.VirtualArray(lambda: c)
    m.materialize()
    m.cache = cache
    E.agree("cache added", lambda: m.ismaterialized, lambda: True)
    E.agree("m", lambda: m, lambda: ci)
    w.cache = None
    E.agree("cache removed", lambda: w, lambda: di)
    E.agree("dtype", lambda: str(m.dtype), lambda: "int64")

@harness("C14", quick=[{}], bounds="a given type is what len, type, dtype and shape report without materializing; another type of the generated array is refused", need=())
def virtual_types(E):
    ak, np = E.ak, E.np
    n = E.size("n", 0, 3)
    c = E.array("c", n, E.choice("d", ["int64", "float64"]))
    t = E.choice("t", ["right", "longer", "otherdtype"])
    ty = ak.type.ArrayType(n + 1 if t == "longer" else n, np.dtype("int8") if t == "otherdtype" else c.dtype)
    gen = Counting(lambda: c)
    v = ak.VirtualArray(gen, type=ty)
    E.agree("len", lambda: len(v), lambda: n + (t == "longer"))
    E.agree("type", lambda: v.type == ty, lambda: True)
    E.agree("dtype", lambda: str(v.dtype), lambda: str(ty.to))
    E.agree("calls", lambda: gen.calls, lambda: 0)
    E.agree("in a table", lambda: len(ak.Table(z=v)), lambda: n + (t == "longer"))
    E.agree("in a table, a slice", lambda: len(ak.Table(z=v)[::2]), lambda: (n + (t == "longer") + 1) // 2)
    E.agree("still", lambda: gen.calls, lambda: 0)
    E.agree("v", lambda: v, lambda: E.items(c) if t == "right" else gone(), errors=TypeError)
    E.agree("v again", lambda: v[:], lambda: E.items(c) if t == "right" else gone(), errors=TypeError)
