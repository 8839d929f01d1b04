"""Reducers, positions of extrema, sort order and moments of jagged arrays, list by list."""
import numpy as _np
from .common import *

def kind(dtype):
    return _np.dtype(dtype).kind

def isnan(E, x):
    return E.sel(x != x)

def present(E, xs):
    """what reducers see: no missing values, no NaN"""
    return [x for x in xs if x is not None and not isnan(E, x)]

def acc(dtype):
    """accumulator type of sums and products"""
    dt = _np.dtype(dtype)
    if dt.kind == "b" or (dt.kind == "i" and dt.itemsize < 8):
        return _np.dtype("int64")
    if dt.kind == "u" and dt.itemsize < 8:
        return _np.dtype("uint64")
    return dt

def cast(E, x, dt):
    return E.np.array([x]).astype(dt)[0]

def extreme(dtype, ismin):
    dt = _np.dtype(dtype)
    if dt.kind in "iu":
        ii = _np.iinfo(dt)
        return ii.max if ismin else ii.min
    return float("inf") if ismin else float("-inf")

def refreduce(E, name, xs, dtype):
    orig, xs = xs, present(E, xs)
    if name == "count":
        return len(xs)
    if name == "count_nonzero":
        return sum(1 for x in xs if E.sel(x != 0))
    if name == "any":
        return any(E.sel(x != 0) for x in xs)
    if name == "all":
        return all(E.sel(x != 0) for x in xs)
    if name in ("sum", "prod"):
        f = E.np.add if name == "sum" else E.np.multiply
        if kind(dtype) == "f":      # a NaN counts as the identity (which keeps the solver's terms alike)
            xs = [cast(E, 0 if name == "sum" else 1, dtype) if isnan(E, x) else x for x in orig if x is not None]
        if not xs:
            return 0 if name == "sum" else 1
        out = cast(E, xs[0], acc(dtype))
        for x in xs[1:]:
            out = f(out, cast(E, x, acc(dtype)))
        return out
    if not xs:
        return extreme(dtype, name == "min")
    out = xs[0]
    for x in xs[1:]:
        if E.sel(x < out) if name == "min" else E.sel(x > out):
            out = x
    return out

ALL = ("sum", "prod", "any", "all", "count", "count_nonzero", "min", "max")

@harness("C05", quick=[{"p": "counts", "n": 3, "L": 2, "d": "int64", "which": ("sum", "prod", "count", "any", "all", "count_nonzero")}, {"p": "counts", "n": 2, "L": 2, "d": "int64", "which": ("min", "max")},
                       {"p": "offsets", "n": 2, "L": 1, "d": "int64", "which": ALL}, {"p": "offsets", "n": 3, "L": 1, "d": "int64", "which": ("sum", "max")}, {"p": "any", "n": 2, "L": 2, "d": "int64", "which": ("sum", "prod", "count")}, {"p": "any", "n": 2, "L": 1, "d": "int64", "which": ("any", "all", "min", "max", "count_nonzero")}],
         thorough=[{"p": "counts", "n": 4, "L": 2, "d": "int64", "which": ("sum", "count")}, {"p": "offsets", "n": 3, "L": 2, "d": "int64", "which": ("sum", "prod")}, {"p": "offsets", "n": 2, "L": 2, "d": "int64", "which": ("min", "max")}, {"p": "any", "n": 3, "L": 2, "d": "int64", "which": ("sum",)}, {"p": "any", "n": 2, "L": 2, "d": "int64", "which": ("min", "any", "all")}],
         bounds="<=3 (4) lists of <=2 items in every layout, any int64 items")
def reduce_int(E, p, n, L, d, which):
    a, ref = jagged(E, "a", maxlists=n, maxlen=L, placement=p, total=3 if L > 1 else 2, dtype=d)
    rows = ref.all()
    for name in which:
        E.agree(name, lambda: getattr(a, name)(), lambda: [refreduce(E, name, r, d) for r in rows])
    E.same("a unchanged", a, rows)

@harness("C05", quick=[{"p": "counts", "L": 2, "which": w} for w in (("sum", "prod"), ("any", "all", "count"), ("count_nonzero",), ("min", "max"))] + [{"p": "offsets", "L": 1, "which": ALL}, {"p": "any", "L": 1, "which": ("sum", "min", "all")}],
         thorough=[{"p": "any", "L": 2, "which": w} for w in (("sum", "count"), ("min",), ("any", "all"))] + [{"p": "offsets", "L": 2, "which": w} for w in (("prod",), ("max",), ("count_nonzero",))], bounds="<=2 lists of <=2 floating-point items in every layout, any value including NaN and infinities")
def reduce_float(E, p, L, which):
    a, ref = jagged(E, "a", maxlists=2, maxlen=L, placement=p, total=2, dtype="float64")
    rows = ref.all()
    for name in which:
        E.agree(name, lambda: getattr(a, name)(), lambda: [refreduce(E, name, r, "float64") for r in rows])
    E.same("a unchanged", a, rows)

@harness("C05", quick=[{"d": d} for d in ("int8", "uint8", "int32", "uint64", "bool", "float32")], bounds="<=2 lists of <=2 items of each number type")
def reduce_dtypes(E, d):
    a, ref = jagged(E, "a", maxlists=2, maxlen=2, placement="offsets" if d == "uint8" else "counts", dtype=d)
    rows = ref.all()
    for name in ("sum", "prod", "any", "all", "count") if d != "bool" else ("sum", "any", "all", "count", "count_nonzero"):
        E.agree(name, lambda: getattr(a, name)(), lambda: [refreduce(E, name, r, d) for r in rows])

@harness("C05", quick=[{"d": d} for d in ("int8", "uint8", "int32", "uint64", "float32")], bounds="<=2 lists of <=2 items of each number type")
def reduce_minmax_dtypes(E, d):
    a, ref = jagged(E, "a", maxlists=2, maxlen=2, placement="counts", dtype=d)
    rows = ref.all()
    for name in ("min", "max"):
        E.agree(name, lambda: getattr(a, name)(), lambda: [refreduce(E, name, r, d) for r in rows])

@harness("C05", quick=[{"p": "counts", "q": "counts"}, {"p": "any", "q": "offsets"}], thorough=[{"p": "any", "q": "any"}, {"p": "offsets", "q": "offsets"}], bounds="<=2 outer lists of <=2 inner lists of <=2 items: the innermost lists are reduced")
def reduce_doubly(E, p, q):
    def content(total):
        b, rb = jagged(E, "in", nlists=total, maxlen=1 if q != "counts" else 2, placement=q, total=2)
        return b, rb.all()
    a, ref = jagged(E, "a", maxlists=2, maxlen=1 if p == "any" else 2, placement=p, total=2, content=content)
    rows = ref.all()
    for name in ("sum", "count", "prod"):
        E.agree(name, lambda: getattr(a, name)(), lambda: [[refreduce(E, name, y, "int64") for y in r] for r in rows])
    E.agree("sum().sum()", lambda: a.sum().sum(), lambda: [refreduce(E, "sum", [refreduce(E, "sum", y, "int64") for y in r], "int64") for r in rows])
    E.agree("argmax", lambda: a.count().argmax(), lambda: [refarg(E, [len(y) for y in r], False) for r in rows])

@harness("C05", quick=[{"p": "offsets", "names": ("sum", "count")}, {"p": "any", "names": ("sum", "any")}, {"p": "counts", "names": ("max", "min")}], bounds="<=2 lists of <=2 records with two fields")
def reduce_table(E, p, names):
    def content(total):
        x, y = E.array("x", total, "int64"), E.array("y", total, "bool" if p == "offsets" else "int64")
        return E.ak.Table(x=x, y=y), [(s, t) for s, t in zip(E.items(x), E.items(y))]
    a, ref = jagged(E, "a", maxlists=2, maxlen=2 if p != "any" else 1, placement=p, total=2, content=content)
    rows = ref.all()
    for name in names:
        E.agree(name, lambda: getattr(a, name)(), lambda: [{"x": refreduce(E, name, [s for s, t in r], "int64"), "y": refreduce(E, name, [t for s, t in r], "bool" if p == "offsets" else "int64")} for r in rows])

@harness("C05", quick=[{"p": "offsets", "d": "int64", "kind": "mask", "names": ("sum", "count", "any")}, {"p": "any", "d": "int64", "kind": "mask", "names": ("sum", "prod", "all", "count")}, {"p": "counts", "d": "int64", "kind": "mask", "names": ("min", "max", "count_nonzero")},
                       {"p": "counts", "d": "float64", "kind": "mask", "names": ("sum", "count")}, {"p": "counts", "d": "int64", "kind": "indexed", "names": ("sum", "count", "max", "all")}, {"p": "counts", "d": "int64", "kind": "bits", "names": ("prod", "count", "min", "any")}],
         bounds="<=2 lists of <=2 possibly missing items, boolean mask, packed mask or masked index")
def reduce_masked(E, p, d, kind, names):
    def content(total):
        x, m = E.array("x", total, d), E.array("m", total, "bool")
        xs, ms = E.items(x), E.items(m)
        if kind == "mask":
            c = E.ak.MaskedArray(m, x)
        elif kind == "bits":
            c = E.ak.BitMaskedArray.fromboolmask(m, x)
        else:
            c = E.ak.IndexedMaskedArray(E.np.where(m, E.np.array(-1, dtype="int64"), E.np.arange(total)), x)
        return c, [None if E.sel(b) else v for v, b in zip(xs, ms)]
    a, ref = jagged(E, "a", maxlists=2, maxlen=2 if p == "counts" else 1, placement=p, total=2, content=content)
    rows = ref.all()
    for name in names:
        E.agree(name, lambda: getattr(a, name)(), lambda: [refreduce(E, name, r, d) for r in rows])

@harness("C05", bounds="<=2 lists of <=2 items of shape (2,): the last dimension is reduced; starts and stops of shape (2,2)")
def reduce_regular(E):
    if E.flag("inner"):
        t = E.size("t", 1, 2)
        x = E.array("x", 2 * t, "int64")
        xs = E.items(x)
        a = E.ak.JaggedArray.fromcounts(E.np.array([t - 1, 1] if t else [0, 0], dtype="int64"), x.reshape(t, 2))
        rows = [[[xs[2 * i], xs[2 * i + 1]] for i in range(t - 1)], [[xs[2 * t - 2], xs[2 * t - 1]]]]
        for name in ("sum", "prod", "any", "all", "count"):
            E.agree(name, lambda: getattr(a, name)(), lambda: [[refreduce(E, name, y, "int64") for y in r] for r in rows])
    else:
        x = E.array("x", 3, "int64")
        xs = E.items(x)
        cs = E.sizes("c", 4, 0, 1)
        s = [E.size("s%d" % i, 0, 1) if c else 0 for i, c in enumerate(cs)]
        a = E.ak.JaggedArray(E.np.array(s, dtype="int64").reshape(2, 2), E.np.array([i + c for i, c in zip(s, cs)], dtype="int64").reshape(2, 2), x)
        rows = [xs[i:i + c] for i, c in zip(s, cs)]
        for name in ("sum", "count", "all"):
            E.agree(name, lambda: getattr(a, name)(), lambda: [[refreduce(E, name, rows[0], "int64"), refreduce(E, name, rows[1], "int64")], [refreduce(E, name, rows[2], "int64"), refreduce(E, name, rows[3], "int64")]])

@harness("C05", bounds="a user's reducer (subtraction-free binary function with an identity) on <=3 lists of <=2 items")
def reduce_generic(E):
    a, ref = jagged(E, "a", maxlists=3, maxlen=2, placement="offsets")
    rows = ref.all()
    def want(f, ident):
        out = []
        for r in rows:
            x = ident if not r else r[0]
            for y in r[1:]:
                x = f(x, y)
            out.append(x)
        return out
    E.agree("xor", lambda: a.reduce(E.np.bitwise_xor, 0), lambda: want(lambda x, y: x ^ y, 0))
    E.agree("or", lambda: a.reduce(E.np.bitwise_or, 7), lambda: want(lambda x, y: x | y, 7))

def refarg(E, xs, ismin):
    best = None
    for i, x in enumerate(xs):
        if x is None or isnan(E, x):
            continue
        if best is None or (E.sel(x < xs[best]) if ismin else E.sel(x > xs[best])):
            best = i
    return [] if best is None else [best]

@harness("C05", quick=[{"p": "counts", "d": "int64", "n": 3, "L": 2}, {"p": "counts", "d": "int64", "n": 1, "L": 3}, {"p": "offsets", "d": "int64", "n": 2, "L": 2}, {"p": "any", "d": "int64", "n": 2, "L": 2}, {"p": "counts", "d": "float64", "n": 2, "L": 2}, {"p": "counts", "d": "uint8", "n": 2, "L": 2}],
         thorough=[{"p": "offsets", "d": "int64", "n": 3, "L": 3}, {"p": "any", "d": "int64", "n": 3, "L": 2}, {"p": "any", "d": "float64", "n": 2, "L": 2}], bounds="<=3 lists of <=3 items in every layout; ties, NaN and infinities")
def reduce_argminmax(E, p, d, n, L):
    a, ref = jagged(E, "a", maxlists=n, maxlen=L, placement=p, total=2, dtype=d)
    rows = ref.all()
    for name in ("argmin", "argmax"):
        E.agree(name, lambda: getattr(a, name)(), lambda: [refarg(E, r, name == "argmin") for r in rows])
    E.agree("a[a.argmax()]", lambda: a[a.argmax()], lambda: [[r[i] for i in refarg(E, r, False)] for r in rows])
    E.same("a unchanged", a, rows)

@harness("C05", quick=[{"p": "counts"}], thorough=[{"p": "offsets"}, {"p": "any"}], bounds="<=2 lists of <=2 possibly missing items: missing items are never an extremum")
def reduce_argmasked(E, p):
    def content(total):
        x, m = E.array("x", total, "int64"), E.array("m", total, "bool")
        return E.ak.MaskedArray(m, x), [None if E.sel(b) else v for v, b in zip(E.items(x), E.items(m))]
    a, ref = jagged(E, "a", maxlists=2, maxlen=2, placement=p, total=2, content=content)
    rows = ref.all()
    for name in ("argmin", "argmax"):
        E.agree(name, lambda: getattr(a, name)(), lambda: [refarg(E, r, name == "argmin") for r in rows])

def refsort(E, xs, ascending):
    out = []
    for i, x in enumerate(xs):
        if isnan(E, x):
            continue
        k = len(out)
        while k > 0 and (E.sel(x < xs[out[k - 1]]) if ascending else E.sel(x > xs[out[k - 1]])):
            k -= 1
        out.insert(k, i)
    return out + [i for i, x in enumerate(xs) if isnan(E, x)]

@harness("C05", quick=[{"p": "counts", "d": "int64", "n": 2, "L": 2}, {"p": "offsets", "d": "int64", "n": 2, "L": 1}, {"p": "any", "d": "int64", "n": 2, "L": 1}, {"p": "counts", "d": "float64", "n": 1, "L": 2}],
         thorough=[{"p": "counts", "d": "int64", "n": 1, "L": 3}, {"p": "offsets", "d": "int64", "n": 2, "L": 2}, {"p": "any", "d": "int64", "n": 2, "L": 2}, {"p": "counts", "d": "float64", "n": 2, "L": 2}], bounds="<=2 lists of <=3 items in every layout; ties keep their order, NaN last")
def reduce_argsort(E, p, d, n, L):
    a, ref = jagged(E, "a", maxlists=n, maxlen=L, placement=p, total=2, dtype=d)
    rows = ref.all()
    for asc in (True, False):
        E.agree("argsort(%s)" % asc, lambda: a.argsort(asc), lambda: [refsort(E, r, asc) for r in rows])
    E.agree("argsort()", lambda: a.argsort(), lambda: [refsort(E, r, False) for r in rows])
    E.agree("a[a.argsort()]", lambda: a[a.argsort()], lambda: [[r[i] for i in refsort(E, r, False)] for r in rows])
    E.same("a unchanged", a, rows)

@harness("C05", quick=[{"p": "counts", "d": "int64"}, {"p": "offsets", "d": "float64"}, {"p": "any", "d": "int64"}], bounds="<=2 lists of <=2 items in every layout; mean and first moment, weighted or not")
def reduce_mean(E, p, d):
    a, ref = jagged(E, "a", maxlists=2, maxlen=1 if d == "float64" else 2, placement=p, total=2, dtype=d)
    rows = ref.all()
    def want():
        return [E.np.true_divide(refreduce(E, "sum", r, d), len(present(E, r))) if present(E, r) else float("nan") for r in rows]
    E.agree("mean", lambda: a.mean(), want)
    E.agree("moment(1)", lambda: a.moment(1), want)

@harness("C05", quick=[{"p": "counts"}, {"p": "any"}], thorough=[{"p": "counts", "L": 3}, {"p": "offsets"}], bounds="<=2 lists of <=2 items in [-1, 2]: moments, variance and standard deviation within 1e-9, weighted and not")
def reduce_moments(E, p, L=2):
    k = E.size("k", 0, 1)
    cs = [k, E.size("c", 0, L)]
    xs = [E.size("x%d" % i, -1, 2) for i in range(sum(cs))]
    if p == "any":
        data, starts = xs[cs[0]:] + [9] + xs[:cs[0]], [cs[1] + 1, 0]
    else:
        data, starts = xs, [0, cs[0]]
    a = E.ak.JaggedArray(E.np.array(starts, dtype="int64"), E.np.array([s + c for s, c in zip(starts, cs)], dtype="int64"), E.np.array(data, dtype="float64"))
    rows = [xs[:cs[0]], xs[cs[0]:]]
    w = [E.choice("w", [1, 2])] + [3] * L
    def close(label, got, want):
        g = E.attempt(got)
        if not g.ok:
            E.fail(label, repr(g))
        g = [float(x) for x in g.value.tolist()]
        E.require(label, len(g) == len(want) and all((x != x and y != y) or abs(x - y) < 1e-9 for x, y in zip(g, want)), lambda: "got {0}, expected {1}".format(g, want))
    nan = float("nan")
    m = lambda r, k: sum(x ** k for x in r) / float(len(r)) if r else nan
    for n in (1, 2, 3):
        close("moment(%d)" % n, lambda: a.moment(n), [m(r, n) for r in rows])
    var = lambda r: m([x - m(r, 1) for x in r], 2)
    close("var", lambda: a.var(), [var(r) for r in rows])
    close("std", lambda: a.std(), [var(r) ** 0.5 for r in rows])
    if all(len(r) > 1 for r in rows):
        close("var(ddof=1)", lambda: a.var(ddof=1), [var(r) * len(r) / (len(r) - 1.0) for r in rows])
    # weights: one per item, or one per list (which has no effect)
    wm = lambda r, v, k: sum(x ** k * y for x, y in zip(r, v)) / float(sum(v)) if r else nan
    ws = [w[:len(r)] for r in rows]
    wj = E.ak.JaggedArray.fromcounts(E.np.array(cs, dtype="int64"), E.np.array(ws[0] + ws[1], dtype="float64"))
    close("mean(weights)", lambda: a.mean(wj), [wm(r, v, 1) for r, v in zip(rows, ws)])
    close("mean(weight per list)", lambda: a.mean(E.np.array([5.0, 7.0])), [m(r, 1) for r in rows])
    for n in (1, 2):
        close("moment(%d, weights)" % n, lambda: a.moment(n, wj), [wm(r, v, n) for r, v in zip(rows, ws)])
        close("moment(%d, weight per list)" % n, lambda: a.moment(n, E.np.array([5.0, 7.0])), [m(r, n) for r in rows])
    close("var(weights)", lambda: a.var(wj), [wm([x - wm(r, v, 1) for x in r], v, 2) for r, v in zip(rows, ws)])

@harness("C05", quick=[{"p": "counts"}, {"p": "offsets"}], bounds="<=2 lists of <=2 complex numbers from a table with infinite and NaN parts: layouts symbolic, values from the table")
def reduce_complex(E, p):
    nan, inf = float("nan"), float("inf")
    values = [complex(1, -2), complex(nan, 1), complex(0, nan), 0j, complex(inf, -inf)]
    start = E.choice("values from", [0, 1, 2, 3])
    a, ref = jagged(E, "a", maxlists=2, maxlen=2, placement=p, total=2, content=lambda total: (E.np.array([values[(start + i) % 5] for i in range(total)], dtype="complex128"), [values[(start + i) % 5] for i in range(total)]))
    rows = [[x for x in r if x == x] for r in ref.all()]
    E.agree("count", lambda: a.count(), lambda: [len(r) for r in rows])
    E.agree("count_nonzero", lambda: a.count_nonzero(), lambda: [sum(1 for x in r if x != 0) for r in rows])
    E.agree("any", lambda: a.any(), lambda: [any(x != 0 for x in r) for r in rows])
    E.agree("all", lambda: a.all(), lambda: [all(x != 0 for x in r) for r in rows])
    E.agree("sum", lambda: a.sum(), lambda: [sum(r, 0j) for r in rows])
