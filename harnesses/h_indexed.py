"""Indexed arrays as gathered lists and sparse arrays as the dense lists they stand for."""
from .common import *
from .h_reduce import refreduce

IDX = ("plain", "narrow", "matrix")

def indexed(E, name, n, dtype="int64", content=None, idtype="int64"):
    """indexed array of n items over up to 3 and its reference list"""
    ak = E.ak
    total = 3 if n else E.choice(name + ".total", [0, 2])
    if content is None:
        c = E.array(name + ".content", total, dtype)
        items = E.items(c)
    else:
        c, items = content(total)
    idx = E.array(name + ".index", n, idtype, 0, total - 1)
    return ak.IndexedArray(idx, c), Lazy(n, lambda i: items[int(idx[i])])

@harness("C09", quick=[{"d": d} for d in ("int64", "uint8")], thorough=[{"d": d} for d in ("int8", "int64", "uint8", "uint64", "int32")], bounds="<=2 indexes into 3 items: every integer position, slice, list of 2 positions or boolean mask", need=("refused",))
def indexed_select(E, d):
    n = E.size("n", 0, 2)
    a, ref = indexed(E, "a", n, idtype=d)
    what = E.choice("what", ["int", "slice", "fancy", "bools", "list"])
    if what == "int":
        i = E.int("i", -n - 2, n + 1, py=True)
        E.agree("a[i]", lambda: a[i], lambda: pick(E, ref, i), errors=IndexError)
        E.agree("iter", lambda: list(a), lambda: ref.all())
        E.agree("len", lambda: len(a), lambda: n)
        if E.sel(i >= n):
            E.reached("refused")
    elif what == "slice":
        s = optslice(E, "s", -n - 1, n + 1, steps=(None, 2, -1))
        E.agree("a[s]", lambda: a[s], lambda: refslice(ref, s))
    elif what == "fancy":
        ix = E.array("ix", 2, "int64", -n - 1, n)
        E.agree("a[ix]", lambda: a[ix], lambda: [pick(E, ref, i) for i in E.items(ix)], errors=IndexError)
    elif what == "bools":
        b = E.array("b", n, "bool")
        E.agree("a[b]", lambda: a[b], lambda: [ref[i] for i in range(n) if E.sel(b[i])])
    else:
        E.agree("a[[]]", lambda: a[[]], lambda: [])
        E.agree("a[()]", lambda: a[()], lambda: ref.all())
        if n:
            E.agree("a[[..]]", lambda: a[[n - 1, 0]], lambda: [ref[n - 1], ref[0]])
    E.same("a unchanged", a, ref.all())

@harness("C09", quick=[{}], bounds="<=3 indexes from -2 to 4 into <=2 items", need=("refused", "taken"))
def indexed_refuse(E):
    n, m = E.size("n", 0, 3), E.size("m", 0, 2)
    c = E.array("c", m)
    items = E.items(c)
    idx = E.array("i", n, "int64", -2, 4)
    good = all(E.sel((i >= 0) & (i < m)) for i in idx)
    E.reached("taken" if good and n else "refused")
    def want():
        if not good:
            raise Fail("index that does not exist")
        return [items[int(i)] for i in idx]
    E.agree("valid", lambda: E.ak.IndexedArray(idx, c).valid(exception=True) and E.ak.IndexedArray(idx, c)[:], want)
    E.agree("items", lambda: E.ak.IndexedArray(idx, c)[:], want)
    E.agree("ufunc", lambda: E.ak.IndexedArray(idx, c) + 1, lambda: [x + 1 for x in want()])

@harness("C09", quick=[{"d": "int64"}, {"d": "float64"}, {"d": "bool"}, {"d": "float32"}], bounds="<=3 indexes into 3 items: elementwise functions, reductions, copies")
def indexed_compute(E, d):
    n = E.size("n", 0, 3 if d != "float64" else 2)
    a, ref = indexed(E, "a", n, d)
    ref = ref.all()
    if d == "int64":
        v = E.array("v", n)
        vs = E.items(v)
        E.agree("a - v", lambda: a - v, lambda: [x - y for x, y in zip(ref, vs)])
        E.agree("v - a", lambda: v - a, lambda: [y - x for x, y in zip(ref, vs)])
        E.agree("a * 2 < 3", lambda: a * 2 < 3, lambda: [x * 2 < 3 for x in ref])
        E.agree("a + a", lambda: a + a, lambda: [x + x for x in ref])
        E.agree("divmod", lambda: E.np.divmod(a, 3)[1], lambda: [x % 3 for x in ref])
    for name in ("count", "sum", "prod", "any", "all", "count_nonzero", "min", "max") if d == "int64" else ("count", "any", "all", "count_nonzero", "sum")[:4 if d[0] == "f" else 5]:
        E.agree(name, lambda: getattr(a, name)(), lambda: refreduce(E, name, ref, d))
    if d == "int64":
        def best(cmp):
            if not n:
                raise Fail("nothing to compare")
            out = 0
            for i in range(1, n):
                if E.sel(cmp(ref[i], ref[out])):
                    out = i
            return out
        E.agree("argmin", lambda: a.argmin(), lambda: best(lambda x, y: x < y))
        E.agree("argmax", lambda: a.argmax(), lambda: best(lambda x, y: x > y))
    E.agree("flatten", lambda: a.flatten(), lambda: ref)
    E.agree("regular", lambda: a.regular(), lambda: ref)
    E.agree("counts", lambda: a.counts, lambda: [-1] * n)
    E.agree("isunmasked", lambda: a.isunmasked, lambda: [True] * n)
    E.agree("copy", lambda: a.copy(), lambda: ref)
    E.agree("deepcopy", lambda: a.deepcopy(), lambda: ref)
    E.agree("zeros_like", lambda: a.zeros_like(), lambda: [0] * n)
    E.agree("ones_like", lambda: a.ones_like(), lambda: [1] * n)
    E.agree("fillna", lambda: a.fillna(7), lambda: [7 if d[0] == "f" and E.sel(x != x) else x for x in ref])
    E.same("a unchanged", a, ref)

@harness("C09", quick=[{"n": n} for n in (0, 1, 2)], bounds="<=2 indexes into 3 lists of <=1 items or into 1 list of <=2 items")
def indexed_jagged(E, n):
    def content(total):
        b, rb = jagged(E, "in", nlists=total, maxlen=1 if total == 3 else 2, placement=E.choice("p", ["counts", "offsets"]))
        return b, rb.all()
    a, ref = indexed(E, "a", n, content=content)
    ref = ref.all()
    on = lambda g: [g(x) for x in ref]
    E.agree("a", lambda: a, lambda: ref)
    E.agree("a[::-1]", lambda: a[::-1], lambda: ref[::-1])
    E.agree("a[[]]", lambda: a[[]].flatten(), lambda: [])
    E.agree("counts", lambda: a.counts, lambda: on(len))
    E.agree("flatten", lambda: a.flatten(), lambda: [y for x in ref for y in x])
    E.agree("a + 1", lambda: a + 1, lambda: on(lambda x: [y + 1 for y in x]))
    E.agree("sum", lambda: a.sum(), lambda: on(lambda x: refreduce(E, "sum", x, "int64")))
    E.agree("argmax", lambda: a.argmax().counts, lambda: [min(1, len(x)) for x in ref])
    E.agree("pad", lambda: a.pad(2), lambda: on(lambda x: x + [None] * (2 - len(x))))
    E.agree("pairs", lambda: a.argpairs(), lambda: on(lambda x: [(i, j) for i in range(len(x)) for j in range(i, len(x))]))
    E.agree("cross", lambda: a.argcross(a[:]), lambda: on(lambda x: [(i, j) for i in range(len(x)) for j in range(len(x))]))
    E.agree("distincts", lambda: a.distincts(), lambda: on(lambda x: [(x[i], x[j]) for i in range(len(x)) for j in range(i + 1, len(x))]))
    E.agree("choose", lambda: a.argchoose(2), lambda: on(lambda x: [(0, 1)] if len(x) == 2 else []))
    E.agree("a[:, :1]", lambda: a[:, :1], lambda: [x[:1] for x in ref])
    if n and all(ref):
        E.agree("a[:, -1]", lambda: a[:, -1], lambda: [x[-1] for x in ref])
        E.agree("a[0, 0]", lambda: a[0, 0], lambda: ref[0][0])
    E.same("a unchanged", a, ref)

@harness("C09", quick=[{}], bounds="<=2 indexes into 3 records: columns, assigning columns through a permutation, reductions per column")
def indexed_table(E):
    n = E.size("n", 0, 2)
    def content(total):
        x, y = E.array("x", total), E.array("y", total, "bool")
        return E.ak.Table(x=x, y=y), [{"x": s, "y": t} for s, t in zip(E.items(x), E.items(y))]
    a, ref = indexed(E, "a", n, content=content)
    ref = ref.all()
    E.agree("a", lambda: a, lambda: ref)
    E.agree("a['x']", lambda: a["x"], lambda: [r["x"] for r in ref])
    E.agree("a[['y']]", lambda: a[["y"]], lambda: [{"y": r["y"]} for r in ref])
    E.agree("a[::-1]['x']", lambda: a[::-1]["x"], lambda: [r["x"] for r in ref[::-1]])
    E.agree("columns", lambda: a.columns, lambda: ["x", "y"])
    E.agree("a['x'].sum()", lambda: a["x"].sum(), lambda: refreduce(E, "sum", [r["x"] for r in ref], "int64"))
    E.agree("a.sum().x", lambda: a.sum()["x"], lambda: refreduce(E, "sum", [r["x"] for r in ref], "int64"))
    E.agree("a.count().x", lambda: a.count()["x"], lambda: n)

@harness("C09", quick=[{"n": n} for n in (1, 2, 3)], bounds="any permutation of <=3 records: a column assigned through it; inverting any permutation, refusing duplicates")
def indexed_assign(E, n):
    idx = E.array("i", n, "int64", 0, n - 1)
    distinct = all(E.sel(idx[i] != idx[j]) for i in range(n) for j in range(i))
    def inverse():
        if not distinct:
            raise Fail("duplicates")
        return [[int(i) for i in idx].index(j) for j in range(n)]
    E.agree("invert", lambda: E.ak.IndexedArray.invert(idx), inverse, errors=ValueError)
    if distinct:
        x, z = E.array("x", n), E.array("z", n)
        t = E.ak.Table(x=x)
        a = E.ak.IndexedArray(idx, t)
        a["z"] = z
        E.agree("a['z']", lambda: a["z"], lambda: z)
        E.agree("t['z']", lambda: t["z"], lambda: [z[k] for k in inverse()])
        E.agree("a", lambda: a, lambda: [{"x": x[int(idx[k])], "z": z[k]} for k in range(n)])

@harness("C09", quick=[{"k": k} for k in ("same", "mixed")], bounds="two or three indexed arrays of <=2 items, with narrow indexes too")
def indexed_concatenate(E, k):
    a, ra = indexed(E, "a", E.size("n", 0, 2), idtype="uint8" if k == "mixed" else "int64")
    b, rb = indexed(E, "b", E.size("m", 0, 2), idtype="int8" if k == "mixed" else "int64")
    E.agree("concatenate", lambda: a.concatenate([b]), lambda: ra.all() + rb.all())
    E.agree("concatenate 3", lambda: a.concatenate([b, a]), lambda: ra.all() + rb.all() + ra.all())

@harness("C09", quick=[{}], bounds="300 constant items, then any item of a second array with 8-bit indexes")
def indexed_concatenate_long(E):
    i = E.int("i", 0, 3)
    c = E.array("c", 4)
    a = E.ak.IndexedArray(E.np.array([1, 0], dtype="uint8"), E.np.arange(300))
    b = E.ak.IndexedArray(E.np.array([i]).astype("uint8"), c)
    E.agree("concatenate", lambda: a.concatenate([b]), lambda: [1, 0, E.items(c)[int(i)]])

# ---------------------------------------------------------------- sparse

def sparse(E, name, length, dtype="int64", default=None, extra=0, idtype="int64", maxitems=2):
    """sparse array of the given length and its dense reference list"""
    m = E.size(name + ".m", 0, min(length, maxitems))
    idx = E.array(name + ".index", m, idtype, 0, length - 1)
    for i in range(1, m):
        E.assume(idx[i] > idx[i - 1])
    c = E.array(name + ".content", m + extra, dtype)
    items = E.items(c)
    pos = [int(i) for i in idx]
    zero = E.np.zeros(1, dtype=dtype)[0] if default is None else default
    ref = [items[pos.index(i)] if i in pos else zero for i in range(length)]
    return E.ak.SparseArray(length, idx, c, default=default), ref

S = [{"v": v} for v in ("plain", "default", "extra", "narrow")]

def variant(E, v, length, name="a", dtype="int64"):
    return sparse(E, name, length, dtype, default=5 if v == "default" else None, extra=1 if v == "extra" else 0, idtype="uint8" if v == "narrow" else "int64")

@harness("C09", quick=S, bounds="length <=3, <=2 explicit values at any coordinates: every integer position, slice (steps 1, -2), 2 positions, boolean mask", need=("refused",))
def sparse_select(E, v):
    n = E.size("n", 0, 3)
    a, ref = variant(E, v, n)
    what = E.choice("what", ["int", "slice", "fancy", "bools", "list"])
    if what == "int":
        i = E.int("i", -n - 2, n + 1, py=True)
        E.agree("a[i]", lambda: a[i], lambda: pick(E, ref, i), errors=IndexError)
        E.agree("iter", lambda: list(a), lambda: ref)
        E.agree("len", lambda: len(a), lambda: n)
        if E.sel(i >= n):
            E.reached("refused")
    elif what == "slice":
        s = optslice(E, "s", -n - 1, n + 1, steps=(None, -2))
        E.agree("a[s]", lambda: a[s], lambda: refslice(ref, s))
        E.agree("a[s].dense", lambda: a[s].dense, lambda: refslice(ref, s))
    elif what == "fancy":
        ix = E.array("ix", 2, "int64", -n - 1, n)
        E.agree("a[ix]", lambda: a[ix], lambda: [pick(E, ref, i) for i in E.items(ix)], errors=IndexError)
    elif what == "bools":
        b = E.array("b", n, "bool")
        E.agree("a[b]", lambda: a[b], lambda: [ref[i] for i in range(n) if E.sel(b[i])])
    else:
        E.agree("a[[]]", lambda: a[[]], lambda: [])
        E.agree("a[()]", lambda: a[()], lambda: ref)
        if n:
            E.agree("a[[..]]", lambda: a[[n - 1, 0]], lambda: [ref[n - 1], ref[0]])
    E.same("a unchanged", a, ref)

@harness("C09", quick=[{"n": n} for n in (4, 5)], bounds="length 4 or 5, 2 explicit values: slices with steps 1, 2, 3, -1, -2, -3, slices of slices")
def sparse_slice_long(E, n):
    a, ref = variant(E, "plain", n)
    st = E.choice("st", [1, 2, 3, -1, -2, -3])
    s = slice(E.int("s", -2, 2, py=True), None, st)
    E.agree("a[s]", lambda: a[s], lambda: refslice(ref, s))
    t = slice(E.choice("t", [None, 1, -1]), None, E.choice("tst", [1, -1, -2]))
    E.agree("a[s][t]", lambda: a[s][t].dense, lambda: refslice(refslice(ref, s), t))

@harness("C09", quick=[{"n": n} for n in (0, 1, 2, 3)], bounds="length <=3, sparse masks with <=2 explicit values")
def sparse_mask(E, n):
    a, ref = variant(E, "plain", n)
    b, rb = variant(E, "plain", n, "b", "bool")
    E.agree("a[b]", lambda: a[b], lambda: [x for x, y in zip(ref, rb) if E.sel(y)])

@harness("C09", quick=[dict(v=x["v"], d=d) for x in S for d in ("int64", "float64", "bool") if d == "int64" or x["v"] == "plain"], bounds="length <=3, <=2 explicit values: dense, masks, elementwise functions, reductions, copies")
def sparse_compute(E, v, d):
    n = E.size("n", 0, 3 if d == "int64" else 2)
    a, ref = variant(E, v, n, dtype=d)
    m = len(a.index)
    E.agree("dense", lambda: a.dense, lambda: ref)
    here = [int(i) for i in a.index]
    E.agree("boolmask", lambda: a.boolmask(), lambda: [i in here for i in range(n)])
    E.agree("boolmask(False)", lambda: a.boolmask(maskedwhen=False), lambda: [i not in here for i in range(n)])
    E.agree("counts", lambda: a.counts, lambda: [-1] * n)
    E.agree("regular", lambda: a.regular(), lambda: ref)
    E.agree("flatten", lambda: a.flatten(), lambda: ref)
    E.agree("copy", lambda: a.copy(), lambda: ref)
    E.agree("deepcopy", lambda: a.deepcopy(), lambda: ref)
    E.agree("zeros_like", lambda: a.zeros_like(), lambda: [0] * n)
    E.agree("ones_like", lambda: a.ones_like(), lambda: [1] * n)
    longer = a.copy(length=n + 1)
    E.agree("longer", lambda: longer.dense, lambda: ref + [5 if v == "default" else 0])
    if d == "int64":
        w = E.array("w", n)
        E.agree("a - w", lambda: a - w, lambda: [x - y for x, y in zip(ref, E.items(w))])
        E.agree("a + a", lambda: a + a, lambda: [x + x for x in ref])
        E.agree("3 < a", lambda: 3 < a, lambda: [3 < x for x in ref])
    for name in ("count", "sum", "prod", "any", "all", "count_nonzero", "min", "max") if d == "int64" else ("count", "any", "all", "count_nonzero"):
        E.agree(name, lambda: getattr(a, name)(), lambda: refreduce(E, name, ref, d))
    E.same("a unchanged", a, ref)

@harness("C09", quick=[{"n": n} for n in (0, 1, 2)], bounds="length <=2, explicit lists of <=2 items, empty elsewhere")
def sparse_jagged(E, n):
    m = E.size("m", 0, n)
    idx = E.array("index", m, "int64", 0, n - 1)
    for i in range(1, m):
        E.assume(idx[i] > idx[i - 1])
    b, rb = jagged(E, "in", nlists=m, maxlen=2, placement="counts")
    rb = rb.all()
    pos = [int(i) for i in idx]
    ref = [rb[pos.index(i)] if i in pos else [] for i in range(n)]
    a = E.ak.SparseArray(n, idx, b)
    E.agree("a", lambda: a, lambda: ref)
    E.agree("counts", lambda: a.counts, lambda: [len(x) for x in ref])
    E.agree("flatten", lambda: a.flatten(), lambda: [y for x in ref for y in x])
    E.agree("a[::-1]", lambda: a[::-1], lambda: ref[::-1])
    E.agree("a[1:]", lambda: a[1:].counts, lambda: [len(x) for x in ref[1:]])
    for i in range(n):
        E.agree("a[i]", lambda: a[i], lambda: ref[i])

@harness("C09", quick=[{}], bounds="<=3 coordinates from -1 to 3 in length 3, <=2 values", need=("refused",))
def sparse_refuse(E):
    m, k = E.size("m", 0, 3), E.size("k", 0, 2)
    idx = E.array("i", m, "int64", -1, 3)
    c = E.array("c", k)
    good = m <= k and all(E.sel(i >= 0) for i in idx) and all(E.sel(idx[i] >= idx[i - 1]) for i in range(1, m))
    def got():
        a = E.ak.SparseArray(3, idx, c)
        a.valid(exception=True)
        return True
    def want():
        if not good:
            E.reached("refused")
            raise Fail("not coordinates")
        return True
    E.agree("accepted", got, want)
