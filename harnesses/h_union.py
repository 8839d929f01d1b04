"""Union arrays: every element comes from the content its tag names, at the position its index names."""
from .common import *
from .h_reduce import refreduce

def union(E, name, n, dtypes=("int64", "float64"), any_index=True, lengths=(2, 2, 2), concrete=False, extra=0, contents=None):
    """union array of n items (n >= 1) and its reference list"""
    k = len(contents or dtypes)
    arrays, items = [], []
    for t in range(k):
        c, it = contents[t] if contents else (lambda c: (c, E.items(c)))(E.array("%s.c%d" % (name, t), lengths[t] if any_index else n, dtypes[t], **({"lo": -3, "hi": 3} if dtypes[t] != "bool" and dtypes[t][0] != "f" else {})))
        arrays.append(c)
        items.append(it)
    if concrete:
        tags = [E.size("%s.tag%d" % (name, i), 0, k - 1) for i in range(n)]
        tagarray = E.np.array(tags, dtype="uint8")
    else:
        tagarray = E.array(name + ".tags", n, "uint8", 0, k - 1)
        tags = tagarray
    if any_index:
        idx = E.array(name + ".index", n + extra, "int64", 0, min(len(i) for i in items) - 1)
        return E.ak.UnionArray(tagarray, idx, arrays), Lazy(n, lambda i: items[int(tags[i])][int(idx[i])])
    def row(i):
        t = int(tags[i])
        return items[t][sum(1 for j in range(i) if int(tags[j]) == t)]
    return E.ak.UnionArray.fromtags(tagarray, arrays), Lazy(n, row)

KINDS = [{"k": "tags", "c": 2}, {"k": "index", "c": 2}, {"k": "tags", "c": 3}, {"k": "longer", "c": 2}]
TYPES = ("int64", "float64", "bool")

def make(E, name, n, k, c, **kw):
    return union(E, name, n, dtypes=TYPES[:c], any_index=k != "tags", extra=1 if k == "longer" else 0, **kw)

@harness("C10", quick=KINDS, bounds="1 to 2 items of 2 or 3 types: every position, slice, 2 positions, boolean mask", need=("refused",))
def union_select(E, k, c):
    n = E.size("n", 1, 2)
    a, ref = make(E, "a", n, k, c)
    what = E.choice("what", ["int", "slice", "fancy", "bools", "list"])
    if what == "int":
        i = E.int("i", -n - 2, n + 1, py=True)
        E.agree("a[i]", lambda: a[i], lambda: pick(E, ref, i), errors=IndexError)
        E.agree("iter", lambda: list(a), lambda: ref.all())
        E.agree("len", lambda: len(a), lambda: n)
        if E.sel(i >= n):
            E.reached("refused")
    elif what == "slice":
        s = optslice(E, "s", -n - 1, n + 1, steps=(None, -1))
        E.agree("a[s]", lambda: a[s], lambda: refslice(ref, s))
    elif what == "fancy":
        ix = E.array("ix", 2, "int64", -n - 1, n)
        E.agree("a[ix]", lambda: a[ix], lambda: [pick(E, ref, i) for i in E.items(ix)], errors=IndexError)
        E.agree("a[ix][::-1]", lambda: a[ix][::-1], lambda: [pick(E, ref, i) for i in E.items(ix)][::-1], errors=IndexError)
    elif what == "bools":
        b = E.array("b", n, "bool")
        E.agree("a[b]", lambda: a[b], lambda: [ref[i] for i in range(n) if E.sel(b[i])])
    else:
        E.agree("a[[]]", lambda: a[[]], lambda: [])
        E.agree("a[()]", lambda: a[()], lambda: ref.all())
        E.agree("a[[..]]", lambda: a[[n - 1, 0]], lambda: [ref[n - 1], ref[0]])
    E.same("a unchanged", a, ref.all())

@harness("C10", quick=KINDS, bounds="1 to 2 items of 2 or 3 types: elementwise functions with scalars, arrays, lists and union arrays")
def union_ufunc(E, k, c):
    n = E.size("n", 1, 2)
    a, ref = make(E, "a", n, k, c, concrete=True)
    ref = ref.all()
    E.agree("a * 2", lambda: a * 2, lambda: [x * 2 for x in ref])
    E.agree("1 + a", lambda: 1 + a, lambda: [1 + x for x in ref])
    E.agree("a == 1", lambda: a == 1, lambda: [x == 1 for x in ref])
    v = E.array("v", n, "int64", -3, 3)
    vs = E.items(v)
    E.agree("a + array", lambda: a + v, lambda: [x + y for x, y in zip(ref, vs)])
    E.agree("array < a", lambda: v < a, lambda: [y < x for x, y in zip(ref, vs)])
    E.agree("a + list", lambda: a + [1, 2][:n], lambda: [x + y for x, y in zip(ref, [1, 2])])
    E.agree("a + a", lambda: a + a, lambda: [x + x for x in ref])
    if c == 2:
        b, rb = union(E, "b", n, dtypes=("int64", "int32"), any_index=False, concrete=True)
        E.agree("a * b", lambda: a * b, lambda: [x * y for x, y in zip(ref, rb.all())])
        E.agree("divmod", lambda: E.np.divmod(b, 2)[1], lambda: [x % 2 for x in rb.all()])
        E.same("b unchanged", b, rb.all())
    E.same("a unchanged", a, ref)

@harness("C10", quick=[dict(x, types=t) for x in KINDS[:2] + KINDS[3:] for t in ("int64 float64", "int64 bool", "int8 uint8", "float32 float64", "bool bool", "int32 float32 uint8")], bounds="1 to 2 items of 2 or 3 number types: reductions, masks, regular, counts, copies")
def union_reduce(E, k, c, types):
    n = E.size("n", 1, 2)
    types = types.split()
    c = len(types)
    a, ref = union(E, "a", n, dtypes=types, any_index=k != "tags", extra=1 if k == "longer" else 0)
    ref = ref.all()
    both = E.np.result_type(*types)
    floats = any(t[0] == "f" for t in types)
    for name in ("count", "any", "all", "count_nonzero") + (() if floats else ("sum", "prod", "min", "max")):
        E.agree(name, lambda: getattr(a, name)(), lambda: refreduce(E, name, ref, str(both)))
    E.agree("counts", lambda: a.counts, lambda: [-1] * n)
    E.agree("boolmask", lambda: a.boolmask(), lambda: [False] * n)
    E.agree("regular", lambda: [x == y or (x != x and y != y) for x, y in zip(a.regular(), ref)], lambda: [True] * n)
    E.agree("copy", lambda: a.copy(), lambda: ref)
    E.agree("deepcopy", lambda: a.deepcopy(), lambda: ref)
    E.agree("zeros_like", lambda: a.zeros_like(), lambda: [0] * n)
    E.agree("ones_like", lambda: a.ones_like(), lambda: [1] * n)
    E.agree("fillna", lambda: a.fillna(9), lambda: [9 if E.sel(x != x) else x for x in ref])
    E.same("a unchanged", a, ref)

@harness("C10", quick=[{}], bounds="1 to 3 items of int64 and float64: sums and extremes ignore NaN")
def union_reduce_float(E):
    n = E.size("n", 1, 2)
    c = E.array("i", 2, "int32")
    d = E.array("f", 2, "float64")
    tags = [E.size("t%d" % i, 0, 1) for i in range(n)]
    a = E.ak.UnionArray.fromtags(E.np.array(tags), [c, d])
    ref = []
    for i, t in enumerate(tags):
        j = tags[:i].count(t)
        ref.append(d[j] if t else c.astype("float64")[j])
    for name in ("min", "max"):
        E.agree(name, lambda: getattr(a, name)(), lambda: refreduce(E, name, ref, "float64"))

@harness("C10", quick=[{}], bounds="1 to 2 items of lists and numbers, or lists of two types, <=2 lists of <=2 items")
def union_jagged(E):
    n = E.size("n", 1, 2)
    both = E.flag("both")
    b, rb = jagged(E, "in", nlists=n, maxlen=2, placement="counts")
    if both:
        other = jagged(E, "in2", nlists=n, maxlen=1, placement="counts", dtype="float64")
        other = other[0], other[1].all()
    else:
        c = E.array("c", n)
        other = c, E.items(c)
    a, ref = union(E, "a", n, any_index=False, concrete=True, contents=[(b, rb.all()), other])
    ref = ref.all()
    ln = lambda x: len(x) if isinstance(x, list) else -1
    E.agree("a", lambda: a, lambda: ref)
    E.agree("counts", lambda: a.counts, lambda: [ln(x) for x in ref])
    E.agree("a[::-1]", lambda: a[::-1], lambda: ref[::-1])
    E.agree("a + 1", lambda: a + 1, lambda: [[y + 1 for y in x] if isinstance(x, list) else x + 1 for x in ref])
    if both:
        E.agree("a[:, :1]", lambda: a[:, :1], lambda: [x[:1] for x in ref])
        if all(len(x) for x in ref):
            E.agree("a[:, 0]", lambda: a[:, 0], lambda: [x[0] for x in ref])
        E.agree("pad", lambda: a.pad(2), lambda: [x + [None] * (2 - len(x)) for x in ref])
    for i in range(n):
        if isinstance(ref[i], list) and ref[i]:
            E.agree("a[i, -1]", lambda: a[i, -1], lambda: ref[i][-1])
    E.same("a unchanged", a, ref)

@harness("C10", quick=[{}], bounds="1 to 2 records of two or three tables, one of them with other columns: columns, assigning and deleting columns")
def union_tables(E):
    n = E.size("n", 1, 2)
    def table(name, cols):
        arrays = [(c, E.array(name + c, n)) for c in cols]
        return E.ak.Table.named("T", **dict(arrays)), [dict((c, E.items(x)[i]) for c, x in arrays) for i in range(n)]
    first = E.flag("other first")
    ts = [table("p", "xy"), table("q", "xz")]
    if first:
        ts.insert(0, table("w", "xy"))
    a, ref = union(E, "a", n, any_index=False, concrete=True, contents=ts)
    ref = ref.all()
    E.agree("a", lambda: a, lambda: ref)
    E.agree("a['x']", lambda: a["x"], lambda: [r["x"] for r in ref])
    E.agree("a[['x']]", lambda: a[["x"]], lambda: [{"x": r["x"]} for r in ref])
    E.agree("a[::-1]['x']", lambda: a[::-1]["x"], lambda: [r["x"] for r in ref[::-1]])
    if all("y" in r for r in ref):
        E.agree("a['y']", lambda: a["y"], lambda: [r["y"] for r in ref])
    E.agree("columns", lambda: sorted(a.columns), lambda: ["x", "y", "z"])
    new = E.array("new", n)
    sizes = [int(t) for t in a.tags]
    if all(sizes.count(t) in (0, n) for t in range(len(ts))):
        a["x"] = new
        E.agree("assigned", lambda: a["x"], lambda: new)

@harness("C10", quick=[{}], bounds="<=2 tags from -1 to 2, indexes from -1 to 2, contents of 1 and 2 items", need=("refused", "taken"))
def union_refuse(E):
    n = E.size("n", 1, 2)
    m = E.size("m", 0, 2)
    tags, idx = E.array("t", n, "int64", -1, 2), E.array("i", m, "int64", -1, 2)
    c = [E.array("c0", 1), E.array("c1", 2, "float64")]
    items = [E.items(x) for x in c]
    good = n <= m and all(E.sel((t >= 0) & (t < 2)) for t in tags) and all(E.sel(i >= 0) for i in idx) and all(E.sel(idx[i] <= tags[i]) for i in range(n))
    E.reached("taken" if good else "refused")
    def want():
        if not good:
            raise Fail("points outside")
        return [items[int(tags[i])][int(idx[i])] for i in range(n)]
    E.agree("a", lambda: E.ak.UnionArray(tags, idx, c)[:], want)

@harness("C10", quick=[{}], bounds="2 or 3 arrays of different types and <=2 items concatenated: a union in order")
def union_concatenate(E):
    n, m = E.size("n", 1, 2), E.size("m", 1, 2)
    x, y = E.array("x", n), E.array("y", m, "bool")
    b, rb = jagged(E, "b", nlists=1, maxlen=2, placement="counts")
    E.agree("jagged + masked", lambda: b.concatenate([E.ak.MaskedArray(y, E.np.arange(m))]), lambda: rb.all() + [None if E.sel(y[i]) else i for i in range(m)])
    i = E.array("i", n, "int64", 0, m - 1)
    E.agree("indexed + jagged", lambda: E.ak.IndexedArray(i, y).concatenate([b, E.ak.IndexedArray([0], x)]), lambda: [y[int(k)] for k in i] + rb.all() + [x[0]])
