"""Masked arrays (boolean, bit-packed and index masks) as lists with missing values."""
from .common import *
from .h_reduce import refreduce

KINDS = ("bool", "boolF", "boolX", "bit", "bitF", "bitL", "bitLF", "bitraw", "index", "indexW", "indexP", "indexZ")

def masked(E, name, kind, n, dtype="int64", content=None, lo=None, hi=None):
    """masked array of length n of the given kind and its reference list.  bool[F]: boolean mask (F: masked when False,
    X: content longer than the mask); bit[L][F]: packed (L: least significant bit first), raw: any bytes; index: masked
    index (W: another negative number marks missing values, P: a positive number beyond the content, Z: zero)"""
    ak, np = E.ak, E.np
    total = n + 1 if kind == "boolX" else (2 if n else 0) if kind.startswith("index") else n
    if content is None:
        c = E.array(name + ".content", total, dtype, lo, hi)
        items = E.items(c)
    else:
        c, items = content(total)
    flip = "F" in kind
    lsb = "L" in kind
    if kind.startswith("index"):
        if kind == "indexZ":
            idx = E.array(name + ".index", n, "int64", 0, max(total - 1, 0))
            return ak.IndexedMaskedArray(idx, c, maskedwhen=0), Lazy(n, lambda i: None if E.sel(idx[i] == 0) else items[int(idx[i])])
        w = {"indexW": -3, "indexP": 5}.get(kind, -1)
        idx = E.array(name + ".index", n, "int64", -1, total - 1)
        ref = Lazy(n, lambda i: None if E.sel(idx[i] == -1) else items[int(idx[i])])
        if w != -1 and n:
            return ak.IndexedMaskedArray(np.where(idx == -1, w, idx), c, maskedwhen=w), ref
        return ak.IndexedMaskedArray(idx, c, maskedwhen=w), ref
    if kind == "bitraw":
        raw = E.array(name + ".bytes", (n + 7) // 8, "uint8")
        lsb = E.flag(name + ".lsb")
        flip = E.flag(name + ".flip")
        def row(i):
            b = (raw[i // 8] >> np.uint8(i % 8 if lsb else 7 - i % 8)) & np.uint8(1)
            return None if E.sel((b == 0) if flip else (b != 0)) else items[i]
        return ak.BitMaskedArray(raw, c, maskedwhen=not flip, lsborder=lsb), Lazy(n, row)
    m = E.array(name + ".mask", n, "bool")
    ms = E.items(m)
    def row(i):
        return items[i] if E.sel(ms[i]) == flip else None
    if kind.startswith("bit"):
        return ak.BitMaskedArray.fromboolmask(m, c, maskedwhen=not flip, lsborder=lsb), Lazy(n, row)
    return ak.MaskedArray(m, c, maskedwhen=not flip), Lazy(n, row)

Q = [{"k": k} for k in KINDS]

@harness("C08", quick=Q, bounds="<=3 items (2 with index masks), any mask of any kind, any integer position, slice, list of 2 positions or boolean mask")
def masked_select(E, k):
    n = E.size("n", 0, 2 if k.startswith("index") or k == "bitraw" else 3)
    a, ref = masked(E, "a", k, n)
    what = E.choice("what", ["int", "slice", "fancy", "bools", "list"])
    if what == "int":
        i = E.int("i", -n - 2, n + 1, py=True)
        E.agree("a[i]", lambda: a[i], lambda: pick(E, ref, i), errors=IndexError)
        E.agree("iter", lambda: list(a), lambda: ref.all())
        E.agree("len", lambda: len(a), lambda: n)
    elif what == "slice":
        s = optslice(E, "s", -n - 1, n + 1, steps=(None, -1))
        E.agree("a[s]", lambda: a[s], lambda: refslice(ref, s))
    elif what == "fancy":
        ix = E.array("ix", 2, "int64", -n - 1, n)
        E.agree("a[ix]", lambda: a[ix], lambda: [pick(E, ref, i) for i in E.items(ix)], errors=IndexError)
    elif what == "bools":
        b = E.array("b", n, "bool")
        E.agree("a[b]", lambda: a[b], lambda: [ref[i] for i in range(n) if E.sel(b[i])])
    else:
        E.agree("a[[]]", lambda: a[[]], lambda: [])
        E.agree("a[()]", lambda: a[()], lambda: ref.all())
        if n:
            E.agree("a[[..]]", lambda: a[[n - 1, 0]], lambda: [ref[n - 1], ref[0]])
            E.agree("a[[True..]]", lambda: a[[True] + [False] * (n - 1)], lambda: [ref[0]])
    E.same("a unchanged", a, ref.all())

@harness("C08", quick=[{"k": k} for k in ("bit", "bitLF", "bitraw")], bounds="9 to 10 items: more than one byte of mask bits, any mask, any position or slice of step 1 to 3 or -1")
def masked_bits_long(E, k):
    n = E.size("n", 9, 10)
    a, ref = masked(E, "a", k, n)
    what = E.choice("what", ["int", "slice", "fancy"])
    if what == "int":
        i = E.int("i", -n - 1, n + 6, py=True)
        E.agree("a[i]", lambda: a[i], lambda: pick(E, ref, i), errors=IndexError)
    elif what == "slice":
        st = E.choice("st", [1, 3, -1])
        s = slice(E.int("s", -n, 1, py=True) if st > 0 else None, None, 4 * st) if st != -1 else slice(E.int("s", -2, 0, py=True), None, -4)
        E.agree("a[s]", lambda: a[s], lambda: refslice(ref, s))
    else:
        ix = E.array("ix", 2, "int64", -n, -n + 1)
        E.agree("a[ix]", lambda: a[ix], lambda: [pick(E, ref, i) for i in E.items(ix)], errors=IndexError)

@harness("C08", quick=[{"n": n} for n in (0, 1, 7, 8, 9, 16, 17)], thorough=[{"n": n} for n in range(26)], bounds="0 to 17 (25) booleans, both bit orders: packing and unpacking give the mask back")
def masked_packing(E, n):
    lsb = E.flag("lsb")
    m = E.array("m", n, "bool")
    B = E.ak.BitMaskedArray
    E.agree("bit2bool(bool2bit)", lambda: B.bit2bool(B.bool2bit(m, lsborder=lsb), lsborder=lsb)[:n], lambda: m)
    E.agree("bytes", lambda: len(B.bool2bit(m, lsborder=lsb)), lambda: (n + 7) // 8)
    ms = E.items(m)
    def byte(j):
        out = E.np.uint8(0)
        for i in range(8):
            if 8 * j + i < n:
                out = out | E.np.where(ms[8 * j + i], E.np.uint8(1 << (i if lsb else 7 - i)), E.np.uint8(0))[()]
        return out
    if n % 8 == 0:
        E.agree("bool2bit", lambda: B.bool2bit(m, lsborder=lsb), lambda: [byte(j) for j in range(n // 8)])
    raw = E.array("raw", (n + 7) // 8, "uint8")
    E.agree("bool2bit(bit2bool)", lambda: B.bool2bit(B.bit2bool(raw, lsborder=lsb), lsborder=lsb), lambda: raw)
    mw = E.flag("maskedwhen")
    a = B.fromboolmask(m, E.np.arange(n), maskedwhen=mw, lsborder=lsb)
    E.agree("boolmask", lambda: a.boolmask(), lambda: m)
    E.agree("boolmask(True)", lambda: a.boolmask(maskedwhen=True), lambda: m if mw else E.np.logical_not(m))
    E.agree("boolmask(False)", lambda: a.boolmask(maskedwhen=False), lambda: E.np.logical_not(m) if mw else m)

@harness("C08", quick=Q, bounds="<=3 items: masks, filling, counting, converting")
def masked_convert(E, k):
    n = E.size("n", 0, 3)
    a, ref = masked(E, "a", k, n)
    ref = ref.all()
    E.agree("ismasked", lambda: a.ismasked, lambda: [x is None for x in ref])
    E.agree("isunmasked", lambda: a.isunmasked, lambda: [x is not None for x in ref])
    E.agree("fillna", lambda: a.fillna(99), lambda: [99 if x is None else x for x in ref])
    E.same("a after fillna", a, ref)
    E.agree("indexed", lambda: a.indexed(), lambda: ref)
    E.agree("regular", lambda: [x != x for x in a.regular()], lambda: [x is None for x in ref])
    E.agree("counts", lambda: a.counts, lambda: [-1] * n)
    E.agree("flatten", lambda: a.flatten(), lambda: ref)
    E.agree("copy", lambda: a.copy(), lambda: ref)
    E.agree("deepcopy", lambda: a.deepcopy(), lambda: ref)
    z = a.zeros_like()
    E.agree("zeros_like", lambda: z, lambda: [None if x is None else 0 for x in ref])
    E.agree("ones_like", lambda: a.ones_like(), lambda: [None if x is None else 1 for x in ref])
    E.agree("empty_like", lambda: a.empty_like().ismasked, lambda: [x is None for x in ref])
    E.same("a unchanged", a, ref)

@harness("C08", quick=[{"k": k} for k in ("bool", "boolF", "bit", "index")], bounds="<=2 items: filling floats (NaN is missing too), filling with numbers that the content cannot hold")
def masked_fill(E, k):
    n = E.size("n", 0, 2)
    d = E.choice("d", ["float64", "int64", "bool"])
    a, ref = masked(E, "a", k, n, d)
    ref = ref.all()
    v = 2.5 if d != "bool" else 7
    E.agree("fillna", lambda: a.fillna(v), lambda: [v if x is None or (d == "float64" and E.sel(x != x)) else x if d == "float64" else E.np.array([x]).astype("float64" if d == "int64" else "int64")[0] for x in ref])
    E.same("a unchanged", a, ref)

@harness("C08", quick=[{"k": k, "op": op} for k in KINDS for op in ("scalar", "array", "masked")], bounds="<=2 items: elementwise functions with scalars, arrays, lists and masked arrays of every kind")
def masked_ufunc(E, k, op):
    n = E.size("n", 0, 2)
    a, ref = masked(E, "a", k, n)
    f = lambda x, y, g: None if x is None or y is None else g(x, y)
    if op == "scalar":
        v = E.int("v")
        ref = ref.all()
        E.agree("a + v", lambda: a + v, lambda: [f(x, v, E.np.add) for x in ref])
        E.agree("v - a", lambda: 3 - a, lambda: [f(3, x, E.np.subtract) for x in ref])
        E.agree("-a", lambda: -a, lambda: [None if x is None else -x for x in ref])
        E.agree("a < v", lambda: a < v, lambda: [f(x, v, E.np.less) for x in ref])
        E.agree("a[a < v]", lambda: E.np.divmod(a, E.np.array([2] * n))[0], lambda: [f(x, 2, E.np.floor_divide) for x in ref])
    elif op == "array":
        v = E.array("v", n)
        vs = E.items(v)
        ref = ref.all()
        E.agree("a + array", lambda: a + v, lambda: [f(x, y, E.np.add) for x, y in zip(ref, vs)])
        E.agree("array - a", lambda: v - a, lambda: [f(y, x, E.np.subtract) for x, y in zip(ref, vs)])
        E.agree("a * list", lambda: a * [3, 4][:n], lambda: [f(x, y, E.np.multiply) for x, y in zip(ref, [3, 4])])
    else:
        b, rb = masked(E, "b", E.choice("bk", ["bool", "bitL", "index"]), n)
        ref, rb = ref.all(), rb.all()
        E.agree("a - b", lambda: a - b, lambda: [f(x, y, E.np.subtract) for x, y in zip(ref, rb)])
        E.agree("b == a", lambda: b == a, lambda: [f(y, x, E.np.equal) for x, y in zip(ref, rb)])
        E.same("b unchanged", b, rb)
    E.same("a unchanged", a, ref)

@harness("C08", quick=[{"k": k, "d": "int64"} for k in KINDS] + [{"k": "bool", "d": "float64"}, {"k": "index", "d": "float64"}, {"k": "bitF", "d": "bool"}, {"k": "index", "d": "bool"}], bounds="<=2 items: reductions leave out missing values (and NaN)")
def masked_reduce(E, k, d):
    n = E.size("n", 0, 2)
    a, ref = masked(E, "a", k, n, d)
    ref = ref.all()
    for name in ("count", "sum", "prod", "any", "all", "count_nonzero", "min", "max") if d == "int64" else ("count", "sum", "any", "all"):
        E.agree(name, lambda: getattr(a, name)(), lambda: refreduce(E, name, ref, d))
    if d == "int64":
        good = [i for i in range(n) if ref[i] is not None]
        def best(cmp):
            if not good:
                raise Fail("nothing to compare")
            out = good[0]
            for i in good[1:]:
                if E.sel(cmp(ref[i], ref[out])):
                    out = i
            return out
        E.agree("argmin", lambda: a.argmin(), lambda: best(lambda x, y: x < y))
        E.agree("argmax", lambda: a.argmax(), lambda: best(lambda x, y: x > y))
    E.same("a unchanged", a, ref)

@harness("C08", quick=[{"k": k} for k in ("bool", "boolF", "boolX", "bitL", "index", "indexP", "indexZ")], bounds="<=2 lists of <=2 items, any list possibly missing")
def masked_jagged(E, k):
    n = E.size("n", 0, 2)
    def content(total):
        b, rb = jagged(E, "in", nlists=total, maxlen=2 if total < 3 and not k.startswith("index") else 1, placement=E.choice("p", ["counts", "offsets"]))
        return b, rb.all()
    a, ref = masked(E, "a", k, n, content=content)
    ref = ref.all()
    on = lambda g: [None if x is None else g(x) for x in ref]
    E.agree("a", lambda: a, lambda: ref)
    E.agree("counts", lambda: a.counts, lambda: [-1 if x is None else len(x) for x in ref])
    flat = []
    for x in ref:
        flat.extend([None] if x is None else x)
    E.agree("flatten", lambda: a.flatten(), lambda: flat)
    E.agree("a + 1", lambda: a + 1, lambda: on(lambda x: [y + 1 for y in x]))
    E.agree("sum", lambda: a.sum(), lambda: on(lambda x: refreduce(E, "sum", x, "int64")))
    E.agree("count", lambda: a.count(), lambda: on(len))
    E.agree("pairs", lambda: a.argpairs(), lambda: on(lambda x: [(i, j) for i in range(len(x)) for j in range(i, len(x))]))
    E.agree("distincts", lambda: a.distincts(), lambda: on(lambda x: [(x[i], x[j]) for i in range(len(x)) for j in range(i + 1, len(x))]))
    E.agree("choose", lambda: a.argchoose(2), lambda: on(lambda x: [(0, 1)] if len(x) == 2 else []))
    E.agree("pad", lambda: a.pad(2), lambda: on(lambda x: x + [None] * (2 - len(x))))
    E.agree("argmax", lambda: a.argmax().counts, lambda: [-1 if x is None else min(1, len(x)) for x in ref])
    E.agree("a[::-1]", lambda: a[::-1], lambda: ref[::-1])
    if all(x is not None for x in ref):
        E.agree("a[:, :1]", lambda: a[:, :1], lambda: [x[:1] for x in ref])
        if n and all(x for x in ref):
            E.agree("a[:, 0]", lambda: a[:, 0], lambda: [x[0] for x in ref])
            E.agree("a[0, 0]", lambda: a[0, 0], lambda: ref[0][0])
    else:
        def no():
            raise Fail("missing values cannot be subscripted")
        E.agree("a[:, :1]", lambda: a[:, :1], no)
    E.same("a unchanged", a, ref)

@harness("C08", quick=[{"k": k} for k in ("bool", "bitF", "index", "indexW", "indexP", "indexZ")], bounds="<=2 records or pairs, possibly missing; missing values inside missing values")
def masked_nested(E, k):
    n = E.size("n", 0, 2)
    if E.flag("table"):
        def content(total):
            x, y = E.array("x", total), E.array("y", total, "bool")
            return E.ak.Table(x=x, y=y), [{"x": s, "y": t} for s, t in zip(E.items(x), E.items(y))]
        a, ref = masked(E, "a", k, n, content=content)
        ref = ref.all()
        E.agree("a", lambda: a, lambda: ref)
        E.agree("a['x']", lambda: a["x"], lambda: [None if r is None else r["x"] for r in ref])
        E.agree("a.columns", lambda: a.columns, lambda: ["x", "y"])
        E.agree("a[['y']]", lambda: a[["y"]], lambda: [None if r is None else {"y": r["y"]} for r in ref])
        E.agree("a[::-1]['x']", lambda: a[::-1]["x"], lambda: [None if r is None else r["x"] for r in ref[::-1]])
        E.agree("a.sum()", lambda: a["x"].sum(), lambda: refreduce(E, "sum", [None if r is None else r["x"] for r in ref], "int64"))
    else:
        def content(total):
            return (lambda p: (p[0], p[1].all()))(masked(E, "in", "boolF", total))
        a, ref = masked(E, "a", k, n, content=content)
        ref = ref.all()
        E.agree("a", lambda: a, lambda: ref)
        E.agree("a + 1", lambda: a + 1, lambda: [None if x is None else x + 1 for x in ref])
        E.agree("a[::-1]", lambda: a[::-1], lambda: ref[::-1])
        E.agree("a.sum()", lambda: a.sum(), lambda: refreduce(E, "sum", ref, "int64"))
        E.agree("fillna", lambda: a.fillna(5), lambda: [5 if x is None else x for x in ref])
    E.same("a unchanged", a, ref)

@harness("C08", quick=[{"k": k} for k in ("bool", "boolF", "boolX", "index", "indexW", "indexP", "indexZ")], bounds="two masked arrays of <=2 items of the same kind")
def masked_concatenate(E, k):
    a, ra = masked(E, "a", k, E.size("n", 0, 2))
    b, rb = masked(E, "b", k, E.size("m", 0, 2))
    E.agree("concatenate", lambda: a.concatenate([b]), lambda: ra.all() + rb.all())
    E.same("a unchanged", a, ra.all())

@harness("C08", bounds="<=9 items without missing values")
def masked_fromcontent(E):
    n = E.choice("n", [0, 1, 2, 9])
    x = E.array("x", n)
    mw = E.flag("maskedwhen")
    lsb = E.flag("lsb")
    E.agree("MaskedArray", lambda: E.ak.MaskedArray.fromcontent(x, maskedwhen=mw), lambda: x)
    E.agree("BitMaskedArray", lambda: E.ak.BitMaskedArray.fromcontent(x, maskedwhen=mw, lsborder=lsb), lambda: x)
    E.agree("IndexedMaskedArray", lambda: E.ak.IndexedMaskedArray.fromcontent(x), lambda: x)
