"""topandas(flatten=True): a row per innermost item, the item's position in every list as its index."""
from .common import *
from .h_strings import strings, stringarray, T
from .h_table import table

# a type is None (numbers), "str", "opt" (numbers or None), ("list", type) or {name: type}

def cells(t, prefix=()):
    """the columns of the frame"""
    if isinstance(t, dict):
        return [c for n, x in t.items() for c in cells(x, prefix + (n,))]
    if isinstance(t, tuple):
        return cells(t[1], prefix)
    return [prefix]

def jagged_type(t):
    return isinstance(t, tuple) or isinstance(t, dict) and any(jagged_type(x) for x in t.values())

def explode(v, t):
    """the rows one value becomes: (position in each list, {column: value})"""
    if isinstance(t, tuple):
        return [((i,) + p, c) for i, x in enumerate(v) for p, c in explode(x, t[1])]
    if isinstance(t, dict):
        parts = [(n, jagged_type(x), explode(v[n], x)) for n, x in t.items()]
        many = [[p for p, c in rows] for n, j, rows in parts if j]
        if any(m != many[0] for m in many):
            raise Fail("columns with different lists")
        where = many[0] if many else [()]
        return [(p, {(n,) + k: x for n, j, rows in parts for k, x in rows[i if j else 0][1].items()}) for i, p in enumerate(where)]
    return [((), {(): v})]

def depth(t):
    if isinstance(t, tuple):
        return 1 + depth(t[1])
    if isinstance(t, dict):
        ds = set(depth(x) for x in t.values() if jagged_type(x))
        if len(ds) > 1:
            raise Fail("columns with lists of different depths")
        return ds.pop() if ds else 0
    return 0

def expected(ref, t):
    depth(t)
    columns = cells(t)
    deepest = max(len(c) for c in columns)
    rows = [((i,) + p, c) for i, v in enumerate(ref) for p, c in explode(v, t)]
    return [[list(c + ("",) * (deepest - len(c))) for c in columns], [list(p) for p, c in rows], [[c[k] for p, c in rows] for k in columns]]

def frame(E, df):
    """what a DataFrame or a Series says: columns, index, values"""
    index = [list(x) if isinstance(x, tuple) else [x] for x in df.index.tolist()]
    def values(xs):
        return [None if x is None or type(x).__name__ == "MaskedConstant" or (isinstance(x, float) and x != x) else T(E, x) for x in xs]
    if not hasattr(df, "columns"):
        return [[[]], index, [values(df.tolist())]]
    columns = df.columns.tolist()
    cols = [values(df.column(i) if E.symbolic else df.iloc[:, i].tolist()) for i in range(len(columns))]
    return [[list(c) for c in columns], index, cols]

def flattened(E, what, a, ref, t):
    """the frame of a, which has the values ref of type t"""
    def levels(a):
        return int(E.ak.topandas(a, flatten=True).index.nlevels)
    def get():
        columns, index, values = frame(E, E.ak.topandas(a() if callable(a) else a, flatten=True))
        names = [[str(x) for x in c] for c in columns]
        return [names == [[str(x) for x in c] for c in wanted_columns(t)] and levels(a() if callable(a) else a) == 1 + depth(t), index, values]
    def want():
        columns, index, values = expected(ref, t)
        return [True, index, [[T(E, x) for x in c] for c in values]]
    E.agree(what, get, want)

def wanted_columns(t):
    columns = cells(t)
    deepest = max(len(c) for c in columns)
    return [list(c + ("",) * (deepest - len(c))) for c in columns]

def pd(**kwargs):                 # like @harness("C25", ...)
    return strings("C25", **kwargs)

LISTS = ("list", None)

@pd(quick=[{"p": p, "d": d} for p in ("counts", "offsets", "any") for d in ("int64", "float64")], thorough=[{"p": "any", "d": "int64", "n": 3}], bounds="<=2 (3) lists of <=2 numbers in every layout", need=())
def frame_lists(E, p, d, n=2):
    a, ref = jagged(E, "a", maxlists=n, maxlen=2, placement=p, total=3, content=lambda k: numbers(E, "x", k, d))
    flattened(E, "lists", a, ref.all(), LISTS)

def numbers(E, name, n, d="int64"):
    x = E.array(name, n, d)
    it = E.items(x)
    if d == "float64":
        for v in it:
            E.assume(v == v)
    return x, it

@pd(quick=[{"p": "counts", "q": "counts"}, {"p": "any", "q": "counts"}, {"p": "offsets", "q": "offsets"}, {"p": "counts", "q": "any"}], thorough=[{"p": "any", "q": "any"}, {"p": "offsets", "q": "any"}], bounds="<=2 lists of <=2 lists of <=2 numbers, every layout", need=())
def frame_deep(E, p, q):
    def content(total):
        b, rb = jagged(E, "in", nlists=total, maxlen=2 if p == "counts" and q == "counts" else 1, placement=q, total=2)
        return b, rb.all()
    a, ref = jagged(E, "a", maxlists=2, maxlen=2, placement=p, total=2, content=content)
    flattened(E, "lists of lists", a, ref.all(), ("list", LISTS))

@pd(quick=[{"p": "counts"}, {"p": "any"}], bounds="<=2 lists of <=2 lists of one list of one number", need=())
def frame_deeper(E, p):
    def inner(total):
        b, rb = jagged(E, "in", nlists=total, maxlen=1, placement="counts")
        return b, rb.all()
    def mid(total):
        b, rb = jagged(E, "mid", nlists=total, maxlen=2 if p == "counts" else 1, placement=p, total=2, content=inner)
        return b, rb.all()
    a, ref = jagged(E, "a", nlists=2, maxlen=1, placement=p, total=1, content=mid)
    ref = ref if isinstance(ref, list) else ref.all()
    flattened(E, "lists of lists of lists", a, ref, ("list", ("list", LISTS)))

@pd(quick=[{"w": w} for w in ("flat", "view", "nested", "lists", "jagged", "deep", "tuple", "jagged in nested")], bounds="2 records of numbers, nested records and lists of <=2 items; lists of <=2 records", need=())
def frame_records(E, w):
    ak = E.ak
    t, ref = table(E, "t", 2, extra=0)
    if w == "flat":
        flattened(E, "records", t, ref, {"x": None, "y": None})
    elif w == "view":
        v = E.choice("view", ["slice", "ints", "mask"])
        if v == "slice":
            flattened(E, "records[::-1]", t[::-1], ref[::-1], {"x": None, "y": None})
        elif v == "ints":
            ix = E.array("ix", 2, "int64", 0, 1)
            flattened(E, "records[ix]", t[ix], [ref[int(i)] for i in E.items(ix)], {"x": None, "y": None})
        else:
            m = E.array("m", 2, "bool")
            flattened(E, "records[mask]", t[m], [r for r, b in zip(ref, E.items(m)) if E.sel(b)], {"x": None, "y": None})
    elif w == "nested":
        u, ru = table(E, "u", 2)
        z, zs = numbers(E, "z", 2)
        a = ak.Table(p=ak.Table(q=t, z=z), u=u[::-1])
        flattened(E, "nested", a, [{"p": {"q": r, "z": s}, "u": v} for r, s, v in zip(ref, zs, ru[::-1])], {"p": {"q": {"x": None, "y": None}, "z": None}, "u": {"x": None, "y": None}})
    elif w == "lists":
        p = E.choice("p", ["counts", "any"])
        j, rj = jagged(E, "j", nlists=2, maxlen=2 if p == "counts" else 1, placement=p, total=2)
        z, zs = numbers(E, "z", 2)
        first = E.flag("first")
        a = ak.Table(j=j, z=z) if first else ak.Table(z=z, j=j)
        tt = {"j": LISTS, "z": None} if first else {"z": None, "j": LISTS}
        flattened(E, "lists", a, [{"j": r, "z": s} for r, s in zip(rj.all(), zs)], tt)
        flattened(E, "lists[::-1]", a[::-1], [{"j": r, "z": s} for r, s in zip(rj.all(), zs)][::-1], tt)
    elif w == "jagged":
        p = E.choice("p", ["counts", "any"])
        j, rj = jagged(E, "j", maxlists=2, maxlen=2, placement=p, total=2, content=lambda n: table(E, "more", n))
        flattened(E, "lists of records", j, rj.all(), ("list", {"x": None, "y": None}))
    elif w == "deep":
        p = E.choice("p", ["counts", "offsets"])
        def recs(n):
            u, ru = table(E, "u", n)
            k, rk = jagged(E, "k", nlists=n, maxlen=2 if p == "counts" and n < 3 else 1, placement="counts")
            return ak.Table(x=u["x"], k=k), [{"x": r["x"], "k": v} for r, v in zip(ru, rk.all())]
        j, rj = jagged(E, "j", nlists=2, maxlen=2 if p == "counts" else 1, placement=p, content=recs)
        z, zs = numbers(E, "z", 2)
        flattened(E, "lists of records of lists", ak.Table(z=z, j=j), [{"z": s, "j": r} for s, r in zip(zs, rj.all())], {"z": None, "j": ("list", {"x": None, "k": LISTS})})
    elif w == "tuple":
        j, rj = jagged(E, "j", maxlists=2, maxlen=2, placement="counts")
        flattened(E, "pairs", lambda: j.pairs(), [[{"0": r[a], "1": r[b]} for a in range(len(r)) for b in range(a, len(r))] for r in rj.all()], ("list", {"0": None, "1": None}))
    else:
        j, rj = jagged(E, "j", nlists=2, maxlen=2, placement="counts")
        flattened(E, "nested", ak.Table(p=ak.Table(j=j, x=t["x"]), y=t["y"]), [{"p": {"j": s, "x": r["x"]}, "y": r["y"]} for s, r in zip(rj.all(), ref)], {"p": {"j": LISTS, "x": None}, "y": None})

@pd(quick=[{"w": w} for w in ("lists", "nested", "lists of lists", "depths")], bounds="2 records with two columns of <=2 lists each, in different layouts: the same lengths everywhere, or refused", need=())
def frame_two(E, w):
    ak = E.ak
    z, zs = numbers(E, "z", 2)
    p = E.choice("p", ["counts", "offsets"]) if w != "lists of lists" else "counts"
    if w == "lists of lists" or w == "depths":
        def content(name, q):
            def make(total):
                b, rb = jagged(E, name, nlists=total, maxlen=2 if total < 2 else 1, placement=q)
                return b, rb.all()
            return make
        n = 1 if w == "lists of lists" else 2
        j, rj = jagged(E, "j", nlists=n, maxlen=2 if n == 1 else 1, placement="counts", content=content("jin", "counts"))
        k, rk = jagged(E, "k", nlists=n, maxlen=2 if n == 1 else 1, placement=p, total=2, content=content("kin", "counts") if w == "lists of lists" else None)
        flattened(E, "two columns", ak.Table(j=j, k=k), [{"j": r, "k": s} for r, s in zip(rj.all(), rk.all())], {"j": ("list", LISTS), "k": ("list", LISTS) if w == "lists of lists" else LISTS})
        return
    j, rj = jagged(E, "j", nlists=2, maxlen=2 if p == "counts" else 1, placement="counts")
    k, rk = jagged(E, "k", nlists=2, maxlen=2 if p == "counts" else 1, placement=p, total=2)
    if w == "lists":
        flattened(E, "two columns", ak.Table(j=j, z=z, k=k), [{"j": r, "z": v, "k": s} for r, v, s in zip(rj.all(), zs, rk.all())], {"j": LISTS, "z": None, "k": LISTS})
    else:
        flattened(E, "two columns", ak.Table(j=j, u=ak.Table(z=z, k=k)), [{"j": r, "u": {"z": v, "k": s}} for r, v, s in zip(rj.all(), zs, rk.all())], {"j": LISTS, "u": {"z": None, "k": LISTS}})

@pd(quick=[{"k": k, "w": w} for k in ("bool", "boolX", "bit", "index") for w in ("top", "column", "beside", "inside")], bounds="2 possibly missing numbers by themselves, as a column, as a column beside lists, in lists", need=())
def frame_missing(E, k, w):
    ak, np = E.ak, E.np
    x, xs = numbers(E, "x", 2, "int16")
    if k == "index":
        ix = E.array("ix", 2, "int64", -1, 1)
        m, ref = ak.IndexedMaskedArray(ix, x), [None if E.sel(i < 0) else xs[int(i)] for i in E.items(ix)]
    else:
        b = E.array("b", 2, "bool")
        bits = E.items(b)
        w_ = k != "boolX"
        ref = [None if E.sel(v == w_) else u for v, u in zip(bits, xs)]
        if k == "bit":
            m = ak.BitMaskedArray(np.packbits(b), x, maskedwhen=True, lsborder=False)
        else:
            m = ak.MaskedArray(b, x, maskedwhen=w_)
    if w == "top":
        flattened(E, "numbers", m, ref, "opt")
    elif w == "column":
        y, ys = numbers(E, "y", 2)
        flattened(E, "column", ak.Table(m=m, y=y), [{"m": u, "y": v} for u, v in zip(ref, ys)], {"m": "opt", "y": None})
        flattened(E, "column reversed", ak.Table(m=m, y=y)[::-1], [{"m": u, "y": v} for u, v in zip(ref, ys)][::-1], {"m": "opt", "y": None})
    elif w == "beside":
        j, rj = jagged(E, "j", nlists=2, maxlen=2, placement="counts")
        flattened(E, "beside", ak.Table(m=m, j=j), [{"m": u, "j": v} for u, v in zip(ref, rj.all())], {"m": "opt", "j": LISTS})
    else:
        c = E.choice("counts", [[2], [0, 1, 1], [1, 0, 1]])
        o = [sum(c[:i]) for i in range(len(c))]
        flattened(E, "inside", ak.JaggedArray.fromcounts(c, m), [ref[i:i + n] for i, n in zip(o, c)], ("list", "opt"))

@pd(quick=[{"w": w} for w in ("column", "top", "beside", "inside")], bounds="2 strings of <=2 characters by themselves, as a column, beside and in lists", need=())
def frame_strings(E, w):
    ak = E.ak
    s, ref = stringarray(E, "s", 2)
    if w == "top":
        flattened(E, "strings", s, ref, "str")
    elif w == "column":
        y, ys = numbers(E, "y", 2)
        flattened(E, "column", ak.Table(s=s, y=y), [{"s": u, "y": v} for u, v in zip(ref, ys)], {"s": "str", "y": None})
    elif w == "beside":
        j, rj = jagged(E, "j", nlists=2, maxlen=1, placement="counts")
        flattened(E, "beside", ak.Table(s=s, j=j), [{"s": u, "j": v} for u, v in zip(ref, rj.all())], {"s": "str", "j": LISTS})
    else:
        c = E.choice("counts", [[2], [0, 1, 1], [1, 0, 1]])
        o = [sum(c[:i]) for i in range(len(c))]
        flattened(E, "inside", ak.JaggedArray.fromcounts(c, s), [ref[i:i + n] for i, n in zip(o, c)], ("list", "str"))

@pd(quick=[{"k": k, "w": w} for k in ("chunked", "virtual", "indexed", "appendable", "sparse", "object") for w in ("numbers", "lists", "records", "column")], bounds="2 to 3 numbers, lists of <=1 number or records behind chunks, an index, a virtual, sparse or object array; by themselves or as a column", need=())
def frame_wrapped(E, k, w):
    ak, np = E.ak, E.np
    n = 2
    def make(name, n):
        if w == "records":
            a, r = table(E, name, n)
            return a, r, {"x": None, "y": None}
        if w == "lists":
            a, r = jagged(E, name, nlists=n, maxlen=1, placement="counts")
            return a, r.all(), LISTS
        a, r = numbers(E, name, n)
        return a, r, None
    a, ref, t = make("a", n)
    if k == "chunked":
        b, rb, _ = make("b", 1)
        size = E.size("size", 0, 1)
        a, ref = ak.ChunkedArray([a, b[:size]], [2, size]) if E.flag("sizes") else ak.ChunkedArray([a, b[:size]]), ref + rb[:size]
    elif k == "virtual":
        a = (lambda c: ak.VirtualArray(lambda: c))(a)
    elif k == "indexed":
        ix = E.array("ix", 2, "int64", 0, 1)
        a, ref = ak.IndexedArray(ix, a), [ref[int(i)] for i in E.items(ix)]
    elif k == "appendable":
        if w not in ("numbers", "column"):
            return
        a = ak.AppendableArray((2,), np.dtype("int64"))
        it = [E.int("v%d" % i, -5, 5) for i in range(3)]
        for v in it:
            a.append(v)
        ref = it
    elif k == "sparse":
        if w not in ("numbers", "column"):
            return
        at = E.choice("at", [[0, 2], [1, 2], [0, 1]])
        a = ak.SparseArray(3, at, a)
        ref = [ref[at.index(i)] if i in at else 0 for i in range(3)]
    else:
        if w not in ("numbers", "column"):
            return
        a = ak.ObjectArray(a, str)
    if w == "column":
        y, ys = numbers(E, "y", len(ref))
        flattened(E, "column", ak.Table(a=a, y=y), [{"a": u, "y": v} for u, v in zip(ref, ys)], {"a": t, "y": None})
    else:
        flattened(E, "array", a, ref, t)

@pd(bounds="1 to 3 items: unions, missing lists, missing strings, arrays with more dimensions are refused; columns longer than the table are cut", need=())
def frame_refused(E):
    ak, np = E.ak, E.np
    x, xs = numbers(E, "x", 2)
    def no():
        raise Fail("no such frame")
    for what, a in (("union", ak.UnionArray([0, 1], [0, 0], [x, ak.JaggedArray.fromcounts([1, 1], x)])), ("missing lists", ak.MaskedArray([False, True], ak.JaggedArray.fromcounts([1, 1], x))), ("shape", ak.Table(x=np.array([[1, 2], [3, 4]]))),
                    ("lists with shape", ak.JaggedArray([[0, 1], [1, 1]], [[1, 2], [1, 1]], x))):
        E.agree(what, lambda: frame(E, E.ak.topandas(a, flatten=True)), no, ValueError)
    flattened(E, "longer column", ak.Table(x=x, y=x[:1]), [{"x": xs[0], "y": xs[0]}], {"x": None, "y": None})
    flattened(E, "longer lists", ak.Table(x=x[:1], y=ak.JaggedArray.fromcounts([1, 1], x)), [{"x": xs[0], "y": [xs[0]]}], {"x": None, "y": LISTS})
    flattened(E, "numbers", ak.ChunkedArray([x, x]), xs + xs, None)
