"""Chunked arrays: where an array is split into chunks cannot be observed."""
from .common import *
from .h_reduce import refreduce

def chunked(E, name, k, maxlen=2, dtype="int64", lo=None, hi=None, make=None, known=None):
    """chunked array of k chunks of 0..maxlen items and its reference list; chunk sizes given, found when needed, or given for the first chunk only"""
    sizes = E.sizes(name + ".size", k, 0, maxlen)
    chunks, ref = [], []
    for j, s in enumerate(sizes):
        if make is not None:
            c, it = make("%s.%d" % (name, j), s)
        else:
            c = E.array("%s.%d" % (name, j), s, dtype, lo, hi)
            it = E.items(c)
        chunks.append(c)
        ref.extend(it)
    known = E.choice(name + ".known", ["none", "all"] + (["first"] if k > 1 else [])) if known is None else known
    return E.ak.ChunkedArray(chunks, {"none": [], "all": list(sizes), "first": list(sizes[:1])}[known]), ref, sizes

K = [{"k": k} for k in (0, 1, 2, 3)]

@harness("C11", quick=K, thorough=K + [{"k": 4}], bounds="0 to 3 chunks of 0 to 2 items, chunk sizes given, partly given or not: every position, slices of steps 1, 2, -1, -2", need=())
def chunked_position(E, k):
    a, ref, sizes = chunked(E, "a", k)
    n = len(ref)
    what = E.choice("what", ["int", "iter", "list"])
    if what == "int":
        i = E.int("i", -n - 2, n + 1, py=True)
        E.agree("a[i]", lambda: a[i], lambda: pick(E, ref, i), errors=IndexError)
    elif what == "iter":
        E.agree("iter", lambda: list(a), lambda: ref)
        E.agree("len", lambda: len(a), lambda: n)
        E.agree("chunksizes", lambda: a.chunksizes, lambda: sizes)
    else:
        E.agree("a[()]", lambda: a[()], lambda: ref)
        E.agree("a[[]]", lambda: a[[]], lambda: [])
        if n:
            E.agree("a[[..]]", lambda: a[[n - 1, 0]], lambda: [ref[n - 1], ref[0]])
            E.agree("a[[True..]]", lambda: a[[True] + [False] * (n - 1)], lambda: [ref[0]])
    E.same("a unchanged", a, ref)

@harness("C11", quick=[{"k": k, "step": s} for k in (0, 1, 2, 3) for s in (None, 2, -1, -2)], bounds="0 to 3 chunks of 0 to 2 items: every slice of steps 1, 2, -1, -2")
def chunked_slice(E, k, step):
    a, ref, sizes = chunked(E, "a", k, known=None if k < 3 else "none")
    n = len(ref)
    s = optslice(E, "s", -n - 1, n + 1, steps=(step,))
    E.agree("a[s]", lambda: a[s], lambda: refslice(ref, s))
    E.same("a unchanged", a, ref)

@harness("C11", quick=[{"k": k} for k in (0, 1, 2)], thorough=K, bounds="0 to 2 chunks of 0 to 2 items: lists of 2 positions, boolean masks, aligned chunked selections")
def chunked_fancy(E, k):
    a, ref, sizes = chunked(E, "a", k)
    n = len(ref)
    what = E.choice("what", ["fancy", "fancy1", "bools", "chunkedbools", "chunkedints"])
    if what == "fancy":
        ix = E.array("ix", 2, "int64", -n - 1, n)
        E.agree("a[ix]", lambda: a[ix], lambda: [pick(E, ref, i) for i in E.items(ix)], errors=IndexError)
        E.agree("a[ix][::-1]", lambda: a[ix][::-1], lambda: [pick(E, ref, i) for i in E.items(ix)][::-1], errors=IndexError)
        E.same("ix unchanged", ix, E.items(ix))
    elif what == "fancy1":
        ix = E.array("ix", 1, "int64", -n - 1, n)
        E.agree("a[ix]", lambda: a[ix], lambda: [pick(E, ref, i) for i in E.items(ix)], errors=IndexError)
    elif what == "bools":
        b = E.array("b", n, "bool")
        E.agree("a[b]", lambda: a[b], lambda: [ref[i] for i in range(n) if E.sel(b[i])])
        E.agree("a[b + 1]", lambda: a[E.np.zeros(n + 1, dtype="bool")], lambda: E_fail(), errors=IndexError)
    elif what == "chunkedbools":
        bs = [E.array("b%d" % j, s, "bool") for j, s in enumerate(sizes)]
        flat = [x for b in bs for x in E.items(b)]
        E.agree("a[chunked]", lambda: a[E.ak.ChunkedArray(bs)], lambda: [x for x, y in zip(ref, flat) if E.sel(y)])
    else:
        # one position for every non-empty chunk
        if all(sizes):
            bs = [E.array("i%d" % j, s, "int64", 0, s - 1) for j, s in enumerate(sizes)]
            off = [sum(sizes[:j]) for j in range(k)]
            E.agree("a[chunked]", lambda: a[E.ak.ChunkedArray(bs)], lambda: [ref[off[j] + int(x)] for j, b in enumerate(bs) for x in E.items(b)])
    E.same("a unchanged", a, ref)

def E_fail():
    raise Fail("refused")

@harness("C11", quick=[{"sizes": s, "m": m} for s, m in (((1, 1), 4), ((1, 1, 1), 4), ((2, 0, 1), 3), ((1, 1), 5), ((1, 2), 3))], thorough=[{"sizes": s, "m": m} for s, m in (((1, 1), 6), ((1, 1, 1), 5), ((2, 0, 1), 4), ((2, 2), 4))],
         bounds="2 to 3 chunks: lists of 3 to 5 (6) positions in any order")
def chunked_fancy_long(E, sizes, m):
    chunks = [E.array("a.%d" % j, s, "int64") for j, s in enumerate(sizes)]
    ref = [x for c in chunks for x in E.items(c)]
    n = len(ref)
    a = E.ak.ChunkedArray(chunks)
    ix = E.array("ix", m, "int64", -n if n == 2 and m < 5 else 0, n - 1)
    E.agree("a[ix]", lambda: a[ix], lambda: [pick(E, ref, i) for i in E.items(ix)])
    t = E.ak.ChunkedArray([E.ak.Table(x=c) for c in chunks])
    E.agree("table[ix]", lambda: t[ix]["x"], lambda: [pick(E, ref, i) for i in E.items(ix)])

@harness("C11", quick=[{"sizes": s, "step": t} for s in ((3, 1, 2), (4, 0, 3)) for t in (3, -2, -3, -4)], thorough=[{"sizes": s, "step": t} for s in ((1, 4, 1, 2), (5, 1, 1, 3)) for t in (2, 3, 4, 5, -2, -3, -4, -5)],
         bounds="3 (4) chunks of up to 4 (5) items: every slice of steps -4 to 4 (5)")
def chunked_slice_long(E, sizes, step):
    chunks = [E.array("a.%d" % j, s, "int64") for j, s in enumerate(sizes)]
    ref = [x for c in chunks for x in E.items(c)]
    n = len(ref)
    a = E.ak.ChunkedArray(chunks)
    s = optslice(E, "s", -n - 1, n + 1, steps=(step,))
    E.agree("a[s]", lambda: a[s], lambda: refslice(ref, s))

@harness("C11", quick=[{"k": k} for k in (1, 2, 3)], bounds="1 to 3 chunks of 0 to 2 items: local and global positions", need=("refused",))
def chunked_convert_position(E, k):
    a, ref, sizes = chunked(E, "a", k, 2 if k < 3 else 1, known=None if k < 3 else "first")
    n = len(ref)
    owner = [j for j, s in enumerate(sizes) for _ in range(s)]
    i = E.int("i", -n - 1, n, py=True)
    E.agree("global2chunkid", lambda: a.global2chunkid(i), lambda: pick(E, owner, i), errors=IndexError)
    if E.sel(i >= n):
        E.reached("refused")
    first = [sum(sizes[:j]) for j in range(k)]
    def want():
        j = pick(E, owner, i)
        return ref[first[j]:first[j] + sizes[j]], inrange(E, i, n) % n - first[j]
    E.agree("global2local", lambda: a.global2local(i), want, errors=IndexError)
    c = E.size("c", 0, k - 1)
    l = E.int("l", -4, 3, py=True)
    E.agree("local2global", lambda: a.local2global(l, c), lambda: first[c] + pick(E, list(range(sizes[c])), l), errors=IndexError)

@harness("C11", quick=[{"k": k} for k in (1, 2, 3)], bounds="1 to 3 chunks of 0 to 2 items: arrays of 2 local or global positions", need=("refused",))
def chunked_convert_positions(E, k):
    a, ref, sizes = chunked(E, "a", k, 2 if k < 3 else 1, known=None if k < 2 else "none")
    n = len(ref)
    owner = [j for j, s in enumerate(sizes) for _ in range(s)]
    first = [sum(sizes[:j]) for j in range(k)]
    if E.flag("local"):
        cs = E.sizes("c", 2, 0, k - 1)
        ls = E.array("l", 2, "int64", -3, 2)
        E.agree("local2global", lambda: a.local2global(ls, E.np.array(cs)), lambda: [first[c] + pick(E, list(range(sizes[c])), l) for c, l in zip(cs, E.items(ls))], errors=IndexError)
        E.same("l unchanged", ls, E.items(ls))
    else:
        ix = E.array("ix", 2, "int64", -n - 1, n)
        E.agree("global2chunkid", lambda: a.global2chunkid(ix), lambda: [pick(E, owner, i) for i in E.items(ix)], errors=IndexError)
        def got():
            chunks, local = a.global2local(ix)
            return [list(x) for x in chunks], local
        def want():
            js = [pick(E, owner, i) for i in E.items(ix)]
            return [ref[first[j]:first[j] + sizes[j]] for j in js], [inrange(E, i, n) % n - first[j] for i, j in zip(E.items(ix), js)]
        E.agree("global2local", got, want, errors=IndexError)
        if E.sel(ix[0] >= n):
            E.reached("refused")

@harness("C11", quick=[{"k": k} for k in (0, 1, 2)], thorough=K, bounds="0 to 2 chunks of 0 to 2 items: elementwise functions with scalars, arrays, lists, chunked arrays", need=())
def chunked_ufunc(E, k):
    a, ref, sizes = chunked(E, "a", k)
    n = len(ref)
    np = E.np
    E.agree("a + 1", lambda: a + 1, lambda: [x + 1 for x in ref])
    E.agree("-a", lambda: -a, lambda: [-x for x in ref])
    E.agree("2 < a", lambda: 2 < a, lambda: [2 < x for x in ref])
    v = E.array("v", n)
    vs = E.items(v)
    E.agree("a + array", lambda: a + v, lambda: [x + y for x, y in zip(ref, vs)])
    E.agree("array - a", lambda: v - a, lambda: [y - x for x, y in zip(ref, vs)])
    E.agree("a + list", lambda: a + [10, 20, 30, 40][:n], lambda: [x + y for x, y in zip(ref, [10, 20, 30, 40])])
    E.agree("a * a", lambda: a * a, lambda: [x * x for x in ref])
    b = E.ak.ChunkedArray([E.array("b%d" % j, s) for j, s in enumerate(sizes)])
    bs = [x for c in b.chunks for x in E.items(c)]
    E.agree("a - b", lambda: a - b, lambda: [x - y for x, y in zip(ref, bs)])
    E.agree("divmod", lambda: [list(x) for x in np.divmod(a, 3)], lambda: [[x // 3 for x in ref], [x % 3 for x in ref]])
    E.agree("wrong length", lambda: a + np.arange(n + 2), E_fail)
    E.agree("broadcast", lambda: a + np.array([5]), lambda: [x + 5 for x in ref])
    E.agree("broadcast scalar", lambda: a + np.array(5), lambda: [x + 5 for x in ref])
    E.agree("(a > 0)[..]", lambda: a[a > 0], lambda: [x for x in ref if E.sel(x > 0)])
    E.same("a unchanged", a, ref)
    E.same("v unchanged", v, vs)

@harness("C11", quick=[{"k": k, "d": d} for k in (0, 1, 2) for d in ("int64", "int8", "uint16", "bool")], bounds="0 to 2 chunks of 0 to 2 items of 4 types: reductions do not depend on the partition")
def chunked_reduce(E, k, d):
    a, ref, sizes = chunked(E, "a", k, dtype=d, known="none" if k == 3 else None)
    if d != "bool":
        E.agree("sum", lambda: a.sum(), lambda: refreduce(E, "sum", ref, d) if len(ref) or k else refreduce(E, "sum", [], "float64"))
    for name in ("count", "any", "all", "count_nonzero", "prod", "min", "max"):
        if d == "bool" and name in ("min", "max", "prod"):
            continue
        E.agree(name, lambda: getattr(a, name)(), lambda: refreduce(E, name, ref, d if len(ref) else str(E.np.concatenate(a.chunks).dtype) if k else "float64"))
    if len(ref) and d != "bool":
        def first(best):
            for i, x in enumerate(ref):
                if all(E.sel(best(x, y)) for y in ref):
                    return i
        E.agree("argmin", lambda: a.argmin(), lambda: first(lambda x, y: x <= y))
        E.agree("argmax", lambda: a.argmax(), lambda: first(lambda x, y: x >= y))
    E.same("a unchanged", a, ref)

@harness("C11", quick=[{}], bounds="2 chunks of 0 to 1 float64: extremes and counts ignore NaN")
def chunked_reduce_float(E):
    a, ref, sizes = chunked(E, "a", 2, 1, "float64", known="none")
    for name in ("min", "max", "count", "any", "all"):
        E.agree(name, lambda: getattr(a, name)(), lambda: refreduce(E, name, ref, "float64"))

@harness("C11", quick=[{"k": k} for k in (0, 1, 2)], bounds="0 to 2 chunks of 0 to 2 items: copies, conversions, filling, concatenating", need=())
def chunked_convert(E, k):
    a, ref, sizes = chunked(E, "a", k)
    n = len(ref)
    np = E.np
    what = E.choice("what", ["copy", "convert", "concat"])
    if what == "copy":
        E.agree("copy", lambda: a.copy(), lambda: ref)
        E.agree("deepcopy", lambda: a.deepcopy(), lambda: ref)
        E.agree("zeros_like", lambda: a.zeros_like(), lambda: [0] * n)
        E.agree("ones_like", lambda: a.ones_like(), lambda: [1] * n)
        E.agree("empty_like", lambda: len(a.empty_like()), lambda: n)
        E.agree("nbytes", lambda: a.nbytes, lambda: 8 * n)
        E.agree("valid", lambda: a.valid(), lambda: True)
    elif what == "convert":
        E.agree("asarray", lambda: np.array(a), lambda: ref)
        E.agree("regular", lambda: a.regular(), lambda: ref)
        E.agree("astype", lambda: a.astype("int8"), lambda: [np.array([x]).astype("int8")[0] for x in ref])
        E.agree("fillna", lambda: a.fillna(9), lambda: ref)
        E.agree("counts", lambda: a.counts, lambda: [-1] * n)
        E.agree("boolmask", lambda: a.boolmask(), lambda: [False] * n)
        E.agree("boolmask(False)", lambda: a.boolmask(maskedwhen=False), lambda: [True] * n)
        E.agree("flatten", lambda: a.flatten(), lambda: ref)
    else:
        b, rb, _ = chunked(E, "b", 1, known=None)
        E.agree("concatenate", lambda: a.concatenate([b]), lambda: ref + rb)
        E.agree("concatenate array", lambda: a.concatenate([np.arange(2)]), lambda: ref + [0, 1])
        E.agree("array concatenate", lambda: E.ak.concatenate([b, a, b]), lambda: rb + ref + rb)
    E.same("a unchanged", a, ref)

@harness("C11", quick=[{"k": k, "what": w} for k in (1, 2) for w in ("select", "fancy", "mask", "reduce", "shape", "combine")], bounds="1 to 2 chunks of 0 to 2 lists of <=2 items: selections, reductions, combinations, flattening")
def chunked_jagged(E, k, what):
    def make(name, s):
        j, r = jagged(E, name, nlists=s, maxlen=1 if k > 1 or what in ("fancy", "mask") else 2, placement="counts")
        return j, r.all()
    a, ref, sizes = chunked(E, "a", k, make=make, known="none" if k > 1 else None)
    n = len(ref)
    if what == "select":
        E.agree("a", lambda: a, lambda: ref)
        E.agree("a[::-1]", lambda: a[::-1], lambda: ref[::-1])
        E.agree("a[:, :1]", lambda: a[:, :1], lambda: [x[:1] for x in ref])
        E.agree("a[:, ::-1]", lambda: a[:, ::-1], lambda: [x[::-1] for x in ref])
        if all(len(x) for x in ref):
            E.agree("a[:, 0]", lambda: a[:, 0], lambda: [x[0] for x in ref])
        for i in range(n):
            if ref[i]:
                E.agree("a[i, -1]", lambda: a[i, -1], lambda: ref[i][-1])
    elif what == "fancy":
        ix = E.array("ix", 2, "int64", -n, n - 1) if n else E.np.array([], dtype="int64")
        E.agree("a[ix]", lambda: a[ix], lambda: [pick(E, ref, i) for i in E.items(ix)], errors=IndexError)
        if n:
            owner = [j for j, c in enumerate(sizes) for _ in range(c)]
            if owner[int(ix[0])] <= owner[int(ix[1])]:     # (not implemented for decreasing chunks of lists)
                E.agree("a[ix, :1]", lambda: a[ix, :1], lambda: [pick(E, ref, i)[:1] for i in E.items(ix)])
    elif what == "mask":
        E.agree("a[a > 0]", lambda: a[a > 0], lambda: [[y for y in x if E.sel(y > 0)] for x in ref])
    elif what == "reduce":
        for name in ("sum", "count", "max", "any", "count_nonzero"):
            E.agree(name, lambda: getattr(a, name)(), lambda: [refreduce(E, name, x, "int64") for x in ref])
        v = E.array("v", n)
        E.agree("a + 1", lambda: a + 1, lambda: [[y + 1 for y in x] for x in ref])
        E.agree("a + array", lambda: a + v, lambda: [[y + z for y in x] for x, z in zip(ref, E.items(v))])
    elif what == "shape":
        E.agree("counts", lambda: a.counts, lambda: [len(x) for x in ref])
        E.agree("flatten", lambda: a.flatten(), lambda: [y for x in ref for y in x])
        E.agree("pad", lambda: a.pad(2), lambda: [x + [None] * (2 - len(x)) for x in ref])
        E.agree("pad clip", lambda: a.pad(1, clip=True), lambda: [(x + [None])[:1] for x in ref])
        if len(set(len(x) for x in ref)) == 1:
            E.agree("regular", lambda: a.regular(), lambda: ref)
        E.agree("zeros_like", lambda: a.zeros_like(), lambda: [[0] * len(x) for x in ref])
        E.agree("argmax", lambda: [list(x) for x in a.argmax()], lambda: [[max(range(len(x)), key=lambda i: (sum(1 for y in x if E.sel(y <= x[i])), -i))] if x else [] for x in ref])
    else:
        E.agree("pairs", lambda: a.pairs(), lambda: [[(x[i], x[j]) for i in range(len(x)) for j in range(i, len(x))] for x in ref])
        E.agree("argpairs", lambda: a.argpairs(), lambda: [[(i, j) for i in range(len(x)) for j in range(i, len(x))] for x in ref])
        E.agree("distincts", lambda: a.distincts(), lambda: [[(x[i], x[j]) for i in range(len(x)) for j in range(i + 1, len(x))] for x in ref])
        E.agree("cross", lambda: a.cross(a), lambda: [[(p, q) for p in x for q in x] for x in ref])
        E.agree("argcross", lambda: a.argcross(a), lambda: [[(i, j) for i in range(len(x)) for j in range(len(x))] for x in ref])
    E.same("a unchanged", a, ref)

@harness("C11", quick=[{"k": k} for k in (1, 2)], bounds="1 to 2 chunks of 0 to 2 records: columns, assigning columns, rows", need=())
def chunked_table(E, k):
    def make(name, s):
        x, y = E.array(name + "x", s), E.array(name + "y", s, "float64")
        return E.ak.Table(x=x, y=y), [{"x": p, "y": q} for p, q in zip(E.items(x), E.items(y))]
    a, ref, sizes = chunked(E, "a", k, make=make, known="none" if k > 1 else None)
    n = len(ref)
    E.agree("a", lambda: a, lambda: ref)
    E.agree("columns", lambda: a.columns, lambda: ["x", "y"] if n else [])
    E.agree("a['x']", lambda: a["x"], lambda: [r["x"] for r in ref])
    E.agree("a[['y']]", lambda: a[["y"]], lambda: [{"y": r["y"]} for r in ref])
    E.agree("a[::-1]", lambda: a[::-1]["x"], lambda: [r["x"] for r in ref[::-1]])
    E.agree("a.y + 1", lambda: a["x"] + 1, lambda: [r["x"] + 1 for r in ref])
    if n:
        i = E.int("i", -n, n - 1, py=True)
        E.agree("a[i]['x']", lambda: a[i]["x"], lambda: ref[int(i)]["x"])
        E.agree("a['x'][i]", lambda: a["x"][i], lambda: ref[int(i)]["x"])
    z = [E.array("z%d" % j, s) for j, s in enumerate(sizes)]
    a["z"] = E.ak.ChunkedArray(z)
    E.agree("assigned", lambda: a["z"], lambda: [v for c in z for v in E.items(c)])
    del a["z"]
    E.agree("deleted", lambda: a, lambda: ref)
