"""Flattening, padding, concatenating and zipping jagged arrays, as on plain nested lists."""
from .common import *

def doubly(E, p, q, n=2, L=2, M=2):
    def content(total):
        b, rb = jagged(E, "in", nlists=total, maxlen=M, placement=q, total=M + 1)
        return b, rb.all()
    return jagged(E, "a", maxlists=n, maxlen=L, placement=p, total=2, content=content)

def flat(rows):
    return [x for r in rows for x in r]

def padded(r, k, clip):
    return (r[:k] if clip else r) + [None] * (k - len(r))

@harness("C07", quick=[{"p": "counts", "q": "counts"}, {"p": "offsets", "q": "counts", "M": 1}, {"p": "counts", "q": "offsets", "M": 1}, {"p": "any", "q": "counts", "L": 1}, {"p": "counts", "q": "any", "L": 1, "M": 1}],
         thorough=[{"p": "offsets", "q": "offsets"}, {"p": "any", "q": "any", "L": 1, "M": 1}, {"p": "any", "q": "counts"}, {"p": "counts", "q": "counts", "n": 3}], bounds="<=2 (3) outer lists of <=2 inner lists of <=2 items, every layout")
def flatten_depth(E, p, q, n=2, L=2, M=2):
    a, ref = doubly(E, p, q, n, L, M)
    rows = ref.all()
    E.agree("flatten(1)", lambda: a.flatten(axis=1), lambda: [flat(r) for r in rows])
    E.agree("flatten()", lambda: a.flatten(), lambda: flat(rows))
    E.agree("flatten().flatten()", lambda: a.flatten().flatten(), lambda: flat(flat(rows)))
    E.agree("flatten(1).flatten()", lambda: a.flatten(axis=1).flatten(), lambda: flat(flat(rows)))
    E.same("a unchanged", a, rows)

@harness("C07", quick=[{"p": "counts"}, {"p": "offsets"}, {"p": "any"}], bounds="three levels of lists (<=2, <=1, <=1, <=2 items)")
def flatten_triple(E, p):
    def content(total):
        return (lambda t: (t[0], t[1].all()))(jagged(E, "mid", nlists=total, maxlen=1, placement="offsets" if p != "any" else "counts", content=inner))
    def inner(total):
        b, rb = jagged(E, "in", nlists=total, maxlen=1, placement="counts")
        return b, rb.all()
    a, ref = jagged(E, "a", maxlists=2, maxlen=1, placement=p, total=1, content=content)
    rows = ref.all()
    E.agree("flatten(2)", lambda: a.flatten(axis=2), lambda: [[flat(m) for m in r] for r in rows])
    E.agree("flatten(1)", lambda: a.flatten(axis=1), lambda: [flat(r) for r in rows])
    E.agree("flatten()", lambda: a.flatten(), lambda: flat(rows))

@harness("C07", bounds="<=2 lists of <=2 items of shape (2,); starts and stops of shape (2, 2)")
def flatten_regular(E):
    if E.flag("inner"):
        def content(total):
            x = E.array("x", 2 * total)
            xs = E.items(x)
            return x.reshape(total, 2), [[xs[2 * i], xs[2 * i + 1]] for i in range(total)]
        a, ref = jagged(E, "a", maxlists=2, maxlen=2, placement=E.choice("p", ["counts", "offsets"]), content=content)
        rows = ref.all()
        E.agree("flatten(1)", lambda: a.flatten(axis=1), lambda: [flat(r) for r in rows])
        E.agree("flatten()", lambda: a.flatten(), lambda: flat(rows))
    else:
        x = E.array("x", 3)
        xs = E.items(x)
        cs = E.sizes("c", 4, 0, 1)
        s = [E.size("s%d" % i, 0, 1) if c else 0 for i, c in enumerate(cs)]
        a = E.ak.JaggedArray(E.np.array(s, dtype="int64").reshape(2, 2), E.np.array([i + c for i, c in zip(s, cs)], dtype="int64").reshape(2, 2), x)
        rows = [xs[i:i + c] for i, c in zip(s, cs)]
        E.agree("flatten()", lambda: a.flatten(), lambda: flat(rows))
        E.agree("structure1d", lambda: a.structure1d(), lambda: [rows[:2], rows[2:]])
        E.agree("pad", lambda: a.pad(1), lambda: [[padded(r, 1, False) for r in rows[:2]], [padded(r, 1, False) for r in rows[2:]]])
        E.agree("structure1d.flatten", lambda: a.structure1d().flatten(), lambda: rows)

@harness("C07", bounds="flattening lists of scalars at depth one is refused")
def flatten_refused(E):
    a, ref = jagged(E, "a", maxlists=2, maxlen=1, placement="offsets", minlists=1, minlen=1)
    def want():
        raise Fail("scalars")
    E.agree("flatten(1)", lambda: a.flatten(axis=1), want)
    E.agree("flatten(-1)", lambda: a.flatten(axis=-1), want)
    E.agree("flatten(True)", lambda: a.flatten(axis="x"), want)

@harness("C07", quick=[{"p": "counts", "n": 2, "L": 2, "K": 3}, {"p": "offsets", "n": 2, "L": 2, "K": 2}, {"p": "any", "n": 2, "L": 1, "K": 2}, {"p": "any", "n": 1, "L": 2, "K": 3}, {"p": "counts", "n": 3, "L": 1, "K": 2}],
         thorough=[{"p": "counts", "n": 3, "L": 3, "K": 4}, {"p": "any", "n": 3, "L": 2, "K": 3}, {"p": "offsets", "n": 3, "L": 3, "K": 3}], bounds="<=3 lists of <=3 items in every layout, padded to 0..4, clipped or not, either mask sense")
def pad_lists(E, p, n, L, K):
    a, ref = jagged(E, "a", maxlists=n, maxlen=L, placement=p, total=3)
    k = E.size("k", 0, K)
    clip = E.flag("clip")
    mw = E.flag("maskedwhen")
    rows = ref.all()
    E.agree("pad", lambda: a.pad(k, maskedwhen=mw, clip=clip), lambda: [padded(r, k, clip) for r in rows])
    if k > 0:
        E.agree("pad.fillna", lambda: a.pad(k, maskedwhen=mw, clip=clip).fillna(7), lambda: [[7 if x is None else x for x in padded(r, k, clip)] for r in rows])
    E.agree("pad.flatten", lambda: a.pad(k, maskedwhen=mw, clip=clip).flatten(), lambda: flat([padded(r, k, clip) for r in rows]))
    if clip:
        E.agree("pad.regular", lambda: a.pad(k, maskedwhen=mw, clip=True).counts, lambda: [k] * len(rows))
    E.same("a unchanged", a, rows)

@harness("C07", quick=[{"p": "counts", "q": "counts"}, {"p": "offsets", "q": "counts"}, {"p": "any", "q": "counts"}, {"p": "counts", "q": "offsets"}], bounds="<=2 outer lists of <=2 inner lists of <=2 items; inner lists padded to 0..2")
def pad_inner(E, p, q):
    a, ref = doubly(E, p, q, 2, 2 if p == q == "counts" else 1, 1 if p == "any" else 2)
    k = E.size("k", 0, 2)
    clip = E.flag("clip")
    rows = ref.all()
    E.agree("pad axis 1", lambda: a.pad(k, clip=clip, axis=1), lambda: [[padded(r, k, clip) for r in o] for o in rows])
    E.agree("pad", lambda: a.pad(k, clip=clip), lambda: [padded(o, k, clip) for o in rows])
    E.same("a unchanged", a, rows)

@harness("C07", quick=[{"p": "counts"}, {"p": "any"}], bounds="<=2 lists of <=2 records, strings or masked items, padded to 0..2")
def pad_kinds(E, p):
    kind = E.choice("kind", ["table", "masked", "jagged2d"])
    def content(total):
        x = E.array("x", total)
        xs = E.items(x)
        if kind == "table":
            y = E.array("y", total, "bool")
            return E.ak.Table(x=x, y=y), [{"x": s, "y": t} for s, t in zip(xs, E.items(y))]
        if kind == "masked":
            m = E.array("m", total, "bool")
            return E.ak.MaskedArray(m, x), [None if E.sel(t) else s for s, t in zip(xs, E.items(m))]
        return x.reshape(-1, 1), [[s] for s in xs]
    a, ref = jagged(E, "a", maxlists=2, maxlen=2, placement=p, total=2, content=content)
    k = E.size("k", 0, 2)
    clip = E.flag("clip")
    rows = ref.all()
    E.agree("pad", lambda: a.pad(k, clip=clip), lambda: [padded(r, k, clip) for r in rows])

@harness("C07", quick=[{"p": p, "w": w} for p in ("counts", "any") for w in ("2", "1,2", "2,1", "0", "2,2")], bounds="<=2 lists of <=2 items of fixed shapes of one or two dimensions, padded at every depth to 0..3, clipped or not, either mask sense")
def pad_regular(E, p, w):
    shape = tuple(int(x) for x in w.split(","))
    def content(total):
        size = total
        for k in shape:
            size *= k
        x = E.array("x", size)
        it = E.items(x)
        def nest(it, shape):
            size = len(it) // max(shape[0], 1) if shape else 1
            return [nest(it[i * size:(i + 1) * size], shape[1:]) for i in range(shape[0])] if shape else it[0]
        return x.reshape((total,) + shape), nest(it, (total,) + shape)
    a, ref = jagged(E, "a", maxlists=2, maxlen=2, placement=p, total=2, content=content)
    rows = ref.all()
    k = E.size("k", 0, 3)
    clip = E.flag("clip")
    mw = E.flag("maskedwhen")
    E.agree("pad", lambda: a.pad(k, maskedwhen=mw, clip=clip), lambda: [padded(r, k, clip) for r in rows])
    E.agree("pad axis 1", lambda: a.pad(k, maskedwhen=mw, clip=clip, axis=1), lambda: [[padded(x, k, clip) for x in r] for r in rows])
    def two():
        if len(shape) == 1:
            raise Fail("no such axis")
        return [[[padded(y, k, clip) for y in x] for x in r] for r in rows]
    if len(a.content) != 0:
        E.agree("pad axis 2", lambda: a.pad(k, maskedwhen=mw, clip=clip, axis=2), two, ValueError)
    E.same("a unchanged", a, rows)

@harness("C07", quick=[{"ps": ("counts", "counts"), "L": 2}, {"ps": ("offsets", "any"), "L": 1}, {"ps": ("any", "offsets"), "L": 1}, {"ps": ("counts", "offsets", "counts"), "L": 1}], thorough=[{"ps": ("any", "any"), "L": 2}, {"ps": ("offsets", "offsets"), "L": 2}, {"ps": ("any", "counts", "any"), "L": 1}], bounds="2 or 3 arrays of <=2 lists of <=2 items, every layout")
def concatenate_lists(E, ps, L):
    arrs = [jagged(E, "abc"[i], maxlists=2, maxlen=L, placement=p, total=2) for i, p in enumerate(ps)]
    rows = [r.all() for _, r in arrs]
    xs = [a for a, _ in arrs]
    E.agree("concatenate", lambda: E.ak.JaggedArray.concatenate(xs), lambda: sum(rows, []))
    E.agree("a.concatenate", lambda: xs[0].concatenate(xs[1:]), lambda: sum(rows, []))
    E.agree("awkward0.concatenate", lambda: E.ak.concatenate(xs), lambda: sum(rows, []))
    for i, x in enumerate(xs):
        E.same("unchanged %d" % i, x, rows[i])

@harness("C07", quick=[{"ps": ("counts", "counts"), "d": ("int64", "int64")}, {"ps": ("offsets", "any"), "d": ("int64", "int64")}, {"ps": ("any", "counts"), "d": ("int64", "int64")}, {"ps": ("counts", "counts", "offsets"), "d": ("int64", "int64", "int64")}, {"ps": ("counts", "counts"), "d": ("int64", "float64")}, {"ps": ("counts", "counts"), "d": ("bool", "bool")}, {"ps": ("counts", "counts"), "d": ("int8", "int32")}],
         thorough=[{"ps": ("any", "any"), "d": ("int64", "int64")}, {"ps": ("offsets", "counts", "any"), "d": ("int64", "int64", "int64")}, {"ps": ("counts", "counts"), "d": ("uint8", "bool")}], bounds="2 or 3 arrays of <=2 lists of <=2 items, every layout, concatenated list by list")
def concatenate_axis1(E, ps, d):
    L = 2 if len(ps) == 2 and "any" not in ps else 1
    a, ra = jagged(E, "a", maxlists=2, maxlen=L, placement=ps[0], total=2, dtype=d[0])
    arrs = [(a, ra)] + [jagged(E, "bc"[i], nlists=len(ra), maxlen=L, placement=p, total=2, dtype=d[i + 1]) for i, p in enumerate(ps[1:])]
    rows = [r.all() for _, r in arrs]
    xs = [x for x, _ in arrs]
    if len(set(d)) == 1:
        conv = lambda x: x
    else:
        import numpy
        t = E.np.result_type(*d)
        conv = lambda x: E.np.array([x]).astype(t)[0]
    E.agree("concatenate axis 1", lambda: E.ak.JaggedArray.concatenate(xs, axis=1), lambda: [[conv(x) for x in sum(rs, [])] for rs in zip(*rows)])
    E.agree("a.concatenate axis 1", lambda: xs[0].concatenate(xs[1:], axis=1), lambda: [[conv(x) for x in sum(rs, [])] for rs in zip(*rows)])
    for i, x in enumerate(xs):
        E.same("unchanged %d" % i, x, rows[i])

@harness("C07", bounds="arrays of <=2 and <=2 lists: different lengths are refused")
def concatenate_axis1_lengths(E):
    a, ra = jagged(E, "a", maxlists=2, maxlen=1)
    b, rb = jagged(E, "b", maxlists=2, maxlen=1)
    def want():
        if len(ra) != len(rb):
            raise Fail("different lengths")
        return [x + y for x, y in zip(ra, rb)]
    E.agree("concatenate axis 1", lambda: E.ak.JaggedArray.concatenate([a, b], axis=1), want)

@harness("C07", quick=[{"axis": 0, "p": "counts"}, {"axis": 0, "p": "any"}, {"axis": 1, "p": "counts"}, {"axis": 1, "p": "offsets"}], bounds="2 arrays of <=2 lists of <=2 records")
def concatenate_records(E, axis, p):
    def mk(s):
        def content(total):
            x, y = E.array(s + "x", total), E.array(s + "y", total, "bool")
            return E.ak.Table(x=x, y=y), [{"x": u, "y": v} for u, v in zip(E.items(x), E.items(y))]
        return content
    a, ra = jagged(E, "a", maxlists=2, maxlen=1 if p == "any" else 2, placement=p, total=2, content=mk("a"))
    b, rb = jagged(E, "b", nlists=len(ra), maxlen=1, placement="counts", content=mk("b"))
    ra, rb = ra.all(), rb.all()
    if axis == 0:
        E.agree("concatenate", lambda: E.ak.JaggedArray.concatenate([a, b]), lambda: ra + rb)
    else:
        E.agree("concatenate", lambda: E.ak.JaggedArray.concatenate([a, b], axis=1), lambda: [x + y for x, y in zip(ra, rb)])
    E.same("a unchanged", a, ra)

@harness("C07", quick=[{"p": "counts"}, {"p": "any"}], bounds="2 arrays of <=2 outer lists")
def concatenate_doubly(E, p):
    def mk(s):
        def content(total):
            b, rb = jagged(E, s + "in", nlists=total, maxlen=1, placement="counts")
            return b, rb.all()
        return content
    a, ra = jagged(E, "a", maxlists=2, maxlen=1, placement=p, total=1, content=mk("a"))
    b, rb = jagged(E, "b", maxlists=2, maxlen=1, placement=p, total=1, content=mk("b"))
    E.agree("concatenate", lambda: E.ak.JaggedArray.concatenate([a, b]), lambda: ra.all() + rb.all())

@harness("C07", quick=[{"p": "counts", "q": "counts"}, {"p": "offsets", "q": "any"}, {"p": "any", "q": "counts"}, {"p": "any", "q": "offsets"}], thorough=[{"p": "any", "q": "any"}, {"p": "offsets", "q": "offsets"}], bounds="2 arrays of <=2 lists of <=2 items, every layout; equal and different list lengths", need=("matching", "refused"))
def zip_lists(E, p, q):
    L = 2 if p == "counts" else 1
    a, ra = jagged(E, "a", maxlists=2, maxlen=L, placement=p, total=2)
    b, rb = jagged(E, "b", maxlists=2, maxlen=L, placement=q, total=2, dtype="float64")
    ra, rb = ra.all(), rb.all()
    fits = [len(x) for x in ra] == [len(y) for y in rb]
    def want(mk):
        if not fits:
            E.reached("refused")
            raise Fail("list lengths differ")
        E.reached("matching")
        return [[mk(s, t) for s, t in zip(x, y)] for x, y in zip(ra, rb)]
    Z = E.ak.JaggedArray.zip
    tup = lambda s, t: (s, t)
    rec = lambda s, t: {"x": s, "y": t}
    E.agree("zip(a, b)", lambda: Z(a, b), lambda: want(tup))
    E.agree("a.zip(b)", lambda: a.zip(b), lambda: want(tup))
    E.agree("zip(x=a, y=b)", lambda: Z(x=a, y=b), lambda: want(rec))
    d = {"x": a, "y": b}
    E.agree("zip({..})", lambda: Z(d), lambda: want(rec))
    if fits:
        E.same("dict unchanged", d, {"x": ra, "y": rb})
        E.agree("zip(a, b).i0", lambda: Z(a, b).i0, lambda: ra)
        E.agree("zip(a, b).i1", lambda: Z(a, b).i1, lambda: rb)
        E.agree("zip(x=a, y=b)['y']", lambda: Z(x=a, y=b)["y"], lambda: rb)
    E.same("a unchanged", a, ra)
    E.same("b unchanged", b, rb)

@harness("C07", quick=[{"p": "counts"}, {"p": "offsets"}, {"p": "any"}], bounds="<=2 lists of <=2 items zipped with scalars, plain arrays and Python lists")
def zip_broadcast(E, p):
    a, ra = jagged(E, "a", maxlists=2, maxlen=2, placement=p, total=2)
    ra = ra.all()
    v = E.array("v", len(ra))
    vs = E.items(v)
    Z = E.ak.JaggedArray.zip
    E.agree("zip(a, array)", lambda: Z(a, v), lambda: [[(x, y) for x in r] for r, y in zip(ra, vs)])
    E.agree("zip(array, a)", lambda: Z(v, a), lambda: [[(y, x) for x in r] for r, y in zip(ra, vs)])
    E.agree("zip(x=a, y=array)", lambda: Z(x=a, y=v), lambda: [[{"x": x, "y": y} for x in r] for r, y in zip(ra, vs)])
    E.agree("zip({array, a})", lambda: Z({"y": v, "x": a}), lambda: [[{"x": x, "y": y} for x in r] for r, y in zip(ra, vs)])
    E.agree("zip(a, 5)", lambda: Z(a, 5), lambda: [[(x, 5) for x in r] for r in ra])
    E.agree("zip(x=a, y=2.5)", lambda: Z(x=a, y=2.5), lambda: [[{"x": x, "y": 2.5} for x in r] for r in ra])
    E.agree("zip({a, 5})", lambda: Z({"x": a, "y": 5}), lambda: [[{"x": x, "y": 5} for x in r] for r in ra])
    E.agree("zip(5, a)", lambda: Z(5, a), lambda: [[(5, x) for x in r] for r in ra])
    E.agree("a.zip(True)", lambda: a.zip(True), lambda: [[(x, True) for x in r] for r in ra])

def narrow(E, dt):
    """two lists near the end of what a narrow starts array can address, over known content"""
    big = 200 if dt[0] == "u" else 100
    n0 = E.choice("n0", [0, 2, 20])
    s = [E.choice("s0", [0, big]), E.choice("s1", [big, 3])]
    n1 = E.choice("n1", [1, 3])
    t = [s[0] + n0, s[1] + n1]
    data = E.array("x", 3, "int64", 0, 50)
    content = E.np.concatenate([E.np.arange(big + 17), data, E.np.arange(20)])
    items = E.items(content)
    if s[0] + n0 == s[1] and E.flag("aliased"):
        off = E.np.array([s[0], s[1], t[1]], dtype=dt)
        a = E.ak.JaggedArray.fromoffsets(off, content) if E.flag("from") else E.ak.JaggedArray(off[:-1], off[1:], content)
    else:
        a = E.ak.JaggedArray(E.np.array(s, dtype=dt), E.np.array(t, dtype=dt), content)
    return a, [items[s[0]:t[0]], items[s[1]:t[1]]]

@harness(["C02", "C06", "C07"], quick=[{"dt": d} for d in ("uint8", "int8", "uint64", "int32", "uint32")], bounds="starts and stops in every integer type, near the largest value of the narrow ones")
def narrow_index(E, dt):
    a, rows = narrow(E, dt)
    n = [len(r) for r in rows]
    E.agree("a", lambda: a, lambda: rows)
    E.agree("argpairs", lambda: a.argpairs().counts, lambda: [k * (k + 1) // 2 for k in n])
    E.agree("distincts", lambda: a.distincts().i1, lambda: [[r[j] for i in range(len(r)) for j in range(i + 1, len(r))] for r in rows])
    E.agree("argcross", lambda: a.argcross(a[::-1]), lambda: [[(i, j) for i in range(n[0]) for j in range(n[1])], [(i, j) for i in range(n[1]) for j in range(n[0])]])
    E.agree("concatenate", lambda: E.ak.JaggedArray.concatenate([a, a]), lambda: rows + rows)
    E.agree("concatenate axis 1", lambda: E.ak.JaggedArray.concatenate([a, a], axis=1), lambda: [r + r for r in rows])
    E.agree("flatten", lambda: a[::-1].flatten(), lambda: rows[1] + rows[0])
    E.agree("compact", lambda: a.compact().offsets, lambda: [0, n[0], n[0] + n[1]] if not a.iscompact else list(a.offsets))
    E.agree("pad", lambda: a.pad(2), lambda: [r + [None] * (2 - len(r)) for r in rows])
    E.agree("pad clip", lambda: a.pad(2, clip=True), lambda: [(r + [None] * 2)[:2] for r in rows])
    E.agree("[:, -1:]", lambda: a[:, -1:], lambda: [r[-1:] for r in rows])
    E.agree("[:, ::-1]", lambda: a[:, ::-1], lambda: [r[::-1] for r in rows])
    E.agree("parents", lambda: a.counts, lambda: n)
    E.agree("localindex", lambda: a.localindex, lambda: [list(range(k)) for k in n])
    E.agree("a + rows", lambda: a + E.np.array([1, 2]), lambda: [[x + i + 1 for x in r] for i, r in enumerate(rows)])
