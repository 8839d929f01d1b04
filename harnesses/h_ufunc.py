"""Elementwise functions over jagged structure against per-element application."""
import operator
from .common import *

OPS = {"add": operator.add, "sub": operator.sub, "lt": operator.lt, "eq": operator.eq, "and": operator.and_}

def each(rows, f):
    return [[f(x) for x in r] for r in rows]

def zipped(E, f, *rowss):
    """f over the elements of several lists of lists, which must have the same shape"""
    n = len(rowss[0])
    for r in rowss[1:]:
        if len(r) != n:
            raise Fail("different number of lists")
    out = []
    for rs in zip(*rowss):
        if len(set(len(r) for r in rs)) != 1:
            raise Fail("different list lengths")
        out.append([f(*xs) for xs in zip(*rs)])
    return out

@harness("C04", quick=[{"p": "counts", "n": 3, "L": 2, "op": "sub", "T": 0}, {"p": "offsets", "n": 2, "L": 2, "op": "lt", "T": 0}, {"p": "any", "n": 2, "L": 2, "op": "sub", "T": 3}],
         thorough=[{"p": p, "n": 3, "L": 2, "op": op, "T": 4} for p in ("offsets", "any") for op in ("sub", "lt")], bounds="<=3 lists of <=2 items in any of the layouts; numpy and Python scalars on both sides, unary functions")
def ufunc_scalar(E, p, n, L, op, T):
    a, ref = jagged(E, "a", maxlists=n, maxlen=L, placement=p, total=T)
    f = OPS[op]
    s = E.int("s")
    rows = ref.all()
    E.agree("a op s", lambda: f(a, s), lambda: each(rows, lambda x: f(x, s)))
    E.agree("s op a", lambda: f(s, a), lambda: each(rows, lambda x: f(s, x)))
    E.agree("a op 2", lambda: f(a, 2), lambda: each(rows, lambda x: f(x, 2)))
    E.agree("2 op a", lambda: f(2, a), lambda: each(rows, lambda x: f(2, x)))
    E.agree("-a", lambda: -a, lambda: each(rows, lambda x: -x))
    E.agree("ufunc on one argument", lambda: E.np.absolute(a), lambda: each(rows, lambda x: abs(x)))
    E.agree("nested call", lambda: f(f(a, a), s), lambda: each(rows, lambda x: f(f(x, x), s)))
    E.same("a unchanged", a, rows)

@harness("C04", quick=[{"pa": "offsets", "pb": "counts", "n": 2, "L": 2}, {"pa": "any", "pb": "counts", "n": 2, "L": 1}, {"pa": "counts", "pb": "any", "n": 2, "L": 1}, {"pa": "counts", "pb": "counts", "n": 3, "L": 1}],
         thorough=[{"pa": a, "pb": b, "n": 2, "L": 2} for a, b in (("any", "offsets"), ("offsets", "any"), ("offsets", "offsets"))] + [{"pa": "any", "pb": "any", "n": 2, "L": 1}, {"pa": "counts", "pb": "counts", "n": 3, "L": 2}],
         bounds="two operands of <=2 (3) lists of <=2 items, every pair of layouts, any lengths (matching or not)", need=("matching", "mismatch"))
def ufunc_two(E, pa, pb, n, L):
    a, ra = jagged(E, "a", maxlists=n, maxlen=L, placement=pa, total=2)
    b, rb = jagged(E, "b", maxlists=n, maxlen=L, placement=pb, total=2)
    ra, rb = ra.all(), rb.all()
    same = [len(r) for r in ra] == [len(r) for r in rb]
    E.reached("matching" if same else "mismatch")
    if len(ra) != len(rb) and not any(ra) and not any(rb):
        E.reached("only empty")
    E.agree("a - b", lambda: a - b, lambda: zipped(E, operator.sub, ra, rb), ValueError)
    E.agree("b < a", lambda: b < a, lambda: zipped(E, operator.lt, rb, ra), ValueError)
    E.same("operands unchanged", [a.tolist(), b.tolist()], [ra, rb])

@harness("C04", quick=[{"n": 2, "L": 1}], thorough=[{"n": 2, "L": 2}], bounds="three operands through numpy.where-free arithmetic: a - b * c with different layouts")
def ufunc_three(E, n, L):
    a, ra = jagged(E, "a", nlists=n, maxlen=L, placement="offsets")
    counts = [len(ra[i]) for i in range(n)]
    b, rb = jagged(E, "b", nlists=n, maxlen=L, placement="any", total=2)
    c, rc = jagged(E, "c", nlists=n, maxlen=L, placement="counts")
    for i in range(n):
        E.assume(len(rb[i]) == counts[i])
        E.assume(len(rc[i]) == counts[i])
    E.agree("a - b - c", lambda: a - b - c, lambda: zipped(E, lambda x, y, z: x - y - z, ra.all(), rb.all(), rc.all()))

@harness("C04", quick=[{"p": "counts", "n": 3, "L": 2}, {"p": "offsets", "n": 2, "L": 2}, {"p": "any", "n": 2, "L": 2}], thorough=[{"p": "offsets", "n": 3, "L": 2}, {"p": "any", "n": 3, "L": 2}],
         bounds="<=3 lists of <=2 items with an array (or list) of one value per list, of the right and of wrong lengths")
def ufunc_perlist(E, p, n, L):
    a, ref = jagged(E, "a", maxlists=n, maxlen=L, placement=p, total=3)
    m = len(ref) + E.choice("wrong", [0, 1])
    b = E.array("b", m, "int64")
    bs = E.items(b)
    rows = ref.all()
    def want(f):
        def w():
            if m != len(rows):
                raise Fail("one value per list is required")
            return [[f(x, y) for x in r] for r, y in zip(rows, bs)]
        return w
    E.agree("a - b", lambda: a - b, want(lambda x, y: x - y), ValueError)
    E.agree("b - a", lambda: b - a, want(lambda x, y: y - x), ValueError)
    if m and m == len(rows):
        E.agree("a - list", lambda: a - list(bs), want(lambda x, y: x - y))
        E.agree("tojagged", lambda: a.tojagged(b), want(lambda x, y: y))
    E.same("b unchanged", b, bs)

def refused():
    raise Fail("the shapes of the operands disagree")

@harness("C04", quick=[{"p": "counts"}, {"p": "offsets"}, {"p": "any"}], bounds="<=2 lists of <=2 items with arrays of two dimensions (any second dimension <=2), and starts and stops of shape (2,2) with arrays of one dimension, of shape (2,1), (1,2) and (2,2,1): refused")
def ufunc_shapes(E, p):
    a, ref = jagged(E, "a", maxlists=2, maxlen=2, placement=p, total=2, minlists=1)
    n = len(ref)
    rows = ref.all()
    k = E.size("k", 1, 2)
    b = E.array("b", n * k, "int64").reshape(n, k)
    E.agree("a - b", lambda: a - b, refused, ValueError)
    E.agree("b < a", lambda: b < a, refused, ValueError)
    starts = E.array("s", 4, "int64", 0, 1)
    x = E.array("x", 2, "int64")
    c = E.ak.JaggedArray(starts.reshape(2, 2), (starts + 1).reshape(2, 2), x)
    sh = E.choice("shape", [(2,), (4,), (2, 1), (1, 2), (2, 2, 1)])
    d = E.array("d", 4, "int64")[:sh[0] * (sh[1] if len(sh) > 1 else 1) * (sh[2] if len(sh) > 2 else 1)].reshape(sh)
    E.agree("c - d", lambda: c - d, refused, ValueError)
    E.agree("d - c", lambda: d - c, refused, ValueError)

@harness("C04", quick=[{"p": "counts"}, {"p": "offsets"}, {"p": "any"}], thorough=[{"p": "counts", "n": 3}, {"p": "offsets", "n": 3}, {"p": "any", "n": 3}], bounds="<=2 (3) lists of <=2 items; a Python list of lists as the second operand, matching or not")
def ufunc_fromiter(E, p, n=2):
    a, ref = jagged(E, "a", maxlists=n, maxlen=1 if p == "any" else 2, placement=p, total=2, minlists=1)
    k = [E.size("k%d" % i, 0, 1) for i in range(len(ref))]
    rows = ref.all()
    # converting the list does not preserve the types of values; only its structure matters here
    b = [[7] * x for x in k]
    if any(k):
        E.agree("a - lists", lambda: a - b, lambda: zipped(E, operator.sub, rows, b), ValueError)

@harness("C04", quick=[{"p": "counts", "q": "counts", "n": 2, "m": 2}, {"p": "counts", "q": "offsets", "n": 2, "m": 2}, {"p": "any", "q": "counts", "n": 2, "m": 2}], thorough=[{"p": "offsets", "q": "offsets", "n": 3, "m": 3}, {"p": "any", "q": "offsets", "n": 2, "m": 2}],
         bounds="<=2 (3) outer lists of <=2 (3) inner lists of <=1 item; scalars, per-outer-list, jagged and doubly jagged operands")
def ufunc_doubly(E, p, q, n, m):
    def content(total):
        b, rb = jagged(E, "in", nlists=total, maxlen=1, placement=q)
        return b, rb.all()
    a, ref = jagged(E, "a", maxlists=n, maxlen=m, placement=p, total=2, content=content, minlists=1)
    rows = ref.all()
    s = E.int("s")
    E.agree("a - s", lambda: a - s, lambda: [[[x - s for x in y] for y in r] for r in rows])
    v = E.array("v", len(rows), "int64")
    vs = E.items(v)
    E.agree("a - v", lambda: a - v, lambda: [[[x - t for x in y] for y in r] for r, t in zip(rows, vs)])
    w = E.array("w", sum(len(r) for r in rows), "int64")
    ws = E.items(w)
    if len(rows):
        b = E.ak.JaggedArray.fromcounts(E.np.array([len(r) for r in rows], dtype="int64"), w)
        k = [0]
        def nxt():
            k[0] += 1
            return ws[k[0] - 1]
        def want():
            k[0] = 0
            out = []
            for r in rows:
                out.append([])
                for y in r:
                    t = nxt()
                    out[-1].append([x - t for x in y])
            return out
        E.agree("a - b", lambda: a - b, want)
    E.agree("a - a", lambda: a - a, lambda: [[[x - x for x in y] for y in r] for r in rows])

@harness("C04", quick=[{"p": "offsets"}, {"p": "any"}], bounds="<=2 lists of <=2 records with two fields; scalar, per-list and jagged operands")
def ufunc_table(E, p):
    def content(total):
        x, y = E.array("x", total, "int64"), E.array("y", total, "int64")
        return E.ak.Table(x=x, y=y), [{"x": s, "y": t} for s, t in zip(E.items(x), E.items(y))]
    a, ref = jagged(E, "a", maxlists=2, maxlen=2, placement=p, total=2, content=content)
    rows = ref.all()
    s = E.int("s")
    op = lambda r, t: {"x": r["x"] - t, "y": r["y"] - t}
    E.agree("a - s", lambda: a - s, lambda: [[op(x, s) for x in r] for r in rows])
    v = E.array("v", len(rows), "int64")
    vs = E.items(v)
    E.agree("a - v", lambda: a - v, lambda: [[op(x, t) for x in r] for r, t in zip(rows, vs)])
    E.agree("a - a.x", lambda: a - a["x"], lambda: [[op(x, x["x"]) for x in r] for r in rows])
    E.agree("a.x", lambda: a["x"], lambda: [[x["x"] for x in r] for r in rows])
    E.agree("a + a", lambda: a + a, lambda: [[{"x": x["x"] + x["x"], "y": x["y"] + x["y"]} for x in r] for r in rows])

@harness("C04", quick=[{"p": "offsets"}, {"p": "any"}], bounds="<=2 lists of <=2 possibly missing items")
def ufunc_masked(E, p):
    def content(total):
        x, m = E.array("x", total, "int64"), E.array("m", total, "bool")
        return E.ak.MaskedArray(m, x), [None if E.sel(b) else v for v, b in zip(E.items(x), E.items(m))]
    a, ref = jagged(E, "a", maxlists=2, maxlen=2, placement=p, total=2, content=content)
    rows = ref.all()
    s = E.int("s")
    v = E.array("v", len(rows), "int64")
    vs = E.items(v)
    E.agree("a - s", lambda: a - s, lambda: [[None if x is None else x - s for x in r] for r in rows])
    E.agree("a - v", lambda: a - v, lambda: [[None if x is None else x - t for x in r] for r, t in zip(rows, vs)])
    E.agree("a - a", lambda: a - a, lambda: [[None if x is None else x - x for x in r] for r in rows])

@harness("C04", quick=[{"T": 1}], thorough=[{"T": 2}], bounds="starts and stops of shape (2,2), lists of <=1 item; scalar, (2,2)-shaped and multidimensional jagged operands")
def ufunc_multidim(E, T):
    data = E.array("x", T, "int64")
    items = E.items(data)
    starts = E.array("s", 4, "int64", 0, T)
    counts = E.array("c", 4, "int64", 0, 1)
    for i in range(4):
        E.assume(starts[i] + counts[i] <= T)
    cs = [int(c) for c in E.items(counts)]
    ss = [int(s) if c else 0 for s, c in zip(E.items(starts), cs)]
    rows = [items[s:s + c] for s, c in zip(ss, cs)]
    a = E.ak.JaggedArray(starts.reshape(2, 2), (starts + counts).reshape(2, 2), data)
    two = lambda f: [[f(0), f(1)], [f(2), f(3)]]
    k = E.int("k")
    E.agree("a - k", lambda: a - k, lambda: two(lambda i: [x - k for x in rows[i]]))
    v = E.array("v", 4, "int64")
    vs = E.items(v)
    E.agree("a - v", lambda: a - v.reshape(2, 2), lambda: two(lambda i: [x - vs[i] for x in rows[i]]))
    E.agree("a + a", lambda: a + a, lambda: two(lambda i: [x + x for x in rows[i]]))

@harness("C04", quick=[{"p": "offsets", "d": d} for d in ("int32", "uint8", "float64", "bool")] + [{"p": "any", "d": "float32"}], bounds="<=2 lists of <=2 items of each number type, mixed with int64 and float64; any value including NaN and infinities")
def ufunc_dtypes(E, p, d):
    a, ref = jagged(E, "a", maxlists=2, maxlen=2, placement=p, total=2, dtype=d)
    rows = ref.all()
    if d == "bool":
        E.agree("~a", lambda: ~a, lambda: each(rows, lambda x: ~x))
        E.agree("a & a", lambda: a & (a == a), lambda: each(rows, lambda x: x & True))
        return
    s = E.float("s", "float32" if d == "float32" else "float64")    # (an array keeps its precision when a scalar is more precise)
    E.agree("a * s", lambda: a * s, lambda: each(rows, lambda x: x * s))
    E.agree("a == a", lambda: a == a, lambda: each(rows, lambda x: x == x))
    v = E.array("v", len(rows), "int64")
    vs = E.items(v)
    E.agree("a + v", lambda: a + v, lambda: [[x + t for x in r] for r, t in zip(rows, vs)])
    E.agree("dtype", lambda: str((a + v).content.dtype), lambda: str(E.np.result_type(E.np.dtype(d), E.np.dtype("int64"))))

@harness("C04", quick=[{"p": "offsets"}, {"p": "any"}], bounds="<=2 lists of <=2 items; functions with two results")
def ufunc_twoout(E, p):
    a, ref = jagged(E, "a", maxlists=2, maxlen=2, placement=p, total=2, lo=-3, hi=3)
    rows = ref.all()
    E.agree("divmod", lambda: E.np.divmod(a, 2), lambda: (each(rows, lambda x: x // 2), each(rows, lambda x: x % 2)))

@harness("C04", quick=[{"p": p, "q": q} for p, q in (("counts", "counts"), ("counts", "offsets"), ("counts", "any"), ("any", "counts"))], thorough=[{"p": "any", "q": "any"}, {"p": "offsets", "q": "any"}], bounds="a function of flat arrays wrapped by util.wrapjaggedmethod: <=2 lists of <=2 numbers in two layouts, with one number per list, with one number; wrong lengths refused", need=())
def ufunc_wrapped(E, p, q):
    ak, np = E.ak, E.np
    class Maker(object):
        awkward0 = ak
        @classmethod
        @ak.util.wrapjaggedmethod(ak.JaggedArray)
        def make(cls, x, y):
            assert not isinstance(x, ak.JaggedArray) and not isinstance(y, ak.JaggedArray)
            return ak.Table(x=x, y=y)
    def content(name):
        def f(n):
            x = E.array(name, n, "float64")
            it = E.items(x)
            for v in it:
                E.assume(v == v)
            return x, it
        return f
    a, ra = jagged(E, "a", maxlists=2, maxlen=1 if "any" in (p, q) else 2, placement=p, total=2, minlists=1, content=content("ax"))
    ra = ra.all()
    b, rb = jagged(E, "b", maxlists=2, maxlen=1 if "any" in (p, q) else 2, placement=q, total=2, minlists=1, content=content("bx"))
    rb = rb.all()
    rec = lambda x, y: {"x": x, "y": y}
    E.agree("lists and lists", lambda: Maker.make(a, b), lambda: zipped(E, rec, ra, rb), ValueError)
    m = len(ra) + E.choice("wrong", [0, 1])
    s, ss = content("s")(m)
    def perlist():
        if m != len(ra):
            raise Fail("one value per list is required")
        return [[rec(x, y) for x in r] for r, y in zip(ra, ss)]
    E.agree("lists and values", lambda: Maker.make(a, s), perlist, ValueError)
    E.agree("lists and a value", lambda: Maker.make(a, 3), lambda: [[rec(x, 3) for x in r] for r in ra])
    E.agree("values", lambda: Maker.make(s, s[::-1]), lambda: [rec(x, y) for x, y in zip(ss, ss[::-1])])
    E.agree("scalars", lambda: Maker.make(1, 2), refused, TypeError)
    if p == "counts":
        d = ak.JaggedArray.fromcounts([1, 0, len(ra) - 1], a)
        E.agree("doubly", lambda: Maker.make(d, d), lambda: [[[rec(x, x) for x in r] for r in ra[:1]], [], [[rec(x, x) for x in r] for r in ra[1:]]])

@harness("C04", quick=[{"p": "counts"}, {"p": "offsets"}, {"p": "any"}], bounds="<=2 lists of <=2 items: tojagged of a list, a range, a number, records, lists (in either layout), one value per list")
def tojagged_kinds(E, p):
    ak, np = E.ak, E.np
    a, ref = jagged(E, "a", maxlists=2, maxlen=2, placement=p, total=2, minlists=1)
    rows = ref.all()
    n = len(rows)
    b = E.array("b", n, "int64")
    bs = E.items(b)
    spread = lambda vs: (lambda: [[v for x in r] for r, v in zip(rows, vs)])
    E.agree("list", lambda: a.tojagged(list(bs)), spread(bs))
    E.agree("range", lambda: a.tojagged(range(n)), spread(list(range(n))))
    E.agree("number", lambda: a.tojagged(7), spread([7] * n))
    E.agree("records", lambda: a.tojagged(ak.Table(b=b)), spread([{"b": v} for v in bs]))
    E.agree("masked", lambda: a.tojagged(ak.MaskedArray([False, True][:n], b)), spread([v if i == 0 else None for i, v in enumerate(bs)]))
    E.agree("itself", lambda: a.tojagged(a), lambda: rows)
    E.agree("reversed", lambda: a[::-1].tojagged(b), lambda: [[v for x in r] for r, v in zip(rows[::-1], bs)])
    c, rc = jagged(E, "c", nlists=n, maxlen=1 if p == "any" else 2, placement="counts" if p == "offsets" else "offsets")
    rc = rc.all()
    def same():
        for r, s in zip(rows, rc):
            if len(r) != len(s):
                raise Fail("lists of different lengths")
        return rc
    E.agree("lists", lambda: a.tojagged(c), same, ValueError)
