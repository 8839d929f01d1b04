"""Cross products, pairs, distinct pairs and choices per list."""
import itertools
from .common import *

def cross(xs, ys):
    return [(x, y) for x in xs for y in ys]
def pairs(xs):
    return [(xs[i], xs[j]) for i in range(len(xs)) for j in range(i, len(xs))]
def distincts(xs):
    return [(xs[i], xs[j]) for i in range(len(xs)) for j in range(i + 1, len(xs))]
def choose(xs, k):
    """k-element choices, ordered by their last element first"""
    return [tuple(xs[i] for i in c) for c in sorted(itertools.combinations(range(len(xs)), k), key=lambda c: c[::-1])]

def lists_of(E, what, get, want):
    """what the result says about its lists: how many tuples each has, and which list each tuple belongs to"""
    def views():
        out = get()
        return [out.counts, out.parents, out.flatten()]
    E.agree(what + ": counts, parents, content", views, lambda: [[len(x) for x in want], [i for i, x in enumerate(want) for _ in x], [t for x in want for t in x]])

@harness("C06", quick=[{"p": "counts", "q": "counts", "n": 2, "L": 2, "M": 2}, {"p": "offsets", "q": "counts", "n": 2, "L": 1, "M": 2}, {"p": "any", "q": "counts", "n": 2, "L": 2, "M": 1}, {"p": "counts", "q": "any", "n": 2, "L": 1, "M": 2}, {"p": "offsets", "q": "any", "n": 1, "L": 2, "M": 2}, {"p": "counts", "q": "counts", "n": 1, "L": 4, "M": 4}],
         thorough=[{"p": "any", "q": "any", "n": 2, "L": 2, "M": 2}, {"p": "offsets", "q": "offsets", "n": 3, "L": 2, "M": 2}, {"p": "counts", "q": "any", "n": 3, "L": 2, "M": 1}, {"p": "counts", "q": "counts", "n": 1, "L": 7, "M": 7}, {"p": "counts", "q": "counts", "n": 3, "L": 3, "M": 3}],
         bounds="<=2 (3) lists of <=2 items (one list: <=4 (7)), both operands in every layout", need=("nonempty",))
def cross_products(E, p, q, n, L, M):
    a, ra = jagged(E, "a", maxlists=n, maxlen=L, placement=p, total=max(2, L))
    b, rb = jagged(E, "b", nlists=len(ra), maxlen=M, placement=q, total=max(2, M))
    ra, rb = ra.all(), rb.all()
    z = list(zip(ra, rb))
    E.agree("cross", lambda: a.cross(b), lambda: [cross(x, y) for x, y in z])
    E.agree("argcross", lambda: a.argcross(b), lambda: [cross(range(len(x)), range(len(y))) for x, y in z])
    lists_of(E, "cross", lambda: a.cross(b), [cross(x, y) for x, y in z])
    lists_of(E, "argcross", lambda: a.argcross(b), [cross(range(len(x)), range(len(y))) for x, y in z])
    E.agree("cross nested", lambda: a.cross(b, nested=True), lambda: [[[(s, t) for t in y] for s in x] for x, y in z])
    E.agree("argcross nested", lambda: a.argcross(b, nested=True), lambda: [[[(i, j) for j in range(len(y))] for i in range(len(x))] for x, y in z])
    c = a.argcross(b)
    E.agree("a[argcross.i0]", lambda: a[c.i0], lambda: [[s for s, t in cross(x, y)] for x, y in z])
    E.agree("b[argcross.i1]", lambda: b[c.i1], lambda: [[t for s, t in cross(x, y)] for x, y in z])
    if any(x and y for x, y in z):
        E.reached("nonempty")
    E.same("a unchanged", a, ra)
    E.same("b unchanged", b, rb)

@harness("C06", quick=[{"p": "counts", "n": 2, "L": 3}, {"p": "offsets", "n": 2, "L": 2}, {"p": "any", "n": 2, "L": 2}, {"p": "counts", "n": 1, "L": 6}, {"p": "counts", "n": 3, "L": 2}],
         thorough=[{"p": "counts", "n": 3, "L": 4}, {"p": "offsets", "n": 3, "L": 3}, {"p": "any", "n": 2, "L": 3}, {"p": "any", "n": 3, "L": 2}, {"p": "counts", "n": 1, "L": 20}, {"p": "offsets", "n": 1, "L": 9}], bounds="<=3 lists of <=4 items (one list: <=6 (20)) in every layout", need=("nonempty",))
def pair_products(E, p, n, L):
    a, ref = jagged(E, "a", maxlists=n, maxlen=L, placement=p, total=max(3, L) if p == "any" else None)
    rows = ref.all()
    R = lambda x: list(range(len(x)))
    E.agree("pairs", lambda: a.pairs(), lambda: [pairs(x) for x in rows])
    E.agree("argpairs", lambda: a.argpairs(), lambda: [pairs(R(x)) for x in rows])
    E.agree("distincts", lambda: a.distincts(), lambda: [distincts(x) for x in rows])
    E.agree("argdistincts", lambda: a.argdistincts(), lambda: [distincts(R(x)) for x in rows])
    lists_of(E, "pairs", lambda: a.pairs(), [pairs(x) for x in rows])
    lists_of(E, "argpairs", lambda: a.argpairs(), [pairs(R(x)) for x in rows])
    lists_of(E, "distincts", lambda: a.distincts(), [distincts(x) for x in rows])
    lists_of(E, "argdistincts", lambda: a.argdistincts(), [distincts(R(x)) for x in rows])
    E.agree("pairs nested", lambda: a.pairs(nested=True), lambda: [[[(x[i], x[j]) for j in range(i, len(x))] for i in range(len(x))] for x in rows])
    E.agree("argpairs nested", lambda: a.argpairs(nested=True), lambda: [[[(i, j) for j in range(i, len(x))] for i in range(len(x))] for x in rows])
    E.agree("distincts nested", lambda: a.distincts(nested=True), lambda: [[[(x[i], x[j]) for j in range(i + 1, len(x))] for i in range(len(x) - 1)] for x in rows])
    E.agree("argdistincts nested", lambda: a.argdistincts(nested=True), lambda: [[[(i, j) for j in range(i + 1, len(x))] for i in range(len(x) - 1)] for x in rows])
    if any(len(x) > 1 for x in rows):
        E.reached("nonempty")
    E.same("a unchanged", a, rows)

@harness("C06", quick=[{"p": "counts", "n": 2, "L": 3, "ks": (2, 3)}, {"p": "counts", "n": 1, "L": 6, "ks": (2, 3, 4, 5)}, {"p": "offsets", "n": 2, "L": 2, "ks": (2, 3)}, {"p": "any", "n": 2, "L": 2, "ks": (2,)}, {"p": "any", "n": 1, "L": 4, "ks": (3, 4)}, {"p": "offsets", "n": 1, "L": 5, "ks": (4, 5)}],
         thorough=[{"p": "counts", "n": 3, "L": 4, "ks": (2, 3, 4)}, {"p": "counts", "n": 1, "L": 12, "ks": (2, 3, 4, 5)}, {"p": "any", "n": 2, "L": 4, "ks": (2, 3, 4)}, {"p": "offsets", "n": 2, "L": 6, "ks": (3, 4, 5)}], bounds="<=3 lists of <=4 items (one list: <=6 (12)), choices of 2 to 5 items, every layout", need=("nonempty",))
def choices(E, p, n, L, ks):
    a, ref = jagged(E, "a", maxlists=n, maxlen=L, placement=p, total=max(3, L) if p == "any" else None)
    rows = ref.all()
    for k in ks:
        E.agree("choose(%d)" % k, lambda: a.choose(k), lambda: [choose(x, k) for x in rows])
        E.agree("argchoose(%d)" % k, lambda: a.argchoose(k), lambda: [choose(range(len(x)), k) for x in rows])
        lists_of(E, "choose(%d)" % k, lambda: a.choose(k), [choose(x, k) for x in rows])
        lists_of(E, "argchoose(%d)" % k, lambda: a.argchoose(k), [choose(range(len(x)), k) for x in rows])
    if any(len(x) >= ks[0] for x in rows):
        E.reached("nonempty")
    E.same("a unchanged", a, rows)

@harness("C06", quick=[{"p": "counts", "n1": False, "n2": False}, {"p": "counts", "n1": True, "n2": True}, {"p": "counts", "n1": True, "n2": False}, {"p": "counts", "n1": False, "n2": True}, {"p": "offsets", "n1": True, "n2": True}, {"p": "any", "n1": True, "n2": False}, {"p": "any", "n1": False, "n2": False}],
         bounds="chains of two cross products of <=2 lists of <=2 items, nested or not")
def cross_chains(E, p, n1, n2):
    L = 2 if p == "counts" else 1
    a, ra = jagged(E, "a", maxlists=2, maxlen=L, placement=p, total=2)
    b, rb = jagged(E, "b", nlists=len(ra), maxlen=L, placement="counts")
    c, rc = jagged(E, "c", nlists=len(ra), maxlen=L, placement="offsets" if p == "offsets" else "counts")
    z = list(zip(ra.all(), rb.all(), rc.all()))
    if n1 and n2:
        want = [[[[(i, j, k) for k in z_] for j in y] for i in x] for x, y, z_ in z]
    elif n1:
        want = [[[(i, j, k) for j in y for k in z_] for i in x] for x, y, z_ in z]
    elif n2:
        want = [[[(i, j, k) for k in z_] for i in x for j in y] for x, y, z_ in z]
    else:
        want = [[(i, j, k) for i in x for j in y for k in z_] for x, y, z_ in z]
    E.agree("cross.cross", lambda: a.cross(b, nested=n1).cross(c, nested=n2), lambda: want)

@harness("C06", quick=[{"p": "counts"}, {"p": "any"}], bounds="<=2 lists of <=2 records, strings or pairs")
def combine_records(E, p):
    def content(total):
        x, y = E.array("x", total), E.array("y", total, "bool")
        return E.ak.Table(x=x, y=y), [{"x": s, "y": t} for s, t in zip(E.items(x), E.items(y))]
    a, ref = jagged(E, "a", maxlists=2, maxlen=2, placement=p, total=2, content=content)
    b, rb = jagged(E, "b", nlists=len(ref), maxlen=1, placement="counts")
    rows = ref.all()
    E.agree("cross", lambda: a.cross(b), lambda: [cross(x, y) for x, y in zip(rows, rb)])
    E.agree("distincts", lambda: a.distincts(), lambda: [distincts(x) for x in rows])
    E.agree("choose(2)", lambda: a.choose(2), lambda: [choose(x, 2) for x in rows])
    E.agree("pairs.i0", lambda: a.pairs().i0, lambda: [[s for s, t in pairs(x)] for x in rows])

@harness("C06", quick=[{"p": "counts"}, {"p": "any"}], bounds="<=2 outer lists of <=2 inner lists")
def combine_lists(E, p):
    def content(total):
        b, rb = jagged(E, "in", nlists=total, maxlen=1, placement="counts")
        return b, rb.all()
    a, ref = jagged(E, "a", maxlists=2, maxlen=2, placement=p, total=2, content=content)
    rows = ref.all()
    E.agree("pairs", lambda: a.pairs(), lambda: [pairs(x) for x in rows])
    E.agree("distincts", lambda: a.distincts(), lambda: [distincts(x) for x in rows])
    E.agree("cross", lambda: a.cross(a), lambda: [cross(x, x) for x in rows])
    E.agree("argchoose", lambda: a.argchoose(2), lambda: [choose(range(len(x)), 2) for x in rows])

@harness("C06", bounds="<=3 lists against <=3 lists")
def cross_lengths(E):
    a, ra = jagged(E, "a", maxlists=3, maxlen=1, placement="counts")
    b, rb = jagged(E, "b", maxlists=3, maxlen=1, placement="counts")
    def want():
        if len(ra) != len(rb):
            raise Fail("different lengths")
        return [cross(x, y) for x, y in zip(ra, rb)]
    E.agree("cross", lambda: a.cross(b), want)
    E.agree("argcross", lambda: a.argcross(b), lambda: [cross(range(len(x)), range(len(y))) for x, y in zip(ra, rb)] if want() is not None else None)

def wrapped(E, k, name, n, maxlen):
    """n lists behind another array, and their reference (None: missing)"""
    ak, np = E.ak, E.np
    a, ref = jagged(E, name, nlists=n, maxlen=maxlen, placement="counts")
    ref = ref.all()
    if k == "chunked":
        s = E.size(name + ".split", 0, n)
        return ak.ChunkedArray([a[:s], a[s:]], [s, n - s] if E.flag(name + ".sizes") else []), ref
    if k == "chunkedvirtual":
        return ak.ChunkedArray([ak.VirtualArray(lambda: a[:1]), ak.VirtualArray(lambda: a[1:])]), ref
    if k == "virtual":
        return ak.VirtualArray(lambda: a), ref
    if k == "indexed":
        ix = E.array(name + ".ix", 2, "int64", 0, n - 1)
        return ak.IndexedArray(ix, a), [ref[int(i)] for i in E.items(ix)]
    if k == "index mask":
        ix = E.array(name + ".ix", n, "int64", -1, n - 1)
        return ak.IndexedMaskedArray(ix, a), [None if E.sel(i < 0) else ref[int(i)] for i in E.items(ix)]
    m = E.array(name + ".m", n, "bool")
    ref = [None if E.sel(b) else r for b, r in zip(E.items(m), ref)]
    return (ak.MaskedArray(m, a) if k == "mask" else ak.BitMaskedArray(np.packbits(m), a, lsborder=False)), ref

@harness("C06", quick=[{"k": k, "w": w} for k in ("chunked", "chunkedvirtual", "virtual", "indexed", "mask", "bit mask", "index mask") for w in ("pairs", "distincts", "choose", "cross")], bounds="2 lists of <=2 items behind chunks, an index, a mask or a virtual array: missing lists stay missing")
def combine_wrapped(E, k, w):
    a, ref = wrapped(E, k, "a", 2, 2 if w != "cross" else 1)
    each = lambda f: [None if r is None else f(r) for r in ref]
    R = lambda x: list(range(len(x)))
    if w == "pairs":
        E.agree("pairs", lambda: a.pairs(), lambda: each(pairs))
        E.agree("argpairs", lambda: a.argpairs(), lambda: each(lambda r: pairs(R(r))))
        E.agree("pairs nested", lambda: a.pairs(nested=True), lambda: each(lambda x: [[(x[i], x[j]) for j in range(i, len(x))] for i in range(len(x))]))
        E.agree("argpairs nested", lambda: a.argpairs(nested=True), lambda: each(lambda x: [[(i, j) for j in range(i, len(x))] for i in range(len(x))]))
    elif w == "distincts":
        E.agree("distincts", lambda: a.distincts(), lambda: each(distincts))
        E.agree("argdistincts", lambda: a.argdistincts(), lambda: each(lambda r: distincts(R(r))))
        E.agree("distincts nested", lambda: a.distincts(nested=True), lambda: each(lambda x: [[(x[i], x[j]) for j in range(i + 1, len(x))] for i in range(len(x) - 1)]))
        E.agree("argdistincts nested", lambda: a.argdistincts(nested=True), lambda: each(lambda x: [[(i, j) for j in range(i + 1, len(x))] for i in range(len(x) - 1)]))
    elif w == "choose":
        for n in (2, 3):
            E.agree("choose", lambda: a.choose(n), lambda: each(lambda r: choose(r, n)))
            E.agree("argchoose", lambda: a.argchoose(n), lambda: each(lambda r: choose(range(len(r)), n)))
        for n in (1, 0, -1, 6):
            E.agree("choose(%d)" % n, lambda: a.choose(n), refused)
            E.agree("argchoose(%d)" % n, lambda: a.argchoose(n), refused)
    else:
        b, rb = jagged(E, "b", nlists=2, maxlen=2, placement="counts")
        rb = rb.all()
        if k[:7] == "chunked":
            s = len(a.chunks[0])
            b = E.ak.ChunkedArray([b[:s], b[s:]])
        two = lambda f: [None if x is None else f(x, y) for x, y in zip(ref, rb)]
        E.agree("cross", lambda: a.cross(b), lambda: two(cross))
        E.agree("argcross", lambda: a.argcross(b), lambda: two(lambda x, y: cross(range(len(x)), range(len(y)))))
        E.agree("cross nested", lambda: a.cross(b, nested=True), lambda: two(lambda x, y: [[(s, t) for t in y] for s in x]))
        E.agree("argcross nested", lambda: a.argcross(b, nested=True), lambda: two(lambda x, y: [[(i, j) for j in range(len(y))] for i in range(len(x))]))
        if k[:7] == "chunked" and len(a.chunks[0]) == 1:
            E.agree("other chunks", lambda: a.cross(E.ak.ChunkedArray([b])), refused)
            E.agree("other chunks", lambda: a.argcross(E.ak.ChunkedArray([b])), refused)
    E.same("a unchanged", a, ref)

def refused():
    raise Fail("refused")
