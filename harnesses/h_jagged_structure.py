"""Jagged structure: the equivalent descriptions (offsets, counts, parents, starts/stops, uniques, local index) agree."""
from .common import *

def intarray(E, xs):
    return E.np.array(xs, dtype="int64")

def refoffsets(E, counts):
    out = [0]
    for c in counts:
        out.append(out[-1] + c)
    return out

@harness("C02", quick=[{"n": 3, "L": 2, "longer": 0}, {"n": 2, "L": 2, "longer": 1}], thorough=[{"n": 4, "L": 2, "longer": 0}, {"n": 3, "L": 2, "longer": 1}],
         bounds="<=3 (4) lists of <=2 items given by offsets that may begin beyond zero and end before the content does; stops may be longer than starts")
def structure_derived(E, n, L, longer):
    m, offs, cs, total, b = structure(E, "a", n, L, placement="offsets")
    data = E.array("x", total, "int64")
    items = E.items(data)
    how = E.choice("how", ["offsets", "startsstops"])
    if longer:
        extra = E.int("extra", 0, 5)
        a = E.ak.JaggedArray(intarray(E, offs[:-1]), intarray(E, offs[1:] + [extra]), data)
    elif how == "offsets":
        a = E.ak.JaggedArray.fromoffsets(intarray(E, offs), data)
    else:
        a = E.ak.JaggedArray(intarray(E, offs[:-1]), intarray(E, offs[1:]), data)
    rows = [items[offs[i]:offs[i + 1]] for i in range(m)]
    if longer and m and not E.sel(extra <= total):
        # a stop which belongs to no list may be anything
        E.reached("wild extra stop")
    E.same("tolist", a, rows)
    E.same("len", len(a), m)
    E.same("counts", a.counts, cs)
    E.same("starts", a.starts, offs[:-1])
    E.same("stops", a.stops, offs[1:])
    E.agree("flatten", lambda: a.flatten(), lambda: [x for r in rows for x in r])
    E.agree("localindex", lambda: a.localindex, lambda: [list(range(len(r))) for r in rows])
    if m:
        E.agree("offsets", lambda: a.offsets, lambda: offs)
        E.agree("parents", lambda: a.parents, lambda: [-1] * offs[0] + [i for i, r in enumerate(rows) for _ in r])
    E.agree("compact", lambda: a.compact(), lambda: rows)
    E.agree("fromcounts(counts, flatten)", lambda: E.ak.JaggedArray.fromcounts(a.counts, a.flatten()), lambda: rows)

@harness("C02", quick=[{"n": 2, "L": 2, "T": 3}], thorough=[{"n": 3, "L": 2, "T": 4}], bounds="<=2 (3) lists of <=2 items anywhere in 3 (4) items (overlapping, out of order, unreachable items)")
def structure_derived_any(E, n, L, T):
    a, ref = jagged(E, "a", maxlists=n, maxlen=L, placement="any", total=T)
    m = len(ref)
    starts, stops = E.items(a.starts), E.items(a.stops)
    rows = ref.all()
    E.same("tolist", a, rows)
    E.same("counts", a.counts, [len(r) for r in rows])
    E.agree("flatten", lambda: a.flatten(), lambda: [x for r in rows for x in r])
    E.agree("localindex", lambda: a.localindex, lambda: [list(range(len(r))) for r in rows])
    E.agree("compact", lambda: a.compact(), lambda: rows)
    E.agree("compact is compact", lambda: a.compact().iscompact, lambda: True)
    E.agree("fromcounts(counts, flatten)", lambda: E.ak.JaggedArray.fromcounts(a.counts, a.flatten()), lambda: rows)
    E.agree("copy", lambda: a.copy(), lambda: rows)
    E.agree("deepcopy", lambda: a.deepcopy(), lambda: rows)
    E.agree("fromjagged", lambda: E.ak.JaggedArray.fromjagged(a), lambda: rows)
    def disjoint():
        return all(not rows[i] or not rows[j] or int(stops[i]) <= int(starts[j]) or int(stops[j]) <= int(starts[i]) for i in range(m) for j in range(i))
    if m and disjoint():
        E.reached("disjoint")
        want = [-1] * max([int(s) for s in stops])
        for i in range(m):
            for k in range(int(starts[i]), int(stops[i])):
                want[k] = i
        E.agree("parents", lambda: E.ak.JaggedArray.startsstops2parents(a.starts, a.stops), lambda: want)

@harness("C02", quick=[{"k": 3, "n": 2}], thorough=[{"k": 4, "n": 3}], bounds="<=3 (4) items with parents in [-1, n), children of one parent contiguous")
def structure_fromparents(E, k, n):
    k = E.size("k", 0, k)
    parents = E.array("p", k, "int64", -1, n - 1)
    ps = E.items(parents)
    data = E.array("x", k, "int64")
    items = E.items(data)
    pc = [int(p) for p in ps]
    seen, prev = set(), None
    for p in pc:
        if p != prev and p in seen and p >= 0:
            E.assume(False)
        seen.add(p)
        prev = p
    m = max(pc) + 1 if k else 0
    rows = [[x for x, p in zip(items, pc) if p == i] for i in range(m)]
    a = E.ak.JaggedArray.fromparents(parents, data)
    E.agree("fromparents", lambda: a, lambda: rows)
    E.agree("parents2startsstops", lambda: [e - s for s, e in zip(*[x.tolist() for x in E.ak.JaggedArray.parents2startsstops(parents)])], lambda: [len(r) for r in rows])
    E.same("parents unchanged", parents, ps)
    E.agree("parents", lambda: a.parents, lambda: ps)

@harness("C02", quick=[{"k": 4}], thorough=[{"k": 6}], bounds="<=4 (6) items, any int64 group labels, equal neighbours grouped")
def structure_fromuniques(E, k):
    k = E.size("k", 0, k)
    u = E.array("u", k, "int64")
    us = E.items(u)
    data = E.array("x", k, "int64")
    items = E.items(data)
    rows, parents = [], []
    for i in range(k):
        if i == 0 or E.sel(us[i] != us[i - 1]):
            rows.append([])
        rows[-1].append(items[i])
        parents.append(len(rows) - 1)
    def got():
        return E.ak.JaggedArray.fromuniques(u, data)
    if k:
        E.agree("fromuniques", got, lambda: rows)
        E.agree("parents", lambda: got().parents, lambda: parents)
        E.agree("uniques2offsetsparents", lambda: [x.tolist() for x in E.ak.JaggedArray.uniques2offsetsparents(u)], lambda: [refoffsets(E, [len(r) for r in rows]), parents])

@harness("C02", quick=[{"k": 3}], thorough=[{"k": 5}], bounds="<=3 (5) items, any int64 local index")
def structure_fromlocalindex(E, k):
    k = E.size("k", 0, k)
    ix = E.array("ix", k, "int64")
    ixs = E.items(ix)
    data = E.array("x", k, "int64")
    items = E.items(data)
    def want():
        rows = []
        for i in range(k):
            if E.sel(ixs[i] == 0):
                rows.append([])
            elif i == 0:
                raise Fail("must begin with zero")
            elif E.sel(ixs[i] != ixs[i - 1] + 1):
                raise Fail("must count up")
            rows[-1].append(items[i])
        return rows
    E.agree("fromlocalindex", lambda: E.ak.JaggedArray.fromlocalindex(ix, data), want, ValueError)

@harness("C02", quick=[{"k": 5}], thorough=[{"k": 7}], bounds="<=5 (7) items folded by 1..3; regular 2- and 3-dimensional arrays up to 2x2x2")
def structure_folding(E, k):
    which = E.choice("which", ["fold", "regular2", "regular3"])
    if which == "fold":
        k = E.size("k", 0, k)
        size = E.size("size", 1, 3)
        data = E.array("x", k, "int64")
        items = E.items(data)
        E.agree("fromfolding", lambda: E.ak.JaggedArray.fromfolding(data, size), lambda: [items[i:i + size] for i in range(0, k, size)])
    elif which == "regular2":
        p, q = E.size("p", 1, 3), E.size("q", 1, 2)
        data = E.array("x", p * q, "int64")
        items = E.items(data)
        E.agree("fromregular", lambda: E.ak.JaggedArray.fromregular(data.reshape(p, q)), lambda: [items[i * q:(i + 1) * q] for i in range(p)])
        E.agree("regular", lambda: E.ak.JaggedArray.fromregular(data.reshape(p, q)).regular(), lambda: [items[i * q:(i + 1) * q] for i in range(p)])
    else:
        p, q, r = E.size("p", 1, 2), E.size("q", 1, 2), E.size("r", 1, 2)
        data = E.array("x", p * q * r, "int64")
        items = E.items(data)
        want = [[items[(i * q + j) * r:(i * q + j + 1) * r] for j in range(q)] for i in range(p)]
        E.agree("fromregular", lambda: E.ak.JaggedArray.fromregular(data.reshape(p, q, r)), lambda: want)
        E.agree("regular", lambda: E.ak.JaggedArray.fromregular(data.reshape(p, q, r)).regular(), lambda: want)

@harness("C02", quick=[{"n": 3, "L": 2, "placement": p} for p in ("offsets",)] + [{"n": 2, "L": 2, "placement": "any"}], thorough=[{"n": 3, "L": 3, "placement": "any"}], bounds="<=3 lists of <=2 (3) items; regular() only accepts equal counts")
def structure_regular(E, n, L, placement):
    a, ref = jagged(E, "a", minlists=1, maxlists=n, maxlen=L, placement=placement, total=3)
    def want():
        rows = ref.all()
        if len(set(len(r) for r in rows)) != 1:
            raise Fail("not regular")
        return rows
    E.agree("regular", lambda: a.regular(), want, ValueError)

@harness("C02", quick=[{"total": 1}], thorough=[{"total": 2}], bounds="starts and stops of shape (2,2), lists of <=1 item anywhere in 1 (2) items")
def structure_multidim(E, total):
    data = E.array("x", total, "int64")
    items = E.items(data)
    starts = E.array("s", 4, "int64", 0, total)
    counts = E.array("c", 4, "int64", 0, 1)
    for i in range(4):
        E.assume(starts[i] + counts[i] <= total)
    cs = [int(c) for c in E.items(counts)]
    ss = [int(s) if c else 0 for s, c in zip(E.items(starts), cs)]
    rows = [items[s:s + c] for s, c in zip(ss, cs)]
    ref = [rows[:2], rows[2:]]
    a = E.ak.JaggedArray(starts.reshape(2, 2), (starts + counts).reshape(2, 2), data)
    E.agree("tolist", lambda: a, lambda: ref)
    E.agree("counts", lambda: a.counts, lambda: [cs[:2], cs[2:]])
    E.agree("flatten", lambda: a.flatten(), lambda: [x for r in rows for x in r])
    E.agree("compact", lambda: a.compact(), lambda: ref)
    E.agree("localindex", lambda: a.localindex, lambda: [[list(range(c)) for c in cs[:2]], [list(range(c)) for c in cs[2:]]])
    E.agree("structure1d", lambda: a.structure1d(), lambda: ref)

# ---------------------------------------------------------------- C03: structures that point nowhere are refused

@harness("C03", quick=[{"n": 1, "T": 1}, {"n": 2, "T": 1}], thorough=[{"n": 2, "T": 2}, {"n": 3, "T": 2}], bounds="<=2 (3) starts and stops over all int64, content of 1 (2) items")
def invalid_startsstops(E, n, T):
    m = E.size("m", n, n + 1)
    starts, stops = E.array("starts", n, "int64"), E.array("stops", m, "int64")
    st, sp = E.items(starts), E.items(stops)
    data = E.array("x", T, "int64")
    items = E.items(data)
    def want():
        for s in st + sp:
            if E.sel(s < 0):
                raise Fail("negative")
        for s, e in zip(st, sp):
            if E.sel(e < s):
                raise Fail("stops before starts")
            if E.sel(s != e) and E.sel(e > T):
                raise Fail("beyond the content")
        return [items[int(s):int(e)] if E.sel(s < e) else [] for s, e in zip(st, sp)]
    E.agree("rows", lambda: E.ak.JaggedArray(starts, stops, data), want, ValueError)

@harness("C03", quick=[{"n": 2, "T": 1}], thorough=[{"n": 3, "T": 2}], bounds="<=2 (3) offsets over all int64, content of 1 (2) items; validity decides every access path")
def invalid_offsets(E, n, T):
    k = E.size("k", 2, n + 1)
    offsets = E.array("o", k, "int64")
    os = E.items(offsets)
    data = E.array("x", T, "int64")
    items = E.items(data)
    how = E.choice("how", ["iter", "getitem", "flatten", "sum", "ufunc"])
    def want():
        for o in os:
            if E.sel(o < 0):
                raise Fail("negative")
        for a, b in zip(os[:-1], os[1:]):
            if E.sel(b < a):
                raise Fail("decreasing")
        if E.sel(os[-1] > T):
            raise Fail("beyond the content")
        return rows([int(o) for o in os])
    def rows(o):
        out = [items[a:b] for a, b in zip(o[:-1], o[1:])]
        if how == "getitem":
            return out[0:1]
        if how == "flatten":
            return [x for r in out for x in r]
        if how == "sum":
            return [sum(r[1:], r[0]) if r else 0 for r in out]
        if how == "ufunc":
            return [[-x for x in r] for r in out]
        return out
    def got():
        a = E.ak.JaggedArray.fromoffsets(offsets, data)
        return {"iter": lambda: a, "getitem": lambda: a[0:1], "flatten": lambda: a.flatten(), "sum": lambda: a.sum(), "ufunc": lambda: -a}[how]()
    E.agree(how, got, want, (ValueError, IndexError))

@harness("C03", bounds="<=3 counts over all int64, content of 2 items")
def invalid_counts(E):
    n = E.size("n", 0, 2)
    c = E.array("c", n, "int64", -3, 4)
    cs = E.items(c)
    data = E.array("x", 2, "int64")
    items = E.items(data)
    def want():
        for x in cs:
            if E.sel(x < 0):
                raise Fail("negative")
        out, k = [], 0
        for x in cs:
            out.append(items[k:k + int(x)])
            k += int(x)
        if k > 2:
            raise Fail("beyond the content")
        return out
    E.agree("fromcounts", lambda: E.ak.JaggedArray.fromcounts(c, data), want, ValueError)

@harness("C03", bounds="<=2 index values over all int64, content of <=2 items")
def invalid_indexed(E):
    n, T = E.size("n", 0, 2), E.size("T", 0, 2)
    ix = E.array("ix", n, "int64")
    ixs = E.items(ix)
    data = E.array("x", T, "int64")
    items = E.items(data)
    def want():
        for i in ixs:
            if E.sel(i < 0) or E.sel(i >= T):
                raise Fail("index outside of the content")
        return [items[int(i)] for i in ixs]
    E.agree("IndexedArray", lambda: E.ak.IndexedArray(ix, data), want, (ValueError, IndexError))

@harness("C03", bounds="<=2 mask index values over all int64, content of <=2 items, the masked value -1, -2, 0, 1 or 5")
def invalid_indexedmasked(E):
    n, T = E.size("n", 0, 2), E.size("T", 0, 2)
    ix = E.array("ix", n, "int64")
    ixs = E.items(ix)
    data = E.array("x", T, "int64")
    items = E.items(data)
    w = E.choice("maskedwhen", [-1, -2, 0, 1, 5])
    def want():
        out = []
        for i in ixs:
            if E.sel(i == w):
                out.append(None)
            elif E.sel(i < 0) or E.sel(i >= T):
                raise Fail("index outside of the content")
            else:
                out.append(items[int(i)])
        return out
    E.agree("IndexedMaskedArray", lambda: E.ak.IndexedMaskedArray(ix, data, maskedwhen=w), want, (ValueError, IndexError))

@harness("C03", quick=[{"n": 2}], thorough=[{"n": 3}], bounds="<=2 (3) elements; any uint8 tags, any int64 index; two contents of 1 and 2 items")
def invalid_union(E, n):
    n = E.size("n", 1, n)
    m = n + E.choice("longer", [0, 1, -1])
    tags = E.array("tags", n, "uint8")
    index = E.array("index", m, "int64")
    ts, ixs = E.items(tags), E.items(index)
    c0, c1 = E.array("a", 1, "int64"), E.array("b", 2, "bool")
    items = [E.items(c0), E.items(c1)]
    def want():
        out = []
        for i in ixs:
            if E.sel(i < 0):
                raise Fail("negative index")
        if m < n:
            raise Fail("index shorter than tags")
        for t, i in zip(ts, ixs):
            if E.sel(t >= 2):
                raise Fail("no such content")
            if E.sel(i >= len(items[int(t)])):
                raise Fail("index beyond the content")
            out.append(items[int(t)][int(i)])
        return out
    E.agree("UnionArray", lambda: E.ak.UnionArray(tags, index, [c0, c1]), want, (ValueError, IndexError))

@harness("C03", bounds="a mask and a content of <=3 elements each")
def invalid_masked(E):
    n, T = E.size("n", 0, 3), E.size("T", 0, 3)
    mask = E.array("m", n, "bool")
    bits = E.items(mask)
    data = E.array("x", T, "int64")
    items = E.items(data)
    def want():
        if n > T:
            raise Fail("mask longer than content")
        if n < T:
            raise Fail("either")
        return [None if E.sel(b) else x for b, x in zip(bits, items)]
    a = E.attempt(lambda: E.norm(E.ak.MaskedArray(mask, data)))
    if n == T:
        E.agree("MaskedArray", lambda: E.ak.MaskedArray(mask, data), want)
    elif n > T:
        E.agree("MaskedArray", lambda: E.ak.MaskedArray(mask, data), want, ValueError)

@harness("C03", bounds="<=2 sparse coordinates over all int64 (sorted or not), lengths 0..3, one content item per coordinate or one fewer")
def invalid_sparse(E):
    n = E.size("n", 0, 2)
    fewer = E.size("fewer", 0, 1) if n else 0
    length = E.size("length", 0, 3)
    ix = E.array("ix", n, "int64")
    ixs = E.items(ix)
    data = E.array("x", n - fewer, "int64")
    items = E.items(data)
    for a, b in zip(ixs[:-1], ixs[1:]):
        E.assume(a != b)        # what a repeated coordinate means is not promised
    def want():
        for i in ixs:
            if E.sel(i < 0):
                raise Fail("negative coordinate")
        for a, b in zip(ixs[:-1], ixs[1:]):
            if E.sel(b < a):
                raise Fail("coordinates must increase")
        if fewer:
            raise Fail("fewer items than coordinates")
        out = [0] * length
        for i, x in zip(ixs, items):
            if E.sel(i < length):
                out[int(i)] = x
        return out
    E.agree("SparseArray", lambda: E.ak.SparseArray(length, ix, data), want, (ValueError, IndexError))

@harness("C03", bounds="two chunks of <=2 items, declared chunk sizes over [-1, 3]")
def invalid_chunked(E):
    n0, n1 = E.size("n0", 0, 2), E.size("n1", 0, 2)
    c0, c1 = E.array("a", n0, "int64"), E.array("b", n1, "int64")
    s0, s1 = E.size("s0", -1, 3), E.size("s1", -1, 3)
    def want():
        if (s0, s1) != (n0, n1):
            raise Fail("sizes do not match")
        return E.items(c0) + E.items(c1)
    def got():
        a = E.ak.ChunkedArray([c0, c1], chunksizes=[s0, s1])
        a.valid(exception=True)
        return a
    E.agree("ChunkedArray", got, want, ValueError)
