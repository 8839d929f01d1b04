"""Indexing and slicing of jagged arrays against nested-list semantics."""
from .common import *

P3 = [{"placement": "any"}, {"placement": "offsets"}]

@harness("C01", quick=[{"placement": "any", "n": 3, "L": 2, "T": 4}, {"placement": "offsets", "n": 3, "L": 2}], thorough=[{"placement": "any", "n": 4, "L": 3, "T": 6}, {"placement": "offsets", "n": 4, "L": 3}],
         bounds="<=3 lists (thorough 4) of <=2 (3) items, arbitrary placement in 4 (6) items; index: any int64")
def jagged_getitem_int(E, placement, n, L, T=4):
    a, ref = jagged(E, "a", maxlists=n, maxlen=L, placement=placement, total=T)
    i = E.int("i", py=True)
    E.agree("a[i]", lambda: a[i], lambda: pick(E, ref, i), IndexError)

@harness("C01", quick=[{"n": 3, "L": 1, "step": s} for s in (None, -2)], thorough=[{"n": 4, "L": 2, "step": s} for s in (None, 1, 2, 3, -1, -2, -3, -4)],
         bounds="<=3 (4) lists of <=1 (2) items; slice bounds None or in [-n-2, n+2]; listed steps")
def jagged_getitem_slice(E, n, L, step):
    a, ref = jagged(E, "a", maxlists=n, maxlen=L)
    s = optslice(E, "s", -n - 2, n + 2, (step,))
    E.agree("a[s]", lambda: a[s], lambda: refslice(ref, s))

@harness("C01", quick=[{"n": 3, "L": 2, "k": k, "dtype": d} for k, d in [(0, "int64"), (1, "int64"), (2, "int64"), (2, "int32"), (2, "uint8")]], thorough=[{"n": 3, "L": 2, "k": k, "dtype": d} for k in (1, 2, 3) for d in ("int64", "int32", "uint8", "int8")],
         bounds="<=3 lists of <=2 items; integer array of <=2 (3) values over the whole dtype")
def jagged_getitem_fancy(E, n, L, k, dtype):
    a, ref = jagged(E, "a", maxlists=n, maxlen=L)
    idx = E.array("idx", k, dtype)
    ixs = E.items(idx)
    E.agree("a[idx]", lambda: a[idx], lambda: [pick(E, ref, i) for i in ixs], IndexError)
    # the index array belongs to the caller
    E.same("idx unchanged", idx, [x for x in ixs])

@harness("C01", quick=[{"n": 3, "L": 2, "placement": p} for p in ("offsets", "any")], thorough=[{"n": 4, "L": 2, "placement": p} for p in ("offsets", "any")], bounds="<=3 (4) lists of <=2 items; any boolean mask of the right or a wrong length")
def jagged_getitem_mask(E, n, L, placement):
    a, ref = jagged(E, "a", maxlists=n, maxlen=L, placement=placement, total=2)
    m = len(ref) + E.choice("wrong", [0, 1])
    mask = E.array("mask", m, "bool")
    bits = E.items(mask)
    def want():
        if m != len(ref):
            raise Fail("wrong length")
        return [ref[j] for j in range(m) if E.sel(bits[j])]
    E.agree("a[mask]", lambda: a[mask], want, (IndexError, ValueError))

@harness("C01", quick=[{"n": 2, "L": 2, "T": 3, "placement": "any"}, {"n": 2, "L": 2, "placement": "offsets"}], thorough=[{"n": 3, "L": 3, "T": 5, "placement": "any"}, {"n": 4, "L": 3, "placement": "offsets"}], bounds="<=3 (4) lists of <=2 (3) items; both integers over all int64")
def jagged_getitem_int_int(E, n, L, placement, T=4):
    a, ref = jagged(E, "a", maxlists=n, maxlen=L, placement=placement, total=T)
    i, j = E.int("i", py=True), E.int("j", py=True)
    E.agree("a[i,j]", lambda: a[i, j], lambda: pick(E, pick(E, ref, i), j), IndexError)

@harness("C01", quick=[{"n": 2, "L": 2, "T": 3, "placement": "any"}, {"n": 3, "L": 2, "placement": "offsets"}], thorough=[{"n": 3, "L": 2, "T": 4, "placement": "any"}, {"n": 4, "L": 3, "placement": "counts"}], bounds="<=3 (4) lists of <=2 (3) items; any int64 for the column")
def jagged_getitem_all_int(E, n, L, placement, T=4):
    a, ref = jagged(E, "a", maxlists=n, maxlen=L, placement=placement, total=T)
    j = E.int("j", py=True)
    E.agree("a[:,j]", lambda: a[:, j], lambda: [pick(E, r, j) for r in ref], IndexError)

@harness("C01", quick=[{"n": 2, "L": 1}], thorough=[{"n": 3, "L": 2}], bounds="<=2 (3) lists of <=1 (2) items; row slice bounds in [-n,n], any int64 column")
def jagged_getitem_slice_int(E, n, L):
    a, ref = jagged(E, "a", maxlists=n, maxlen=L)
    s = optslice(E, "s", -n, n, (None, -1))
    j = E.int("j", py=True)
    E.agree("a[s,j]", lambda: a[s, j], lambda: [pick(E, r, j) for r in refslice(ref, s)], IndexError)

_STEPS = (None, 1, 2, -1, -2, 3)
@harness("C01", quick=[{"n": 2, "L": 2, "step": s} for s in (None, 2, -1, -2)], thorough=[{"n": 3, "L": 2, "step": s} for s in (None, 1, 2, 3, -1, -2, -3)] + [{"n": 2, "L": 3, "step": s} for s in (None, 2, 3, -1, -2, -3)], bounds="<=2 (3) lists of <=2 (3) items; inner slice bounds None or in [-L-1, L+1], listed steps")
def jagged_getitem_all_slice(E, n, L, step):
    a, ref = jagged(E, "a", maxlists=n, maxlen=L, minlists=1)
    s = optslice(E, "s", -L - 1, L + 1, (step,))
    E.agree("a[:,s]", lambda: a[:, s], lambda: [refslice(r, s) for r in ref])

@harness("C01", quick=[{"step": s, "T": 2, "w": w} for s in (None, -1) for w in (0, 1)], thorough=[{"step": s, "T": 3, "w": w} for s in (None, 1, 2, -1, -2) for w in (0, 1, 2, 3)], bounds="2 lists of <=2 items anywhere in 2 (3) items; inner slice bounds None or in [-2,2]")
def jagged_getitem_slice_slice(E, step, T, w):
    a, ref = jagged(E, "a", nlists=2, maxlen=2, placement="any", total=T)
    s = optslice(E, "s", -2, 2, (step,))
    r = [slice(1, None), slice(None, None, -1), slice(2, None), slice(None)][w]
    E.agree("a[r,s]", lambda: a[r, s], lambda: [refslice(x, s) for x in ref[r]])

@harness("C01", quick=[{"n": 2, "L": 1, "k": 2}], thorough=[{"n": 3, "L": 2, "k": 2}, {"n": 2, "L": 2, "k": 3}], bounds="<=2 (3) lists of <=1 (2) items; pairs of integers over all int64")
def jagged_getitem_fancy_fancy(E, n, L, k):
    a, ref = jagged(E, "a", nlists=n, maxlen=L)
    rows = E.array("rows", k, "int64", -n, n - 1)
    cols = E.array("cols", k, "int64")
    r, c = E.items(rows), E.items(cols)
    E.agree("a[rows,cols]", lambda: a[rows, cols], lambda: [pick(E, pick(E, ref, i), j) for i, j in zip(r, c)], IndexError)
    E.same("indexes unchanged", [rows, cols], [r, c])

@harness("C01", quick=[{"n": 2, "L": 2, "k": k, "placement": p} for k in (0, 1, 2) for p in ("counts",)], thorough=[{"n": 3, "L": 3, "k": 2, "placement": p} for p in ("counts", "offsets")], bounds="<=2 (3) lists of <=2 (3) items; <=2 column numbers over all int64")
def jagged_getitem_all_fancy(E, n, L, k, placement):
    a, ref = jagged(E, "a", maxlists=n, minlists=1, maxlen=L, placement=placement)
    cols = E.array("cols", k, "int64")
    c = E.items(cols)
    E.agree("a[:,cols]", lambda: a[:, cols], lambda: [[pick(E, r, j) for j in c] for r in ref], IndexError)
    E.same("cols unchanged", cols, c)

@harness("C01", quick=[{"n": 3, "L": 2}], thorough=[{"n": 3, "L": 3}], bounds="<=3 regular lists of <=2 (3) items; any mask over the inner dimension")
def jagged_getitem_all_mask(E, n, L):
    m = E.size("m", 0, L)
    k = E.size("k", 1, n)
    a, ref = jagged(E, "a", nlists=k, maxlen=m, minlen=m)
    mask = E.array("mask", m, "bool")
    bits = E.items(mask)
    E.agree("a[:,mask]", lambda: a[:, mask], lambda: [[r[j] for j in range(m) if E.sel(bits[j])] for r in ref])

@harness("C01", quick=[{"n": 2, "L": 2}], thorough=[{"n": 3, "L": 2}], bounds="<=2 (3) lists; any row mask, any int64 column")
def jagged_getitem_mask_int(E, n, L):
    a, ref = jagged(E, "a", maxlists=n, minlists=1, maxlen=L)
    mask = E.array("mask", len(ref), "bool")
    bits = E.items(mask)
    j = E.int("j", py=True)
    E.agree("a[mask,j]", lambda: a[mask, j], lambda: [pick(E, ref[i], j) for i in range(len(ref)) if E.sel(bits[i])], IndexError)

@harness("C01", quick=[{"n": 1, "L": 2, "k": 2, "placement": "counts"}, {"n": 2, "L": 2, "k": 1, "placement": "any"}], thorough=[{"n": 3, "L": 2, "k": 2, "placement": "offsets"}, {"n": 2, "L": 2, "k": 2, "placement": "any"}], bounds="<=2 (3) lists of <=2 items; jagged index with <=2 integers per list over all int64")
def jagged_getitem_jaggedint(E, n, L, k, placement):
    a, ref = jagged(E, "a", maxlists=n, maxlen=L, placement=placement, total=3)
    idx, iref = jagged(E, "idx", nlists=len(ref), maxlen=k, placement="counts" if placement == "any" else placement)
    E.agree("a[idx]", lambda: a[idx], lambda: [[pick(E, r, j) for j in js] for r, js in zip(ref, iref)], IndexError)
    E.same("idx unchanged", idx, iref.all())

@harness("C01", quick=[{"n": 2, "L": 2, "pa": "any", "pm": "counts"}, {"n": 3, "L": 2, "pa": "counts", "pm": "counts"}, {"n": 2, "L": 2, "pa": "offsets", "pm": "offsets"}], thorough=[{"n": 3, "L": 3, "pa": "offsets", "pm": "offsets"}, {"n": 2, "L": 2, "pa": "any", "pm": "any"}, {"n": 3, "L": 2, "pa": "counts", "pm": "counts"}],
         bounds="<=3 lists of <=2 (3) items; any jagged mask of matching counts")
def jagged_getitem_jaggedmask(E, n, L, pa, pm):
    a, ref = jagged(E, "a", maxlists=n, maxlen=L, placement=pa, total=3)
    rows = ref.all()
    if pm == "any":
        T = 3
        data = E.array("mask.content", T, "bool")
        st = E.array("mask.starts", len(rows), "int64", 0, T)
        for i, r in enumerate(rows):
            E.assume(st[i] + len(r) <= T)
        stops = st + E.np.array([len(r) for r in rows], dtype="int64")
        mask = E.ak.JaggedArray(st, stops, data)
        d = E.items(data)
        mref = [d[int(st[i]):int(st[i]) + len(r)] for i, r in enumerate(rows)]
    else:
        first = E.size("mask.first", 0, 1) if pm == "offsets" else 0
        offs = [first]
        for r in rows:
            offs.append(offs[-1] + len(r))
        data = E.array("mask.content", offs[-1] + first, "bool")
        mask = E.ak.JaggedArray.fromoffsets(E.np.array(offs, dtype="int64"), data)
        d = E.items(data)
        mref = [d[offs[i]:offs[i + 1]] for i in range(len(rows))]
    E.agree("a[mask]", lambda: a[mask], lambda: [[x for x, b in zip(r, bs) if E.sel(b)] for r, bs in zip(rows, mref)])

@harness("C01", quick=[{"no": 2, "ni": 2, "L": 1, "which": w} for w in ("ij", "ijk", ":j")], thorough=[{"no": 2, "ni": 2, "L": 2, "which": w} for w in ("ij", "ijk", ":j")], bounds="doubly jagged, <=2 outer lists of <=2 inner lists of <=1 (2) items; integers over all int64")
def jagged_nested_int(E, no, ni, L, which):
    a, ref = nested(E, "a", no, ni, L)
    i, j, k = E.int("i", py=True), E.int("j", py=True), E.int("k", py=True)
    if which == "ij":
        E.agree("a[i,j]", lambda: a[i, j], lambda: pick(E, pick(E, ref, i), j), IndexError)
    elif which == "ijk":
        E.agree("a[i,j,k]", lambda: a[i, j, k], lambda: pick(E, pick(E, pick(E, ref, i), j), k), IndexError)
    else:
        E.agree("a[:,j]", lambda: a[:, j], lambda: [pick(E, r, j) for r in ref], IndexError)

def nested(E, name, no, ni, L, minouter=0, dtype="int64"):
    outer = E.sizes(name + ".outer", E.size(name + ".no", minouter, no), 0, ni)
    m = sum(outer)
    inner, iref = jagged(E, name + ".inner", nlists=m, maxlen=L, dtype=dtype)
    a = E.ak.JaggedArray.fromcounts(E.np.array(outer, dtype="int64"), inner)
    ref, k = [], 0
    for c in outer:
        ref.append([iref[x] for x in range(k, k + c)])
        k += c
    return a, ref

@harness("C01", quick=[{"which": w} for w in ("slice2", "int_slice", "mask", "jint", "jmask")], bounds="doubly jagged, <=2 outer lists of <=2 inner lists of <=1 item")
def jagged_nested_other(E, which):
    a, ref = nested(E, "a", 2, 2, 1)
    if which == "slice2":
        s = optslice(E, "s", -1, 1, (None, -1))
        E.agree("a[:,s]", lambda: a[:, s], lambda: [refslice(r, s) for r in ref])
    elif which == "int_slice":
        i = E.int("i", -3, 2, py=True)
        s = optslice(E, "s", -1, 1, (None,))
        E.agree("a[i,s]", lambda: a[i, s], lambda: refslice(pick(E, ref, i), s), IndexError)
    elif which == "mask":
        mask = E.array("mask", len(ref), "bool")
        bits = E.items(mask)
        E.agree("a[mask]", lambda: a[mask], lambda: [r for r, b in zip(ref, bits) if E.sel(b)])
    elif which == "jmask":
        # mask for the outer lists: one boolean per inner list
        data = E.array("m", sum(len(r) for r in ref), "bool")
        bits = E.items(data)
        m = E.ak.JaggedArray.fromcounts([len(r) for r in ref], data)
        it = iter(bits)
        E.agree("a[jmask]", lambda: a[m], lambda: [[x for x in r if E.sel(next(it))] for r in ref])
    else:
        ks = E.sizes("k", len(ref), 0, 1)
        data = E.array("ix", sum(ks), "int64")
        its = iter(E.items(data))
        m = E.ak.JaggedArray.fromcounts(E.np.array(ks, dtype="int64"), data)
        E.agree("a[jint]", lambda: a[m], lambda: [[pick(E, r, next(its)) for _ in range(k)] for r, k in zip(ref, ks)], IndexError)

@harness("C01", quick=[{"kind": k} for k in ("int", "mask")], bounds="doubly jagged index into doubly jagged array, <=2 outer, <=2 inner, <=2 items")
def jagged_nested_deepindex(E, kind):
    a, ref = nested(E, "a", 2, 1, 2, minouter=1)
    flat = [r for o in ref for r in o]
    if kind == "mask":
        data = E.array("m", sum(len(r) for r in flat), "bool")
        its = iter(E.items(data))
        inner = E.ak.JaggedArray.fromcounts(E.np.array([len(r) for r in flat], dtype="int64"), data)
        m = E.ak.JaggedArray.fromcounts(E.np.array([len(o) for o in ref], dtype="int64"), inner)
        E.agree("a[deep mask]", lambda: a[m], lambda: [[[x for x in r if E.sel(next(its))] for r in o] for o in ref])
    else:
        ks = E.sizes("k", len(flat), 0, 1)
        data = E.array("ix", sum(ks), "int64")
        its = iter(E.items(data))
        inner = E.ak.JaggedArray.fromcounts(E.np.array(ks, dtype="int64"), data)
        m = E.ak.JaggedArray.fromcounts(E.np.array([len(o) for o in ref], dtype="int64"), inner)
        kk = iter(ks)
        E.agree("a[deep int]", lambda: a[m], lambda: [[[pick(E, r, next(its)) for _ in range(next(kk))] for r in o] for o in ref], IndexError)

@harness("C01", bounds="jagged array with a 2-dimensional outer shape (2,2), lists of <=1 item; integers over all int64")
def jagged_multidim_starts(E):
    cs = E.sizes("c", 4, 0, 1)
    data = E.array("x", sum(cs), "int64")
    it = iter(E.items(data))
    ref = [[[next(it) for _ in range(cs[2 * i + j])] for j in range(2)] for i in range(2)]
    a = E.ak.JaggedArray.fromcounts(E.np.array(cs, dtype="int64").reshape(2, 2), data)
    E.same("tolist", a, ref)
    i, j, k = E.int("i", py=True), E.int("j", py=True), E.int("k", py=True)
    E.agree("a[i]", lambda: a[i], lambda: pick(E, ref, i), IndexError)
    E.agree("a[i,j]", lambda: a[i, j], lambda: pick(E, pick(E, ref, i), j), IndexError)
    E.agree("a[i,j,k]", lambda: a[i, j, k], lambda: pick(E, pick(E, pick(E, ref, i), j), k), IndexError)

@harness("C01", quick=[{"kind": k, "L": 2} for k in ("int", "mask")], bounds="2 lists of <=2 items; assignment through a jagged index or mask of full range")
def jagged_setitem(E, kind, L):
    a, ref = jagged(E, "a", nlists=2, maxlen=L, placement="offsets")
    rows = [list(r) for r in ref]
    v = E.int("v")
    if kind == "int":
        ks = E.sizes("k", 2, 0, 1)
        data = E.array("ix", sum(ks), "int64")
        ix = iter(E.items(data))
        m = E.ak.JaggedArray.fromcounts(E.np.array(ks, dtype="int64"), data)
        def want():
            for r, k in zip(rows, ks):
                for _ in range(k):
                    r[inrange(E, next(ix), len(r))] = v
            return rows
        def got():
            a[m] = v
            return a
        E.agree("a[idx]=v", got, want, IndexError)
    else:
        data = E.array("m", sum(len(r) for r in rows), "bool")
        bits = iter(E.items(data))
        m = E.ak.JaggedArray.fromcounts(E.np.array([len(r) for r in rows], dtype="int64"), data)
        def got():
            a[m] = v
            return a
        E.agree("a[mask]=v", got, lambda: [[v if E.sel(next(bits)) else x for x in r] for r in rows])
