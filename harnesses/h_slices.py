"""Longer arrays of every kind: every slice with steps up to four, where a step can jump over a whole part and leave a remainder."""
from .common import *

def _plain(E, n):
    c = E.array("c", n)
    return c, E.items(c)

def _jagged(E, n):
    c = E.array("c", n)
    it = E.items(c)
    counts = [2, 0, 1, 1, 0, 2][:n]
    a = E.ak.JaggedArray.fromcounts(counts, E.np.concatenate([c, c])[:sum(counts)])
    flat = (it + it)[:sum(counts)]
    ref = []
    for k in counts:
        ref.append(flat[:k])
        flat = flat[k:]
    return a, ref

def _placed(E, n):
    """lists out of order and overlapping"""
    c = E.array("c", 4)
    it = E.items(c)
    starts, stops = [2, 0, 3, 1, 0, 2][:n], [4, 0, 4, 2, 3, 2][:n]
    return E.ak.JaggedArray(starts, stops, c), [it[i:j] for i, j in zip(starts, stops)]

def _table(E, n):
    c, it = _plain(E, n)
    return E.ak.Table(x=c, y=c[::-1]), [{"x": p, "y": q} for p, q in zip(it, it[::-1])]

def _viewed(E, n):
    a, ref = _table(E, 2 * n)
    return a[::-2], ref[::-2]

def _gathered(E, n):
    a, ref = _table(E, n)
    o = [3, 0, 2, 2, 1, 4][:n]
    return a[o], [ref[i] for i in o]

def _sparse(E, n):
    c = E.array("c", 3)
    it = E.items(c)
    at = [1, 2, n - 1]
    return E.ak.SparseArray(n, at, c), [it[at.index(i)] if i in at else 0 for i in range(n)]

def _chunked(sizes):
    def f(E, n):
        c, it = _plain(E, n)
        chunks, rest = [], c
        for s in sizes:
            chunks.append(rest[:s])
            rest = rest[s:]
        chunks.append(rest)
        return E.ak.ChunkedArray(chunks), it
    return f

def _appended(E, n):
    c, it = _plain(E, n)
    a = E.ak.AppendableArray(2, "int64")
    a.append(c[0])
    a.extend(c[1:])
    return a, it

def _indexed(E, n):
    c, it = _plain(E, 3)
    o = [2, 0, 1, 1, 0, 2, 0][:n]
    return E.ak.IndexedArray(o, c), [it[i] for i in o]

def _boolmasked(E, n):
    c, it = _plain(E, n)
    m = E.array("m", n, "bool")
    return E.ak.MaskedArray(m, c), [None if E.sel(x) else y for x, y in zip(E.items(m), it)]

def _bitmasked(lsb):
    def f(E, n):
        c, it = _plain(E, n)
        m = [True, False, False, True, False, True, True, False, True, False][:n]
        return E.ak.BitMaskedArray.fromboolmask(m, c, lsborder=lsb), [None if x else y for x, y in zip(m, it)]
    return f

def _indexmasked(E, n):
    c, it = _plain(E, 3)
    o = [2, -1, 0, 1, -1, 2, 0][:n]
    return E.ak.IndexedMaskedArray(o, c), [None if i < 0 else it[i] for i in o]

def _union(E, n):
    c, it = _plain(E, 4)
    d = E.array("d", 4, "float64")
    tags, index = [0, 1, 1, 0, 1, 0, 0][:n], [1, 0, 2, 3, 3, 0, 2][:n]
    return E.ak.UnionArray(tags, index, [c, d]), [[it, E.items(d)][t][i] for t, i in zip(tags, index)]

def _objects(E, n):
    c, it = _plain(E, n)
    return E.ak.ObjectArray(c, Wrapped), [{"wrapped": x} for x in it]

class Wrapped(object):
    def __init__(self, x):
        self.x = x
    def _normal_(self):
        return {"wrapped": self.x}

KINDS = {
    "C01": {"jagged": (_jagged, 6), "placed": (_placed, 6)},
    "C13": {"table": (_table, 6), "viewed": (_viewed, 5), "gathered": (_gathered, 5)},
    "C09": {"indexed": (_indexed, 6), "sparse": (_sparse, 6)},
    "C11": {"chunks": (_chunked([2, 1, 3]), 7), "holes": (_chunked([0, 3, 0, 1]), 6), "ones": (_chunked([1, 1, 1]), 5)},
    "C12": {"appended": (_appended, 5)},
    "C08": {"boolmask": (_boolmasked, 3), "bitmask": (_bitmasked(False), 6), "bitmaskL": (_bitmasked(True), 6), "indexmask": (_indexmasked, 6)},
    "C10": {"union": (_union, 6)},
}

def _define(prop, kinds):
    def long_slices(E, kind, step):
        make, n = kinds[kind]
        a, ref = make(E, n)
        s = plain(optslice(E, "s", -n - 1, n + 1, steps=(step,)))
        E.agree("a[s]", lambda: a[s], lambda: ref[s])
        E.agree("len(a[s])", lambda: len(a[s]), lambda: len(ref[s]))
        m = len(ref[s])
        if m:
            E.agree("a[s][i]", lambda: a[s][m - 1], lambda: ref[s][-1])
            E.agree("a[s][::-1]", lambda: a[s][::-1], lambda: ref[s][::-1])
        if isinstance(ref[0], dict) and "x" in ref[0]:
            E.agree("a[s]['y']", lambda: a[s]["y"], lambda: [r["y"] for r in ref[s]])
        elif prop == "C01":
            E.agree("a[s].flatten", lambda: a[s].flatten(), lambda: [y for x in ref[s] for y in x])
            E.agree("a[:, s]", lambda: a[:, s], lambda: [x[s] for x in ref])
    long_slices.__name__ = "long_slices_" + prop
    harness(prop, quick=[{"kind": k, "step": s} for k in kinds for s in (3, -2, -3)], thorough=[{"kind": k, "step": s} for k in kinds for s in (None, 1, 2, 3, 4, -1, -2, -3, -4)],
            bounds="arrays of up to 7 items in given layouts: every slice with steps 3, -2, -3 (thorough: 1 to 4 and -1 to -4)")(long_slices)

for _p, _k in KINDS.items():
    _define(_p, _k)
