"""Appendable arrays: the list of everything appended, whatever the chunk size and the history."""
from .common import *
from .h_reduce import refreduce

def history(E, name, steps, shape, dtype="int64", maxext=3, given=True):
    """appendable array after a history of appends and extensions, and its reference list"""
    np = E.np
    ref, chunks = [], []
    if given:
        for j, s in enumerate(E.sizes(name + ".given", 1, 0, 2)):
            if s:
                c = E.array("%s.g%d" % (name, j), s, dtype)
                chunks.append(c)
                ref.extend(E.items(c))
    a = E.ak.AppendableArray(shape, dtype, chunks)
    for j in range(steps):
        grow(E, a, ref, "%s.%d" % (name, j), dtype, maxext)
    return a, ref

def grow(E, a, ref, name, dtype="int64", maxext=3):
    how = E.size(name, -1, maxext)
    if how < 0:
        v = E.array(name + ".v", 1, dtype)
        a.append(v[0])
        ref.append(v[0])
    else:
        v = E.array(name + ".v", how, dtype)
        a.extend(v)
        ref.extend(E.items(v))

@harness("C12", quick=[{"shape": s} for s in (1, 2, 3, 4)], thorough=[{"shape": s, "steps": 3} for s in (1, 2, 3, 4)], bounds="0 to 2 given items and 2 (3) steps, each an append or an extension by 0 to 3 items; chunk sizes 1 to 4: everything is there, in order", need=("partial", "several"))
def append_history(E, shape, steps=2):
    a, ref = history(E, "a", steps, shape)
    n = len(ref)
    E.agree("a", lambda: a, lambda: ref)
    E.agree("len", lambda: len(a), lambda: n)
    E.agree("iter", lambda: list(a), lambda: ref)
    E.agree("asarray", lambda: E.np.array(a), lambda: ref)
    E.agree("a[::-1]", lambda: a[::-1], lambda: ref[::-1])
    E.agree("a[1:-1]", lambda: a[1:-1], lambda: ref[1:-1])
    E.agree("a[::2]", lambda: a[::2], lambda: ref[::2])
    for i in range(-n, n):
        E.agree("a[%d]" % i, lambda: a[i], lambda: ref[i])
    for i in (n, n + 1, -n - 1):
        E.agree("a[%d]" % i, lambda: a[i], lambda: pick(E, ref, i), errors=IndexError)
    if n and sum(len(c) for c in a.chunks) > n:
        E.reached("partial")
    if len(a.chunks) > 1:
        E.reached("several")
    E.agree("chunks are at most full", lambda: all(0 < s <= len(c) for s, c in zip(a.chunksizes, a.chunks)), lambda: True)

@harness("C12", quick=[{"shape": s} for s in (1, 2, 3)], bounds="0 to 2 given items, an append or an extension by 0 to 3 items, chunk sizes 1 to 3: selections")
def append_select(E, shape):
    a, ref = history(E, "a", 1, shape)
    n = len(ref)
    what = E.choice("what", ["int", "slice", "fancy", "bools"])
    if what == "int":
        i = E.int("i", -n - 2, n + 1, py=True)
        E.agree("a[i]", lambda: a[i], lambda: pick(E, ref, i), errors=IndexError)
    elif what == "slice":
        s = optslice(E, "s", -n - 1, n + 1, steps=(None, -1, -2))
        E.agree("a[s]", lambda: a[s], lambda: refslice(ref, s))
    elif what == "fancy":
        ix = E.array("ix", 2, "int64", -n - 1, n)
        E.agree("a[ix]", lambda: a[ix], lambda: [pick(E, ref, i) for i in E.items(ix)], errors=IndexError)
    else:
        b = E.array("b", n, "bool")
        E.agree("a[b]", lambda: a[b], lambda: [ref[i] for i in range(n) if E.sel(b[i])])
        E.agree("a[a > 0]", lambda: a[a > 0], lambda: [x for x in ref if E.sel(x > 0)])
    E.same("a unchanged", a, ref)

@harness("C12", quick=[{"shape": s, "d": d} for s in (1, 2, 3) for d in ("int64", "int8", "bool")], bounds="two steps, chunk sizes 1 to 3: elementwise functions, reductions, conversions", need=())
def append_compute(E, shape, d):
    a, ref = history(E, "a", 2, shape, d, maxext=2, given=False)
    n = len(ref)
    np = E.np
    if d != "bool":
        v = E.array("v", n, d)
        vs = E.items(v)
        E.agree("a + 1", lambda: a + 1, lambda: [(np.array([x]) + 1)[0] for x in ref])
        E.agree("a + array", lambda: a + v, lambda: [x + y for x, y in zip(ref, vs)])
        E.agree("array < a", lambda: v < a, lambda: [y < x for x, y in zip(ref, vs)])
        E.agree("a - a[::-1]", lambda: a - np.array(a)[::-1], lambda: [x - y for x, y in zip(ref, ref[::-1])])
    E.agree("a == a", lambda: a == a, lambda: [True] * n)
    for name in ("count", "any", "all", "count_nonzero", "sum", "max"):
        if n and (d != "bool" or name not in ("sum", "max")):
            E.agree(name, lambda: getattr(a, name)(), lambda: refreduce(E, name, ref, d))
    E.agree("counts", lambda: a.counts, lambda: [-1] * n)
    E.agree("boolmask", lambda: a.boolmask(), lambda: [False] * n)
    E.agree("regular", lambda: a.regular(), lambda: ref)
    E.agree("astype", lambda: a.astype("float64"), lambda: [np.array([x]).astype("float64")[0] for x in ref])
    E.agree("fillna", lambda: a.fillna(9), lambda: ref)
    E.agree("flatten", lambda: a.flatten(), lambda: ref)
    E.agree("zeros_like", lambda: a.zeros_like(), lambda: [0] * n)
    E.agree("ones_like", lambda: a.ones_like(), lambda: [1] * n)
    E.agree("empty_like", lambda: len(a.empty_like()), lambda: n)
    E.agree("concatenate", lambda: a.concatenate([a]), lambda: ref + ref)
    E.agree("concatenate array", lambda: a.concatenate([np.arange(2)]), lambda: ref + [0, 1])
    E.agree("indexed", lambda: E.ak.IndexedArray(np.arange(n)[::-1], a), lambda: ref[::-1])
    if n > 1:
        E.agree("jagged", lambda: E.ak.JaggedArray.fromcounts([1, n - 1], a), lambda: [ref[:1], ref[1:]])
    E.same("a unchanged", a, ref)

VIEWS = ("all", "slice", "reversed", "copy", "deepcopy", "mask", "fancy", "sum", "iter", "copied into", "jagged")

@harness("C12", quick=[{"shape": s, "v": v} for s in (1, 2, 3) for v in VIEWS], bounds="an array is taken after one step, then two more steps: the taken array is as it was; growing a copy does not reach the original", need=())
def append_taken(E, shape, v):
    a, ref = history(E, "a", 1, shape, maxext=2, given=False)
    n = len(ref)
    if v == "all":
        t, want = a[:], ref[:]
    elif v == "slice":
        t, want = a[1:], ref[1:]
    elif v == "reversed":
        t, want = a[::-1], ref[::-1]
    elif v in ("copy", "copied into"):
        t, want = a.copy(), ref[:]
    elif v == "deepcopy":
        t, want = a.deepcopy(), ref[:]
    elif v == "mask":
        t, want = a[[True] * n] if n else a[[]], ref[:]
    elif v == "fancy":
        t, want = a[[0, n - 1] if n else []], ([ref[0], ref[-1]] if n else [])
    elif v == "sum":
        t, want = a + 1, [x + 1 for x in ref]
    elif v == "iter":
        t, want = list(a), ref[:]
    else:
        t, want = E.ak.JaggedArray.fromcounts([n], a), [ref[:]]
    if v == "copied into":
        mine, theirs = list(ref), list(ref)
        grow(E, a, mine, "b", maxext=2)
        grow(E, t, theirs, "c", maxext=2)
        E.agree("a", lambda: a, lambda: mine)
        E.agree("copy", lambda: t, lambda: theirs)
    else:
        grow(E, a, ref, "b", maxext=2)
        grow(E, a, ref, "c", maxext=2)
        E.agree("taken", lambda: t, lambda: want)
        E.agree("a", lambda: a, lambda: ref)
        if v in ("all", "slice", "copy", "deepcopy"):
            grow(E, t, want, "d", maxext=1)
            E.agree("taken and grown", lambda: t, lambda: want)
            E.agree("a afterwards", lambda: a, lambda: ref)

@harness("C12", quick=[{"shape": s} for s in (1, 2)], bounds="items that are pairs, two steps, chunk sizes 1 and 2: selection, columns, conversion")
def append_multi(E, shape):
    np = E.np
    a = E.ak.AppendableArray((shape, 2), "int64")
    ref = []
    for j in range(2):
        how = E.size("s%d" % j, 0, 2)
        v = E.array("v%d" % j, 2 * max(how, 1)).reshape((-1, 2))
        rows = [list(x) for x in v]
        if how == 0:
            a.append(v[0])
        else:
            a.extend(v)
        ref.extend(rows)
    n = len(ref)
    E.agree("a", lambda: a, lambda: ref)
    E.agree("shape", lambda: a.shape, lambda: (n, 2))
    E.agree("asarray", lambda: np.array(a), lambda: ref)
    E.agree("a[::-1]", lambda: a[::-1], lambda: ref[::-1])
    E.agree("a[:, 1]", lambda: a[:, 1], lambda: [x[1] for x in ref])
    E.agree("a + 1", lambda: a + 1, lambda: [[y + 1 for y in x] for x in ref])
    ix = E.array("ix", 2, "int64", -n - 1, n)
    E.agree("a[ix]", lambda: a[ix], lambda: [pick(E, ref, i) for i in E.items(ix)], errors=IndexError)
    E.agree("a[ix, 0]", lambda: a[ix, 0], lambda: [pick(E, ref, i)[0] for i in E.items(ix)], errors=IndexError)
    E.agree("counts", lambda: a.counts, lambda: [2] * n)
    E.agree("sum", lambda: a.sum(), lambda: refreduce(E, "sum", [y for x in ref for y in x], "int64"))
    E.agree("flatten", lambda: a.flatten(), lambda: [y for x in ref for y in x])

@harness("C12", quick=[{}], bounds="values of other types are converted to the type of the array, as for a Numpy array; lists and tuples can be appended; other item shapes are refused")
def append_types(E):
    np = E.np
    d = E.choice("d", ["int8", "float64", "bool"])
    a = E.ak.AppendableArray(2, d)
    v = E.array("v", 3, "int64")
    a.append(v[0])
    a.extend([v[1], v[2]])
    E.agree("a", lambda: a, lambda: v.astype(d))
    E.agree("dtype", lambda: str(a.dtype), lambda: d)
    E.agree("chunk of other type", lambda: E.ak.AppendableArray(2, d, [v]), lambda: _refuse())
    E.agree("array appended", lambda: a.append(v), lambda: _refuse())
    E.agree("a afterwards", lambda: a, lambda: v.astype(d))

def _refuse():
    raise Fail("refused")
