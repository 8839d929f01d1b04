"""Assigning and deleting columns, and elements of lists, through any structure."""
from .common import *
from .h_indexed import indexed, sparse
from .h_masked import masked
from .h_union import union
from .h_chunked import chunked
from .h_table import table

def put(r, name, w):
    """the reference structure with one more column: w has one value per record, None for a missing record"""
    if isinstance(r, list):
        return [put(x, name, y) for x, y in zip(r, w)]
    return None if r is None else dict(r, **{name: w})

def drop(r, name):
    if isinstance(r, list):
        return [drop(x, name) for x in r]
    return None if r is None else dict((k, v) for k, v in r.items() if k != name)

def one(E, a, ref, what, vals, name=None, refused=None):
    """a[name] = what, then every column"""
    name = name or "z"
    if refused is not None:
        E.agree("refused", lambda: a.__setitem__(name, what), lambda: refuse(refused))
        E.agree("after refusal", lambda: a, lambda: ref)
        return
    E.agree("assign", lambda: a.__setitem__(name, what), lambda: None)
    ref = put(ref, name, vals)
    E.agree("a", lambda: a, lambda: ref)
    E.agree("a[name]", lambda: a[name], lambda: column(ref, name))
    E.agree("a['y']", lambda: a["y"], lambda: column(ref, "y"))

def refuse(why="refused"):
    raise Fail(why)

def column(r, name):
    if isinstance(r, list):
        return [column(x, name) for x in r]
    return None if r is None else r[name]

def two(E, a, ref, table_, vals):
    E.agree("assign two", lambda: a.__setitem__(["z", "x"], table_), lambda: None)
    E.agree("a", lambda: a, lambda: put(put(ref, "z", vals[0]), "x", vals[1]))

def removed(E, a, ref):
    if E.flag("list"):
        E.agree("del", lambda: a.__delitem__(["x"]), lambda: None)
    else:
        E.agree("del", lambda: a.__delitem__("x"), lambda: None)
    E.agree("a", lambda: a, lambda: drop(ref, "x"))

def disjoint(ref_starts, counts):
    used = [j for s, c in zip(ref_starts, counts) for j in range(s, s + c)]
    return len(set(used)) == len(used)

@harness("C22", quick=[{"p": p, "w": w} for p in ("counts", "offsets", "any") for w in ("jagged", "gaps", "plain", "scalar", "two", "other", "del")], bounds="1 to 2 lists of <=2 records, any layout (starts and stops in any order, with gaps, overlapping: then assigning one value per record or per list is refused); assigned: lists of the same lengths in any layout, a value per list, one value, two columns at once, lists of other lengths", need=())
def assign_jagged(E, p, w):
    n = 2 if p == "any" else E.size("n", 1, 2)
    rows = {}
    def content(total):
        return table(E, "c", total)
    if p == "any":
        total = 4
        starts = [E.size("start%d" % i, 0, 2) for i in range(n)]
        counts = E.sizes("count", n, 0, 2)
        c, items = content(total)
        a = E.ak.JaggedArray(E.np.array(starts), E.np.array([s + k for s, k in zip(starts, counts)]), c)
    else:
        counts = E.sizes("count", n, 0, 2)
        first = E.size("first", 0, 1) if p == "offsets" else 0
        starts = [first + sum(counts[:i]) for i in range(n)]
        c, items = content(first + sum(counts) + (E.size("last", 0, 1) if p == "offsets" else 0))
        if p == "offsets":
            a = E.ak.JaggedArray.fromoffsets(E.np.array(starts + [first + sum(counts)]), c)
        else:
            a = E.ak.JaggedArray.fromcounts(counts, c)
    ref = [items[s:s + k] for s, k in zip(starts, counts)]
    ok = None if disjoint(starts, counts) else "overlapping lists"
    nest = lambda vs: [vs[sum(counts[:i]):sum(counts[:i + 1])] for i in range(n)]
    if w == "jagged":
        z = E.array("z", sum(counts), "float64")
        one(E, a, ref, E.ak.JaggedArray.fromcounts(counts, z), nest(E.items(z)), refused=ok)
    elif w == "gaps":
        z = E.array("z", sum(counts) + n)
        zs = E.items(z)
        at = [sum(counts[i + 1:]) + (n - 1 - i) for i in range(n)]
        one(E, a, ref, E.ak.JaggedArray(E.np.array(at), E.np.array([s + k for s, k in zip(at, counts)]), z), [zs[s:s + k] for s, k in zip(at, counts)], "x", refused=ok)
    elif w == "plain":
        z = E.array("z", n, "float64")
        if n == 1:
            ok = None            # one value for all
        one(E, a, ref, z, [[v] * k for v, k in zip(E.items(z), counts)], refused=ok)
    elif w == "scalar":
        z = E.int("z")
        one(E, a, ref, z, [[z] * k for k in counts])
    elif w == "two":
        t, rt = table(E, "t", sum(counts))
        if ok is None:
            two(E, a, ref, E.ak.JaggedArray.fromcounts(counts, t), (nest([r["x"] for r in rt]), nest([r["y"] for r in rt])))
    elif w == "other":
        other = E.sizes("other", n, 0, 2)
        z = E.array("z", sum(other))
        if list(other) != list(counts):
            one(E, a, ref, E.ak.JaggedArray.fromcounts(other, z), None, refused="lists of other lengths")
    else:
        removed(E, a, ref)

@harness("C22", quick=[{"w": w} for w in ("masked lists", "masked values", "records", "lists", "chunked", "indexed")], bounds="2 lists of <=2 records (with unused records before and between): possibly missing values per list or per record, records, lists, and chunked or indexed arrays")
def assign_values(E, w):
    counts = E.sizes("count", 2, 0, 2)
    gap = E.size("gap", 0, 1)
    ak, np = E.ak, E.np
    starts = [gap, gap + counts[0] + gap]
    c, items = table(E, "c", sum(counts) + 2 * gap)
    a = ak.JaggedArray(np.array(starts), np.array([s + k for s, k in zip(starts, counts)]), c)
    ref = [items[s:s + k] for s, k in zip(starts, counts)]
    nest = lambda vs: [vs[:counts[0]], vs[counts[0]:]]
    wide = lambda vs: [[v] * k for v, k in zip(vs, counts)]
    total = sum(counts)
    if w == "masked lists":
        z, rz = masked(E, "z", "bool", 2)
        one(E, a, ref, z, wide(rz.all()))
    elif w == "masked values":
        z, rz = masked(E, "z", "bool", total)
        one(E, a, ref, ak.JaggedArray.fromcounts(counts, z), nest(rz.all()), "x")
    elif w == "records":
        z, rz = table(E, "z", total)
        one(E, a, ref, ak.JaggedArray.fromcounts(counts, z), nest(rz))
    elif w == "lists":
        z, rz = jagged(E, "z", nlists=2, maxlen=1)
        if E.flag("per record"):
            one(E, a, ref, ak.JaggedArray.fromcounts(counts, z[E.np.array([0, 1] * 2)[:total]]), nest(([rz[0], rz[1]] * 2)[:total]))
        else:
            one(E, a, ref, ak.MaskedArray([False, False], z), wide(rz.all()))
    elif w == "chunked":
        z = E.array("z", 2)
        one(E, a, ref, ak.ChunkedArray([z[:1], z[1:]]), wide(E.items(z)))
    else:
        z = E.array("z", 2)
        one(E, a, ref, ak.IndexedArray([1, 0], z), wide(E.items(z)[::-1]), "x")

@harness("C22", quick=[{"w": w} for w in ("jagged", "inner", "plain", "del")], bounds="2 lists of <=1 lists of <=2 records: a value per record, per inner list, per list")
def assign_deep(E, w):
    inner = E.sizes("inner", 2, 0, 2)
    outer = E.choice("outer", [[1, 1], [2, 0], [0, 2]])
    c, items = table(E, "c", sum(inner))
    a = E.ak.JaggedArray.fromcounts(outer, E.ak.JaggedArray.fromcounts(inner, c))
    nest = lambda vs: (lambda lists: [lists[:outer[0]], lists[outer[0]:]])([vs[:inner[0]], vs[inner[0]:]])
    ref = nest(items)
    if w == "jagged":
        z = E.array("z", sum(inner), "float64")
        one(E, a, ref, E.ak.JaggedArray.fromcounts(outer, E.ak.JaggedArray.fromcounts(inner, z)), nest(E.items(z)))
    elif w == "inner":
        z = E.array("z", 2)
        one(E, a, ref, E.ak.JaggedArray.fromcounts(outer, z), nest([E.items(z)[0]] * inner[0] + [E.items(z)[1]] * inner[1]), "x")
    elif w == "plain":
        z = E.array("z", 2)
        one(E, a, ref, z, [[[v] * len(l) for l in r] for v, r in zip(E.items(z), ref)])
    else:
        removed(E, a, ref)

@harness("C22", quick=[{"w": w} for w in ("one", "two", "masked", "strings", "other", "del")], bounds="<=3 distinct (or repeated: refused) positions among 3 records, in any order")
def assign_indexed(E, w):
    n = E.size("n", 0, 3)
    c, items = table(E, "c", 3)
    idx = E.array("i", n, "int64", 0, 2)
    a = E.ak.IndexedArray(idx, c)
    pos = [int(i) for i in E.items(idx)]
    ref = [items[i] for i in pos]
    ok = None if len(set(pos)) == n else "duplicates"
    looked = E.flag("looked at before")
    if looked:
        E.same("before", a, ref)
    if w == "one":
        z = E.array("z", n, "float64")
        one(E, a, ref, z, E.items(z), refused=ok)
    elif w == "two":
        t, rt = table(E, "t", n)
        if ok is None:
            two(E, a, ref, t, ([r["x"] for r in rt], [r["y"] for r in rt]))
    elif w == "masked":
        z, rz = masked(E, "z", "bool", n)
        one(E, a, ref, z, rz.all(), refused=ok)
    elif w == "strings":
        z, rz = jagged(E, "z", nlists=n, maxlen=1)
        one(E, a, ref, z, rz.all(), "x", refused=ok)
    elif w == "other":
        z = E.array("z", n + E.choice("d", [1, 2] if not n else [-1, 1]))
        one(E, a, ref, z, None, refused="other length")
    else:
        removed(E, a, ref)

@harness("C22", quick=[{"k": k, "w": w} for k in ("bool", "boolX", "boolF", "bit", "index", "indexW", "indexP") for w in (("one", "masked", "two", "del") if k in ("bool", "index") else ("one", "del"))], bounds="<=3 possibly missing records (2 for index masks, in any order; the same record twice: refused) and a value for each (ignored where the record is missing)")
def assign_masked(E, k, w):
    n = E.size("n", 1, 3 if k != "index" else 2)
    total = n + 1 if k == "boolX" else n
    c, items = table(E, "c", total)
    if k.startswith("index"):
        mark = {"indexW": -3, "indexP": 5}.get(k, -1)
        at = [E.choice("at%d" % i, [mark] + list(range(total))) for i in range(n)]
        a = E.ak.IndexedMaskedArray(E.np.array(at, dtype="int64"), c, maskedwhen=mark)
        ref = [None if i == mark else items[i] for i in at]
        good = [i for i in at if i != mark]
        ok = None if len(set(good)) == len(good) else "duplicates"
    else:
        m = E.array("m", n, "bool")
        flip = "F" in k
        ref = [items[i] if E.sel(b) == flip else None for i, b in enumerate(E.items(m))]
        a = E.ak.BitMaskedArray.fromboolmask(m, c) if k == "bit" else E.ak.MaskedArray(m, c, maskedwhen=not flip)
        ok = None
    keep = lambda vs: [None if r is None else v for r, v in zip(ref, vs)]
    if w == "one":
        z = E.array("z", n, "float64")
        one(E, a, ref, z, keep(E.items(z)), refused=ok)
    elif w == "masked":
        z, rz = masked(E, "z", "bool", n)
        one(E, a, ref, z, keep(rz.all()), "x", refused=ok)
    elif w == "two":
        t, rt = table(E, "t", n)
        if ok is None:
            two(E, a, ref, t, (keep([r["x"] for r in rt]), keep([r["y"] for r in rt])))
    else:
        removed(E, a, ref)

@harness("C22", quick=[{"w": w} for w in ("one", "two", "other", "del")], bounds="1 to 3 records of two tables, at any position of them (twice the same: refused), tables longer than what is used, tables not used at all")
def assign_union(E, w):
    n = E.size("n", 1, 3 if w == "one" else 2)
    parts = [table(E, "c%d" % t, 2 if n < 3 else 3) for t in range(2)]
    tags = [E.size("tag%d" % i, 0, 1) for i in range(n)]
    idx = [E.size("index%d" % i, 0, 1 if n < 3 else 2) for i in range(n)]
    a = E.ak.UnionArray(E.np.array(tags, dtype="uint8"), E.np.array(idx), [p[0] for p in parts])
    ref = [parts[t][1][i] for t, i in zip(tags, idx)]
    ok = None if len(set(zip(tags, idx))) == n else "duplicates"
    if w == "one":
        z = E.array("z", n, "float64")
        zs = E.items(z)
        if ok is None and len(set(tags)) == 2:
            one(E, a, ref, z, zs)
        elif ok is None:
            E.agree("assign", lambda: a.__setitem__("z", z), lambda: None)
            E.agree("a", lambda: a, lambda: put(ref, "z", zs))
        else:
            one(E, a, ref, z, None, "x", refused=ok)
    elif w == "two":
        t, rt = table(E, "t", n)
        if ok is None:
            two(E, a, ref, t, ([r["x"] for r in rt], [r["y"] for r in rt]))
    elif w == "other":
        z = E.array("z", n + E.choice("d", [-1, 1]))
        one(E, a, ref, z, None, refused="other length")
    else:
        removed(E, a, ref)

@harness("C22", quick=[{"k": k, "w": w} for k in (1, 2, 3) for w in ("one", "two", "other", "plain", "del")], bounds="1 to 3 chunks of <=2 records, sizes known or not; the assigned array has the same chunks or is refused")
def assign_chunked(E, k, w):
    a, ref, sizes = chunked(E, "a", k, make=lambda name, s: table(E, name, s), known="none" if k == 3 else None, maxlen=2 if k < 3 else 1)
    if w == "one":
        z, zs, _ = sized(E, "z", sizes, lambda name, s: (lambda c: (c, E.items(c)))(E.array(name, s, "float64")))
        one(E, a, ref, z, zs)
    elif w == "two":
        t, rt, _ = sized(E, "t", sizes, lambda name, s: table(E, name, s))
        two(E, a, ref, t, ([r["x"] for r in rt], [r["y"] for r in rt]))
    elif w == "other":
        other = E.sizes("other", k, 0, 1)
        if list(other) != list(sizes):
            z, zs, _ = sized(E, "z", other, lambda name, s: (lambda c: (c, E.items(c)))(E.array(name, s)))
            one(E, a, ref, z, None, refused="other chunks")
    elif w == "plain":
        z = E.array("z", len(ref))
        one(E, a, ref, z, None, refused="not in chunks")
    else:
        removed(E, a, ref)

def sized(E, name, sizes, make):
    parts = [make("%s.%d" % (name, j), s) for j, s in enumerate(sizes)]
    return E.ak.ChunkedArray([p[0] for p in parts], list(sizes) if E.flag(name + ".known") else []), [x for p in parts for x in p[1]], sizes

@harness("C22", quick=[{"w": w} for w in ("one", "wrong", "other", "del")], bounds="sparse array of <=3 places and <=2 records: the values at the places without a record must be zero")
def assign_sparse(E, w):
    n = E.size("n", 0, 3)
    at = E.choice("at", [x for x in ([], [0], [1], [2], [0, 1], [0, 2], [1, 2]) if not x or x[-1] < n])
    c, items = table(E, "c", len(at))
    a = E.ak.SparseArray(n, E.np.array(at, dtype="int64"), c)
    ref = dict(zip(at, items))
    z = E.array("z", n if w != "other" else n + 1)
    zs = E.items(z)
    zero = all(E.sel(v == 0) for i, v in enumerate(zs) if i not in ref)
    E.agree("assign", lambda: a.__setitem__("z", z) if w != "del" else a.__delitem__("x"), lambda: None if w == "del" or (zero and w != "other") else refuse())
    if w == "del":
        want = [drop(ref[i], "x") for i in at]
    elif zero and w != "other":
        want = [put(ref[i], "z", zs[i]) for i in at]
        E.agree("a['z']", lambda: a["z"], lambda: [zs[i] if i in ref else 0 for i in range(n)])
    else:
        want = items
    E.agree("a", lambda: [a[i] for i in at], lambda: want)

@harness("C22", quick=[{"w": w} for w in ("one", "chain", "del")], bounds="2 records behind a virtual array, behind an index in a jagged array, and behind a masked array in a union")
def assign_nested(E, w):
    kind = E.choice("kind", ["virtual", "jagged indexed", "jagged masked", "chunked jagged", "masked jagged", "indexed jagged", "object"])
    c, items = table(E, "c", 2)
    ak, np = E.ak, E.np
    flip = E.flag("flip")
    order = [1, 0] if flip else [0, 1]
    z = E.array("z", 2, "float64")
    zs = E.items(z)
    if kind == "virtual":
        a, ref, v, vals = ak.VirtualArray(lambda: c), items, z, zs
    elif kind == "jagged indexed":
        a, ref = ak.JaggedArray.fromcounts([0, 2], ak.IndexedArray(order, c)), [[], [items[i] for i in order]]
        v, vals = ak.JaggedArray.fromcounts([0, 2], z), [[], zs]
    elif kind == "jagged masked":
        a, ref = ak.JaggedArray.fromcounts([1, 1], ak.MaskedArray([flip, False], c)), [[None if flip else items[0]], [items[1]]]
        v, vals = ak.JaggedArray.fromcounts([1, 1], z), [[zs[0]], [zs[1]]]
    elif kind == "chunked jagged":
        a, ref = ak.ChunkedArray([ak.JaggedArray.fromcounts([2, 0] if flip else [0, 2], c)]), [items, []] if flip else [[], items]
        v, vals = ak.ChunkedArray([ak.JaggedArray.fromcounts([2, 0] if flip else [0, 2], z)]), [zs, []] if flip else [[], zs]
    elif kind == "masked jagged":
        a, ref = ak.MaskedArray([flip, False], ak.JaggedArray.fromcounts([1, 1], c)), [None if flip else items[:1], items[1:]]
        v, vals = z, [None if flip else zs[:1], zs[1:]]
    elif kind == "indexed jagged":
        a, ref = ak.IndexedArray(order, ak.JaggedArray.fromcounts([1, 1], c)), [[items[i]] for i in order]
        v, vals = z, [[x] for x in zs]
    else:
        a, ref, v, vals = ak.ObjectArray(c, dict), None, z, zs
        E.agree("assign", lambda: a.__setitem__("z", v), lambda: None)
        E.agree("content", lambda: a.content, lambda: put(items, "z", vals))
        return
    if w == "one":
        one(E, a, ref, v, vals)
    elif w == "chain":
        one(E, a, ref, v, vals, "x")
        one(E, a, put(ref, "x", vals), v, vals, "w")
        E.agree("del", lambda: a.__delitem__("x"), lambda: None)
        E.agree("a", lambda: a, lambda: drop(put(put(ref, "x", vals), "w", vals), "x"))
    else:
        removed(E, a, ref)

@harness("C22", quick=[{"k": k} for k in ("columns", "masked", "table")], bounds="2 records: assignments that can only be carried out in part are refused as a whole")
def assign_partial(E, k):
    ak, np = E.ak, E.np
    c, items = table(E, "c", 2)
    d, more = table(E, "d", 2)
    z = E.array("z", 4)
    if k == "columns":
        a, ref = ak.IndexedArray([1, 0], c), items[::-1]
        E.agree("three", lambda: a.__setitem__(["x", "y", "z"], d), lambda: refuse())
        E.agree("one", lambda: a.__setitem__(["x"], d), lambda: refuse())
        E.agree("a", lambda: a, lambda: ref)
        a, ref = ak.JaggedArray.fromcounts([1, 1], c), [items[:1], items[1:]]
        E.agree("three", lambda: a.__setitem__(["x", "y", "z"], ak.JaggedArray.fromcounts([1, 1], d)), lambda: refuse())
        E.agree("a", lambda: a, lambda: ref)
        a, ref = ak.MaskedArray([False, True], c), [items[0], None]
        E.agree("three", lambda: a.__setitem__(["x", "y", "z"], d), lambda: refuse())
        E.agree("a", lambda: a, lambda: ref)
        E.agree("number", lambda: a.__setitem__(0, z[:2]), lambda: refuse())
        E.agree("a", lambda: a, lambda: ref)
        E.agree("three", lambda: c.__setitem__(["x", "y", "z"], d), lambda: refuse())
        E.agree("c", lambda: c, lambda: items)
        for b, rb in ((c, items), (ak.IndexedArray([1, 0], c), items[::-1]), (ak.JaggedArray.fromcounts([1, 1], c), [items[:1], items[1:]])):
            E.agree("delete x and none", lambda: b.__delitem__(["x", "none"]), lambda: refuse())
            E.agree("delete none", lambda: b.__delitem__("none"), lambda: refuse())
            E.agree("b", lambda: b, lambda: rb)
        E.agree("delete both", lambda: ak.IndexedArray([1, 0], c).__delitem__(["x", "y"]), lambda: None)
        E.agree("columns", lambda: [c.columns], lambda: [[]])
        return
    elif k == "masked":
        a, ref = ak.IndexedMaskedArray([1, -1, 1], c), [items[1], None, items[1]]
        what = z[:3]
    else:
        a, ref = c[::-1], items[::-1]
        what = z[:2]
    E.agree("refused", lambda: a.__setitem__("x", what), lambda: refuse())
    E.agree("a", lambda: a, lambda: ref)
    E.agree("c", lambda: c, lambda: items)

@harness("C22", quick=[{"p": p, "k": k} for p in ("counts", "offsets", "reversed") for k in ("ints", "mask", "maskgaps", "scalar", "other")], bounds="1 to 2 lists of <=2 numbers in order, with gaps or reversed: elements chosen by lists of positions (negative too, out of range refused) or by lists of booleans; other shapes are refused")
def assign_elements(E, p, k):
    n = E.size("n", 1, 2)
    counts = E.sizes("count", n, 0, 2)
    gap = E.size("gap", 0, 1) if p != "counts" else 0
    if p == "reversed":
        starts = [gap + sum(counts[i + 1:]) for i in range(n)]
    else:
        starts = [gap + sum(counts[:i]) for i in range(n)]
    c = E.array("c", sum(counts) + gap)
    items = E.items(c)
    a = E.ak.JaggedArray(E.np.array(starts), E.np.array([s + m for s, m in zip(starts, counts)]), c)
    ref = [items[s:s + m] for s, m in zip(starts, counts)]
    if k in ("ints", "scalar"):
        picks = E.sizes("pick", n, 0, 1)
        ix = E.array("ix", sum(picks), "int64", -3, 2)
        w = E.array("w", sum(picks)) if k == "ints" else E.int("w")
        ws = E.items(w) if k == "ints" else [w] * sum(picks)
        def want():
            out = [list(r) for r in ref]
            at = 0
            for i in range(n):
                for _ in range(picks[i]):
                    out[i][inrange(E, E.items(ix)[at], counts[i]) % counts[i]] = ws[at]
                    at += 1
            return out
        where = E.ak.JaggedArray.fromcounts(picks, ix)
        what = E.ak.JaggedArray.fromcounts(picks, w) if k == "ints" and E.flag("jagged") else w
    elif k == "other":
        other = E.sizes("other", n, 0, 2)
        E.assume(list(other) != list(counts))
        where = E.ak.JaggedArray.fromcounts(other, E.array("m", sum(other), "bool"))
        what, want = 5, lambda: refuse("other lengths")
    else:
        m = E.array("m", sum(counts) + (1 if k == "maskgaps" else 0), "bool")
        ms = E.items(m)[1 if k == "maskgaps" else 0:]
        offs = [sum(counts[:i]) for i in range(n + 1)]
        shift = 1 if k == "maskgaps" else 0
        where = E.ak.JaggedArray.fromoffsets([o + shift for o in offs], m)
        chosen = [bool(E.sel(b)) for b in ms]
        w = E.array("w", sum(chosen))
        what = w
        def want():
            left = list(E.items(w))
            return [[left.pop(0) if chosen[offs[i] + j] else ref[i][j] for j in range(counts[i])] for i in range(n)]
    res = []
    def act():
        a[where] = what
        return a
    before = [list(r) for r in ref]
    try:
        after = want()
    except Fail:
        E.agree("refused", act, want)
        E.agree("after refusal", lambda: a, lambda: before)
    else:
        E.agree("a", act, lambda: after)
        used = set(s + j for s, m in zip(starts, counts) for j in range(m))
        E.agree("rest of the content", lambda: [c[i] for i in range(len(items)) if i not in used], lambda: [items[i] for i in range(len(items)) if i not in used])
