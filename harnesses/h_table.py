"""Tables: lists of records, under every chain of row and column selections."""
from symnp import findings
from .common import *
from .h_reduce import refreduce

def table(E, name, n, extra=0, dtypes=("int64", "int64"), lo=None, hi=None):
    """table of n rows (columns x and y; y has extra more items) and its reference list of records"""
    x, y = E.array(name + ".x", n, dtypes[0], lo, hi), E.array(name + ".y", n + extra, dtypes[1], lo, hi)
    return E.ak.Table(x=x, y=y), [{"x": p, "y": q} for p, q in zip(E.items(x), E.items(y))]

def select(E, name, ref, how, lo=0):
    """one selection of rows: (what to put in brackets, the selected reference rows)"""
    n = len(ref)
    if how[:5] == "slice":
        step = int(how[5:])
        s = optslice(E, name, -n - lo, n + lo, steps=(step,))
        s = plain(s)
        return s, ref[s]
    if how == "ints":
        ix = E.array(name + ".ix", 2, "int64", -n, n - 1) if n else E.np.array([], dtype="int64")
        return ix, [ref[int(i)] for i in E.items(ix)]
    if how == "mask":
        b = E.array(name + ".b", n, "bool")
        return b, [r for r, c in zip(ref, E.items(b)) if E.sel(c)]
    raise AssertionError(how)

HOW = ("slice1", "slice2", "slice-1", "slice-2", "ints", "mask")

def viewed(E, t, ref, hows, name="v"):
    for j, how in enumerate(hows):
        w, ref = select(E, "%s%d" % (name, j), ref, how)
        t = t[w]
    return t, ref

def everything(E, t, ref, label):
    n = len(ref)
    E.agree(label, lambda: t, lambda: ref)
    E.agree(label + " len", lambda: len(t), lambda: n)
    E.agree(label + " ['x']", lambda: t["x"], lambda: [r["x"] for r in ref])
    E.agree(label + " .y", lambda: t.y, lambda: [r["y"] for r in ref])
    E.agree(label + " [['y']]", lambda: t[["y"]], lambda: [{"y": r["y"]} for r in ref])
    E.agree(label + " rows", lambda: [[r["x"], r.y] for r in t], lambda: [[r["x"], r["y"]] for r in ref])

@harness("C13", quick=[{"n": 3, "a": a, "b": b} for a in HOW for b in HOW], thorough=[{"n": 4, "a": a, "b": b} for a in HOW for b in HOW], bounds="3 (4) rows, y longer by 0 or 1: every pair of slices of steps 1, 2, -1, -2, lists of 2 positions and masks one after another, then columns, rows and records", need=())
def table_views(E, n, a, b):
    extra = E.size("extra", 0, 1) if a == "mask" else 0
    t, ref = table(E, "t", n, extra, lo=None)
    v, want = viewed(E, t, ref, (a, b))
    everything(E, v, want, "t[a][b]")
    E.agree("t['x'][a][b]", lambda: len(v["x"]), lambda: len(want))
    E.agree("t unchanged", lambda: t, lambda: ref)

@harness("C13", quick=[{"a": a} for a in HOW], bounds="2 rows, then a selection, then any integer row, or a list of positions that may be out of range", need=("refused",))
def table_rows(E, a):
    t, ref = table(E, "t", 2 if a != "mask" else 3)
    v, want = viewed(E, t, ref, (a,))
    n = len(want)
    i = E.int("i", -n - 2, n + 1, py=True)
    E.agree("v[i]", lambda: v[i], lambda: pick(E, want, i), errors=IndexError)
    E.agree("v[i]['x']", lambda: v[i]["x"], lambda: pick(E, want, i)["x"], errors=IndexError)
    E.agree("v[i].y", lambda: v[i].y, lambda: pick(E, want, i)["y"], errors=IndexError)
    E.agree("v[i][['y']]", lambda: v[i][["y"]], lambda: {"y": pick(E, want, i)["y"]}, errors=IndexError)
    E.agree("v['x'][i]", lambda: v["x"][i], lambda: pick(E, want, i)["x"], errors=IndexError)
    if E.sel(i >= n):
        E.reached("refused")

@harness("C13", quick=[{"a": a} for a in HOW], bounds="2 rows, then a selection, then a list of 2 positions that may be out of range or a mask of any length; the list itself is left alone", need=("refused",))
def table_positions(E, a):
    t, ref = table(E, "t", 2)
    v, want = viewed(E, t, ref, (a,))
    n = len(want)
    ix = E.array("ix", 2, "int64", -n - 1, n)
    before = E.items(ix)
    E.agree("v[ix]", lambda: v[ix], lambda: [pick(E, want, i) for i in before], errors=IndexError)
    E.same("ix unchanged", ix, before)
    if E.sel(ix[0] >= n):
        E.reached("refused")
    else:
        w = t[E.np.array([0, -1])]
        m = E.np.ones(n + 1, dtype="bool")
        E.agree("v[mask]", lambda: v[m], refuse, errors=IndexError)
        E.agree("v[[]]", lambda: v[[]], lambda: [])
        E.agree("v[()]", lambda: v[()], lambda: want)
        E.agree("v[[True..]]", lambda: v[[True] * n] if n else v, lambda: want)
        E.agree("t[[0, -1]]", lambda: w, lambda: [ref[0], ref[-1]])

def refuse():
    raise Fail("refused")

@harness("C13", quick=[{}], bounds="an index array changed after the selection does not change the selection")
def table_index_alias(E):
    t, ref = table(E, "t", 3)
    ix = E.array("ix", 2, "int64", -3, 2)
    v = t[ix]
    want = [ref[int(i)] for i in E.items(ix)]
    ix[0] = E.int("j", 0, 2)
    E.agree("v", lambda: v, lambda: want)

@harness("C13", quick=[{"p": p, "q": q} for p in range(4) for q in range(4)], bounds="columns of 0 to 3 items each: the table has as many rows as the shortest column", need=())
def table_lengths(E, p, q):
    x, y = E.array("x", p), E.array("y", q)
    t = E.ak.Table({"x": x, "y": y})
    n = min(p, q)
    ref = [{"x": a, "y": b} for a, b in zip(E.items(x), E.items(y))]
    E.agree("t", lambda: t, lambda: ref)
    E.agree("len", lambda: len(t), lambda: n)
    E.agree("t[1:]", lambda: t[1:]["x"], lambda: [r["x"] for r in ref[1:]])
    E.agree("t[::-1]", lambda: t[::-1]["y"], lambda: [r["y"] for r in ref[::-1]])
    i = E.int("i", -4, 3, py=True)
    E.agree("t[i]", lambda: t[i], lambda: pick(E, ref, i), errors=IndexError)
    E.agree("t + 1", lambda: t + 1, lambda: [{"x": r["x"] + 1, "y": r["y"] + 1} for r in ref])
    E.agree("sum", lambda: t.sum().tolist(), lambda: {"x": refreduce(E, "sum", [r["x"] for r in ref], "int64"), "y": refreduce(E, "sum", [r["y"] for r in ref], "int64")})
    E.agree("concatenate", lambda: t.concatenate([t]), lambda: ref + ref)
    E.agree("jagged", lambda: E.ak.JaggedArray.fromcounts([n], t), lambda: [ref])
    E.agree("deepcopy", lambda: t.deepcopy(), lambda: ref)
    E.agree("counts", lambda: t.counts, lambda: [-1] * n)
    E.agree("jagged sum", lambda: E.ak.JaggedArray.fromcounts([n], t).sum(), lambda: [{"x": refreduce(E, "sum", [r["x"] for r in ref], "int64"), "y": refreduce(E, "sum", [r["y"] for r in ref], "int64")}])
    E.known("F01", p != q)
    E.agree("t['x']", lambda: t["x"], lambda: [r["x"] for r in ref])
    E.agree("t.y", lambda: t.y, lambda: [r["y"] for r in ref])

@harness("C13", quick=[{"a": a, "what": w} for a in ("none",) + HOW for w in ("ufunc", "rows", "reduce", "convert")], bounds="2 rows (3 for masks) under one selection: functions, comparison, rows, reductions, conversions", need=())
def table_methods(E, a, what):
    np = E.np
    d = {"reduce": ("int64", "bool")}.get(what, ("int64", "int64"))
    t, ref = table(E, "t", 2, 1 if a == "none" else 0, d)
    v, want = (t, ref) if a == "none" else viewed(E, t, ref, (a,))
    n = len(want)
    both = lambda f: [{"x": f(r["x"]), "y": f(r["y"])} for r in want]
    if what == "ufunc":
        E.agree("v + 1", lambda: v + 1, lambda: both(lambda z: z + 1))
        E.agree("3 - v", lambda: 3 - v, lambda: both(lambda z: 3 - z))
        E.agree("-v", lambda: -v, lambda: both(lambda z: -z))
        E.agree("v + v", lambda: v + v, lambda: both(lambda z: z + z))
        arr = E.array("arr", n)
        it = E.items(arr)
        E.agree("v + array", lambda: v + arr, lambda: [{"x": r["x"] + p, "y": r["y"] + p} for r, p in zip(want, it)])
        E.agree("array - v", lambda: arr - v, lambda: [{"x": p - r["x"], "y": p - r["y"]} for r, p in zip(want, it)])
        u, ru = table(E, "u", n)
        E.agree("v - u", lambda: v - u, lambda: [{"x": r["x"] - s["x"], "y": r["y"] - s["y"]} for r, s in zip(want, ru)])
        E.agree("v == u", lambda: v == u, lambda: [np.logical_and(r["x"] == s["x"], r["y"] == s["y"]) for r, s in zip(want, ru)])
        E.agree("v != u", lambda: v != u, lambda: [np.logical_or(r["x"] != s["x"], r["y"] != s["y"]) for r, s in zip(want, ru)])
        E.agree("v < 3", lambda: v < 3, lambda: [np.logical_and(r["x"] < 3, r["y"] < 3) for r in want])
        E.agree("divmod", lambda: [list(x["x"]) for x in np.divmod(v, 3)] if n else [[], []], lambda: [[r["x"] // 3 for r in want], [r["x"] % 3 for r in want]])
        E.agree("other columns", lambda: v + E.ak.Table(x=arr), refuse)
        E.agree("other length", lambda: v + table(E, "w", n + 1)[0], refuse)
    elif what == "rows":
        for i in range(n):
            r = want[i]
            E.agree("v[i] + 1", lambda: (v[i] + 1), lambda: {"x": r["x"] + 1, "y": r["y"] + 1})
            E.agree("v[i] + v[0]", lambda: (v[i] + v[0]), lambda: {"x": r["x"] + want[0]["x"], "y": r["y"] + want[0]["y"]})
            E.agree("v[i] < 3", lambda: bool(v[i] < 3), lambda: E.sel(np.logical_and(r["x"] < 3, r["y"] < 3)))
            E.agree("v[i] == v[0]", lambda: bool(v[i] == v[0]), lambda: E.sel(np.logical_and(r["x"] == want[0]["x"], r["y"] == want[0]["y"])))
            E.agree("v[i] != v[0]", lambda: bool(v[i] != v[0]), lambda: E.sel(np.logical_or(r["x"] != want[0]["x"], r["y"] != want[0]["y"])))
            E.agree("tolist", lambda: v[i].tolist(), lambda: r)
            E.agree("columns", lambda: [v[i].columns, len(v[i]), "x" in v[i], "z" in v[i]], lambda: [["x", "y"], 2, True, False])
            E.agree("list", lambda: list(v[i]), lambda: ["x", "y"])
            E.agree("no such column", lambda: v[i]["z"], refuse)
            E.agree("dir", lambda: "x" in dir(v[i]), lambda: True)
            E.agree("v[i][['y', 'x']] + 1", lambda: v[i][["y", "x"]] + 1, lambda: {"y": r["y"] + 1, "x": r["x"] + 1})
    elif what == "reduce":
        for name in ("count", "any", "all", "count_nonzero", "sum", "prod", "max"):
            E.agree(name, lambda: getattr(v, name)().tolist(), lambda: dict((c, refreduce(E, name, [r[c] for r in want], e)) for c, e in zip("xy", d)))
    else:
        E.agree("counts", lambda: v.counts, lambda: [-1] * n)
        E.agree("boolmask", lambda: v.boolmask(), lambda: [False] * n)
        E.agree("astype", lambda: v.astype("int8"), lambda: both(lambda z: np.array([z]).astype("int8")[0]))
        E.agree("fillna", lambda: v.fillna(1), lambda: want)
        E.agree("zeros_like", lambda: v.zeros_like(), lambda: both(lambda z: 0))
        E.agree("ones_like", lambda: v.ones_like(), lambda: both(lambda z: 1))
        E.agree("copy", lambda: v.copy(), lambda: want)
        E.agree("deepcopy", lambda: v.deepcopy(), lambda: want)
        E.agree("concatenate", lambda: v.concatenate([t, v]), lambda: want + ref + want)
        E.agree("unzip", lambda: [list(x) for x in v[:].unzip()], lambda: [[r["x"] for r in want], [r["y"] for r in want]])
        E.agree("columns", lambda: v.columns, lambda: ["x", "y"])
        E.agree("indexed", lambda: E.ak.IndexedArray(np.arange(n)[::-1], v), lambda: want[::-1])
        E.agree("masked", lambda: E.ak.MaskedArray([False, True, False][:n], v), lambda: [None if i == 1 else r for i, r in enumerate(want)])
        E.agree("no such column", lambda: v["z"], refuse)
        E.agree("jagged sum", lambda: E.ak.JaggedArray.fromcounts([n], v).sum(), lambda: [{"x": refreduce(E, "sum", [r["x"] for r in want], "int64"), "y": refreduce(E, "sum", [r["y"] for r in want], "int64")}])
        E.agree("jagged columns", lambda: E.ak.JaggedArray.fromcounts([0, n], v)["x"], lambda: [[], [r["x"] for r in want]])
        E.agree("masked sum", lambda: E.ak.MaskedArray([False, True, False][:n], v).sum().tolist(), lambda: {"x": refreduce(E, "sum", [r["x"] for i, r in enumerate(want) if i != 1], "int64"), "y": refreduce(E, "sum", [r["y"] for i, r in enumerate(want) if i != 1], "int64")})
    E.same("t unchanged", t, ref)

@harness("C13", quick=[{}], bounds="2 rows of floats: reductions ignore NaN column by column; columns of different types are reduced in their own type")
def table_reduce_types(E):
    t, ref = table(E, "t", 1, 0, ("bool", "float64"))
    for name in ("min", "max", "count", "any", "sum"):
        if name == "sum":
            E.agree(name, lambda: t.sum()["x"], lambda: refreduce(E, name, [r["x"] for r in ref], "bool"))
        else:
            E.agree(name, lambda: getattr(t, name)()["y"], lambda: refreduce(E, name, [r["y"] for r in ref], "float64"))
    j = E.ak.JaggedArray.fromcounts([1], t)
    E.agree("jagged sum", lambda: j.sum()["x"], lambda: [refreduce(E, "sum", [r["x"] for r in ref], "bool")])
    E.agree("jagged max", lambda: j.max()["y"], lambda: [refreduce(E, "max", [r["y"] for r in ref], "float64")])
    f = E.ak.JaggedArray.fromcounts([1], E.ak.MaskedArray([False], t))
    E.agree("jagged masked sum", lambda: f.sum()["x"], lambda: [refreduce(E, "sum", [r["x"] for r in ref], "bool")])
    E.agree("jagged masked max", lambda: f.max()["y"], lambda: [refreduce(E, "max", [r["y"] for r in ref], "float64")])

@harness("C13", quick=[{"a": a} for a in ("none",) + HOW], bounds="2 records of lists of <=2 items, tuples and nested records under one selection")
def table_nested(E, a):
    j, rj = jagged(E, "j", nlists=2, maxlen=2 if a in ("none", "slice-1") else 1, placement="counts")
    x = E.array("x", 2)
    inner, ri = table(E, "in", 2)
    rj = rj.all()
    t = E.ak.Table.named("tuple", E.ak.Table(x=j)["x"], x, inner)
    t.rowname = "tuple"
    ref = [(rj[i], E.items(x)[i], ri[i]) for i in range(2)]
    v, want = (t, ref) if a == "none" else viewed(E, t, ref, (a,))
    n = len(want)
    E.agree("v", lambda: v, lambda: want)
    E.agree("v['0']", lambda: v["0"], lambda: [r[0] for r in want])
    E.agree("v.i1", lambda: v.i1, lambda: [r[1] for r in want])
    E.agree("v['2']['y']", lambda: v["2"]["y"], lambda: [r[2]["y"] for r in want])
    E.agree("v['2'][::-1]", lambda: v["2"][::-1], lambda: [r[2] for r in want][::-1])
    E.agree("v['0'].sum()", lambda: v["0"].sum(), lambda: [refreduce(E, "sum", r[0], "int64") for r in want])
    for i in range(n):
        E.agree("v[i]", lambda: v[i], lambda: want[i])
        E.agree("list(v[i])", lambda: [len(v[i]), list(v[i])[1]], lambda: [3, want[i][1]])
        E.agree("v[i].i2.y", lambda: v[i].i2.y, lambda: want[i][2]["y"])
    p, rp = table(E, "p", 2)
    outer = E.ak.Table.named("tuple", E.ak.Table.named("tuple", x, x + 1)[[1, 0]], x)
    outer.rowname = "tuple"
    s, refo = [0, 1], [((E.items(x)[1 - i], E.items(x)[1 - i] + 1), E.items(x)[i]) for i in range(2)]
    if a in ("none", "slice1", "slice-1"):
        step = None if a == "none" else int(a[5:])
        w, want = outer[::step], refo[::step]
        E.agree("nested tuples", lambda: w, lambda: want)
        E.agree("flattentuple", lambda: w.flattentuple(), lambda: [r[0] + (r[1],) for r in want])

@harness("C13", quick=[{"k": k} for k in ("columns", "jagged", "nested", "masked", "strings", "fixed")], bounds="rows of two tables of 1 to 2 rows whose columns differ or not (in any order): numbers, lists of <=2 items, records, possibly missing values, strings of <=2 bytes, arrays of 2 items; == and != in both directions", need=("equal", "different"))
def table_row_equality(E, k):
    if k == "columns":
        cols = [["x"], ["x", "y"], ["y", "x"], ["y"], ["x", "y", "z"]]
        sides = []
        for w in "tu":
            names = E.choice(w + ".columns", cols)
            data = {n: E.array(w + "." + n, 1, "int64", 0, 1) for n in names}
            t = E.ak.Table()
            for n in names:
                t[n] = data[n]
            sides.append((t, {n: E.items(data[n])[0] for n in names}))
        (t, rt), (u, ru) = sides
    else:
        def column(name):
            if k == "jagged":
                a, r = jagged(E, name, nlists=1, maxlen=2, placement="counts", lo=0, hi=1)
                return a, r.all()[0]
            if k == "nested":
                a, r = table(E, name, 1, lo=0, hi=1)
                return a, r[0]
            if k == "masked":
                x, m = E.array(name, 1, "int64", 0, 1), E.array(name + ".m", 1, "bool")
                return E.ak.MaskedArray(m, x), None if E.sel(E.items(m)[0]) else E.items(x)[0]
            if k == "strings":
                s = E.array(name, 2, "uint8", 65, 66)
                c = E.size(name + ".n", 0, 2)
                return E.ak.StringArray.fromcounts([c], s[:c]), E.items(s)[:c]
            x = E.array(name, 2, "int64", 0, 1)
            return x.reshape(1, 2), E.items(x)
        (a, ra), (b, rb) = column("a"), column("b")
        x, y = E.array("x", 1, "int64", 0, 1), E.array("y", 1, "int64", 0, 1)
        t, rt = E.ak.Table(c=a, x=x), {"c": ra, "x": E.items(x)[0]}
        u, ru = E.ak.Table(x=y, c=b), {"c": rb, "x": E.items(y)[0]}
    def same(p, q):
        if isinstance(p, dict):
            return isinstance(q, dict) and set(p) == set(q) and all(same(p[n], q[n]) for n in p)
        if isinstance(p, list):
            return isinstance(q, list) and len(p) == len(q) and all(same(i, j) for i, j in zip(p, q))
        if p is None or q is None:
            return p is None and q is None
        return bool(E.sel(p == q))
    equal = same(rt, ru)
    E.reached("equal" if equal else "different")
    E.agree("t == u", lambda: bool(t[0] == u[0]), lambda: equal)
    E.agree("u == t", lambda: bool(u[0] == t[0]), lambda: equal)
    E.agree("t != u", lambda: bool(t[0] != u[0]), lambda: not equal)
    E.agree("t == t", lambda: bool(t[0] == t[0:1][0]), lambda: True)
    E.agree("not a row", lambda: [t[0] == 1, t[0] == None, t[0] != "x"], lambda: [False, False, True])

@harness("C13", quick=[{}], bounds="2 rows: assigning, replacing and deleting columns; views are read-only", need=())
def table_assign(E):
    t, ref = table(E, "t", 2)
    z = E.array("z", 2, "float64")
    zs = E.items(z)
    v = t[::-1]
    what = E.choice("what", ["set", "scalar", "several", "del", "view"])
    if what == "set":
        t["z"] = z
        t["x"] = t["y"] + 1
        ref = [{"x": r["y"] + 1, "y": r["y"], "z": q} for r, q in zip(ref, zs)]
    elif what == "scalar":
        t["z"] = 5
        ref = [dict(r, z=5) for r in ref]
    elif what == "several":
        t[["z", "w"]] = E.ak.Table(z, t["x"])
        ref = [dict(r, z=q, w=r["x"]) for r, q in zip(ref, zs)]
    elif what == "del":
        if E.flag("list"):
            del t[["x"]]
        else:
            del t["x"]
        ref = [{"y": r["y"]} for r in ref]
    else:
        E.agree("assign to a view", lambda: v.__setitem__("z", z), refuse)
        E.agree("delete from a view", lambda: v.__delitem__("x"), refuse)
    E.agree("t", lambda: t, lambda: ref)
    E.agree("columns", lambda: t.columns, lambda: list(ref[0]))
    E.agree("t[::-1]", lambda: t[::-1], lambda: ref[::-1])

@harness("C13", quick=[{}], bounds="2 tables of 1 to 2 rows, columns of different types and orders, concatenated; other columns are refused")
def table_concatenate(E):
    n, m = E.size("n", 1, 2), E.size("m", 1, 2)
    a, ra = table(E, "a", n, E.size("extra", 0, 1))
    y, x = E.array("b.y", m, "bool"), E.array("b.x", m)
    b = E.ak.Table([("never", 0)][:0] or {"y": y, "x": x})
    rb = [{"x": p, "y": q} for p, q in zip(E.items(x), E.items(y))]
    E.agree("concatenate", lambda: [[r["x"], r["y"]] for r in a.concatenate([b])], lambda: [[r["x"], r["y"] * 1] for r in ra] + [[r["x"], E.np.array([r["y"]]).astype("int64")[0]] for r in rb])
    E.agree("views", lambda: [[r["x"]] for r in a[::-1].concatenate([b[::-1]])], lambda: [[r["x"]] for r in ra[::-1] + rb[::-1]])
    c = E.ak.Table(x=E.ak.MaskedArray(y, x), y=y)
    E.agree("other type of column", lambda: c.concatenate([b])["x"], lambda: [None if E.sel(q) else p for p, q in zip(E.items(x), E.items(y))] + E.items(x))
    E.agree("other columns", lambda: a.concatenate([E.ak.Table(x=x)]), refuse)

@findings.demo("F01")
def f01(ak, np):
    return len(ak.Table(x=[1, 2, 3], y=[1])["x"]) == 3
