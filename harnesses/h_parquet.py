"""Parquet files: what toparquet (or another writer) stored is what fromparquet gives back, one column of one row group at a time."""
import contextlib
import os
import shutil
import tempfile
from .common import *
from .h_strings import T, stringarray
from .h_masked import masked
from .h_arrow import arrow, arr, made, numbers, lists, table, select, down, KINDS, LAYOUT, Spec

ALSO = dict(KINDS)
ALSO.update({"listlargestring": ("list", "large_string"), "listdictstring": ("list", ("dictionary", "int8", "string")), "structdictstring": ("struct", (("d", ("dictionary", "int32", "string")),)),
             "dictbinary": ("dictionary", "int8", "binary"), "dictbool": ("dictionary", "int8", "bool")})

@contextlib.contextmanager
def place(E):
    """where the file of one run may be"""
    if E.symbolic:
        E.pa.parquet.FILES.clear()
        yield "x.parquet"
    else:
        d = tempfile.mkdtemp(prefix="verif-parquet-")
        try:
            yield os.path.join(d, "x.parquet")
        finally:
            shutil.rmtree(d)

def parquet(**kwargs):                            # like @harness("C24", ...)
    """a harness that gets the name of a file"""
    def deco(fn):
        def run(E, **params):
            with place(E) as where:
                return fn(E, where, **params)
        run.__name__, run.__doc__ = fn.__name__, fn.__doc__
        return arrow("C24", **kwargs)(run)
    return deco

def pq(E):
    import pyarrow.parquet
    return pyarrow.parquet

def attempt(E, label, f):
    got = E.attempt(f)
    if not got.ok:
        E.fail(label, "raised %r" % got)
    return got.value

def check(E, label, got, want, one=True):
    E.same(label + " length", len(got), len(want))
    if one:
        for i in (range(len(want)) if len(want) < 2 else (0, len(want) - 1, -1, -len(want))):
            E.same("%s[%d]" % (label, i), T(E, got[i]), want[i])
    E.same(label, T(E, got.tolist()), want)

def roundtrip(E, where, a, want, one=True):
    attempt(E, "toparquet", lambda: E.ak.toparquet(where, a))
    got = attempt(E, "fromparquet", lambda: E.ak.fromparquet(where))
    attempt(E, "reading", lambda: check(E, "read", got, want, one))
    return got

def refused(E, label, f):
    E.same(label, E.attempt(f).ok, False)

WRITTEN = ["int8", "uint16", "int64", "float32", "float64", "bool", "strided", "jagged-counts", "jagged-offsets", "jagged-any", "nested", "string-counts", "string-any", "bytes-offsets", "liststring",
           "table-none", "table-slice", "table-index", "table-mask", "nestedtable-none", "nestedtable-slice", "uneven", "listtable", "indexed", "sparse", "virtual"]

@parquet(quick=[{"kind": k} for k in WRITTEN if k not in ("nested", "nestedtable-slice")], thorough=[{"kind": k} for k in WRITTEN], bounds="arrays of every kind that Parquet has, 2-3 items, any layout or row selection: written and read")
def parquet_roundtrip(E, where, kind):
    a, want = made(E, kind)
    got = roundtrip(E, where, a, want)
    E.same("row groups", len(got.chunks), 1 if want else 0)

@parquet(quick=[{"kind": k, "what": w} for k in ("bool", "boolF", "bit", "index", "indexW") for w in ("int64", "bool", "string")] +
               [{"kind": k, "what": w} for k in ("bool", "index") for w in ("lists", "table", "view", "inlists", "intable")],
         bounds="2 possibly missing items of every kind of mask and content: written and read; the missingness of lists and records is passed down to what they hold")
def parquet_missing(E, where, kind, what):
    ak = E.ak
    if what in ("int64", "bool"):
        a, want = masked(E, "a", kind, 2, what)
        return roundtrip(E, where, a, want.all())
    if what == "inlists":
        a, want = lists(E, "a", 2, "counts", lambda total: (lambda p: (p[0], p[1].all()))(masked(E, "a.m", kind, total)))
        return roundtrip(E, where, a, want)
    if what == "intable":
        m, ms = masked(E, "a.m", kind, 2)
        return roundtrip(E, where, ak.Table(m=m), [{"m": x} for x in ms.all()])
    under = {}
    def content(total):
        if what == "string":
            a, items = stringarray(E, "a.s", total, 1)
        elif what == "lists":
            a, items = lists(E, "a.l", total, "counts")
        else:
            x, xs = numbers(E, "a.x", total)
            a, items = ak.Table(x=x), [{"x": p} for p in xs]
            if what == "view":
                a, items = a[::-1], items[::-1]
        under["all"] = items
        return a, list(range(len(items)))
    a, where_ = masked(E, "a", kind, 2, content=content)
    items, at = under["all"], where_.all()
    if what == "string":
        return roundtrip(E, where, a, [None if k is None else items[k] for k in at])
    attempt(E, "toparquet", lambda: ak.toparquet(where, a))
    b = attempt(E, "fromparquet", lambda: ak.fromparquet(where))
    got = T(E, b.tolist())
    E.same("length", len(got), 2)
    for i, k in enumerate(at):
        if k is not None:
            E.same("item %d" % i, got[i], items[k])
        else:
            E.same("item %d has no values" % i, got[i], down(got[i]))

def parts(E, what, k=2):
    """arrays of one kind"""
    out = []
    for i in range(k):
        n = E.size("n%d" % i, 0, 1 if i and what in ("lists", "tables") else 2)
        if what == "numbers":
            out.append(numbers(E, "c%d" % i, n))
        elif what == "lists":
            out.append(lists(E, "c%d" % i, n, "counts"))
        elif what == "strings":
            out.append(stringarray(E, "c%d" % i, n, 1))
        else:
            out.append(table(E, "c%d" % i, n, "none") if what == "tables" else select(E, "c%d" % i, *(lambda x: (E.ak.Table(x=x[0]), [{"x": p} for p in x[1]]))(numbers(E, "c%d.x" % i, n)), how="mask"))
    return out

@parquet(quick=[{"what": w, "how": h} for w in ("numbers", "tables", "views", "lists", "strings") for h in ("chunked", "iterator", "list")] + [{"what": w, "how": "numbers"} for w in ("append", "sizes")],
         bounds="2 chunks (or items of an iterator or of a list) of 0-2 items: a row group for each of them, read as chunks; any slice and any position of the result")
def parquet_chunks(E, where, what, how):
    ak, np = E.ak, E.np
    if what == "append":
        a = ak.AppendableArray((E.size("shape", 1, 2),), np.dtype("int64"))
        x, want = numbers(E, "x", E.size("n", 1, 3))
        a.extend(x)
        return roundtrip(E, where, a, want)
    if what == "sizes":
        x, xs = numbers(E, "x", 3)
        k = E.size("k", 0, 3)
        return roundtrip(E, where, ak.ChunkedArray([x, x], [3, k]), xs + xs[:k])
    ps = parts(E, what)
    want = [x for p in ps for x in p[1]]
    arrays = [p[0] for p in ps]
    a = ak.ChunkedArray(arrays) if how == "chunked" else iter(arrays) if how == "iterator" else arrays
    got = roundtrip(E, where, a, want, one=False)
    E.same("row groups", [len(c) for c in got.chunks], [len(p[1]) for p in ps if len(p[1])])
    if want and how == "chunked" and what not in ("lists", "tables"):
        i = E.size("i", -len(want), len(want) - 1)
        E.same("one", T(E, got[i]), want[i])
        start = E.size("start", 0, len(want))
        E.same("slice", T(E, got[start:].tolist()), want[start:])

READ = ["int64", "uint8", "float64", "float32", "int16", "bool", "string", "large_string", "binary", "large_binary", "list", "large_list", "listbool", "liststring", "listlist", "struct", "structstring", "liststruct",
        "structlist", "structstruct", "dictionary", "dictstring", "dictbinary", "dictbool", "listdict", "listdictstring", "structdict", "structdictstring", "listlargestring"]
SHORT = ("liststring", "listlist", "liststruct", "structlist", "structstring", "listdict", "listdictstring", "structdictstring", "listlargestring", "structstruct", "struct", "structdict")

@parquet(quick=[{"kind": k, "name": m, "n": 1 if k in SHORT else 2} for k in READ for m in ("", "x")], thorough=[{"kind": k, "name": m, "n": n} for k in READ for m in ("", "x") for n in (1, 2)],
         bounds="files that another program wrote: a nullable column of every kind, named or not, 1-2 items")
def parquet_read(E, where, kind, name, n):
    a, want = arr(E, "a", ALSO[kind], n, Spec(offset=0, nulls=True, inner="dict" not in kind))
    pq(E).write_table(E.pa.Table.from_arrays([a], names=[name]), where)
    got = attempt(E, "fromparquet", lambda: E.ak.fromparquet(where))
    attempt(E, "reading", lambda: check(E, "read", got, want if name == "" else [{name: x} for x in want]))

class Cache(dict):
    pass

@parquet(quick=[{"cached": c, "first": f} for c in ("none", "dict", "evicted") for f in ("x", "y", "row", "length")],
         bounds="2 row groups of 2 and 1 rows and columns x (numbers) and y (strings): only the columns that are used are read, also after the cache has lost them")
def parquet_lazy(E, where, cached, first):
    ak = E.ak
    x, xs = numbers(E, "x", 3)
    y, ys = stringarray(E, "y", 3, 1)
    z, zs = numbers(E, "z", 3, "bool")
    t = ak.Table(x=x, y=y, z=z)
    ak.toparquet(where, ak.ChunkedArray([t[:2], t[2:]]))
    cache = None if cached == "none" else Cache()
    a = ak.fromparquet(where, cache=cache)
    E.same("row groups", [len(c) for c in a.chunks], [2, 1])
    E.same("columns", [list(c.columns) for c in a.chunks], [["x", "y", "z"]] * 2)
    def read():
        return [[c.contents[n].ismaterialized for n in ("x", "y", "z")] for c in a.chunks]
    E.same("nothing is read", read(), [[False] * 3] * 2)
    E.same("length", len(a), 3)
    E.same("still nothing", read(), [[False] * 3] * 2)
    expect = [[False] * 3, [False] * 3]
    if first in ("x", "y"):
        E.same("column", T(E, a[first].tolist()), xs if first == "x" else ys)
        k = ("x", "y").index(first)
        for e in expect:
            e[k] = True
    elif first == "row":
        E.same("cell", T(E, a[2]["y"]), ys[2])
        expect[1][1] = True
    E.same("read", read(), expect)
    if cached == "evicted":
        cache.clear()
        E.same("evicted", read(), [[False] * 3] * 2)
    rows = [{"x": p, "y": q, "z": r} for p, q, r in zip(xs, ys, zs)]
    i = E.size("i", -3, 2)
    E.same("row", T(E, a[i].tolist()), rows[i])
    E.same("rows", T(E, a.tolist()), rows)
    E.same("all is read", read(), [[True] * 3] * 2)

@parquet(quick=[{"how": h, "columns": c} for h in ("pickle", "persist", "reference") for c in (1, 2)],
         bounds="files of 2 row groups and 1-2 columns: the array of a file is pickled or stored (with what it holds, or as a reference to the file) and has the same values afterwards")
def parquet_stored(E, where, how, columns):
    import pickle
    ak = E.ak
    x, xs = numbers(E, "x", 3)
    if columns == 1:
        t, want = x, xs
    else:
        y, ys = stringarray(E, "y", 3, 1)
        t, want = ak.Table(x=x, y=y), [{"x": p, "y": q} for p, q in zip(xs, ys)]
    ak.toparquet(where, ak.ChunkedArray([t[:1], t[1:]]))
    a = ak.fromparquet(where, persistvirtual=how == "reference")
    if how == "pickle":
        E.same("generator", [pickle.loads(pickle.dumps(a.chunks[0].generator)).file == where] if columns == 1 else [True], [True])
        b = ak.fromparquet(where)
    else:
        store = {}
        ak.persist.serialize(a, store)
        b = ak.persist.deserialize(store)
    check(E, "stored", b, want, one=False)

@parquet(quick=[{"what": w} for w in ("union", "matrix", "number", "numbers", "empty", "nochunks", "types", "columns", "itertypes", "complex")],
         bounds="what Parquet (or the conversion) does not have is refused: unions, matrices, complex numbers, numbers and lists of numbers, nothing at all, chunks of different types or columns")
def parquet_refused(E, where, what):
    ak, np = E.ak, E.np
    x = E.array("x", 2)
    f = E.array("f", 2, "float64")
    what = {"union": lambda: ak.UnionArray([0, 1], [0, 1], [x, f]), "matrix": lambda: x.reshape(1, 2), "number": lambda: 5, "numbers": lambda: [1, 2], "empty": lambda: [], "nochunks": lambda: ak.ChunkedArray([]),
            "types": lambda: ak.ChunkedArray([ak.Table(x=x), ak.Table(x=f)]), "columns": lambda: ak.ChunkedArray([ak.Table(x=x), ak.Table(y=x)]), "itertypes": lambda: iter([x, f]),
            "complex": lambda: np.array([1j, 2])}[what]()
    refused(E, "refused", lambda: ak.toparquet(where, what))
