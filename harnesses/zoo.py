"""One array of every kind (and of the layouts that the code treats differently), each with its reference list."""
from .common import *
from .h_indexed import indexed, sparse
from .h_masked import masked
from .h_union import union
from .h_chunked import chunked
from .h_appendable import history
from .h_table import table, viewed

def pair(x):
    """generator of the object arrays: module level, so that it can be stored by name"""
    return Made(x)

class Made(object):
    def __init__(self, x):
        self.x = x
    def _normal_(self):
        return {"made": self.x}

def source(*args, **kwargs):
    """generator of the virtual arrays"""
    return SOURCE[0]
SOURCE = [None]

def flat(E, name, n, dtype="int64"):
    c = E.array(name, n, dtype)
    return c, E.items(c)

def lists(E, name, n=2, maxlen=2, dtype="int64", placement="counts", content=None):
    a, ref = jagged(E, name, maxlen=maxlen, placement=placement, total=3, dtype=dtype, nlists=n, content=content)
    return a, ref

def records(E, name, n, dtypes=("int64", "float64")):
    return table(E, name, n, dtypes=dtypes)

def objects(E, name, n):
    c, it = flat(E, name, n)
    return E.ak.ObjectArray(c, pair), [{"made": x} for x in it]

def strings(E, name, n):
    words = ["", "ab", u"\u00e9", "abc"]
    it = [words[(i * 2 + E.size(name + ".shift", 0, 3)) % 4] if i == 0 else words[(i * 2) % 4] for i in range(n)]
    return E.ak.StringArray.fromiter(it), it

def _wrap(f):
    return lambda E: f(E, "a")

def _matrix(E):
    a = E.array("a", 4)
    it = E.items(a)
    return E.ak.JaggedArray.fromcounts([1, 0, 1], a.reshape((2, 2))), [[it[0:2]], [], [it[2:4]]]

def _starts2d(E):
    """a jagged array of two dimensions"""
    counts = [E.sizes("c%d" % i, 2, 0, 1) for i in range(2)]
    offs = [0]
    for c in counts[0] + counts[1]:
        offs.append(offs[-1] + c)
    c, it = flat(E, "a", offs[-1] + 1)
    starts = E.np.array([offs[0:2], offs[2:4]])
    stops = E.np.array([offs[1:3], offs[3:5]])
    return E.ak.JaggedArray(starts, stops, c), [[it[offs[2 * i + j]:offs[2 * i + j + 1]] for j in range(2)] for i in range(2)]

def _deep(E):
    inner, iref = jagged(E, "i", maxlen=2, nlists=2)
    n = E.sizes("o", 2, 0, 1)
    a = E.ak.JaggedArray.fromcounts(n, inner[:sum(n)])
    rows = iref.all()
    return a, [rows[:n[0]], rows[n[0]:n[0] + n[1]]]

def _jagtable(E, placement="counts"):
    def content(total):
        return table(E, "c", total)
    return jagged(E, "a", maxlen=2, placement=placement, total=3, nlists=2, content=content)

def _jagmasked(E):
    def content(total):
        a, ref = masked(E, "m", "bool", total)
        return a, ref
    return jagged(E, "a", maxlen=2, nlists=2, content=content)

def _maskedjag(E):
    return masked(E, "m", "bool", 2, content=lambda n: lists(E, "a", n))

def _maskedtable(E):
    return masked(E, "m", "index", 2, content=lambda n: records(E, "a", n))

def _indexedtable(E):
    return indexed(E, "a", 2, content=lambda n: records(E, "c", n))

def _indexedjag(E):
    return indexed(E, "a", 2, content=lambda n: lists(E, "c", n, maxlen=1))

def _sparse(E, default=None):
    return sparse(E, "a", 3, "int64", default)[:2]

def _union(E, kind):
    n = 2
    if kind == "jag":
        return union(E, "a", n, concrete=True, contents=[lists(E, "x", 2, maxlen=1), flat(E, "y", 2, "float64")])
    return union(E, "a", n, any_index=kind != "tags", extra=1 if kind == "longer" else 0)

def _chunked(E, k, what="flat", known=None):
    make = {"flat": flat, "jag": lambda E, n, s: lists(E, n, s, maxlen=1), "table": records}[what]
    a, ref, sizes = chunked(E, "a", k, maxlen=2 if what == "flat" else 1, make=lambda name, s: (lambda p: (p[0], list(p[1])))(make(E, name, s)), known=known)
    return a, ref

def _appendable(E):
    return history(E, "a", 1, 2, given=False)

def _view(E, how):
    t, ref = table(E, "t", 3)
    return viewed(E, t, ref, (how,))

def _tuples(E):
    x, xs = flat(E, "x", 2)
    y, ys = flat(E, "y", 2, "float64")
    t = E.ak.Table.named("tuple")
    t["0"], t["1"] = x, y
    return t, list(zip(xs, ys))

def _crossed(E):
    a, ref = jagged(E, "a", maxlen=2, nlists=2)
    return a.pairs(), [[(r[i], r[j]) for i in range(len(r)) for j in range(i, len(r))] for r in ref]

def _named(E):
    x, xs = flat(E, "x", 2)
    t = E.ak.Table.named("Point", x=x)
    return t, [{"x": v} for v in xs]

def _nestedtable(E):
    t, ref = records(E, "t", 2)
    j, jref = lists(E, "j", 2, maxlen=1)
    return E.ak.Table(p=t, q=j, r=t), [{"p": r, "q": jref[i], "r": r} for i, r in enumerate(ref)]

def _rowstart(E):
    t, ref = records(E, "t", 2)
    t.rowstart = 5
    return t, ref

def _objecttable(E):
    t, ref = records(E, "t", 2)
    return E.ak.ObjectArray(t, rowpair, ("extra",), {"kw": 3}), [{"row": r, "args": ("extra", 3)} for r in ref]

class MadeRow(object):
    def __init__(self, row, *args):
        self.row, self.args = row, args
    def _normal_(self):
        return {"row": dict((n, self.row[n]) for n in self.row._table.columns), "args": self.args}

def rowpair(row, a, kw=None):
    return MadeRow(row, a, kw)

def _bytestrings(E):
    it = [b"\xff", b"", b"ab"]
    return E.ak.StringArray.fromiter(it, encoding=None), it

def _stringsview(E):
    a, it = strings(E, "s", 3)
    return a[::-1], it[::-1]

def _virtual(E, make):
    a, ref = make(E)
    return E.ak.VirtualArray(lambda: a, persistvirtual=False), ref

def _shared(E):
    c, it = flat(E, "c", 2)
    j = E.ak.JaggedArray.fromcounts([1, 1], c)
    return E.ak.Table(a=c, b=c, j=j, k=E.ak.IndexedArray([1, 0], c)), [{"a": it[i], "b": it[i], "j": [it[i]], "k": it[1 - i]} for i in range(2)]

def _emptylists(E):
    n = E.size("n", 0, 2)
    c, it = flat(E, "c", E.size("m", 0, 1))
    return E.ak.JaggedArray.fromcounts([0] * n, c), [[]] * n

def _chunkedempty(E):
    c, it = flat(E, "c", 0, "float32")
    return E.ak.ChunkedArray([c, c]), []

def _bitlong(E, total=10):
    """mask bits of two bytes, of which three are free"""
    free = E.array("m", 3, "bool")
    m = E.np.concatenate([E.np.array([True, False, True, False, False, False, True]), free])
    c, it = flat(E, "a", 10)
    return E.ak.BitMaskedArray.fromboolmask(m, c, maskedwhen=True, lsborder=True), Lazy(10, lambda i: None if E.sel(m[i]) else it[i])

def _swapped(E):
    return E.ak.JaggedArray.fromcounts([2, 0, 1], E.np.array([1, 2, 300], dtype=">i4")), [[1, 2], [], [300]]

ZOO = {
    "jagged": lambda E: jagged(E, "a", maxlen=2, maxlists=2),
    "jagged offsets": lambda E: jagged(E, "a", maxlen=2, maxlists=2, placement="offsets"),
    "jagged any": lambda E: jagged(E, "a", maxlen=2, maxlists=2, placement="any", total=3),
    "jagged bool": lambda E: lists(E, "a", dtype="bool"),
    "jagged float32": lambda E: lists(E, "a", dtype="float32"),
    "jagged empty": _emptylists,
    "jagged matrix": _matrix,
    "jagged 2d": _starts2d,
    "jagged jagged": _deep,
    "jagged table": _jagtable,
    "jagged table any": lambda E: _jagtable(E, "any"),
    "jagged masked": _jagmasked,
    "jagged swapped": _swapped,
    "masked": lambda E: masked(E, "a", "bool", 2),
    "maskedF": lambda E: masked(E, "a", "boolF", 2),
    "maskedX": lambda E: masked(E, "a", "boolX", 2),
    "bit": lambda E: masked(E, "a", "bitF", 3),
    "bitL": _bitlong,
    "indexedmasked": lambda E: masked(E, "a", "index", 2),
    "indexedmaskedW": lambda E: masked(E, "a", "indexW", 2),
    "masked jagged": _maskedjag,
    "masked table": _maskedtable,
    "indexed": lambda E: indexed(E, "a", 2),
    "indexed narrow": lambda E: indexed(E, "a", 2, idtype="uint8"),
    "indexed table": _indexedtable,
    "indexed jagged": _indexedjag,
    "sparse": lambda E: _sparse(E),
    "sparse default": lambda E: _sparse(E, -7),
    "union": lambda E: _union(E, "tags"),
    "union index": lambda E: _union(E, "index"),
    "union longer": lambda E: _union(E, "longer"),
    "union jagged": lambda E: _union(E, "jag"),
    "chunked": lambda E: _chunked(E, 2),
    "chunked jagged": lambda E: _chunked(E, 2, "jag"),
    "chunked table": lambda E: _chunked(E, 2, "table"),
    "chunked empty": _chunkedempty,
    "appendable": _appendable,
    "table": lambda E: records(E, "t", E.size("n", 0, 2)),
    "table slice": lambda E: _view(E, "slice1"),
    "table reversed": lambda E: _view(E, "slice-2"),
    "table picked": lambda E: _view(E, "ints"),
    "table masked": lambda E: _view(E, "mask"),
    "table nested": _nestedtable,
    "table rowstart": _rowstart,
    "tuples": _tuples,
    "pairs": _crossed,
    "named": _named,
    "shared": _shared,
    "object": _wrap(lambda E, n: objects(E, n, 2)),
    "object table": _objecttable,
    "strings": _wrap(lambda E, n: strings(E, n, 3)),
    "bytestrings": _bytestrings,
    "strings view": _stringsview,
    "virtual": lambda E: _virtual(E, lambda E: flat(E, "a", 2)),
    "virtual jagged": lambda E: _virtual(E, lambda E: lists(E, "a")),
    "virtual table": lambda E: _virtual(E, lambda E: records(E, "a", 2)),
}

def build(E, kind):
    a, ref = ZOO[kind](E)
    return a, (ref.all() if isinstance(ref, Lazy) else list(ref))

def kinds(E, a):
    """the nesting of kinds of arrays, with the types of the numpy arrays"""
    ak = E.ak
    if isinstance(a, ak.VirtualArray):
        return kinds(E, a.array)
    if isinstance(a, ak.Table):
        return ("Table", a.rowname, [(n, kinds(E, a._contents[n])) for n in a._contents])
    if isinstance(a, ak.UnionArray):
        return ("UnionArray", [kinds(E, x) for x in a.contents])
    if isinstance(a, ak.ChunkedArray):
        return (type(a).__name__, [kinds(E, x) for x in a.chunks][:1])
    if isinstance(a, ak.StringArray):
        return ("StringArray", a.encoding)
    if isinstance(a, ak.ObjectArray):
        return ("ObjectArray", a.generator.__name__, list(a.args), dict(a.kwargs), kinds(E, a.content))
    if isinstance(a, ak.AwkwardArray):
        return (type(a).__name__, kinds(E, a.content))
    return str(a.dtype), list(a.shape[1:])
