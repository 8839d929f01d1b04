"""Arrow data and awkward arrays: what one side holds is what the other side gets."""
from .common import *
from .h_strings import T, symbolic_bytes, chars, raw

NUMBERS = ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64")

def arrow(prop="C20", **kwargs):                    # like @harness("C20", ...)
    """a harness in which the bytes of strings stay symbolic"""
    def deco(fn):
        def run(E, **params):
            with symbolic_bytes():
                return fn(E, **params)
        run.__name__, run.__doc__ = fn.__name__, fn.__doc__
        return harness(prop, **kwargs)(run)
    return deco

# ---- Arrow arrays as the format specifies them, with their values

class Spec(object):
    """how long and sliced the arrays are: offset (largest physical offset), nulls (is there a bitmap), extra (unused items before and after: 0 or 1), items (in a list)"""
    def __init__(self, offset=1, nulls=True, extra=0, items=1, inner=None):
        self.offset, self.nulls, self.extra, self.items, self._inner = offset, nulls, extra, items, inner
    def inner(self, **kw):
        return Spec(**dict(dict(offset=0, nulls=self.nulls if self._inner is None else self._inner, extra=0, items=self.items, inner=self._inner), **kw))

LAYOUT = {"plain": lambda: Spec(nulls=False), "full": lambda: Spec(extra=1), "outer": lambda: Spec(inner=False), "inner": lambda: Spec(nulls=False, extra=1, inner=True)}

def typeof(E, kind):
    pa = E.pa
    if isinstance(kind, tuple):
        k = kind[0]
        if k in ("list", "large_list"):
            return getattr(pa, "list_" if k == "list" else k)(typeof(E, kind[1]))
        if k == "struct":
            return pa.struct([(n, typeof(E, x)) for n, x in kind[1]])
        if k == "dictionary":
            return pa.dictionary(typeof(E, kind[1]), typeof(E, kind[2]))
        fields = [pa.field(str(i), typeof(E, x)) for i, x in enumerate(kind[1])]
        return getattr(pa, k)(fields, list(kind[2]) if len(kind) > 2 else None)
    return pa.bool_() if kind == "bool" else getattr(pa, kind)()

def bitmap(E, name, n):
    """n free bits"""
    b = E.array(name, -(-n // 8), "uint8")
    it = E.items(b)
    return E.pa.py_buffer(b), lambda i: ((it[i // 8] >> E.np.uint8(i % 8)) & E.np.uint8(1)) == 1

def arr(E, name, kind, n, spec):
    """an Arrow array of n items and the list of its values"""
    pa, np = E.pa, E.np
    o = E.size(name + ".o", 0, spec.offset) if spec.offset else 0
    m = o + n
    union = isinstance(kind, tuple) and kind[0].endswith("union")
    mask = valid = None
    if not union and kind[0] != "dictionary" and spec.nulls:
        mask, valid = bitmap(E, name + ".valid", m + (1 if m == 0 else 0))
    x = spec.extra
    t = typeof(E, kind)
    make = lambda bufs, children=None: pa.Array.from_buffers(t, n, bufs, -1, o, children)
    if kind in NUMBERS:
        data = E.array(name + ".data", m + x, kind)
        a, get = make([mask, pa.py_buffer(data)]), lambda i: data[i]
    elif kind == "bool":
        buf, bit = bitmap(E, name + ".data", m + x)
        a, get = make([mask, buf]), bit
    elif kind in ("string", "large_string", "binary", "large_binary"):
        first = 1 if x else 0
        off = [first]
        for c in E.sizes(name + ".count", m, 0, spec.items):
            off.append(off[-1] + c)
        c = chars(E, name + ".chars", off[-1] + x)
        items = E.items(c)
        k = "str" if kind.endswith("string") else "bytes"
        a = make([mask, pa.py_buffer(np.array(off, dtype="int64" if kind.startswith("large") else "int32")), pa.py_buffer(c)])
        get = lambda i: (k, items[off[i]:off[i + 1]])
    elif kind[0] in ("list", "large_list"):
        off = [1 if x else 0]
        for c in E.sizes(name + ".count", m, 0, spec.items):
            off.append(off[-1] + c)
        if kind[1][0].endswith("union"):
            E.assume(E.np.bool_(off[m] > off[o]))          # there are no unions without values
        child, items = arr(E, name + ".item", kind[1], off[-1] + x, spec.inner())
        a = make([mask, pa.py_buffer(np.array(off, dtype="int64" if kind[0] == "large_list" else "int32"))], [child])
        get = lambda i: items[off[i]:off[i + 1]]
    elif kind[0] == "struct":
        parts = [(f, arr(E, "%s.%s" % (name, f), k, m + x, spec.inner(offset=spec.offset if j == 0 and o == 0 else 0))) for j, (f, k) in enumerate(kind[1])]
        a = make([mask], [p[0] for f, p in parts])
        get = lambda i: dict((f, p[1][i]) for f, p in parts)
    elif kind[0] == "dictionary":
        index, at = arr(E, name + ".index", kind[1], n, spec)
        words, items = arr(E, name + ".word", kind[2], 2, spec.inner(offset=spec.extra))
        for i in at:
            if i is not None:
                E.assume((i >= 0) & (i < 2))
        return pa.DictionaryArray.from_arrays(index, words), [None if i is None else items[int(i)] for i in at]
    else:
        codes = list(kind[2]) if len(kind) > 2 else list(range(len(kind[1])))
        which = [E.size("%s.tag%d" % (name, i), 0, len(codes) - 1) for i in range(m)]
        tags = pa.py_buffer(np.array([codes[w] for w in which], dtype="int8"))
        if kind[0] == "sparse_union":
            parts = [arr(E, "%s.%d" % (name, j), k, m + x, spec.inner()) for j, k in enumerate(kind[1])]
            a = make([None, tags], [p[0] for p in parts])
            get = lambda i: parts[which[i]][1][i]
        else:
            parts = [arr(E, "%s.%d" % (name, j), k, 1 + x, spec.inner()) for j, k in enumerate(kind[1])]
            at = [E.size("%s.at%d" % (name, i), 0, x) for i in range(m)]
            a = make([None, tags, pa.py_buffer(np.array(at, dtype="int32"))], [p[0] for p in parts])
            get = lambda i: parts[which[i]][1][at[i]]
    return a, [get(i) if valid is None or E.sel(valid(i)) else None for i in range(o, m)]

def flat(kind):
    return not isinstance(kind, tuple)

def read(E, label, a, want):
    """fromarrow gives the values, and the same ones for each position"""
    got = E.attempt(lambda: E.ak.fromarrow(a))
    if not got.ok:
        E.fail(label, "raised %r" % got)
    got = got.value
    E.same(label + " length", len(got), len(want))
    E.same(label, T(E, got.tolist()), want)
    for i in range(len(want)):
        E.same("%s[%d]" % (label, i), T(E, got[i]), want[i])
    return got

KINDS = {"int64": "int64", "uint8": "uint8", "float64": "float64", "float32": "float32", "int16": "int16", "bool": "bool", "string": "string", "large_string": "large_string", "binary": "binary",
         "large_binary": "large_binary", "list": ("list", "int64"), "large_list": ("large_list", "int8"), "listbool": ("list", "bool"), "liststring": ("list", "string"),
         "listlist": ("list", ("list", "int64")), "struct": ("struct", (("x", "int64"), ("y", "bool"))), "structstring": ("struct", (("s", "string"), ("z", "float64"))),
         "liststruct": ("list", ("struct", (("x", "int64"),))), "structlist": ("struct", (("l", ("list", "int64")),)), "structstruct": ("struct", (("a", ("struct", (("x", "int64"),))),)),
         "dictionary": ("dictionary", "int8", "int64"), "dictstring": ("dictionary", "int32", "string"), "listdict": ("list", ("dictionary", "int8", "int64")),
         "structdict": ("struct", (("d", ("dictionary", "int8", "int64")),)),
         "sparse": ("sparse_union", ("int64", "bool")), "dense": ("dense_union", ("int64", "string")), "sparsecodes": ("sparse_union", ("int64", "bool"), (1, 0)),
         "densecodes": ("dense_union", ("int64", "float64"), (5, 2)), "listdense": ("list", ("dense_union", ("int64", "bool"))), "denselist": ("dense_union", (("list", "int64"), "int64"))}

FLAT = [k for k in sorted(KINDS) if flat(KINDS[k])]
NESTED = [k for k in sorted(KINDS) if not flat(KINDS[k])]

@arrow(quick=[{"kind": k, "n": n, "layout": l} for k in FLAT for n in (1, 2) for l in ("plain", "full")] +
             [{"kind": k, "n": n, "layout": l} for k in NESTED for n, l in ((1, "inner"), (1, "full"), (2, "plain"), (2, "outer"))],
       thorough=[{"kind": k, "n": 3, "layout": l} for k in FLAT for l in ("plain", "full")] + [{"kind": k, "n": 2, "layout": l} for k in NESTED for l in LAYOUT],
       bounds="Arrow arrays of every kind, 1-2 (3) items, physical offset 0-1, with or without (free) null bitmaps outside and inside, with or without unused items before and after")
def arrow_read(E, kind, n, layout):
    a, want = arr(E, "a", KINDS[kind], n, LAYOUT[layout]())
    read(E, "fromarrow", a, want)

@arrow(quick=[{"kind": k, "n": 9, "o": o} for k in ("int64", "bool") for o in (0, 1, 7, 8, 9)], thorough=[{"kind": k, "n": n, "o": o} for k in ("int64", "bool", "uint8", "float32") for n in (7, 8, 9, 16, 17) for o in range(0, 18, 3)],
       bounds="9 (7-17) items with physical offsets up to 9 (17): every bit of the null bitmap and of the values free")
def arrow_bits(E, kind, n, o):
    pa = E.pa
    mask, valid = bitmap(E, "valid", o + n)
    if kind == "bool":
        buf, get = bitmap(E, "data", o + n)
    else:
        data = E.array("data", o + n, kind)
        buf, get = pa.py_buffer(data), lambda i: data[i]
    got = E.ak.fromarrow(pa.Array.from_buffers(typeof(E, kind), n, [mask, buf], -1, o))
    E.same("length", len(got), n)
    E.same("missing", got.boolmask(maskedwhen=True), [~valid(i) for i in range(o, o + n)])
    E.same("values", got.content[:n], [get(i) for i in range(o, o + n)])
    i = E.size("i", -n, n - 1)
    E.same("one", got[i], get(o + i % n) if E.sel(valid(o + i % n)) else None)

def nopyarrow(E, kind):
    return {"int64": Spec(offset=1, nulls=True), "string": Spec(offset=0, nulls=True), "list": Spec(offset=0, nulls=False, inner=True), "struct": Spec(offset=0, nulls=True, inner=False)}[kind]

@arrow(quick=[{"kind": k, "ns": ns} for k in ("int64", "string", "list", "struct") for ns in ((1, 1), (2, 1), (0, 2, 1))], bounds="2-3 chunks of 0-2 items and any slice of them")
def arrow_chunked(E, kind, ns):
    pa = E.pa
    parts = [arr(E, "c%d" % i, KINDS[kind], n, nopyarrow(E, kind)) for i, n in enumerate(ns)]
    a, want = pa.chunked_array([p[0] for p in parts]), [x for p in parts for x in p[1]]
    start = E.size("start", 0, len(want))
    stop = E.size("stop", start, len(want))
    read(E, "chunked", a[start:stop], want[start:stop])

@arrow(quick=[{"cut": c, "kind": k} for c in (0, 1, 2) for k in ("string", "bool", "list")], bounds="tables of 3 rows and two columns which are cut into chunks at different rows, and any slice of them")
def arrow_table(E, cut, kind):
    pa = E.pa
    def column(name, kind, cut, nulls):
        parts = [arr(E, name + str(i), KINDS[kind], n, Spec(offset=0, nulls=nulls, inner=False)) for i, n in enumerate((cut, 3 - cut)) if n]
        return pa.chunked_array([p[0] for p in parts]), [x for p in parts for x in p[1]]
    x, xs = column("x", "int64", cut, kind == "bool")
    y, ys = column("y", kind, E.size("cut", 0, 2), False)
    rows = [{"x": p, "y": q} for p, q in zip(xs, ys)]
    t = pa.Table.from_arrays([x, y], names=["x", "y"])
    start = E.size("start", 0, 3)
    stop = E.size("stop", start, 3)
    t = t if (start, stop) == (0, 3) else t.slice(start, stop - start)
    read(E, "table", t, rows[start:stop])

@arrow(quick=[{"kind": k} for k in ("string", "bool", "dictionary", "struct")], bounds="record batches of 2 rows and two columns, and any slice of them")
def arrow_batch(E, kind):
    pa = E.pa
    x, xs = arr(E, "x", "int64", 2, Spec(offset=1, nulls=True))
    y, ys = arr(E, "y", KINDS[kind], 2, Spec(offset=0, nulls=True))
    rows = [{"x": p, "y": q} for p, q in zip(xs, ys)]
    b = pa.RecordBatch.from_arrays([x, y], names=["x", "y"])
    start = E.size("start", 0, 2)
    stop = E.size("stop", start, 2)
    b = b if (start, stop) == (0, 2) else b.slice(start, stop - start)
    got = read(E, "batch", b, rows[start:stop])
    E.same("columns", sorted(got.columns), ["x", "y"])

# ---- awkward arrays with their values

from .h_masked import KINDS as MASKS, masked
from .h_strings import stringarray
from . import zoo

def down(x):
    """the missingness of a list or a record is that of the values inside"""
    if isinstance(x, list):
        return [down(y) for y in x]
    if isinstance(x, dict):
        return dict((k, down(v)) for k, v in x.items())
    return None

def numbers(E, name, n, dtype="int64"):
    a = E.array(name, n, dtype)
    return a, E.items(a)

def lists(E, name, n, placement="any", content=None):
    a, ref = jagged(E, name, maxlists=n, minlists=n, maxlen=1 if placement == "any" else 2, total=2, placement=placement, content=content)
    return a, ref.all()

def table(E, name, n, how="none"):
    """records of a number and a list (0 or 1 items) under a selection"""
    x, xs = numbers(E, name + ".x", n)
    y, ys = lists(E, name + ".y", n, "counts")
    a, rows = E.ak.Table(x=x, y=y), [{"x": p, "y": q} for p, q in zip(xs, ys)]
    return select(E, name, a, rows, how)

def select(E, name, a, rows, how):
    n = len(rows)
    if how == "slice":
        s = optslice(E, name + ".s", -n, n)
        return a[s], refslice(rows, s)
    if how == "index":
        i = E.array(name + ".i", 2, "int64", -n, n - 1)
        return a[i], [rows[int(j)] for j in i.tolist()]
    if how == "mask":
        m = E.array(name + ".m", n, "bool")
        return a[m], [r for r, k in zip(rows, m.tolist()) if E.sel(k)]
    return a, rows

def made(E, kind):
    """an awkward array and what Arrow has to hold"""
    ak, np = E.ak, E.np
    if kind in NUMBERS or kind == "bool":
        return numbers(E, "a", 3, kind)
    if kind == "strided":
        a, it = numbers(E, "a", 4)
        return a[::-2], it[::-2]
    if kind.startswith("jagged-"):
        return lists(E, "a", 2, kind[7:])
    if kind == "nested":
        inner = lambda total: lists(E, "a.in", total, "counts")
        return lists(E, "a", 2, "offsets", inner)
    if kind.startswith("string-"):
        return stringarray(E, "a", 2, layout=kind[7:])
    if kind.startswith("bytes-"):
        return stringarray(E, "a", 2, enc=None, layout=kind[6:])
    if kind == "liststring":
        return lists(E, "a", 2, "counts", lambda total: stringarray(E, "a.s", total, 1))
    if kind.startswith("table-"):
        return table(E, "a", 2, kind[6:])
    if kind.startswith("nestedtable-"):
        t, rows = table(E, "a", 2, kind[12:])
        z, zs = numbers(E, "z", len(rows))
        return ak.Table(t=t, z=z), [{"t": r, "z": w} for r, w in zip(rows, zs)]
    if kind == "uneven":
        x, xs = numbers(E, "x", E.size("nx", 0, 2))
        y, ys = numbers(E, "y", E.size("ny", 0, 2), "bool")
        return ak.Table(x=x, y=y), [{"x": p, "y": q} for p, q in zip(xs, ys)]
    if kind == "listtable":
        return lists(E, "a", 2, "any", lambda total: table(E, "a.t", total, "none"))
    if kind == "indexed":
        x, xs = numbers(E, "x", 2)
        i = E.array("i", 3, "int64", 0, 1)
        return ak.IndexedArray(i, x), [xs[int(j)] for j in i.tolist()]
    if kind == "indexedlists":
        x, xs = lists(E, "x", 2, "counts")
        i = E.array("i", 2, "int64", 0, 1)
        return ak.IndexedArray(i, x), [xs[int(j)] for j in i.tolist()]
    if kind == "sparse":
        i = E.size("i", 0, 1)
        j = E.size("j", i + 1, 2)
        x, xs = numbers(E, "x", 2)
        return ak.SparseArray(3, [i, j], x), [xs[0] if k == i else xs[1] if k == j else 0 for k in range(3)]
    if kind in ("union", "unionstring"):
        x, xs = numbers(E, "x", 2)
        y, ys = lists(E, "y", 2, "counts") if kind == "union" else stringarray(E, "y", 2)
        tags, index = E.array("tags", 2, "uint8", 0, 1), E.array("index", 3, "int64", 0, 1)
        return ak.UnionArray(tags, index, [x, y]), [(xs, ys)[int(t)][int(i)] for t, i in zip(tags.tolist(), index.tolist())]
    if kind == "virtual":
        x, xs = lists(E, "x", 2, "offsets")
        return ak.VirtualArray(lambda: x), xs
    if kind == "object":
        x, xs = numbers(E, "x", 2)
        return ak.ObjectArray(x, zoo.pair), xs
    raise KeyError(kind)

PLAIN = ["int8", "uint16", "int64", "float32", "float64", "bool", "strided", "jagged-counts", "jagged-offsets", "jagged-any", "nested", "string-counts", "string-any", "bytes-offsets", "liststring",
         "table-none", "table-slice", "table-index", "table-mask", "nestedtable-none", "nestedtable-slice", "uneven", "listtable", "indexed", "indexedlists", "sparse", "union", "unionstring", "virtual", "object"]

def write(E, label, a, want, back=True):
    """toarrow holds the values, and fromarrow gives them back"""
    b = E.attempt(lambda: E.ak.toarrow(a))
    if not b.ok:
        E.fail(label, "raised %r" % b)
    b = b.value
    E.same(label + " length", len(b), len(want))
    E.same(label, T(E, b.to_pylist()), want)
    if back:
        E.same(label + " and back", T(E, E.ak.fromarrow(b).tolist()), want)

@arrow(quick=[{"kind": k} for k in PLAIN], bounds="arrays of every kind, 2-3 items, any layout or row selection: converted to Arrow and back")
def arrow_write(E, kind):
    a, want = made(E, kind)
    write(E, "toarrow", a, want)

@arrow(quick=[{"kind": k, "what": w} for k in ("bool", "boolF", "boolX", "bit", "bitLF", "index", "indexW") for w in ("int64", "bool", "string")] +
             [{"kind": k, "what": w} for k in ("bool", "index") for w in ("bytes", "lists", "table", "view", "indexed", "union", "masked", "inlists", "intable")],
       bounds="2 possibly missing items of every kind of mask and content: converted to Arrow and back; the missingness of lists and records is passed down to what they hold")
def arrow_missing(E, kind, what):
    ak = E.ak
    if what in ("int64", "bool"):
        a, want = masked(E, "a", kind, 2, what)
        return write(E, "toarrow", a, want.all())
    if what in ("inlists", "intable"):
        if what == "inlists":
            a, want = lists(E, "a", 2, "counts", lambda total: (lambda p: (p[0], p[1].all()))(masked(E, "a.m", kind, total)))
        else:
            m, ms = masked(E, "a.m", kind, 2)
            a, want = ak.Table(m=m), [{"m": x} for x in ms.all()]
        return write(E, "toarrow", a, want)
    under = {}
    def content(total):
        if what in ("string", "bytes"):
            a, items = stringarray(E, "a.s", total, 1, enc=None if what == "bytes" else "utf-8")
        elif what == "lists":
            a, items = lists(E, "a.l", total, "counts")
        elif what in ("table", "view"):
            x, xs = numbers(E, "a.x", total)
            a, items = ak.Table(x=x), [{"x": p} for p in xs]
            if what == "view":
                a, items = a[::-1], items[::-1]
        elif what == "indexed":
            x, xs = numbers(E, "a.x", 2)
            i = E.array("a.i", total, "int64", 0, 1)
            a, items = ak.IndexedArray(i, x), [xs[int(j)] for j in i.tolist()]
        elif what == "union":
            x, xs = numbers(E, "a.x", 2)
            y, ys = numbers(E, "a.y", 1, "bool")
            tags, index = E.array("a.tags", total, "uint8", 0, 1), E.array("a.at", total, "int64", 0, 1)
            for t, i in zip(tags.tolist(), index.tolist()):
                E.assume((t == 0) | (i == 0))
            a, items = ak.UnionArray(tags, index, [x, y]), [(xs, ys)[int(t)][int(i)] for t, i in zip(tags.tolist(), index.tolist())]
        else:
            a, items = masked(E, "a.inner", "bool", total)
            items = items.all()
        under["all"] = items
        return a, list(range(len(items)))
    a, where = masked(E, "a", kind, 2, content=content)
    items, where = under["all"], where.all()
    if what in ("lists", "table", "view"):
        want = []
        got = T(E, E.ak.toarrow(a).to_pylist())
        E.same("length", len(got), 2)
        for i, k in enumerate(where):
            if k is not None:
                E.same("item %d" % i, got[i], items[k])
            else:
                E.same("item %d has no values" % i, got[i], down(got[i]))
        return E.same("back", T(E, E.ak.fromarrow(E.ak.toarrow(a)).tolist()), got)
    write(E, "toarrow", a, [None if k is None else items[k] for k in where])

@arrow(quick=[{"what": w} for w in ("numbers", "tables", "views", "lists", "append", "sizes")], bounds="2 chunks of 0-2 items: a table with one batch per chunk")
def arrow_chunks(E, what):
    ak, np = E.ak, E.np
    named = lambda items: [{"": x} for x in items]
    if what == "append":
        a = ak.AppendableArray((E.size("shape", 1, 2),), np.dtype("int64"))
        x, xs = numbers(E, "x", E.size("n", 1, 3))
        a.extend(x)
        return write(E, "toarrow", a, named(xs))
    if what == "sizes":
        x, xs = numbers(E, "x", 3)
        k = E.size("k", 0, 3)
        return write(E, "toarrow", ak.ChunkedArray([x, x], [3, k]), named(xs + xs[:k]))
    parts = []
    for i in range(2):
        n = E.size("n%d" % i, 0, 2)
        if what == "numbers":
            parts.append(numbers(E, "c%d" % i, n))
        elif what == "lists":
            parts.append(lists(E, "c%d" % i, n, "counts"))
        else:
            x, xs = numbers(E, "c%d.x" % i, n)
            t, rows = ak.Table(x=x), [{"x": p} for p in xs]
            parts.append((t, rows) if what == "tables" else select(E, "c%d" % i, t, rows, "mask"))
    want = [x for p in parts for x in p[1]]
    write(E, "toarrow", ak.ChunkedArray([p[0] for p in parts]), want if what in ("tables", "views") else named(want))

@arrow(quick=[{"what": w} for w in ("chunked", "encoding", "matrix", "complex", "other")], bounds="what Arrow or the conversion does not have is refused")
def arrow_refused(E, what):
    ak, np = E.ak, E.np
    x = E.array("x", 2)
    if what == "chunked":
        f = lambda: ak.toarrow(ak.Table(x=ak.ChunkedArray([x[:1], x[1:]])))
    elif what == "encoding":
        f = lambda: ak.toarrow(ak.StringArray.fromcounts([1], E.array("c", 1, "uint8", 32, 126), encoding="latin-1"))
    elif what == "matrix":
        f = lambda: ak.toarrow(x.reshape(1, 2))
    elif what == "complex":
        f = lambda: ak.toarrow(np.array([1j, 2]))
    else:
        f = lambda: ak.fromarrow(x)
    got = E.attempt(f)
    E.same("refused", got.ok, False)
