"""String arrays act like lists of strings."""
import contextlib
from symnp import nd
from .common import *

def T(E, x):
    """any result, with strings as ("str", characters) and ("bytes", bytes)"""
    def recurse(x):
        if isinstance(x, str):
            return ("str", [ord(c) for c in x])
        if isinstance(x, bytes):
            return ("bytes", list(x))
        if isinstance(x, tuple) and len(x) == 2 and type(x[0]) is str and x[0] in ("str", "bytes") and isinstance(x[1], list):
            return x
        if isinstance(x, (list, tuple)):
            return type(x)(recurse(y) for y in x)
        if isinstance(x, dict):
            return dict((k, recurse(y)) for k, y in x.items())
        return x
    return recurse(E.norm(x))

@contextlib.contextmanager
def symbolic_bytes():
    nd.SYMBYTES = True
    try:
        yield
    finally:
        nd.SYMBYTES = False

def strings(prop="C17", **kwargs):
    """a harness, like @harness("C17", ...), in which the bytes of strings stay symbolic"""
    def deco(fn):
        def run(E, **params):
            with symbolic_bytes():
                return fn(E, **params)
        run.__name__, run.__doc__ = fn.__name__, fn.__doc__
        return harness(prop, **kwargs)(run)
    return deco

def check(E, label, got, want, errors=Exception):
    E.agree(label, lambda: T(E, got()), lambda: T(E, want()), errors)

LAYOUTS = ("counts", "offsets", "any", "parents", "jagged")

def chars(E, name, n):
    return E.array(name, n, "uint8", 32, 126)

def text(E, name, n, enc="utf-8"):
    """one string of n free characters and its reference"""
    c = chars(E, name, n)
    kind = "bytes" if enc is None else "str"
    return raw(E, kind, c), (kind, E.items(c))

def raw(E, kind, c):
    if E.symbolic:
        return nd.SymBuffer(c) if kind == "bytes" else nd.SymText(c.tolist())
    return c.tobytes() if kind == "bytes" else c.tobytes().decode("ascii")

def stringarray(E, name, n, maxlen=2, enc="utf-8", layout="counts", words=None):
    """string array of n strings and its reference"""
    ak, np = E.ak, E.np
    kind = "bytes" if enc is None else "str"
    if words is not None:
        return ak.StringArray.fromiter(words, encoding=enc), [T(E, w) for w in words]
    if layout == "any":
        total = maxlen + 1
        c = chars(E, name + ".chars", total)
        it = E.items(c)
        starts = E.array(name + ".starts", n, "int64", 0, total)
        counts = E.array(name + ".counts", n, "int64", 0, maxlen)
        stops = starts + counts
        for i in range(n):
            E.assume(stops[i] <= total)
        a = ak.StringArray(starts, stops, c, enc)
        def row(i):
            s, k = int(starts[i]), int(counts[i])
            return (kind, it[s:s + k])
        return a, Lazy(n, row).all()
    counts = E.sizes(name + ".count", n, 0, maxlen)
    offs = [0]
    for k in counts:
        offs.append(offs[-1] + k)
    shift = 1 if layout == "offsets" else 0
    c = chars(E, name + ".chars", offs[-1] + 2 * shift)
    it = E.items(c)
    ref = [(kind, it[shift + offs[i]:shift + offs[i + 1]]) for i in range(n)]
    if layout == "counts":
        a = ak.StringArray.fromcounts(counts, c, enc)
    elif layout == "offsets":
        a = ak.StringArray.fromoffsets([o + 1 for o in offs], c, enc)
    elif layout == "parents":
        while ref and not ref[-1][1]:
            ref = ref[:-1]      # parents cannot describe empty strings at the end
        a = ak.StringArray.fromparents([i for i in range(n) for k in range(counts[i])], c, enc)
    else:
        a = ak.StringArray.fromjagged(ak.JaggedArray.fromcounts(counts, c), enc)
    return a, ref

ENC = ("utf-8", None, "ascii", "latin-1")

@strings(quick=[{"layout": l} for l in LAYOUTS], bounds="<=2 strings of <=2 free ASCII characters, every constructor, encodings utf-8, ASCII, Latin-1 or none (bytes)")
def strings_build(E, layout):
    n = E.size("n", 0, 2)
    enc = E.choice("enc", ENC)
    a, ref = stringarray(E, "a", n, enc=enc, layout=layout)
    check(E, "items", lambda: a, lambda: ref)
    check(E, "each", lambda: [a[i] for i in range(len(ref))], lambda: ref)
    check(E, "length", lambda: len(a), lambda: len(ref))
    check(E, "encoding", lambda: a.encoding is enc or a.encoding == enc, lambda: True)
    check(E, "counts", lambda: a.counts, lambda: [len(r[1]) for r in ref])
    check(E, "type", lambda: a.type == E.ak.type.ArrayType(len(ref), bytes if enc is None else str), lambda: True)
    check(E, "copy", lambda: a.copy(), lambda: ref)
    check(E, "deepcopy", lambda: a.deepcopy(), lambda: ref)
    check(E, "compact", lambda: a.compact(), lambda: ref)
    check(E, "recoded", lambda: a.copy(encoding="latin-1"), lambda: [("str", r[1]) for r in ref])
    check(E, "fillna", lambda: a.fillna(1), lambda: ref)

@strings(quick=[{"enc": e} for e in ENC + ("utf-16-le", "utf-32-le")], bounds="<=3 strings of <=2 free ASCII characters, from Python strings; repeated strings")
def strings_fromiter(E, enc):
    n = E.size("n", 0, 3)
    ks = E.sizes("k", n, 0, 2)
    ts = [text(E, "t%d" % i, ks[i], enc) for i in range(n)]
    check(E, "fromiter", lambda: E.ak.StringArray.fromiter([t[0] for t in ts], encoding=enc), lambda: [t[1] for t in ts])
    check(E, "fromiter of an iterator", lambda: E.ak.StringArray.fromiter((t[0] for t in ts), encoding=enc), lambda: [t[1] for t in ts])
    if n and enc in ("utf-8", None):
        check(E, "fromstr", lambda: E.ak.StringArray.fromstr(3, ts[0][0], encoding=enc), lambda: [ts[0][1]] * 3)
        check(E, "fromstr, none", lambda: E.ak.StringArray.fromstr(0, ts[0][0], encoding=enc), lambda: [])
        check(E, "fromstr, one", lambda: E.ak.StringArray.fromstr(1, ts[0][0], encoding=enc), lambda: [ts[0][1]])

@strings(quick=[{"layout": l, "what": w} for l in LAYOUTS for w in ("int", "slice", "fancy", "bools", "list", "twice")], bounds="<=3 strings of <=2 free characters (any position in the buffer, overlapping too): any integer, slice, list of 2 positions, boolean mask")
def strings_select(E, layout, what):
    n = E.size("n", 0, 3 if layout != "any" else 2) if what in ("slice", "bools") else E.size("n", 0, 2)
    a, ref = stringarray(E, "a", n, layout=layout, maxlen=2 if n < 2 and layout != "any" else 1, enc="utf-8" if what in ("slice", "twice") else E.choice("enc", ("utf-8", None)))
    n = len(ref)
    if what == "int":
        i = E.int("i", -n - 1, n, py=True)
        check(E, "a[i]", lambda: a[i], lambda: pick(E, ref, i), errors=IndexError)
    elif what == "slice":
        s = optslice(E, "s", -n - (layout == "counts"), n + (layout == "counts"), steps=(None, -1))
        check(E, "a[s]", lambda: a[s], lambda: refslice(ref, s))
    elif what == "fancy":
        ix = E.array("ix", 2, "int64", -n - 1, n)
        check(E, "a[ix]", lambda: a[ix], lambda: [pick(E, ref, i) for i in E.items(ix)], errors=IndexError)
    elif what == "bools":
        b = E.array("b", n, "bool")
        check(E, "a[b]", lambda: a[b], lambda: [ref[i] for i in range(n) if E.sel(b[i])])
    elif what == "list":
        check(E, "a[[]]", lambda: a[[]], lambda: [])
        check(E, "a[()]", lambda: a[()], lambda: ref)
        if n:
            check(E, "a[[..]]", lambda: a[[n - 1, 0]], lambda: [ref[n - 1], ref[0]])
            check(E, "a[[True..]]", lambda: a[[True] + [False] * (n - 1)], lambda: [ref[0]])
            check(E, "a['x']", lambda: a["x"], E.refuse, errors=IndexError)
    else:
        s = optslice(E, "s", -n, n, steps=(None,))
        check(E, "a[::-1][s]", lambda: a[::-1][s], lambda: refslice(ref[::-1], s))
        check(E, "a[s].copy()", lambda: a[s].deepcopy()[::-1], lambda: refslice(ref, s)[::-1])
    check(E, "unchanged", lambda: a, lambda: ref)

def samestring(E, x, y):
    """whether two references are the same string"""
    if len(x[1]) != len(y[1]):
        return False
    return all(E.sel(p == q) for p, q in zip(x[1], y[1]))

PAIRS = [(l, k) for l in ("counts", "any") for k in ("counts", "offsets", "any", "selected")]

@strings(quick=[{"one": l, "two": k} for l, k in PAIRS], thorough=[{"one": l, "two": k, "deep": True} for l, k in PAIRS], bounds="<=2 strings of <=2 free characters (at any position of the buffer: two strings of <=1 in the quick tier) in every layout, compared with as many strings in every layout: equal exactly where the strings are", need=("equal", "different"))
def strings_equal(E, one, two, deep=False):
    n = E.size("n", 0, 2 if (one, two) != ("any", "any") or deep else 1)
    enc = E.choice("enc", ("utf-8", None)) if n < 2 or deep else "utf-8"
    m = 2 if "any" not in (one, two) or n < 2 or deep and (one, two) != ("any", "any") else 1
    a, ar = stringarray(E, "a", n, layout=one, enc=enc, maxlen=m)
    if two == "selected":
        b, br = stringarray(E, "b", n, layout="counts", enc=enc, maxlen=m)
        b, br = b[::-1], br[::-1]
    else:
        b, br = stringarray(E, "b", n, layout=two, enc=enc, maxlen=m)
    want = [samestring(E, x, y) for x, y in zip(ar, br)]
    for w, x in zip(want, ar):
        if len(x[1]) == 2:
            E.reached("equal" if w else "different")
    E.agree("a == b", lambda: a == b, lambda: want)
    E.agree("b == a", lambda: b == a, lambda: want)
    E.agree("a != b", lambda: a != b, lambda: [not w for w in want])
    E.agree("a == a", lambda: a == a, lambda: [True] * n)
    check(E, "a unchanged", lambda: a, lambda: ar)
    check(E, "b unchanged", lambda: b, lambda: br)

@strings(quick=[{"what": w} for w in ("scalar", "list", "object", "other encoding", "numpy", "mixed", "length", "number", "none")], bounds="<=2 strings of <=2 free characters, compared with one string, lists, NumPy arrays, arrays in another encoding, of another length, numbers")
def strings_equal_others(E, what):
    ak, np = E.ak, E.np
    n = E.size("n", 0, 2)
    enc = E.choice("enc", ("utf-8", None)) if what in ("scalar", "list", "length") else "utf-8"
    a, ar = stringarray(E, "a", n, layout=E.choice("layout", ("counts", "offsets")), enc=enc)
    if what == "scalar":
        b, br = text(E, "b", E.size("k", 0, 2), enc)
        want = [samestring(E, x, br) for x in ar]
        E.agree("b == a", lambda: b == a if not E.symbolic else a == b, lambda: want)
    elif what in ("list", "object"):
        ks = E.sizes("k", n, 0, 2)
        ts = [text(E, "t%d" % i, ks[i], enc) for i in range(n)]
        b = [t[0] for t in ts]
        if what == "object":
            x = np.empty(n, dtype=object)
            for i in range(n):
                x[i] = b[i]
            b = x
        want = [samestring(E, x, t[1]) for x, t in zip(ar, ts)]
    elif what == "other encoding":
        ks = E.sizes("k", n, 0, 2)
        ts = [text(E, "t%d" % i, ks[i]) for i in range(n)]
        b = ak.StringArray.fromiter([t[0] for t in ts], encoding=E.choice("other", ("utf-32-le", "utf-16-le", "latin-1")))
        want = [samestring(E, x, t[1]) for x, t in zip(ar, ts)]
        E.agree("b == a", lambda: b == a, lambda: want)
        E.agree("b != a", lambda: b != a, lambda: [not w for w in want])
    elif what == "numpy":
        words = E.choice("words", [["ab", "a"], ["", "b"], [u"\u00e9", "ab"]])[:n]
        b = np.array(words) if words else np.array([], dtype="U1")
        want = [samestring(E, x, T(E, w)) for x, w in zip(ar, words)]
    elif what == "mixed":
        words = E.choice("words", [["ab", "a"], ["", "b"]])[:n]
        b = np.array(words, dtype="S2")
        want = [samestring(E, x, T(E, w)) for x, w in zip(ar, words)]
    elif what == "length":
        m = E.size("m", 0, 3)
        b, br = stringarray(E, "b", m, enc=enc, maxlen=1)
        if n == m:
            return
        E.agree("a == b", lambda: a == b, E.refuse)
        E.agree("a != b", lambda: a != b, E.refuse)
        return
    elif what == "number":
        b = E.choice("b", [1, 2.5])
        want = [False] * n
    else:
        b = None
        want = [False] * n
    E.agree("a == b", lambda: a == b, lambda: want)
    E.agree("a != b", lambda: a != b, lambda: [not w for w in want])
    check(E, "unchanged", lambda: a, lambda: ar)

@strings(quick=[{"layout": l} for l in ("counts", "offsets", "any")], bounds="<=2 strings of <=2 free characters: padding, clipping, concatenating two and three arrays, pairwise joining, functions of the characters")
def strings_operations(E, layout):
    ak, np = E.ak, E.np
    n = E.size("n", 0, 2)
    enc = E.choice("enc", ("utf-8", None, "ascii"))
    a, ar = stringarray(E, "a", n, layout=layout, enc=enc, maxlen=2 if layout != "any" else 1)
    kind = "bytes" if enc is None else "str"
    what = E.choice("what", ["pad", "concatenate", "join", "characters"])
    if what == "pad":
        for length in (0, 1, 3):
            check(E, "pad", lambda: a.pad(length), lambda: [(kind, x + [32] * (length - len(x))) for k, x in ar])
            check(E, "clip", lambda: a.pad(length, clip=True), lambda: [(kind, (x + [32] * length)[:length]) for k, x in ar])
        check(E, "pad with", lambda: a.pad(2, maskedwhen=b"-"), lambda: [(kind, x + [45] * (2 - len(x))) for k, x in ar])
    elif what == "concatenate":
        b, br = stringarray(E, "b", E.size("m", 0, 2), enc=enc, maxlen=1)
        check(E, "concatenate", lambda: a.concatenate([b]), lambda: ar + br)
        check(E, "reversed", lambda: ak.StringArray.concatenate([b, a[::-1], b]), lambda: br + ar[::-1] + br)
        E.same("encoding", a.concatenate([b]).encoding, a.encoding)
    elif what == "join":
        b, br = stringarray(E, "b", n, enc=enc, maxlen=1)
        check(E, "join", lambda: a.concatenate([b], axis=1), lambda: [(kind, x[1] + y[1]) for x, y in zip(ar, br)])
    else:
        check(E, "a + 1", lambda: a + 1, lambda: [(kind, [c + np.uint8(1) for c in x]) for k, x in ar])
        check(E, "a < 100", lambda: a < 100, lambda: [[c < 100 for c in x] for k, x in ar])
        check(E, "zeros_like", lambda: a.zeros_like().counts, lambda: [len(x) for k, x in ar])
        if n and enc != "ascii":
            check(E, "zeros_like", lambda: a.zeros_like(), lambda: [(kind, [0] * len(x)) for k, x in ar])
            check(E, "ones_like", lambda: a.ones_like(), lambda: [(kind, [1] * len(x)) for k, x in ar])
        check(E, "regular", lambda: len(a.regular()), lambda: n)
    check(E, "unchanged", lambda: a, lambda: ar)

@strings(quick=[{"how": h} for h in ("jagged", "table", "masked", "indexedmasked", "indexed", "chunked", "union", "object")], bounds="<=3 strings of one free character inside of another structure: selected and compared through it")
def strings_inside(E, how):
    ak, np = E.ak, E.np
    n = 2
    enc = E.choice("enc", ("utf-8", None))
    s, sr = stringarray(E, "s", 3, enc=enc, maxlen=1)
    if how == "jagged":
        c = E.sizes("c", 2, 0, 1)
        a, ref = ak.JaggedArray([1, 0], [1 + c[0], c[1]], s), [sr[1:1 + c[0]], sr[:c[1]]]
    elif how == "table":
        a, ref = ak.Table(x=s, y=[1, 2, 3]), [{"x": x, "y": y} for x, y in zip(sr, (1, 2, 3))]
    elif how in ("masked", "indexedmasked"):
        m = E.array("m", 3, "bool")
        ref = [None if E.sel(m[i]) else sr[i] for i in range(3)]
        a = ak.MaskedArray(m, s, maskedwhen=True) if how == "masked" else ak.IndexedMaskedArray(np.where(m, -1, np.arange(3)), s)
    elif how == "indexed":
        ix = E.array("ix", 2, "int64", 0, 2)
        a, ref = ak.IndexedArray(ix, s), [pick(E, sr, i) for i in E.items(ix)]
    elif how == "chunked":
        a, ref = ak.ChunkedArray([s[:1], s[1:]]), sr
    elif how == "union":
        a, ref = ak.UnionArray.fromtags([0, 1, 0], [s[:2], np.array([5])]), [sr[0], 5, sr[1]]
    else:
        a, ref = ak.ChunkedArray([s, s[::-1]], [3, 3]), sr + sr[::-1]
    check(E, "a", lambda: a, lambda: ref)
    check(E, "a[::-1]", lambda: a[::-1], lambda: ref[::-1])
    check(E, "a[1]", lambda: a[1], lambda: ref[1])
    check(E, "a[[1, 0, 1]]", lambda: a[[1, 0, 1]], lambda: [ref[1], ref[0], ref[1]])
    if how == "table":
        b, get = a["x"][::-1], sr[::-1]
        E.agree("x == s", lambda: b == s, lambda: [samestring(E, p, q) for p, q in zip(get, sr)])
    elif how in ("indexed", "chunked", "object", "jagged"):
        t, tr = text(E, "t", 1, enc)
        f = lambda x: samestring(E, x, tr)
        E.agree("a == t", lambda: a == t, lambda: [[f(y) for y in x] if how == "jagged" else f(x) for x in ref])
        E.agree("a != t", lambda: a != t, lambda: [[not f(y) for y in x] if how == "jagged" else not f(x) for x in ref])
        E.agree("a == a", lambda: a == a, lambda: [[True] * len(x) if how == "jagged" else True for x in ref])
    check(E, "unchanged", lambda: a, lambda: ref)

class Fixed(object):
    """stands for a NumPy array of fixed-width strings with symbolic contents"""
    def __init__(self, data, dtype):
        self._data = data
        self.dtype = self._d = dtype
        self.itemsize = dtype.itemsize
        self.shape = (len(data) // dtype.itemsize,)
        self.size = self.shape[0]
        self.ndim = 1
        self.nbytes = len(data)
        self.flags = data.flags
    def __len__(self):
        return self.shape[0]
    def view(self, dtype):
        return self._data.view(dtype)

@strings(quick=[{"kind": "S", "w": w} for w in (1, 2, 3)] + [{"kind": "U", "w": w} for w in (1, 2)], bounds="<=2 fixed-width byte or Unicode strings of width <=3 (2), any characters (zero bytes inside too, at the end they are padding)")
def strings_fromnumpy(E, kind, w):
    ak, np = E.ak, E.np
    n = E.size("n", 0, 2)
    c = E.array("c", n * w, "uint8", 0, 126)
    it = E.items(c)
    if kind == "U":
        data = np.stack([c, np.zeros(n * w, dtype="uint8"), np.zeros(n * w, dtype="uint8"), np.zeros(n * w, dtype="uint8")]).T.reshape(-1)
    else:
        data = c
    import numpy
    dt = numpy.dtype("%s%d" % (kind, w))
    x = Fixed(data, dt) if E.symbolic else numpy.frombuffer(data.tobytes(), dtype=dt)
    ref = []
    for i in range(n):
        row = it[i * w:(i + 1) * w]
        while row and E.sel(row[-1] == 0):
            row = row[:-1]
        ref.append(("bytes" if kind == "S" else "str", row))
    a = E.attempt(lambda: ak.StringArray.fromnumpy(x))
    check(E, "fromnumpy", lambda: a.value, lambda: ref)
    check(E, "reversed", lambda: a.value[::-1], lambda: ref[::-1])

WIDE = [u"", u"a", u"\u0100", u"a\u0100", u"\u0100a", u"\U00010000", u"\u0000a", u"\U0001d11e\u3000"]

@strings(quick=[{"n": 2}], thorough=[{"n": 3}], bounds="Numpy arrays of 2 (3) out of 8 texts with characters of one to four bytes, ending in characters whose lower bytes are zero: any texts at any position, under a stride or reversed")
def strings_fromnumpy_wide(E, n):
    x = [WIDE[E.size("x%d" % i, 0, len(WIDE) - 1)] for i in range(n)]
    import numpy
    a = E.attempt(lambda: E.ak.StringArray.fromnumpy(E.np.array(x)))
    E.agree("items", lambda: a.value, lambda: x)
    E.agree("reversed", lambda: a.value[::-1], lambda: x[::-1])
    E.agree("a == x", lambda: a.value == E.ak.StringArray.fromiter(x), lambda: [True] * n)
    y = [s.encode("utf-8").rstrip(b"\x00") for s in x]
    b = E.attempt(lambda: E.ak.StringArray.fromnumpy(E.np.array(y)))
    E.agree("bytes", lambda: b.value, lambda: y)
    E.agree("strided", lambda: E.ak.StringArray.fromnumpy(E.np.array(x + x)[::2]), lambda: (x + x)[::2])

WORDS = ["", "a", "ab", u"\u00e9", u"\U0001d11e", u"e\u0301", u"\u65e5\u672c", u"a\u0000b"]

MULTIBYTE = ("utf-8", "utf-16-le", "utf-32-le", "utf-16", "cp1252")

@strings(quick=[{"enc": e} for e in MULTIBYTE], thorough=[{"enc": e, "words": 8} for e in MULTIBYTE], bounds="two lists of <=2 out of 5 (thorough: 8; 4 for cp1252) words with characters of one to four bytes, in 5 encodings: any words at any position")
def strings_multibyte(E, enc, words=5):
    words = WORDS[:words] if enc != "cp1252" else WORDS[:4]
    def some(name):
        return [words[E.size("%s%d" % (name, i), 0, len(words) - 1)] for i in range(2)]
    x, y = some("x"), some("y")
    a, b = E.ak.StringArray.fromiter(x, encoding=enc), E.ak.StringArray.fromiter(y, encoding=enc)
    E.same("items", a, x)
    E.same("reversed", a[::-1], x[::-1])
    E.same("a == b", a == b, [p == q for p, q in zip(x, y)])
    E.same("a != b", a != b, [p != q for p, q in zip(x, y)])
    E.same("a == y", a == y, [p == q for p, q in zip(x, y)])
    E.same("a == y[0]", a == y[0], [p == y[0] for p in x])
    E.same("concatenate", a.concatenate([b]), x + y)
    E.same("other encoding", a == E.ak.StringArray.fromiter(y, encoding="utf-8"), [p == q for p, q in zip(x, y)])
    E.same("numpy", a == E.np.array([w.strip(u"\u0000") for w in y]), [p == q for p, q in zip(x, y)])
