"""Replacing the parts of an array, at any time, is the same as having built it from the new parts."""
from .common import *
from .h_strings import strings, T

def observe(E, label, a, fresh, looks):
    """what the array says is what a new array of the same parts says (also: that it is not valid)"""
    new = fresh()
    if getattr(new, "valid", lambda: True)() is False:
        E.agree(label + ": not valid", lambda: a.valid(), lambda: False)
        def want():
            try:
                return new.tolist()
            except Exception:
                raise Fail("not valid")
        E.agree(label + ": refused", lambda: a.tolist(), want)
        return
    for name, look in looks:
        def want(look=look):
            try:
                return T(E, look(fresh()))
            except Fail:
                raise
            except Exception as e:
                raise Fail("refused: " + str(e))
        E.agree("%s: %s" % (label, name), lambda: T(E, look(a)), want)

def history(E, a, parts, build, setters, looks, steps=2, first=None):
    """set `steps` parts, looking at derived quantities before and in between or not"""
    if E.flag("looked"):
        for name, look in looks:
            try:
                look(a)
            except Exception:
                pass
    seen = []
    for s in range(steps):
        names = [x for x in sorted(setters)]
        if s == 0 and first is not None:
            names = [first]
        name = E.choice("set%d" % s, names)
        value, change = setters[name]("v%d" % s)
        change(parts)
        seen.append(name)
        E.agree("set %s" % seen, lambda: setattr(a, name, value), lambda: None)
        if s + 1 < steps and E.flag("looked%d" % s):
            for n, look in looks:
                try:
                    look(a)
                except Exception:
                    pass
    observe(E, " ".join(seen), a, lambda: build(parts), looks)

def put(key):
    return lambda value: (lambda parts: parts.__setitem__(key, value))

LISTS = [("lists", lambda a: a[:]), ("len", len), ("counts", lambda a: a.counts), ("offsets", lambda a: a.offsets), ("parents", lambda a: a.parents), ("localindex", lambda a: a.localindex.tolist()), ("flatten", lambda a: a.flatten()), ("compact", lambda a: a.compact()), ("starts", lambda a: a.starts), ("stops", lambda a: a.stops), ("sum", lambda a: a.sum()), ("+", lambda a: a + 1), ("reversed", lambda a: a[::-1]), ("valid", lambda a: a.valid())]

@harness("C23", quick=[{"first": f} for f in ("starts", "stops", "content", "offsets", "counts", "parents")], bounds="2 lists of up to 2 of 3 numbers: any two of starts, stops, content, offsets, counts and parents (of contiguous groups) are replaced, everything derived is looked at before, in between or only afterwards", need=())
def set_jagged(E, first):
    ak, np = E.ak, E.np
    c = E.array("c", 3)
    starts, stops = np.array([0, 1]), np.array([1, 3])
    a = ak.JaggedArray(starts, stops, c)
    parts = {"starts": starts, "stops": stops, "content": c}
    def new(name, key, values):
        v = np.array(E.choice(name, values))
        return v, lambda parts: parts.__setitem__(key, v)
    def offsets(name):
        v = np.array(E.choice(name, [[0, 2, 3], [1, 1, 2], [0, 3], [0, 1, 2, 4]]))
        return v, lambda parts: parts.update(starts=v[:-1], stops=v[1:])
    def counts(name):
        v = E.choice(name, [[2, 1], [0, 2], [1, 0, 2], [2, 2]])
        o = [sum(v[:i]) for i in range(len(v) + 1)]
        return np.array(v), lambda parts: parts.update(starts=np.array(o[:-1]), stops=np.array(o[1:]))
    def parents(name):
        v, (b, e) = E.choice(name, [([0, 0, 1], ([0, 2], [2, 3])), ([1, 1, 0], ([2, 0], [3, 2])), ([-1, 1, 1], ([0, 1], [0, 3])), ([2, -1, 0], ([2, 0, 0], [3, 0, 1])), ([0, 1], ([0, 1], [1, 2])), ([0, 0, 1, 1], ([0, 2], [2, 4]))])
        return np.array(v), lambda parts: parts.update(starts=np.array(b), stops=np.array(e))
    def content(name):
        v = E.array(name, E.choice(name + ".n", [2, 4]))
        return v, lambda parts: parts.__setitem__("content", v)
    history(E, a, parts, lambda p: ak.JaggedArray(p["starts"], p["stops"], p["content"]), {
        "starts": lambda name: new(name, "starts", [[1, 0], [0], [2, 3], [0, 0]]),
        "stops": lambda name: new(name, "stops", [[3, 3], [2, 1], [1, 2, 3], [0, 1]]),
        "content": content, "offsets": offsets, "counts": counts, "parents": parents}, LISTS, first=first)

@strings("C23", quick=[{}], bounds="2 strings of up to 2 of 3 bytes: any two of starts, stops, content and encoding are replaced")
def set_strings(E):
    ak, np = E.ak, E.np
    c = E.array("c", 3, "uint8", 65, 70)
    starts, stops = np.array([0, 1]), np.array([1, 3])
    a = ak.StringArray(starts, stops, c, encoding="utf-8")
    parts = {"starts": starts, "stops": stops, "content": c, "encoding": "utf-8"}
    def new(name, key, values):
        v = np.array(E.choice(name, values))
        return v, lambda parts: parts.__setitem__(key, v)
    def content(name):
        v = E.array(name, E.choice(name + ".n", [2, 4]), "uint8", 65, 70)
        return v, lambda parts: parts.__setitem__("content", v)
    def encoding(name):
        v = E.choice(name, ["ascii", None, "utf-8"])
        return v, lambda parts: parts.__setitem__("encoding", v)
    history(E, a, parts, lambda p: ak.StringArray(p["starts"], p["stops"], p["content"], encoding=p["encoding"]), {
        "starts": lambda name: new(name, "starts", [[1, 0], [0], [0, 0]]),
        "stops": lambda name: new(name, "stops", [[3, 3], [2, 1], [0, 1]]),
        "content": content, "encoding": encoding}, [("strings", lambda a: a[:]), ("len", len), ("counts", lambda a: a.counts), ("encoding", lambda a: a.encoding), ("valid", lambda a: a.valid()), ("first", lambda a: a[0]), ("reversed", lambda a: a[::-1]), ("iter", lambda a: list(a)), ("==", lambda a: a == a)])

@harness("C23", quick=[{"k": k} for k in ("indexed", "sparse")], bounds="3 positions of 2 to 3 numbers (or records): any two parts are replaced")
def set_indexed(E, k):
    ak, np = E.ak, E.np
    def content(name):
        n = E.choice(name + ".n", [2, 3])
        v = E.array(name, n)
        return v, lambda parts: parts.__setitem__("content", v)
    if k == "indexed":
        def index(name):
            v = E.array(name, E.choice(name + ".n", [1, 2]), "int64", 0, 2)
            return v, lambda parts: parts.__setitem__("index", v)
        c = E.array("c", 3)
        i = np.array([2, 0, 1])
        history(E, ak.IndexedArray(i, c), {"index": i, "content": c}, lambda p: ak.IndexedArray(p["index"], p["content"]), {"index": index, "content": content},
                [("list", lambda a: a[:]), ("len", len), ("iter", lambda a: list(a)), ("last", lambda a: a[-1]), ("+", lambda a: a + 1), ("reversed", lambda a: a[::-1]), ("valid", lambda a: a.valid()), ("sum", lambda a: a.sum())])
        return
    def index(name):
        v = np.array(E.choice(name, [[0, 1], [1, 2], [3], [0, 2, 3]]))
        return v, lambda parts: parts.__setitem__("index", v)
    def length(name):
        v = E.choice(name, [2, 3, 4])
        return v, lambda parts: parts.__setitem__("length", v)
    def default(name):
        v = E.int(name, -5, 5)
        return v, lambda parts: parts.__setitem__("default", v)
    c, i = E.array("c", 2), np.array([0, 2])
    history(E, ak.SparseArray(3, i, c), {"length": 3, "index": i, "content": c, "default": None}, lambda p: ak.SparseArray(p["length"], p["index"], p["content"], p["default"]),
            {"index": index, "content": content, "length": length, "default": default},
            [("list", lambda a: a.dense), ("len", len), ("items", lambda a: [a[j] for j in range(len(a))]), ("mask", lambda a: a.boolmask()), ("+", lambda a: a + 1), ("reversed", lambda a: a[::-1]), ("valid", lambda a: a.valid())])

MASKED = [("list", lambda a: a[:]), ("len", len), ("items", lambda a: [a[j] for j in range(len(a))]), ("mask", lambda a: a.boolmask()), ("unmasked", lambda a: a.isunmasked), ("+", lambda a: a + 1), ("count", lambda a: a.count()), ("sum", lambda a: a.sum()), ("flatten", lambda a: a.flatten()), ("fillna", lambda a: a.fillna(9)), ("reversed", lambda a: a[::-1]), ("valid", lambda a: a.valid())]

@harness("C23", quick=[{"k": k} for k in ("bool", "bit", "index")], bounds="2 to 3 possibly missing numbers: any two of mask, content, what the mask means (and the order of its bits) are replaced")
def set_masked(E, k):
    ak, np = E.ak, E.np
    c = E.array("c", 2 if k == "index" else 3)
    def content(name):
        v = E.array(name, E.choice(name + ".n", [2, 4]))
        return v, lambda parts: parts.__setitem__("content", v)
    def maskedwhen(name):
        v = E.choice(name, [True, False])
        return v, lambda parts: parts.__setitem__("maskedwhen", v)
    if k == "bool":
        m = np.array([False, True, False])
        def mask(name):
            v = E.array(name, E.choice(name + ".n", [2, 3]), "bool")
            return v, lambda parts: parts.__setitem__("mask", v)
        history(E, ak.MaskedArray(m, c), {"mask": m, "content": c, "maskedwhen": True}, lambda p: ak.MaskedArray(p["mask"], p["content"], p["maskedwhen"]), {"mask": mask, "content": content, "maskedwhen": maskedwhen}, MASKED)
    elif k == "bit":
        m = np.array([64], dtype="uint8")
        def mask(name):
            v = np.array(E.choice(name, [[128], [5], [32]]), dtype="uint8")
            return v, lambda parts: parts.__setitem__("mask", v)
        def lsborder(name):
            v = E.choice(name, [True, False])
            return v, lambda parts: parts.__setitem__("lsborder", v)
        history(E, ak.BitMaskedArray(m, c), {"mask": m, "content": c, "maskedwhen": True, "lsborder": False}, lambda p: ak.BitMaskedArray(p["mask"], p["content"], p["maskedwhen"], p["lsborder"]), {"mask": mask, "content": content, "maskedwhen": maskedwhen, "lsborder": lsborder}, [x for x in MASKED if x[0] != "mask"])
    else:
        m = np.array([0, -1, 1])
        def mask(name):
            v = np.array(E.choice(name, [[1, 0], [2, -1, 0], [-1, 3, 1], [-1, -1]]))
            return v, lambda parts: parts.__setitem__("mask", v)
        def maskedwhen(name):
            v = E.choice(name, [-1, 1, 3])
            return v, lambda parts: parts.__setitem__("maskedwhen", v)
        history(E, ak.IndexedMaskedArray(m, c), {"mask": m, "content": c, "maskedwhen": -1}, lambda p: ak.IndexedMaskedArray(p["mask"], p["content"], p["maskedwhen"]), {"mask": mask, "content": content, "maskedwhen": maskedwhen}, MASKED)

@harness("C23", quick=[{}], bounds="2 to 3 items of 1 to 2 contents: any two of tags, index and contents are replaced")
def set_union(E):
    ak, np = E.ak, E.np
    x, y = E.array("x", 2), E.array("y", 2, "float64")
    tags, index = np.array([0, 1, 0], dtype="uint8"), np.array([0, 1, 1])
    def settags(name):
        v = np.array(E.choice(name, [[1, 0], [1, 1, 0], [2, 0, 0], [0, 0, 0, 1]]), dtype="uint8")
        return v, lambda parts: parts.__setitem__("tags", v)
    def setindex(name):
        v = np.array(E.choice(name, [[1, 0, 0], [2, 0, 0], [1, 1]]))
        return v, lambda parts: parts.__setitem__("index", v)
    def setcontents(name):
        z = E.array(name, 3)
        v = E.choice(name + ".k", [[0, 1], [1], [0, 1, 2]])
        v = [[z, z[:2], x][i] for i in v]
        return v, lambda parts: parts.__setitem__("contents", v)
    history(E, ak.UnionArray(tags, index, [x, y]), {"tags": tags, "index": index, "contents": [x, y]}, lambda p: ak.UnionArray(p["tags"], p["index"], p["contents"]), {"tags": settags, "index": setindex, "contents": setcontents},
            [("list", lambda a: a[:]), ("len", len), ("items", lambda a: [a[j] for j in range(len(a))]), ("dtype", lambda a: str(a.dtype)), ("+", lambda a: a + 1), ("reversed", lambda a: a[::-1]), ("valid", lambda a: a.valid())])

@harness("C23", quick=[{}], bounds="1 to 3 chunks of <=3 items: any two of chunks and chunk sizes (right or wrong) are replaced")
def set_chunked(E):
    ak, np = E.ak, E.np
    x = E.array("x", 5)
    known = E.flag("known")
    def chunks(name):
        cut = E.choice(name, [[0, 1, 3], [0, 3], [0, 0, 2, 4], [0, 2, 3]])
        v = [x[i:j] + 1 for i, j in zip(cut[:-1], cut[1:])]
        if E.flag(name + ".float"):
            v = [c.astype("float64") for c in v]
        return v, lambda parts: parts.__setitem__("chunks", v)
    def sizes(name):
        v = E.choice(name, [[], [2], [2, 1], [1, 2], [3], [0, 2, 2]])
        return v, lambda parts: parts.__setitem__("chunksizes", list(v))
    a = ak.ChunkedArray([x[:2], x[2:3]], [2, 1] if known else [])
    # sizes that were asked for stay known, so the parts of the array are what it says they are
    history(E, a, {"chunks": [x[:2], x[2:3]], "chunksizes": [2, 1] if known else []}, lambda p: ak.ChunkedArray(p["chunks"], a.chunksizes), {"chunks": chunks, "chunksizes": sizes},
            [("list", lambda a: a[:]), ("len", len), ("items", lambda a: [a[j] for j in range(len(a))]), ("dtype", lambda a: str(a.dtype)), ("type", lambda a: str(a.type)), ("offsets", lambda a: a.offsets), ("+", lambda a: a + 1), ("reversed", lambda a: a[::-1]), ("valid", lambda a: a.valid())])

class Pair(object):
    def __init__(self, x, *args, **kwargs):
        self.all = (x, args, tuple(sorted(kwargs.items())))
    def _normal_(self):
        return list(self.all)

class Other(Pair):
    def _normal_(self):
        return ["other"] + list(self.all)

@harness("C23", quick=[{"k": k} for k in ("objects", "table", "virtual")], bounds="object arrays: any two of content, generator, arguments and keyword arguments; tables: contents; virtual arrays that are not materialized: generator, arguments, keyword arguments")
def set_others(E, k):
    ak, np = E.ak, E.np
    c = E.array("c", 2)
    def args(name):
        v = E.choice(name, [(), (1,), (1, 2)])
        return v, lambda parts: parts.__setitem__("args", v)
    def kwargs(name):
        v = E.choice(name, [{}, {"p": 1}])
        return v, lambda parts: parts.__setitem__("kwargs", v)
    if k == "objects":
        def content(name):
            v = E.array(name, E.choice(name + ".n", [1, 3]))
            return v, lambda parts: parts.__setitem__("content", v)
        def generator(name):
            v = E.choice(name, [Pair, Other])
            return v, lambda parts: parts.__setitem__("generator", v)
        history(E, ak.ObjectArray(c, Pair, (5,)), {"content": c, "generator": Pair, "args": (5,), "kwargs": {}}, lambda p: ak.ObjectArray(p["content"], p["generator"], p["args"], p["kwargs"]), {"content": content, "generator": generator, "args": args, "kwargs": kwargs},
                [("list", lambda a: [x._normal_() for x in a]), ("len", len), ("last", lambda a: a[-1]._normal_()), ("reversed", lambda a: [x._normal_() for x in a[::-1]])])
    elif k == "table":
        def contents(name):
            n = E.choice(name + ".n", [1, 3])
            v = {}
            for col in E.choice(name + ".columns", [["x"], ["y", "x"], ["z"]]):
                v[col] = E.array(name + "." + col, n)
            return v, lambda parts: parts.__setitem__("contents", v)
        def rowname(name):
            v = E.choice(name, ["Row", "tuple"])
            return v, lambda parts: parts.__setitem__("rowname", v)
        d = E.array("d", 2)
        def build(p):
            t = ak.Table(dict((n, p["contents"][n]) for n in p["contents"]))
            t.rowname = p["rowname"]
            return t
        history(E, ak.Table(x=c, y=d), {"contents": {"x": c, "y": d}, "rowname": "Row"}, build, {"contents": contents, "rowname": rowname},
                [("list", lambda a: a[:]), ("len", len), ("columns", lambda a: a.columns), ("last", lambda a: a[-1]), ("+", lambda a: a + 1), ("reversed", lambda a: a[::-1]), ("rowname", lambda a: a.rowname)])
    else:
        def make(x, p=0):
            return c + x + p
        def other(x, p=0):
            return c - x * p
        def generator(name):
            v = E.choice(name, [make, other])
            return v, lambda parts: parts.__setitem__("generator", v)
        def args(name):
            v = E.choice(name, [(2,), (3,)])
            return v, lambda parts: parts.__setitem__("args", v)
        def kwargs(name):
            v = E.choice(name, [{}, {"p": 4}])
            return v, lambda parts: parts.__setitem__("kwargs", v)
        a = ak.VirtualArray(make, 5)
        parts = {"generator": make, "args": (5,), "kwargs": {}}
        seen = []
        setters = {"generator": generator, "args": args, "kwargs": kwargs}
        for s in range(3):
            name = E.choice("set%d" % s, sorted(setters))
            v, change = setters.pop(name)("v%d" % s)
            change(parts)
            seen.append(name)
            E.agree("set %s" % seen, lambda: setattr(a, name, v), lambda: None)
            E.agree("not materialized", lambda: a.ismaterialized, lambda: False)
        observe(E, " ".join(seen), a, lambda: ak.VirtualArray(parts["generator"], parts["args"], parts["kwargs"]), [("list", lambda a: a[:]), ("len", len), ("+", lambda a: a + 1), ("last", lambda a: a[-1])])
