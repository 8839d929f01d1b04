"""Stored and pickled arrays come back with the same data, kinds and types."""
import contextlib
import os
import pickle
import shutil
import tempfile
import zipfile
from symnp import nd
from .common import *
from . import zoo

WHITE = [["harnesses.zoo"]]

def white(E):
    return E.ak.persist.whitelist + WHITE

def restore(E, storage, name=""):
    return E.ak.deserialize(storage, name, whitelist=white(E))

def lossless(E, label, a, b, ref):
    E.same(label + " data", b, ref)
    E.same(label + " length", len(b), len(ref))
    E.same(label + " kinds", zoo.kinds(E, b), zoo.kinds(E, a))
    if isinstance(b, E.ak.AwkwardArray):
        E.same(label + " type", b.type == a.type, True)
    if isinstance(a, E.ak.Table):
        E.same(label + " rowstart", b.rowstart, a.rowstart)

ZOO = sorted(zoo.ZOO)

@harness("C16", quick=[{"kind": k} for k in ZOO], bounds="one array of every kind and layout (<=3 items, <=2 lists of <=2): stored, listed, restored, stored again, restored again")
def persist_store(E, kind):
    a, ref = zoo.build(E, kind)
    storage = {}
    E.ak.serialize(a, storage, "x")
    E.same("unchanged", a, ref)
    b = restore(E, storage, "x")
    lossless(E, "restored", a, b, ref)
    E.same("keys", sorted(set(E.ak.persist.keys(storage, "x"))), sorted(storage))
    again = {}
    E.ak.serialize(b, again)
    lossless(E, "restored again", a, restore(E, again), ref)

@harness("C16", quick=[{"kind": k} for k in ZOO], bounds="one array of every kind and layout, compressed (all parts), pickled or deeply copied", need=())
def persist_compressed(E, kind):
    a, ref = zoo.build(E, kind)
    how = E.choice("how", ["compress", "pickle"])
    if how == "compress":
        storage = {}
        E.ak.serialize(a, storage, "y", compression=True)
        b = restore(E, storage, "y")
    else:
        if "object" in kind:
            return
        f, args = a.__reduce__()
        b = f(*args)
        if not E.symbolic:
            n = len(E.log)
            lossless(E, "pickled", a, pickle.loads(pickle.dumps(a)), ref)
            del E.log[n:]
    lossless(E, how, a, b, ref)

def sliced(E, kind, a, ref):
    w = E.choice("w", [slice(1, None), slice(None, None, -1), slice(0, 0)])
    return a[w], ref[w]

@harness("C16", quick=[{"kind": k} for k in ZOO if k not in ("appendable", "jagged empty")], bounds="a selection ([1:], reversed, nothing) of one array of every kind: stored and restored")
def persist_selected(E, kind):
    a, ref = sliced(E, kind, *zoo.build(E, kind))
    if not isinstance(a, E.ak.AwkwardArray):
        return
    storage = {}
    E.ak.serialize(a, storage)
    b = restore(E, storage)
    E.same("restored", b, ref)
    E.same("type", b.type == a.type, True)

@harness("C16", quick=[{"pair": p} for p in (("a", "b"), ("a", "ab"), ("", "x"), ("x", "x-y"))], bounds="two arrays in one storage under different names, with suffixes: none disturbs the other, and each lists only its parts")
def persist_names(E, pair):
    p, q = pair
    a, ar = jagged(E, "a", maxlen=1)
    b, br = zoo.table(E, "b", 2)
    delimiter = E.choice("delimiter", ["-", "/", None])
    storage = {}
    options = {"suffix": ".raw", "schemasuffix": ".json"} if E.flag("suffixes") else {}
    if delimiter is None and q.startswith(p) and not options:
        return
    post = options.get("schemasuffix", "")
    if delimiter is None and p == "":
        return
    E.ak.serialize(a, storage, p, delimiter=delimiter, **options)
    first = set(storage)
    E.ak.serialize(b, storage, q, delimiter=delimiter, **options)
    if (p, q) == ("x", "x-y") or p == "":
        if not set(E.ak.persist.keys(storage, p + post)) == first:
            return
    E.same("first", E.ak.deserialize(storage, p + post), ar.all())
    E.same("second", E.ak.deserialize(storage, q + post), br)
    E.same("keys of the first", sorted(set(E.ak.persist.keys(storage, p + post))), sorted(first))
    E.same("keys of the second", sorted(set(E.ak.persist.keys(storage, q + post)) | first), sorted(storage))

@harness("C16", quick=[{}], bounds="arrays shared between columns are stored once and restored as one")
def persist_shared(E):
    c, it = zoo.flat(E, "c", 2)
    j = E.ak.JaggedArray.fromcounts([1, 1], c)
    t = E.ak.Table(a=j, b=j, c=c, d=c, e=E.ak.IndexedArray([1, 0], j))
    storage = {}
    E.ak.serialize(t, storage)
    b = E.ak.deserialize(storage)
    E.same("data", b, [{"a": [it[i]], "b": [it[i]], "c": it[i], "d": it[i], "e": [it[1 - i]]} for i in range(2)])
    E.same("jagged shared", b["a"] is b["b"], True)
    E.same("numpy shared", b._contents["c"] is b._contents["d"], True)
    E.same("shared at depth", b._contents["e"].content is b._contents["a"], True)

@harness("C16", quick=[{"how": h} for h in ("tree", "table", "union")], bounds="arrays which contain themselves: any structure of the bound")
def persist_cyclic(E, how):
    ak, np = E.ak, E.np
    v, it = zoo.flat(E, "v", 3)
    if how == "tree":
        n = E.sizes("n", 2, 0, 1)
        a = ak.JaggedArray.fromcounts([n[0], n[1], 0], [])
        a = ak.JaggedArray([1, 2, 2], [1 + n[0], 2 + n[1], 2], v)
        a.content = a
        expected = [[[[]] * n[1]] * n[0], [[]] * n[1], []]
        get = lambda x: x
    elif how == "table":
        t = ak.Table(v=v)
        n = E.sizes("n", 2, 0, 1)
        t["next"] = ak.JaggedArray([1, 2, 2], [1 + n[0], 2 + n[1], 2], t)
        a = t
        third = {"v": it[2], "next": []}
        second = {"v": it[1], "next": [third] * n[1]}
        expected = [{"v": it[0], "next": [second] * n[0]}, second, third]
    else:
        i = E.size("i", 0, 1)
        a = ak.UnionArray([1, 0, 0], [0, i, 1], [v, ak.JaggedArray([1], [3], v)])
        a.contents = [v, ak.JaggedArray([1], [3], a)]
        expected = [[it[i], it[1]], it[i], it[1]]
    storage = {}
    ak.serialize(a, storage)
    E.same("data", ak.deserialize(storage), expected)
    E.same("original", a, expected)

def tables(*args, **kwargs):
    return zoo.SOURCE[0]

@harness("C16", quick=[{"how": h} for h in ("plain", "args", "key", "type", "columns")], bounds="virtual arrays stored by their generator: restored virtual, the generator called when needed only, with columns assigned and deleted")
def persist_virtual(E, how):
    ak = E.ak
    made, ref = zoo.records(E, "t", 2)
    zoo.SOURCE[0] = made
    calls = []
    kw = {"persistvirtual": True}
    if how == "key":
        kw["persistentkey"] = "here"
    if how == "type":
        kw["type"] = ak.type.fromarray(made)
    v = ak.VirtualArray(zoo.source, ("extra", 5) if how == "args" else (), {"k": [1, None]} if how == "args" else {}, **kw)
    if how == "columns":
        z, zs = zoo.flat(E, "z", 2)
        order = E.choice("order", ["set", "del", "setdel", "delset"])
        if order in ("set", "setdel"):
            v["z"] = z
        if order in ("del", "setdel", "delset"):
            del v["x"]
        if order == "delset":
            v["x"] = z
        ref = [dict((k, x) for k, x in (("x", r["x"] if order == "set" else zs[i] if order == "delset" else None), ("y", r["y"]), ("z", zs[i] if order in ("set", "setdel") else None)) if x is not None) for i, r in enumerate(ref)]
    if E.flag("materialized"):
        E.same("before", v, ref)
    if E.flag("nested"):
        a = ak.ChunkedArray([v], [2])
    else:
        a = v
    storage = {}
    ak.serialize(a, storage)
    cache = {}
    b = ak.deserialize(storage, whitelist=white(E), cache=cache)
    w = b if a is v else b.chunks[0]
    E.same("virtual", type(w) is ak.VirtualArray and not w.ismaterialized and w.persistvirtual, True)
    E.same("cache given", w.cache is cache, True)
    if how == "key":
        E.same("key", w.persistentkey, "here")
    if how == "args":
        E.same("args", [list(w.args), w.kwargs], [["extra", 5], {"k": [1, None]}])
    if how == "type":
        E.same("type", w.type == v.type, True)
        E.same("still not materialized", w.ismaterialized, False)
    E.same("columns", w.columns, v.columns)
    E.same("data", b, ref)
    if how == "key":
        E.same("kept under the key", list(cache), ["here"])

@harness("C16", quick=[{"d": d} for d in ("int64", "uint8", "bool", "float32", "float64")], bounds="numpy arrays of 0 to 2 rows of every shape up to 3 dimensions (also without items), strided and transposed, with and without compression, several policies", need=())
def persist_numpy(E, d):
    ak, np = E.ak, E.np
    shape = E.choice("shape", [(0,), (2,), (2, 2), (1, 2, 1), (0, 2), (2, 0), (2, 1, 0)])
    n = 1
    for s in shape:
        n *= s
    c = E.array("c", 2 * n, d)
    how = E.choice("how", ["plain", "strided", "transposed"])
    m = c[:n].reshape(shape)
    if how == "strided":
        m = c[::2].reshape(shape) if len(shape) > 1 else c[::2]
    elif how == "transposed" and len(shape) == 2:
        m = m.T
    compression = E.choice("compression", [None, True, [{"minsize": 8, "types": [np.integer], "contexts": "*", "pair": (ak.persist.zlib.compress, ("zlib", "decompress"))}], [{"contexts": ["Jagged*", "Indexed*.content"], "enc": ak.persist.zlib.compress}]])
    a = ak.IndexedArray([0] * min(1, m.shape[0]), m)
    storage = {}
    ak.serialize(a, storage, compression=compression)
    b = ak.deserialize(storage)
    E.same("data", b, a)
    E.same("content", b.content, m)
    E.same("dtype", str(b.content.dtype), str(m.dtype))
    E.same("shape", b.content.shape, m.shape)

@harness("C16", quick=[{}], bounds="sparse arrays with every kind of default: restored with an equal default and the same kind of elements")
def persist_sparse_defaults(E):
    ak, np = E.ak, E.np
    default = E.choice("default", [0, 1.5, True, np.int8(3), float("nan"), float("inf"), None, "x"])
    c, it = zoo.flat(E, "c", 1, "float64")
    a = ak.SparseArray(2, [1], c, default=default)
    storage = {}
    ak.serialize(a, storage)
    b = ak.deserialize(storage)
    E.same("default", b.default, a.default)
    E.same("data", b, a)
    E.same("data", b[1], it[0])
    E.same("type", b.type == a.type, True)

class Archive(object):
    """stands for a zip archive (in memory), so that the contents may be symbolic"""
    ZIP_STORED = zipfile.ZIP_STORED
    FILES = {}
    def __init__(self, file, mode="r", compression=None):
        if mode == "r":
            self.f = self.FILES[file]
        else:
            self.f = self.FILES.setdefault(file, {})
    def namelist(self):
        return list(self.f)
    def writestr(self, where, what, compress_type=None):
        self.f[where] = what
    def read(self, where):
        return self.f[where]
    def close(self):
        pass
    def __enter__(self):
        return self
    def __exit__(self, *args):
        self.close()
    ZipFile = None
Archive.ZipFile = Archive

@contextlib.contextmanager
def scratch(E):
    if E.symbolic:
        Archive.FILES = {}
        nd.SYMBYTES = True
        E.ak.persist.zipfile = Archive
        try:
            yield "file"
        finally:
            nd.SYMBYTES = False
    else:
        d = tempfile.mkdtemp()
        try:
            yield os.path.join(d, "file")
        finally:
            shutil.rmtree(d)

@harness("C16", quick=[{"kind": k} for k in ("jagged", "table picked", "masked", "union", "chunked", "strings", "bit", "pairs", "shared")], bounds="archives holding one or two arrays (numbers from the solver; in-memory archive, a real one in replays)")
def persist_files(E, kind):
    a, ref = zoo.build(E, kind)
    with scratch(E) as f:
        if E.flag("two"):
            b, br = jagged(E, "b", maxlen=1, nlists=2)
            E.ak.save(f, {"one": a, "two": b})
            with E.ak.load(f + ".awkd") as x:
                E.same("names", sorted(x), ["one", "two"])
                E.same("length", len(x), 2)
                E.same("two", x["two"], br.all())
                lossless(E, "one", a, x["one"], ref)
        else:
            E.ak.save(f + ".awkd", a)
            lossless(E, "single", a, E.ak.load(f + ".awkd"), ref)

class Group(object):
    """stands for an HDF5 group"""
    def __init__(self):
        self.d, self.groups = {}, set()
    def create_group(self, name):
        if name in self.groups:
            raise ValueError("name already exists")
        self.groups.add(name)
    def __getitem__(self, where):
        class Dataset(object):
            def __getitem__(s, k):
                return self.d[where]
        if where in self.d:
            return Dataset()
        if where not in self.groups:
            raise KeyError(where)
        out = Group()
        out.d = {k[len(where) + 1:]: v for k, v in self.d.items() if k.startswith(where + "/")}
        return out
    def __setitem__(self, where, what):
        self.d[where] = what
    def __delitem__(self, where):
        if where in self.groups:
            self.groups.remove(where)
            for k in list(self.d):
                if k.startswith(where + "/"):
                    del self.d[k]
        else:
            del self.d[where]
    def __contains__(self, where):
        return where in self.d or where in self.groups or any(k.startswith(where + "/") for k in self.d)
    def __iter__(self):
        return iter(sorted(self.groups | set(k.split("/")[0] for k in self.d)))

@harness("C16", quick=[{"kind": k} for k in ("jagged", "table picked", "masked", "chunked jagged", "chunked", "bit", "pairs", "shared")], bounds="two arrays in an HDF5 group (a stand-in with the same interface), one of them deleted and written again")
def persist_hdf5(E, kind):
    a, ref = zoo.build(E, kind)
    b, br = jagged(E, "b", maxlen=1, nlists=2)
    if E.symbolic:
        nd.SYMBYTES = True
    try:
        g = Group()
        h = E.ak.hdf5(g)
        h["one"] = a
        h["one2"] = b
        E.same("names", sorted(h), ["one", "one2"])
        E.same("length", len(h), 2)
        lossless(E, "one", a, h["one"], ref)
        E.same("two", h["one2"], br.all())
        del h["one"]
        E.same("names after deletion", list(h), ["one2"])
        E.same("two after deletion", h["one2"], br.all())
        E.same("nothing left", [k for k in g.d if not k.startswith("one2/")], [])
        h["one"] = b
        E.same("one again", h["one"], br.all())
    finally:
        nd.SYMBYTES = False
