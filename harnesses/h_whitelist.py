"""Restoring stored data calls no function that the whitelist does not name."""
import contextlib
import fnmatch
import importlib
import json
import pickle
import sys
import types
from symnp import text, scalar as S
from .common import *

class Doc(str):
    """a stored description (what its JSON text decodes to)"""

def doc(schema):
    out = Doc("<stored description>")
    out.obj = {"awkward0": "1", "schema": schema}
    return out

class Record(object):
    """stands for every module and function that a description names: notes what is imported and called"""
    def __init__(self, E, trusted=(), modules=()):
        self.E, self.trusted, self.modules = E, trusted, modules
        self.imported, self.called = [], []

    def module(self, path):
        rec = self
        class Module(types.ModuleType):
            def __getattribute__(self, name):
                return rec.attribute(path + [name])
        return Module("stand-in")

    def attribute(self, path):
        if len(path) - 1 in self.modules:
            return self.module(path)
        rec = self
        class Thing(object):
            def __getattribute__(self, name):
                return rec.attribute(path + [name])
            def __call__(self, *args, **kwargs):
                rec.called.append((path, list(args), kwargs))
                return "result"
        out = Thing()
        NAMES.append((out, path))
        return out

    def import_module(self, name, package=None):
        if not isinstance(name, (text.SymStr, text.Input)) and name in self.trusted:
            return _import_module(name)
        self.imported.append(name)
        return self.module([name])

    def unpickle(self, data, *args, **kwargs):
        self.called.append((["pickle", "loads"], [], {}))
        return "unpickled"

NAMES = []
_import_module, _loads, _json, _match = importlib.import_module, pickle.loads, json.loads, fnmatch.fnmatchcase

@contextlib.contextmanager
def recording(rec):
    """the functions through which anything could be reached are replaced, wherever the package has them"""
    E = rec.E
    repl = [(_import_module, rec.import_module), (_loads, rec.unpickle), (_json, lambda s, *args, **kwargs: s.obj if isinstance(s, Doc) else _json(s, *args, **kwargs))]
    if E.symbolic:
        repl += [(_match, text.fnmatchcase), (fnmatch.fnmatch, text.fnmatchcase)]
    undo = []
    spaces = [importlib, pickle, json, fnmatch] + [m for k, m in list(sys.modules.items()) if k == "awkward0" or k.startswith("awkward0.")]
    for m in spaces:
        for k, v in list(vars(m).items()):
            for old, new in repl:
                if v is old:
                    undo.append((m, k, v))
                    setattr(m, k, new)
    del NAMES[:]
    try:
        yield rec
    finally:
        for m, k, v in undo:
            setattr(m, k, v)

def pathof(x):
    for y, path in NAMES:
        if x is y:
            return path
    return None

def decided(E, cond):
    return E.sel(S.SymScalar(cond, S.BOOL)) if S.issym(cond) else bool(cond)

def matches(E, spec, white):
    return len(spec) >= len(white) and all(decided(E, text.matchterm(n, p)) for n, p in zip(spec, white))

def named(E, spec, whitelist):
    """does the whitelist name this function? (a list of lists of patterns; fewer patterns than names: everything inside)"""
    return len(spec) >= 2 and any(matches(E, spec, w) for w in whitelist)

WHITES = ["default", "default given", "star", "string", "prefix", "specifier", "list", "glob", "exact", "empty"]

def whitelist(E, which):
    """(options for the restoring function, list of lists of patterns)"""
    lit = lambda n: text.literal(E, n)
    if which == "default":
        return {}, E.ak.persist.whitelist
    if which == "default given":
        w = E.ak.persist.whitelist + [["my.module", "make*"]]
        return {"whitelist": w}, w
    if which == "star":
        return {"whitelist": "*"}, [["*"]]
    if which == "string":
        l = lit("L")
        return {"whitelist": l}, [[l]]
    if which == "prefix":
        l = text.prefix(lit("L"))
        return {"whitelist": l}, [[l]]
    if which == "specifier":
        w = [lit("L"), text.prefix(lit("M"))]
        return {"whitelist": w}, [w]
    if which == "list":
        w = [["awkward0", "*Array", "from*"], [lit("L"), lit("M")]]
    if which == "glob":
        w = [["a?c*", "[fg]*", "[!_]*[a-y0]"], ["[", "*x*"], [text.prefix(lit("L"))]]
    if which == "exact":
        w = [[lit("L"), lit("M"), lit("N")], [lit("O")]]
    if which == "empty":
        w = []
    return {"whitelist": w}, w

def names(E, n):
    return [E.string("name%d" % i) for i in range(n)]

def target(E, spec):
    """the function that a description names: historical module names stand for the present ones"""
    first = spec[0]
    if first == "awkward":
        first = "awkward0"
    elif first.startswith("uproot_methods"):
        first = "uproot3_methods" + first[len("uproot_methods"):]
    return [first] + list(spec[1:])

def outcome(E, rec, allowed, spec, fn, called=True, args=None, kwargs=None):
    """fn() restores the stored data: the named function is reached if it is allowed, nothing at all otherwise"""
    with recording(rec):
        want = target(E, spec) if allowed else None
        got = E.attempt(fn)
        E.same("allowed", got.ok, allowed)
        E.same("imported", rec.imported, want[:1] if allowed else [])
        if allowed and called:
            E.same("called", [p for p, a, k in rec.called], [want])
            if args is not None:
                E.same("arguments", (rec.called[0][1], rec.called[0][2]), (args, kwargs))
        else:
            E.same("called", [p for p, a, k in rec.called], [])
        if allowed and not called:
            E.same("function", pathof(got.value), want)
        E.reached("allowed" if allowed else "refused")
    return got

@harness("C21", quick=[{"which": w, "n": n, "way": "call"} for w in WHITES for n in (0, 1, 2, 3, 4)] + [{"which": w, "n": n, "way": y} for w in ("default", "specifier") for n in (1, 2, 3) for y in ("function", "spec2function")] + [{"which": w, "n": 2, "way": "spec2function"} for w in ("string", "prefix", "star")],
         bounds="any description of 0-4 names (arbitrary strings), called or restored as a function, under the default whitelist, promoted strings and specifiers, entries of arbitrary strings, prefixes and glob patterns")
def whitelist_names(E, which, n, way):
    options, white = whitelist(E, which)
    spec = names(E, n)
    rec = Record(E)
    allowed = named(E, spec, white)
    if way == "call":
        if n == 0:
            # not a call at all
            with recording(rec):
                got = E.attempt(lambda: E.ak.deserialize({"": doc({"call": []})}, **options))
                E.same("refused", (got.ok, rec.imported, rec.called), (False, [], []))
            return
        d = doc({"call": spec, "args": [{"json": 1}, {"list": [{"json": "a"}]}], "kwargs": {"k": {"dict": {"x": {"json": 2}}}}})
        outcome(E, rec, allowed, spec, lambda: E.ak.deserialize({"": d}, **options), args=[1, ["a"]], kwargs={"k": {"x": 2}})
    elif way == "function":
        d = doc({"function": spec})
        outcome(E, rec, allowed, spec, lambda: E.ak.deserialize({"": d}, **options), called=False)
    else:
        outcome(E, rec, allowed, spec, lambda: E.ak.persist.spec2function(spec, **options), called=False)

@harness("C21", quick=[{"n": n, "bits": b} for n in (2, 3, 4) for b in range(1 << (n - 1))], bounds="descriptions of 2-4 names under whitelist '*', where any of the named attributes may be modules: only a function of the module itself (or of its numpy) is reached")
def whitelist_modules(E, n, bits):
    spec = names(E, n)
    modules = [i + 1 for i in range(n - 1) if bits & (1 << i)]
    rec = Record(E, modules=modules)
    through = any(not (i == 1 and spec[1] == "numpy") for i in modules)
    if not through and modules and modules[-1] == n - 1:
        return
    d = doc({"call": spec})
    with recording(rec):
        want = target(E, spec)
        got = E.attempt(lambda: E.ak.deserialize({"": d}, whitelist="*"))
        E.same("allowed", got.ok, not through)
        E.same("called", [p for p, a, k in rec.called], [] if through else [want])

def nest(how, x):
    if how == "args":
        return {"call": ["mod", "fn"], "args": [{"json": 0}, x]}
    if how == "kwargs":
        return {"call": ["mod", "fn"], "kwargs": {"k": x}}
    if how == "list":
        return {"list": [{"json": 0}, x]}
    if how == "tuple":
        return {"tuple": [x, {"json": 0}]}
    if how == "dict":
        return {"dict": {"k": x}}
    if how == "pairs":
        return {"pairs": [["k", x]]}
    if how == "deep":
        return {"list": [{"dict": {"k": {"call": ["mod", "fn"], "args": [{"tuple": [{"pairs": [["k", x]]}]}]}}}]}

@harness("C21", quick=[{"how": h} for h in ("args", "kwargs", "list", "tuple", "dict", "pairs", "deep")], bounds="a description of 2 names anywhere inside another description: under a whitelist with the outer function and one of arbitrary names")
def whitelist_nested(E, how):
    lit = [text.literal(E, "L"), text.literal(E, "M")]
    white = [["mod", "fn"], lit]
    spec = names(E, 2)
    allowed = named(E, spec, white)
    rec = Record(E)
    d = doc(nest(how, {"call": spec}))
    with recording(rec):
        want = target(E, spec)
        got = E.attempt(lambda: E.ak.deserialize({"": d}, whitelist=white))
        E.same("allowed", got.ok, allowed)
        outer = [["mod", "fn"]] if how in ("args", "kwargs", "deep") else []
        E.same("called", [p for p, a, k in rec.called], [want] + outer if allowed else [])

@harness("C21", quick=[{"how": h, "which": w} for h in ("plain", "whitelistable", "kwargs", "both", "args", "nested", "direct") for w in ("default", "list")],
         bounds="functions named inside stored types (2 names), also where the stored data come with a whitelist of their own")
def whitelist_types(E, how, which):
    options, white = whitelist(E, which)
    if which != "default":
        white = options["whitelist"] = white + [["awkward0.persist", "json2type"]]
    spec = names(E, 2)
    allowed = named(E, spec, white)
    rec = Record(E, trusted=("awkward0.persist",))
    E.assume(spec[0] != "awkward0.persist")
    t = {"function": spec}
    if how == "nested":
        t = {"takes": "inf", "to": {"fields": [["x", {"possibilities": [{"dtype": "int64"}, {"type": t}]}]]}}
    if how == "direct":
        outcome(E, rec, allowed, spec, lambda: E.ak.persist.json2type(t, **options), called=False)
        return
    d = {"call": ["awkward0.persist", "json2type"], "args": [{"json": t}]}
    if how in ("whitelistable", "both", "nested"):
        d["whitelistable"] = True
    if how in ("kwargs", "both"):
        d["kwargs"] = {"whitelist": {"json": "*"}}
    if how == "args":
        d["args"].append({"json": [["*"]]})
    with recording(rec):
        want = target(E, spec)
        got = E.attempt(lambda: E.ak.deserialize({"": doc(d)}, **options))
        E.same("allowed", got.ok, allowed)
        E.same("imported", rec.imported, want[:1] if allowed else [])
        E.same("called", rec.called, [])

@harness("C21", quick=[{"which": w, "how": h} for w in WHITES for h in ("alone", "argument")], bounds="stored Python objects are unpickled only if the whitelist names awkward0.persist.topython")
def whitelist_python(E, which, how):
    options, white = whitelist(E, which)
    spec = ["awkward0.persist", "topython"]
    allowed = named(E, spec, white)
    if which == "default":
        E.same("not by default", allowed, False)
    rec = Record(E, trusted=("awkward0.persist",))
    d = {"python": "gASVCAAAAAAAAACMBG51bXCULg=="}
    if how == "argument":
        d = {"list": [d]}
    with recording(rec):
        got = E.attempt(lambda: E.ak.deserialize({"": doc(d)}, **options))
        E.same("allowed", got.ok, allowed)
        E.same("unpickled", len(rec.called), 1 if allowed else 0)

@harness("C21", quick=[{"how": h} for h in ("virtual", "object")], bounds="the generator (2 names) of a stored array that calls it when it is looked at: under a whitelist of one array class and arbitrary names, and under the default")
def whitelist_generators(E, how):
    ak = E.ak
    default = E.flag("default")
    white = ak.persist.whitelist
    if not default:
        white = [["awkward0", "*Array"], [text.literal(E, "L"), text.literal(E, "M")]]
    spec = names(E, 2)
    E.assume(spec[0] != "awkward0")
    E.assume(spec[0] != "awkward")
    allowed = named(E, spec, white)
    rec = Record(E, trusted=("awkward0",))
    d = {"call": ["awkward0", "VirtualArray" if how == "virtual" else "ObjectArray"], "args": [{"function": spec}, {"tuple": [{"json": 5}]}]}
    if how == "object":
        d["args"] = [{"json": [1.5]}, {"function": spec}, {"tuple": [{"json": 5}]}]
    with recording(rec):
        want = target(E, spec)
        got = E.attempt(lambda: ak.deserialize({"": doc(d)}, whitelist=white))
        E.same("allowed", got.ok, allowed)
        E.same("imported", rec.imported, want[:1] if allowed else [])
        E.same("nothing called yet", rec.called, [])
        if allowed:
            E.attempt(lambda: got.value.array if how == "virtual" else got.value[0])
            E.same("called", [p for p, a, k in rec.called], [want])

DEFAULT = [["numpy", "frombuffer"], ["zlib", "decompress"], ["lzma", "decompress"], ["backports.lzma", "decompress"], ["lz4.block", "decompress"],
           ["awkward*", "*Array"], ["awkward*", "Table"], ["awkward*", "numpy", "frombuffer"], ["awkward*.util", "frombuffer"], ["awkward*.util", "scalar"],
           ["awkward*.persist", "json2type"], ["awkward*.persist", "json2dtype"], ["awkward*.arrow", "_ParquetFile", "fromjson"],
           ["uproot*_methods.*"], ["uproot*.tree", "_Lazy*"]]

@harness("C21", quick=[{"n": n} for n in (1, 2, 3, 4)], bounds="any function of 1-4 names that the default whitelist names belongs to the documented kinds (constructors, buffers, decompression, stored types, lazy sources)")
def whitelist_default(E, n):
    spec = names(E, n)
    if named(E, spec, E.ak.persist.whitelist):
        ok = S.or_(*[S.and_(*[text.matchterm(n, p) for n, p in zip(spec, w)]) for w in DEFAULT if len(w) <= n])
        E.require("documented", S.SymScalar(ok, S.BOOL) if S.issym(ok) else ok, lambda: spec)
        E.reached("named")

class Archive(object):
    def __init__(self, doc):
        self.doc = doc
    def ZipFile(self, file, mode="r", **kwargs):
        return self
    def namelist(self):
        return [".json"]
    def read(self, where):
        return self.doc
    def close(self):
        pass

class Group(object):
    def __init__(self, doc):
        self.doc = doc
    def __getitem__(self, where):
        return {(): self.doc}

@harness("C21", quick=[{"how": h, "given": g} for h in ("load", "hdf5") for g in (False, True)], bounds="the whitelist given to load and hdf5 (or the default one) is the one in effect")
def whitelist_files(E, how, given):
    ak = E.ak
    options, white = {}, ak.persist.whitelist
    if given:
        white = [[text.literal(E, "L"), text.literal(E, "M")]]
        options = {"whitelist": white}
    spec = names(E, 2)
    allowed = named(E, spec, white)
    d = doc({"call": spec})
    rec = Record(E)
    old = ak.persist.zipfile
    try:
        if how == "load":
            ak.persist.zipfile = Archive(d)
            outcome(E, rec, allowed, spec, lambda: ak.load("file", **options))
        else:
            outcome(E, rec, allowed, spec, lambda: ak.hdf5(Group(d), **options)["x"])
    finally:
        ak.persist.zipfile = old
