"""Columnar arrays from Python data: the same data come back, with the documented unification of types."""
import collections
from .common import *

class Point(object):
    pass
class Other(object):
    pass
Pair = collections.namedtuple("Pair", ["b", "a"])
Zero = collections.namedtuple("Zero", [])

class Opaque(object):
    """something no array can hold a name for"""

STR = ["", "a", u"\u00e9", "a\0", "ab"]
BYT = [b"", b"a", b"\xff", b"a\0", b"\0"]

def scalar(E, name, kind):
    if kind == "bool":
        return E.bool(name).tolist()
    if kind == "int":
        return E.int(name, py=True)
    return E.float(name).tolist()

def datum(E, name, kind, inner=(), rich=False):
    """one Python datum of the given kind; inner: what its parts may be"""
    if kind == "none":
        return None
    if kind in ("bool", "int", "float"):
        return scalar(E, name, kind)
    if kind == "str":
        return E.choice(name + ".s", STR if rich else STR[1:3])
    if kind == "bytes":
        return E.choice(name + ".s", BYT if rich else BYT[1:3])
    if kind == "{}":
        return {}
    if kind in ("list", "tuple"):
        n = E.size(name + ".n", 0, 2 if rich else 1)
        out = [datum(E, "%s.%d" % (name, i), E.choice("%s.%dk" % (name, i), list(inner))) for i in range(n)]
        return out if kind == "list" else tuple(out)
    if kind == "array":
        return E.array(name, E.size(name + ".n", 0, 2), "int16")
    keys = {"x": ["x"], "xy": ["y", "x"], "y": ["y"], "01": ["1", "0"], "_p": ["_p", "a.b"], "Point": ["x"], "Pointxy": ["y", "x"], "Point0": [], "Other": ["x"], "Pair": ["b", "a"], "Zero": []}[kind]
    parts = [(k, datum(E, "%s[%s]" % (name, k), E.choice("%s[%s]k" % (name, k), list(inner)))) for k in keys]
    if kind == "Zero":
        return Zero()
    if kind == "Pair":
        return Pair(*[v for k, v in parts])
    if kind[0] in "PO":
        o = (Other if kind == "Other" else Point)()
        o.__dict__.update(parts)
        return o
    return dict(parts)

def group(x):
    """which type of data x is, in terms of the documented rules"""
    if x is None or (isinstance(x, dict) and not x):
        return "none"
    if isinstance(x, bool):
        return "bool"
    if isinstance(x, (int, float)):
        return "number"
    if isinstance(x, bytes):
        return "bytes"
    if isinstance(x, str):
        return "str"
    if isinstance(x, dict):
        return frozenset(x)
    if isinstance(x, (Pair, Zero)):
        return type(x).__name__
    if isinstance(x, (Point, Other)):
        return type(x).__name__, frozenset(x.__dict__)
    return "list"

def isarray(x):
    return hasattr(x, "dtype") and hasattr(x, "tolist") and not isinstance(x, (int, float, bool))

def tagged(x):
    """normal form that tells the types of scalars apart and names classes"""
    if x is None or isinstance(x, (str, bytes)):
        return x
    if isinstance(x, bool):
        return {"bool": x}
    if isinstance(x, int):
        return {"int": x}
    if isinstance(x, float):
        return {"float": x}
    if isinstance(x, list):
        return [tagged(y) for y in x]
    if isinstance(x, Pair):
        return {"Pair": [tagged(y) for y in x]}
    if isinstance(x, Zero):
        return {"Zero": []}
    if isinstance(x, tuple):
        return tuple(tagged(y) for y in x)
    if isinstance(x, dict):
        return {"dict": dict((k, tagged(y)) for k, y in x.items())}
    if isinstance(x, (Point, Other)):
        return {type(x).__name__: dict((k, tagged(y)) for k, y in x.__dict__.items())}
    return {"type": type(x).__name__}

def expected(E, level):
    """the data of one level of the hierarchy after the documented unification (tagged)"""
    groups = [group(x) for x in level]
    out = [None] * len(level)
    for g in set(groups):
        where = [i for i, h in enumerate(groups) if h == g]
        vals = [level[i] for i in where]
        if g == "none":
            continue
        if g in ("bool", "bytes", "str"):
            res = [tagged(v) for v in vals]
        elif g == "number":
            if any(isinstance(v, float) for v in vals):
                res = [{"float": E.np.array([v]).astype("float64")[0]} for v in vals]
            else:
                res = [{"int": v} for v in vals]
        elif g == "list":
            vals = [v.tolist() if isarray(v) else list(v) for v in vals]
            flat = expected(E, [y for v in vals for y in v])
            res, at = [], 0
            for v in vals:
                res.append(flat[at:at + len(v)])
                at += len(v)
        elif g == "Zero":
            res = [{"Zero": []} for v in vals]
        elif g == "Pair":
            cols = [expected(E, [v[j] for v in vals]) for j in range(2)]
            res = [{"Pair": [cols[0][i], cols[1][i]]} for i in range(len(vals))]
        else:
            name, keys = ("dict", g) if isinstance(g, frozenset) else g
            vals = [v if isinstance(v, dict) else v.__dict__ for v in vals]
            cols = dict((k, expected(E, [v[k] for v in vals])) for k in keys)
            res = [{name: dict((k, cols[k][i]) for k in keys)} for i in range(len(vals))]
        for i, r in zip(where, res):
            out[i] = r
    return out

def check(E, data, label="fromiter", **options):
    a = E.attempt(lambda: E.ak.fromiter(iter(data), **options))
    if not a.ok:
        E.fail(label, "raised %r" % a)
    a = a.value
    want = expected(E, data)
    E.same(label + " length", len(a), len(data))
    E.same(label, tagged(a.tolist()), want)
    for i in range(len(data)):
        x = E.attempt(lambda: a[i])
        if not x.ok:
            E.fail("%s[%d]" % (label, i), "raised %r" % x)
        x = x.value
        if not isinstance(x, (str, bytes, tuple)) and hasattr(x, "tolist"):
            x = x.tolist()
        E.same("%s[%d]" % (label, i), tagged(x), want[i])
    kinds = set(group(x) for x in data)
    if len(kinds - {"none"}) > 1:
        E.reached("union")
    if "none" in kinds and len(kinds) > 1:
        E.reached("masked")
    canonical(E, a)
    return a

def canonical(E, a, inside=None):
    """the documented canonical form: no masked in masked, no union in union, masked outside of union; sorted columns"""
    ak = E.ak
    if isinstance(a, ak.MaskedArray):
        E.same("masked content is not masked", isinstance(a.content, ak.MaskedArray), False)
        if inside == "union":
            E.fail("canonical", "masked inside of a union")
        E.same("IndexedMaskedArray exactly for tables, objects, unions", isinstance(a, ak.IndexedMaskedArray), isinstance(a.content, (ak.Table, ak.UnionArray)) or (isinstance(a.content, ak.ObjectArray) and not isinstance(a.content, ak.StringArray)))
        canonical(E, a.content, "masked")
    elif isinstance(a, ak.UnionArray):
        if inside == "union":
            E.fail("canonical", "union inside of a union")
        for c in a.contents:
            canonical(E, c, "union")
    elif isinstance(a, ak.StringArray):
        pass
    elif isinstance(a, ak.Table):
        E.same("columns sorted", a.columns == sorted(a.columns), True)
        for n in a.columns:
            canonical(E, a[n])
    elif isinstance(a, (ak.JaggedArray, ak.ObjectArray)):
        canonical(E, a.content)

FLAT = ["none", "bool", "int", "float", "str", "bytes", "list", "tuple", "array", "{}", "x", "xy", "01"]
SMALL = ["none", "int", "float", "str", "list", "x"]

@harness("C15", quick=[{"first": k, "n": 3} for k in FLAT] + [{"first": "none", "n": 0}], thorough=[{"first": k, "n": 4} for k in FLAT], bounds="0 to 3 (4) items, each missing, boolean, integer, float, string, bytes, list, tuple, numpy array or record; values symbolic", need=("union", "masked"))
def fromiter_flat(E, first, n):
    data = []
    for i in range(n):
        k = first if i == 0 else E.choice("k%d" % i, FLAT)
        data.append(datum(E, "d%d" % i, k, ["int"], rich=False))
    check(E, data)

@harness("C15", quick=[{"n": n, "first": f} for n in (1, 2) for f in SMALL], thorough=[{"n": 3, "first": f} for f in SMALL], bounds="1 or 2 (3) lists of 0 to 2 items, each missing, integer, float, string, list or record", need=("lists",))
def fromiter_nested(E, n, first):
    data = []
    for i in range(n):
        m = E.size("m%d" % i, 0, 2)
        if i == 0:
            m = max(m, 1)
        data.append([datum(E, "d%d%d" % (i, j), first if (i, j) == (0, 0) else E.choice("k%d%d" % (i, j), SMALL), ["int", "none"]) for j in range(m)])
        if m:
            E.reached("lists")
    check(E, data)

@harness("C15", quick=[{"a": a, "b": b} for a in ("x", "xy", "_p") for b in ("x", "xy", "y", "{}", "none")], bounds="2 records (plus a missing one) with fields missing, integer, string, list, record or boolean", need=("union", "masked"))
def fromiter_records(E, a, b):
    parts = ["none", "int", "bool", "str", "list", "x", "{}"] if "xy" not in (a, b) else ["none", "int", "list"] if a == b else ["none", "int", "str", "list"]
    def deep(name, kind):
        if kind in ("list", "x"):
            return datum(E, name, kind, ["int"])
        return datum(E, name, kind)
    def record(name, kind):
        if kind == "none":
            return None
        return dict((k, deep(name + "." + k, E.choice("%s.%sk" % (name, k), parts))) for k in {"x": ["x"], "xy": ["y", "x"], "y": ["y"], "_p": ["_p"], "{}": []}[kind])
    data = [record("r0", a), record("r1", b)]
    if E.flag("more"):
        data.insert(E.size("at", 0, 2), E.choice("extra", [None, {"x": 1}]))
    check(E, data)

OBJ = ["Point", "Pointxy", "Point0", "Other", "Pair", "Zero", "none", "x", "int"]

@harness("C15", quick=[{"first": k} for k in OBJ], bounds="3 objects of 2 classes (0 to 2 attributes) or named tuples of 2 classes, records, integers or missing", need=("union", "masked"))
def fromiter_objects(E, first):
    data = [datum(E, "d%d" % i, first if i == 0 else E.choice("k%d" % i, OBJ), ["int"]) for i in range(3)]
    check(E, data)

@harness("C15", quick=[{"w": w} for w in ("list", "x", "Pair")], bounds="2 objects inside of lists, records and named tuples, with nested parts")
def fromiter_objects_nested(E, w):
    def wrap(x):
        return [x] if w == "list" else {"x": x} if w == "x" else Pair(x, 0)
    data = [wrap(datum(E, "d%d" % i, E.choice("k%d" % i, ["Point", "Point0", "Pair", "none"]), ["none", "int", "list", "x", "Zero"])) for i in range(2)]
    check(E, data)

@harness("C15", quick=[{"kind": k, "dictencoding": d} for k in ("str", "bytes") for d in (False, True, "call")], bounds="1 to 3 strings (empty, multi-byte, with a trailing zero character), possibly missing, in a list or not, with and without dictionary encoding")
def fromiter_strings(E, kind, dictencoding):
    n = E.size("n", 1, 3)
    data = [datum(E, "d%d" % i, E.choice("k%d" % i, [kind, "none"]), rich=True) for i in range(n)]
    seen = []
    def decide(xs):
        seen.append(list(xs))
        return True
    d = decide if dictencoding == "call" else dictencoding
    given = [x for x in data if x is not None]
    how = E.choice("how", ["flat", "list", "record"])
    if how == "list":
        data = [data]
    elif how == "record":
        data = [{"x": x} for x in data]
    a = check(E, data, dictencoding=d)
    if dictencoding == "call" and given:
        E.same("the function gets the list of strings", seen, [given])
    leaf = a if how == "flat" else a.content if how == "list" else a["x"]
    while isinstance(leaf, E.ak.MaskedArray):
        leaf = leaf.content
    if given:
        E.same("encoded as asked", isinstance(leaf, E.ak.IndexedArray), bool(dictencoding))
        if dictencoding:
            E.same("dictionary without duplicates", sorted(leaf.content.tolist()), sorted(set(given)))

@harness("C15", quick=[{"kind": k} for k in ("bool", "int", "float", "str", "list", "only")], bounds="3 items, some missing, with either meaning of the mask")
def fromiter_maskedwhen(E, kind):
    mw = E.flag("maskedwhen")
    data = [datum(E, "d%d" % i, "none" if kind == "only" else E.choice("k%d" % i, [kind, "none"]), ["int"]) for i in range(3)]
    a = check(E, data, maskedwhen=mw)
    if isinstance(a, E.ak.MaskedArray):
        E.same("maskedwhen", a.maskedwhen, mw)
        E.same("mask", a.mask, [(x is None) == mw for x in data])
    a = E.ak.fromiter([data], maskedwhen=mw)
    E.same("inside of a list", tagged(a.tolist()), [expected(E, data)])

@harness("C15", quick=[{"n": 1}, {"n": 2}], bounds="1 or 2 integers from the whole range that Python has names for in numpy (64-bit signed, unsigned and larger), numpy scalars of several types", need=("mixed",))
def fromiter_integers(E, n):
    data = []
    for i in range(n):
        k = E.choice("k%d" % i, ["int64", "uint64", "int8", "uint8", "big", "float32", "none"])
        if k == "none":
            data.append(None)
        elif k == "big":
            data.append(E.choice("big%d" % i, [2**64, 2**63, -2**63, 2**64 - 1, 2**100, -2**63 - 1]))
        elif k == "float32":
            data.append(E.array("f%d" % i, 1, k)[0])
        else:
            x = E.array("i%d" % i, 1, k)[0]
            data.append(x.tolist() if E.flag("py%d" % i) else x)
    a = E.ak.fromiter(data)
    anyfloat = any(str(getattr(x, "dtype", "")).startswith("float") for x in data)
    got = a.tolist()
    if anyfloat and any(type(x) is int and not -2**63 <= x < 2**64 for x in data):
        pass
    elif anyfloat:
        E.same("kinds", [None if x is None else isinstance(x, float) for x in got], [None if x is None else True for x in data])
        if all(x is None or str(getattr(x, "dtype", "")) == "float32" for x in data):
            E.same("floats", got, data)
        E.reached("mixed")
    else:
        E.same("integers stay exact", tagged(got), [None if x is None else {"int": x} for x in data])

@harness("C15", quick=[{}], bounds="keys that are no strings, unknown options")
def fromiter_refused(E):
    k = E.choice("key", [1, None, b"x", ("a",)])
    rec = {k: E.int("v", py=True)}
    if E.flag("both"):
        rec["x"] = 1
    data = E.choice("where", [[rec], [1, rec], [{"x": 1}, rec], [[rec]], [{"x": rec}], [None, [], [rec]]])
    def refuse():
        raise Fail("only str keys")
    E.agree("keys", lambda: E.ak.fromiter(data), refuse, errors=TypeError)
    E.agree("options", lambda: E.ak.fromiter([1], maskwhen=True), refuse, errors=TypeError)
