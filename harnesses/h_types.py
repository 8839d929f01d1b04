"""Types describe the data, compare as an equivalence, and survive being stored."""
import itertools
import json
from .common import *
from . import zoo

# ---- descriptions: ("leaf", key), ("array", takes or None, d), ("table", [(name, d)...]), ("union", [d...]), ("option", d)

LEAVES = {"i8": "int64", "f8": "float64", "?": "bool", "S": "S3"}

def leaf(E, key):
    if key == "fn":
        return zoo.pair
    if key == "cls":
        return zoo.Made
    if key in ("str", "bytes"):
        return {"str": str, "bytes": bytes}[key]
    return E.np.dtype(LEAVES[key])

def build(E, d):
    T = E.ak.type
    if d[0] == "leaf":
        return leaf(E, d[1])
    if d[0] == "array":
        return T.ArrayType(E.np.inf if d[1] is None else d[1], build(E, d[2]))
    if d[0] == "table":
        out = T.TableType()
        for n, x in d[1]:
            out[n] = build(E, x)
        return out
    if d[0] == "union":
        return T.UnionType(*[build(E, x) for x in d[1]])
    return T.OptionType(build(E, d[1]))

def canon(E, d):
    """a table of arrays of one length is an array of tables, a union in a union is part of it, options do not nest"""
    if d[0] == "array":
        return ("array", d[1], canon(E, d[2]))
    if d[0] == "table":
        fields = [(n, canon(E, x)) for n, x in d[1]]
        if fields and all(x[0] == "array" and x[1] is not None for n, x in fields) and all(E.sel(x[1] == fields[0][1][1]) for n, x in fields[1:]):
            return ("array", fields[0][1][1], canon(E, ("table", [(n, x[2]) for n, x in fields])))
        return ("table", fields)
    if d[0] == "union":
        out = []
        for x in d[1]:
            x = canon(E, x)
            out.extend(x[1] if x[0] == "union" else [x])
        return ("union", out)
    if d[0] == "option":
        x = canon(E, d[1])
        return x if x[0] == "option" else ("option", x)
    return d

def equal(E, a, b):
    """are two canonical descriptions the same, up to the order of fields and alternatives? (all functions count as one type)"""
    if a[0] != b[0]:
        return False
    if a[0] == "leaf":
        return a[1] == b[1] or (a[1] in ("fn", "cls") and b[1] in ("fn", "cls"))
    if a[0] == "array":
        if a[1] is None or b[1] is None:
            return a[1] is b[1] and equal(E, a[2], b[2])
        return E.sel(a[1] == b[1]) and equal(E, a[2], b[2])
    if a[0] == "table":
        x, y = dict(a[1]), dict(b[1])
        return set(x) == set(y) and all(equal(E, x[n], y[n]) for n in sorted(x))
    if a[0] == "union":
        def match(one, two):
            return not one or any(equal(E, one[0], two[i]) and match(one[1:], two[:i] + two[i + 1:]) for i in range(len(two)))
        return len(a[1]) == len(b[1]) and match(a[1], b[1])
    return equal(E, a[1], b[1])

def takes(E, name):
    return None if E.flag(name + ".inf") else E.int(name + ".takes", 0, 3, py=True)

def atom(E, name, leaves=("i8", "f8")):
    return ("leaf", E.choice(name + ".leaf", leaves))

def small(E, name, only=None, leaves=("i8", "f8")):
    k = only or E.choice(name + ".kind", ["leaf", "array", "option", "table", "union"])
    if k == "leaf":
        return atom(E, name, leaves)
    if k == "array":
        return ("array", takes(E, name), atom(E, name, leaves))
    if k == "option":
        return ("option", atom(E, name, leaves))
    if k == "table":
        return ("table", [(E.choice(name + ".field", ["a", "b"]), atom(E, name, leaves))])
    first = E.flag(name + ".order")
    x, y = [("leaf", l) for l in leaves[:2]]
    return ("union", [x, y] if first else [y, x])

OUTER = ["array", "option", "table", "pair", "union", "array2"]

def large(E, name, k):
    if k == "array":
        return ("array", takes(E, name), small(E, name + ".x"))
    if k == "array2":
        return ("array", takes(E, name), ("array", takes(E, name + ".i"), small(E, name + ".x", E.choice(name + ".inner", ["leaf", "table"]))))
    if k == "option":
        return ("option", small(E, name + ".x"))
    if k == "table":
        return ("table", [("a", small(E, name + ".x"))])
    x = small(E, name + ".x")
    y = small(E, name + ".y", E.choice(name + ".second", ["leaf", "array"]), leaves=("i8",) if k == "pair" else ("i8", "f8"))
    xy = [x, y] if E.flag(name + ".swap") else [y, x]
    if k == "pair":
        return ("table", list(zip("ab", [x, y])) if xy[0] is x else [("b", y), ("a", x)])
    return ("union", xy)

def compare(E, p, q, t, u):
    want = equal(E, canon(E, p), canon(E, q))
    E.same("equal", t == u, want)
    E.same("symmetric", u == t, want)
    E.same("not equal", t != u, not want)
    E.same("reflexive", t == t and u == u, True)
    if want:
        E.reached("equal")
        E.same("hash", hash(t) == hash(u), True)
    else:
        E.reached("different")

PAIRS = [(a, b) for a in OUTER for b in OUTER if OUTER.index(a) <= OUTER.index(b)]
# constructors of different kinds can only be equal through the canonical forms
QUICK = [(a, b) for a, b in PAIRS if a == b or {a, b} in ({"array", "table"}, {"array", "pair"}, {"array2", "table"}, {"array2", "pair"}, {"array", "array2"}, {"option", "union"})]

@harness("C19", quick=[{"one": a, "two": b} for a, b in QUICK if (a, b) != ("union", "union") and (a, b) != ("pair", "pair")], thorough=[{"one": a, "two": b} for a, b in PAIRS], bounds="all pairs of types of nesting 2 (arrays with any length of 0-3 or unbounded, tables of <=2 fields, unions of <=3 alternatives, options)")
def types_equal(E, one, two):
    p, q = large(E, "p", one), large(E, "q", two)
    compare(E, p, q, build(E, p), build(E, q))

def shuffled(E, name, d):
    """the same type written differently"""
    if d[0] == "array":
        x = shuffled(E, name + ".x", d[2])
        return ("array", d[1], x)
    if d[0] == "table":
        f = [(n, shuffled(E, name + "." + n, x)) for n, x in d[1]]
        return ("table", f[::-1] if E.flag(name + ".rev") else f)
    if d[0] == "union":
        f = [shuffled(E, name + ".%d" % i, x) for i, x in enumerate(d[1])]
        perm = E.choice(name + ".perm", list(itertools.permutations(range(len(f)))))
        f = [f[i] for i in perm]
        return ("union", [("union", f[:2])] + f[2:] if len(f) > 2 and E.flag(name + ".nest") else f)
    if d[0] == "option":
        x = ("option", shuffled(E, name + ".x", d[1]))
        return ("option", x) if E.flag(name + ".twice") else x
    return d

@harness("C19", quick=[{"k": k} for k in ("union", "pair", "three", "deep")], bounds="a type, the same type with fields and alternatives in another order and nested, and one with a single difference")
def types_rewritten(E, k):
    if k == "three":
        p = ("union", [small(E, "p.x"), ("leaf", "i8"), ("array", None, ("leaf", "f8"))])
    elif k == "deep":
        p = ("array", takes(E, "p"), ("table", [("a", ("union", [("leaf", "i8"), ("option", ("leaf", "f8"))])), ("b", ("array", takes(E, "p.b"), ("leaf", "i8")))]))
    else:
        p = large(E, "p", k)
    q = shuffled(E, "s", p)
    t, u = build(E, p), build(E, q)
    E.same("equal", t == u, True)
    E.same("symmetric", u == t, True)
    E.same("hash", hash(t) == hash(u), True)

@harness("C19", quick=[{}], bounds="all pairs of types of nesting 1 over numbers, strings, booleans, functions and classes")
def types_leaves(E):
    leaves = ("i8", "?", "S", "fn", "cls", "str", "bytes")
    p, q = small(E, "p", leaves=leaves), small(E, "q", leaves=leaves)
    if p[0] == "leaf" or q[0] == "leaf":
        return
    compare(E, p, q, build(E, p), build(E, q))

# ---- cyclic types: nodes pointing to nodes

def graph(E, name, n, kinds, root=None):
    nodes = []
    for i in range(n):
        k = root if i == 0 and root else E.choice("%s.%d" % (name, i), kinds)
        links = [E.size("%s.%d.%d" % (name, i, j), 0, n - 1) for j in range(2 if k in ("union", "pair") else 0 if k == "leaf" else 1)]
        nodes.append((k, links))
    # a type that only refers to itself is none; unions and options directly inside their like have no finite normal form
    for k, links in nodes:
        for l in links:
            if k in ("union", "option") and nodes[l][0] == k:
                E.assume(False)
    return nodes

def buildgraph(E, nodes):
    T = E.ak.type
    make = {"leaf": lambda: E.np.dtype("int64"), "array": lambda: T.ArrayType(E.np.inf, E.np.dtype("int64")), "table": T.TableType, "pair": T.TableType, "union": T.UnionType, "option": lambda: T.OptionType(E.np.dtype("int64"))}
    objs = [make[k]() for k, links in nodes]
    for o, (k, links) in zip(objs, nodes):
        if k == "array":
            o.to = objs[links[0]]
        elif k == "option":
            o.type = objs[links[0]]
        elif k == "table":
            o["a"] = objs[links[0]]
        elif k == "pair":
            o["a"] = objs[links[0]]
            o["b"] = objs[links[1]]
        elif k == "union":
            o.append(objs[links[0]])
            o.append(objs[links[1]])
    return objs[0]

def bisimilar(a, b):
    rel = dict(((i, j), True) for i in range(len(a)) for j in range(len(b)))
    changed = True
    while changed:
        changed = False
        for i, j in rel:
            if rel[i, j]:
                (k, x), (l, y) = a[i], b[j]
                ok = k == l and (all(rel[p, q] for p, q in zip(x, y)) or (k == "union" and all(rel[p, q] for p, q in zip(x, y[::-1]))))
                if not ok:
                    rel[i, j] = False
                    changed = True
    return rel[0, 0]

GRAPH = [["leaf", "array", "table"], ["leaf", "array", "union"], ["table", "union"], ["leaf", "pair"], ["option", "table", "leaf"], ["array", "pair"]]

@harness("C19", quick=[{"kinds": k, "n": n} for k in GRAPH for n in (1, 2)] + [{"kinds": ["leaf", "array", "table"], "n": 3, "root": r} for r in ("array",)], thorough=[{"kinds": k, "n": n} for k in GRAPH for n in (1, 2)] + [{"kinds": k, "n": 3, "root": r} for k in GRAPH[:1] + GRAPH[4:5] for r in k if r != "leaf"] + [{"kinds": ["array", "union"], "n": 3}],
         bounds="all pairs of types of 1-3 nodes which refer to each other and to themselves in any way")
def types_cyclic(E, kinds, n, root=None):
    a, b = graph(E, "a", n, kinds, root), graph(E, "b", n, kinds, root)
    if a[0][0] == "leaf" or b[0][0] == "leaf":
        return
    t, u = buildgraph(E, a), buildgraph(E, b)
    want = bisimilar(a, b)
    E.same("equal", t == u, want)
    E.same("symmetric", u == t, want)
    if want:
        E.same("hash", hash(t) == hash(u), True)

@harness("C19", quick=[{"kinds": k, "n": n} for k in GRAPH for n in (1, 2)] + [{"kinds": ["leaf", "array", "pair", "union", "option"], "n": 2}], bounds="types of 1-2 nodes which refer to each other in any way: printed, stored and restored")
def types_cyclic_stored(E, kinds, n):
    a = graph(E, "a", n, kinds)
    if a[0][0] == "leaf":
        return
    t = buildgraph(E, a)
    stored(E, t)

def stored(E, t):
    P = E.ak.persist
    j = P.type2json(t)
    text = json.loads(json.dumps(j)) if not E.symbolic else j
    u = P.json2type(text, whitelist=[["harnesses.zoo"]])
    E.same("restored", u == t, True)
    E.same("restored the other way", t == u, True)
    E.same("hash", hash(u) == hash(t), True)
    E.same("stored again", P.type2json(u), j)
    E.same("printed", (str(u), repr(u)), (str(t), repr(t)))

@harness("C19", quick=[{"k": k} for k in OUTER] + [{"k": "leaves"}], bounds="all types of nesting 2: stored as JSON and restored")
def types_stored(E, k):
    if k == "leaves":
        p = small(E, "p", E.choice("k", ["array", "option", "table"]), leaves=("i8", "?", "S", "fn", "cls", "str", "bytes"))
    else:
        p = large(E, "p", k)
    t = build(E, p)
    P = E.ak.persist
    u = P.json2type(P.type2json(t), whitelist=[["harnesses.zoo"]])
    E.same("restored", u == t, True)
    E.same("the other way", t == u, True)
    E.same("hash", hash(u) == hash(t), True)

@harness("C19", quick=[{"k": k, "what": w} for k, w in (("array", "or"), ("table", "or"), ("union", "change"), ("table", "and"), ("table", "change"), ("array", "change"))], thorough=[{"k": k, "what": "or"} for k in ("array", "table", "union")], bounds="types of nesting 2: combined by | and &, and changed after they were compared")
def types_combined(E, k, what):
    p = large(E, "p", k)
    t = build(E, p)
    if what == "or":
        q = small(E, "q", E.choice("q", ["array", "union", "table"]))
        u = build(E, q)
        compare(E, ("union", [p, q]), ("union", [q, p]), t | u, u | t)
        E.same("same as constructed", (t | u) == E.ak.type.UnionType(t, u), True)
        E.same("operands unchanged", t == build(E, p) and u == build(E, q), True)
    elif what == "and":
        if k != "table":
            return
        q = ("table", [("c", atom(E, "q"))])
        compare(E, ("table", p[1] + q[1]), ("table", q[1] + p[1]), t & build(E, q), build(E, q) & t)
        E.same("operands unchanged", t == build(E, p), True)
    else:
        u = build(E, p)
        E.same("equal", t == u, True)
        x = ("leaf", "?")
        if k == "array":
            u.to = build(E, x)
            q = ("array", p[1], x)
        elif k == "table":
            u["z"] = build(E, x)
            q = ("table", p[1] + [("z", x)])
        else:
            u[0] = build(E, x)
            q = ("union", [x] + p[1][1:])
        compare(E, p, q, t, u)

# ---- types of arrays describe the data

def describes(E, t, v):
    """does this type describe this value? decides whether every value taken out of an array is as its type says"""
    T, ak, np = E.ak.type, E.ak, E.np
    if isinstance(t, T.OptionType):
        return v is None or isinstance(v, E.np.ma.core.MaskedConstant) or describes(E, t.type, v)
    if isinstance(t, T.UnionType):
        return any(describes(E, x, v) for x in t)
    if isinstance(t, T.TableType):
        if not isinstance(v, ak.Table.Row) and not isinstance(v, ak.array.table.Table.Row):
            return False
        return sorted(t.columns) == sorted(v._table.columns) and all(describes(E, t[n], v[n]) for n in t.columns)
    if isinstance(t, T.ArrayType):
        if isinstance(v, (str, bytes)) or not hasattr(v, "__len__"):
            return False
        if t.takes != np.inf and len(v) != t.takes:
            return False
        return all(describes(E, t.to, v[i]) for i in range(len(v)))
    if isinstance(t, np.dtype):
        if type(v) in (bool, int, float):      # the default of a sparse array
            return np.result_type(t, v) == t
        return hasattr(v, "dtype") and v.dtype == t.newbyteorder("=")
    if t in (str, bytes):
        return isinstance(v, t)
    if callable(t):
        return isinstance(v, (zoo.Made, zoo.MadeRow))
    return False

ZOO = sorted(zoo.ZOO)

@harness("C19", quick=[{"kind": k} for k in ZOO], bounds="one array of every kind and layout (<=3 items, <=2 lists of <=2): its type describes every value in it")
def types_describe(E, kind):
    a, ref = zoo.build(E, kind)
    if not isinstance(a, E.ak.AwkwardArray):
        return
    t = a.type
    E.same("length", t.takes, len(ref))
    E.same("describes", [describes(E, t.to, a[i]) for i in range(len(ref))], [True] * len(ref))
    E.same("same as before", a.type == t, True)
    E.same("from outside", E.ak.type.fromarray(a) == t, True)

def within(T, got, t):
    """the type of a selection: the same, or only some of the alternatives (also the same alternative twice)"""
    options = list(t) if isinstance(t, T.UnionType) else [t]
    return got == t or all(any(x == y for y in options) for x in (got if isinstance(got, T.UnionType) else [got]))

@harness("C19", quick=[{"kind": k} for k in ZOO], bounds="a selection (slices, positions, mask) of one array of every kind: its type is that of the array with another length")
def types_selected(E, kind):
    a, ref = zoo.build(E, kind)
    T = E.ak.type
    if not isinstance(a, E.ak.AwkwardArray):
        return
    t = a.type.to
    n = len(ref)
    w = E.choice("w", ["[1:]", "[::-1]", "[:0]", "positions", "mask", "columns"])
    if w == "positions":
        if n == 0:
            return
        s = E.np.array([n - 1, 0, 0])
        b, m = a[s], 3
    elif w == "mask":
        s = E.np.array([i % 2 == 0 for i in range(n)], dtype=bool)
        b, m = a[s], (n + 1) // 2
    elif w == "columns":
        if not isinstance(t, T.TableType):
            return
        for c in t.columns:
            got = T.fromarray(a[c])
            E.same("column " + c, got == T.ArrayType(n, t[c]), True)
        return
    else:
        sl = {"[1:]": slice(1, None), "[::-1]": slice(None, None, -1), "[:0]": slice(0, 0)}[w]
        b, m = a[sl], len(ref[sl])
    got = T.fromarray(b)
    E.same("length", got.takes, m)
    E.same("type", within(T, got.to, t), True)
