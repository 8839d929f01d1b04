"""Harness interface: the same harness function runs on symbolic inputs (class Sym) and,
for every counterexample and every path witness, on concrete inputs with the real numpy (class Real)."""
import math
import struct
import numpy as np
import z3
from . import engine, findings, nd, scalar as S, text
from .engine import Incomplete, Infeasible
from .scalar import SymScalar, issym

REGISTRY = {}

class H(object):
    def __init__(self, name, prop, fn, quick, thorough, bounds, need):
        self.name, self.prop, self.fn, self.quick, self.thorough, self.bounds, self.need = name, prop, fn, quick, thorough, bounds, need

def harness(prop, quick=None, thorough=None, bounds="", name=None, need=()):
    """register a harness; quick/thorough are lists of parameter dicts (thorough adds to quick unless it replaces it)"""
    def deco(fn):
        n = name or fn.__name__
        q = [{}] if quick is None else list(quick)
        t = q if thorough is None else list(thorough)
        props = [prop] if isinstance(prop, str) else list(prop)
        assert n not in REGISTRY, n
        REGISTRY[n] = H(n, props, fn, q, t, bounds or (fn.__doc__ or "").strip(), tuple(need))
        return fn
    return deco

class Fail(Exception):
    """raised by a reference model: the operation has to be refused"""

class Violated(BaseException):
    def __init__(self, label, info, model=None):
        BaseException.__init__(self, label)
        self.label, self.info, self.model = label, info, model

class Outcome(object):
    __slots__ = ("ok", "value", "exc")
    def __init__(self, ok, value=None, exc=None):
        self.ok, self.value, self.exc = ok, value, exc
    def __repr__(self):
        return "value {0!r}".format(self.value) if self.ok else "{0}: {1}".format(type(self.exc).__name__, str(self.exc)[:200])

def encode_value(v):
    if isinstance(v, float):
        return {"f": struct.pack(">d", v).hex(), "repr": repr(v)}
    return v
def decode_value(v):
    if isinstance(v, dict):
        return struct.unpack(">d", bytes.fromhex(v["f"]))[0]
    return v

class Base(object):
    def __init__(self, copy):
        self.copy = copy
        self.ak = copy.ak
        self.np = copy.numpy
        self.log = []
        self.reach = set()
        self.nchecks = 0

    @property
    def pa(self):
        """pyarrow (or what stands for it in the symbolic copy)"""
        import pyarrow
        return pyarrow

    # ---- structure inputs (concrete in both modes once chosen)
    def size(self, name, lo, hi):
        return int(self.int(name, lo, hi))
    def choice(self, name, options):
        return options[self.size(name, 0, len(options) - 1)]
    def flag(self, name):
        return bool(self.bool(name))
    def sizes(self, name, n, lo, hi):
        return [self.size("%s%d" % (name, i), lo, hi) for i in range(n)]

    def array(self, name, n, dtype="int64", lo=None, hi=None):
        """one-dimensional array of n fresh inputs"""
        dt = np.dtype(dtype)
        if dt.kind == "b":
            items = [self.bool("%s[%d]" % (name, i)) for i in range(n)]
        elif dt.kind == "f":
            items = [self.float("%s[%d]" % (name, i), dtype) for i in range(n)]
        else:
            items = [self.int("%s[%d]" % (name, i), lo, hi, dtype) for i in range(n)]
        if n == 0:
            return self.np.array([], dtype=dtype)
        return self.np.array(items, dtype=dtype)

    def items(self, arr):
        """list of the scalars in a one-dimensional array (numpy-typed)"""
        return [arr[i] for i in range(len(arr))]

    # ---- running the code under test
    def attempt(self, fn):
        try:
            out = Outcome(True, fn())
        except Fail:
            raise
        except Exception as err:
            out = Outcome(False, exc=err)
        return out

    def norm(self, x):
        """any result -> nested lists, tuples and dicts of scalars"""
        ak = self.ak
        if isinstance(x, (nd.SymBuffer, nd.SymText)):
            return x._normal_()
        if isinstance(x, SymScalar) or x is None or isinstance(x, (bool, int, float, complex, str, bytes)):
            return x
        if x is np.ma.masked:
            return None
        if isinstance(x, np.generic):
            return x.item()
        if isinstance(x, ak.array.table.Table.Row):
            if x._table.istuple:
                return tuple(self.norm(x[n]) for n in x._table._contents)
            return dict((n, self.norm(x[n])) for n in x._table._contents)
        if isinstance(x, (nd.ndarray, np.ndarray)):
            return self.norm(x.tolist())
        if isinstance(x, ak.array.base.AwkwardArray):
            return self.norm(x.tolist())
        if isinstance(x, (list, range)):
            return [self.norm(y) for y in x]
        if isinstance(x, tuple):
            return tuple(self.norm(y) for y in x)
        if isinstance(x, dict):
            return dict((k, self.norm(y)) for k, y in x.items())
        if hasattr(x, "_normal_"):
            return self.norm(x._normal_())
        return ("object", type(x).__name__)

    def refuse(self, why=""):
        raise Fail(why)

    def agree(self, label, got, want, errors=Exception):
        """got() computes with the code under test, want() with the reference model (raising Fail where the
        operation must be refused with one of `errors`)"""
        try:
            w = Outcome(True, want())
        except Fail as err:
            w = Outcome(False, exc=err)
        g = self.attempt(got)
        if g.ok:
            n = self.attempt(lambda: self.norm(g.value))
            if not n.ok:
                g = n
            else:
                g = n
        return self._compare(label, g, w, errors)

    def _compare(self, label, g, w, errors):
        if w.ok:
            if not g.ok:
                self.fail(label, "raised {0!r}, expected {1!r}".format(g, self.show(w.value)))
            self.same(label, g.value, w.value)
        else:
            if g.ok:
                self.fail(label, "returned {0!r}, expected to be refused ({1})".format(self.show(g.value), w.exc))
            if not isinstance(g.exc, errors):
                self.fail(label, "raised {0!r}, expected one of {1}".format(g, errors))
            self.note(label, "refused")
        return g

    def same(self, label, got, want):
        got, want = self.norm(got), self.norm(want)
        c = eqcond(got, want)
        self.note(label, got)
        self.require(label, c, lambda: "got {0!r}, expected {1!r}".format(self.show(got), self.show(want)))

    def known(self, fid, cond=True):
        """leave out the inputs of a listed known finding (and only while it is listed)"""
        if findings.is_listed(fid) and self.sel(cond):
            raise Infeasible()

    def reached(self, what):
        """record that an interesting situation was reached (vacuity guard)"""
        self.reach.add(what)

    def note(self, label, value):
        self.log.append((label, value))

    def sel(self, cond):
        return bool(cond)

class Sym(Base):
    symbolic = True

    def __init__(self, copy, eng):
        Base.__init__(self, copy)
        self.eng = eng

    def _declare(self, name, term, kind):
        if name in self.eng.syms:
            raise RuntimeError("duplicate input name " + name)
        self.eng.syms[name] = (term, kind)

    def int(self, name, lo=None, hi=None, dtype="int64", py=False):
        dt = np.dtype(dtype)
        if lo is not None and lo == hi:
            t = z3.BitVec(name, dt.itemsize * 8)
            self._declare(name, t, dt.kind)
            self.eng.assume(t == lo)
            return lo if py else dt.type(lo)
        t = z3.BitVec(name, dt.itemsize * 8)
        self._declare(name, t, dt.kind)
        cs = []
        if lo is not None:
            cs.append(t >= lo if dt.kind == "i" else z3.UGE(t, z3.BitVecVal(lo, t.size())))
        if hi is not None:
            cs.append(t <= hi if dt.kind == "i" else z3.ULE(t, z3.BitVecVal(hi, t.size())))
        if cs:
            self.eng.assume(z3.And(*cs))
        return SymScalar(t, dt, py)

    def bool(self, name):
        t = z3.Bool(name)
        self._declare(name, t, "b")
        return SymScalar(t, S.BOOL)

    def float(self, name, dtype="float64"):
        dt = np.dtype(dtype)
        t = z3.FP(name, S.fpsort(dt))
        self._declare(name, t, "f%d" % dt.itemsize)
        return SymScalar(t, dt)

    def string(self, name):
        t = z3.String(name)
        self._declare(name, t, "s")
        return text.SymStr(t)

    def assume(self, cond):
        r = S.rawof(cond)
        self.eng.assume(S.truth(*r))

    def values(self, model):
        out = {}
        for name, (t, kind) in self.eng.syms.items():
            v = model.eval(t, model_completion=True)
            if kind == "b":
                out[name] = z3.is_true(v)
            elif kind == "i":
                out[name] = v.as_signed_long()
            elif kind == "u":
                out[name] = v.as_long()
            elif kind == "s":
                out[name] = text.pystring(v)
            else:
                out[name] = S.fpval(v)
        return out

    def require(self, label, cond, info):
        """the solver decides whether cond holds for every value on this path"""
        self.nchecks += 1
        if isinstance(cond, SymScalar):
            cond = S.truth(cond._e, cond._dt)
        if not issym(cond):
            if cond:
                return
            raise Violated(label, info(), self.eng.getmodel())
        cond = engine.simplify(cond)
        if z3.is_true(cond):
            return
        cond = self.eng.under(cond)
        if z3.is_true(cond):
            return
        r, m = self.eng.check(z3.Not(cond))
        if r == z3.unsat:
            return
        if r == z3.unknown:
            raise Incomplete("solver returned unknown on an assertion")
        raise Violated(label, info(), m)

    def fail(self, label, info):
        self.nchecks += 1
        raise Violated(label, info, self.eng.getmodel())

    def show(self, x):
        return x

class Real(Base):
    symbolic = False

    def __init__(self, copy, values):
        Base.__init__(self, copy)
        self.vals = values
        self.used = {}

    def _get(self, name, default):
        v = self.vals.get(name, default)
        self.used[name] = v
        return v

    def int(self, name, lo=None, hi=None, dtype="int64", py=False):
        v = self._get(name, lo if lo is not None else 0)
        return int(v) if py else np.dtype(dtype).type(v)

    def bool(self, name):
        return np.bool_(self._get(name, False))

    def float(self, name, dtype="float64"):
        return np.dtype(dtype).type(self._get(name, 0.0))

    def string(self, name):
        return text.Input(self._get(name, ""))

    def assume(self, cond):
        if not bool(cond):
            raise Infeasible()

    def require(self, label, cond, info):
        self.nchecks += 1
        if not bool(cond):
            raise Violated(label, info())

    def fail(self, label, info):
        self.nchecks += 1
        raise Violated(label, info)

    def show(self, x):
        return x

_LEAF = (bool, int, float, complex, np.generic)

def eqcond(a, b):
    """condition (Python bool or z3 Bool) under which two normal forms are equal; NaN equals NaN"""
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if type(a) is not type(b) or len(a) != len(b):
            return False
        cs = []
        for x, y in zip(a, b):
            c = eqcond(x, y)
            if c is False:
                return False
            cs.append(c)
        return S.and_(*cs)
    if isinstance(a, dict) or isinstance(b, dict):
        if not isinstance(a, dict) or not isinstance(b, dict) or set(a) != set(b):
            return False
        return S.and_(*[eqcond(a[k], b[k]) for k in a])
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, text.SymStr) or isinstance(b, text.SymStr):
        x, y = text.term(a), text.term(b)
        return False if x is None or y is None else engine.simplify(x == y)
    if isinstance(a, str) and isinstance(b, str):
        return str(a) == str(b)
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
        return type(a) is type(b) and a == b
    ra, rb = S.rawof(a), S.rawof(b)
    if ra is None or rb is None:
        return a is b
    (x, dx), (y, dy) = ra, rb
    if not issym(x) and not issym(y):
        return bool(x == y or (x != x and y != y))
    if dx != dy:
        if "O" in (dx.kind, dy.kind):
            return False
        # compare mathematically: integers of different signedness need care
        kinds = {dx.kind, dy.kind}
        if kinds == {"i", "u"}:
            n = max(dx.itemsize, dy.itemsize) * 8 + 1
            ext = lambda e, d: (z3.SignExt if d.kind == "i" else z3.ZeroExt)(n - d.itemsize * 8, S.lift(e, d))
            return engine.simplify(ext(x, dx) == ext(y, dy))
        dt = np.result_type(dx, dy)
        x, y = S.cast(x, dx, dt), S.cast(y, dy, dt)
    else:
        dt = dx
    if dt.kind == "f":
        X, Y = S.lift(x, dt), S.lift(y, dt)
        if X.eq(Y):
            return True
        return engine.simplify(z3.Or(z3.ExprRef.__eq__(X, Y), z3.fpEQ(X, Y)))   # = holds for two NaNs, fp.eq for zeros of either sign
    return S.cmp("eq", x, y, dt)

def concretized(x, model):
    """evaluate a normal form in a model"""
    if isinstance(x, text.SymStr):
        return text.pystring(model.eval(x._term, model_completion=True))
    if isinstance(x, SymScalar):
        v = model.eval(x._e, model_completion=True)
        k = x._dt.kind
        if k == "b":
            return z3.is_true(v)
        if k == "i":
            return v.as_signed_long()
        if k == "u":
            return v.as_long()
        return S.fpval(engine.simplify(v))
    if isinstance(x, list):
        return [concretized(y, model) for y in x]
    if isinstance(x, tuple):
        return tuple(concretized(y, model) for y in x)
    if isinstance(x, dict):
        return dict((k, concretized(y, model)) for k, y in x.items())
    if isinstance(x, np.generic):
        return x.item()
    return x

def plain_equal(a, b):
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(plain_equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(plain_equal(a[k], b[k]) for k in a)
    if isinstance(a, np.generic): a = a.item()
    if isinstance(b, np.generic): b = b.item()
    return a == b
