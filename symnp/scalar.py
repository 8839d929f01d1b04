"""Symbolic machine scalars with exact numpy semantics.

A raw element is either a concrete Python bool/int/float/complex or a z3 term
(Bool for bool_, BitVec(8*itemsize) for integers, FP for floats); its numpy
dtype is carried alongside.
"""
import numpy as np
import z3
import math
from . import engine
from .engine import Incomplete

RNE = z3.RNE()
RTZ = z3.RTZ()
F64 = z3.Float64()
F32 = z3.Float32()
BOOL = np.dtype(np.bool_)
INT64 = np.dtype(np.int64)
FLOAT64 = np.dtype(np.float64)
OBJECT = np.dtype(object)

def issym(e):
    return isinstance(e, z3.ExprRef)

def fpsort(dt):
    if dt.itemsize == 8:
        return F64
    if dt.itemsize == 4:
        return F32
    raise Incomplete("float type {0} is not encoded".format(dt))

def encodable(dt):
    return dt.kind in "biu" or (dt.kind == "f" and dt.itemsize in (4, 8))

def lift(e, dt):
    """raw element of dtype dt -> z3 term"""
    if issym(e):
        return e
    k = dt.kind
    if k == "b":
        return z3.BoolVal(bool(e))
    if k in "iu":
        return z3.BitVecVal(int(e), dt.itemsize * 8)
    if k == "f":
        return z3.FPVal(float(e), fpsort(dt))
    raise Incomplete("dtype {0} is not encoded".format(dt))

def norm(e, dt):
    """concrete value -> canonical Python scalar of dtype dt"""
    if dt.kind == "b":
        return bool(e)
    if dt.kind in "iu":
        n = dt.itemsize * 8
        if isinstance(e, (float, np.floating)):
            with np.errstate(all="ignore"):
                return np.array(e).astype(dt).item()
        e = int(e) & ((1 << n) - 1)
        if dt.kind == "i" and e >> (n - 1):
            e -= 1 << n
        return e
    if dt.kind == "f":
        with np.errstate(all="ignore"):
            return float(np.array(e).astype(dt))
    return np.array(e).astype(dt).item()

def simp(t):
    t = engine.simplify(t)
    return t

def unlift(t, dt):
    """fold constants back to Python values"""
    t = engine.simplify(t)
    k = dt.kind
    if k == "b":
        if z3.is_true(t): return True
        if z3.is_false(t): return False
    elif k == "i":
        if z3.is_bv_value(t): return t.as_signed_long()
    elif k == "u":
        if z3.is_bv_value(t): return t.as_long()
    elif k == "f":
        if z3.is_fp_value(t): return fpval(t)
    return t

def fpisnan(t):
    """fpIsNaN, seeing through what cannot make or lose a NaN (integers converted to floating point are none)"""
    k = t.decl().kind()
    if k == z3.Z3_OP_FPA_TO_FP and t.num_args() == 2:
        inner = t.arg(1)
        if z3.is_fp(inner):
            return fpisnan(inner)
        if z3.is_bv(inner) or z3.is_real(inner):
            return z3.BoolVal(False)
    elif k == z3.Z3_OP_FPA_TO_FP_UNSIGNED:
        return z3.BoolVal(False)
    elif k == z3.Z3_OP_ITE:
        c, x, y = t.children()
        x, y = fpisnan(x), fpisnan(y)
        return x if x.eq(y) else z3.If(c, x, y)
    elif k in (z3.Z3_OP_FPA_NEG, z3.Z3_OP_FPA_ABS):
        return fpisnan(t.arg(0))
    return z3.fpIsNaN(t)

def fpval(t):
    if t.isNaN():
        return float("nan")
    if t.isInf():
        return -float("inf") if t.isNegative() else float("inf")
    bv = engine.simplify(z3.fpToIEEEBV(t)).as_long()
    if t.sort() == F64:
        return float(np.array(bv, dtype=np.uint64).view(np.float64))
    return float(np.array(bv, dtype=np.uint32).view(np.float32))

def fpbits_to_float(bits, dt):
    if dt.itemsize == 8:
        return float(np.array(bits, dtype=np.uint64).view(np.float64))
    return float(np.array(bits, dtype=np.uint32).view(np.float32))

def cast(e, dt, to):
    """C-style cast of a raw element"""
    if dt == to or to.kind == "O":
        return e
    if dt.kind == "O":
        if isinstance(e, SymScalar):
            return cast(e._e, e._dt, to)
        if e is None and to.kind == "f":
            return float("nan")
        return norm(e, to)
    if not issym(e):
        return norm(e, to)
    f, t = dt.kind, to.kind
    if t == "b":
        if f in "iu":
            return unlift(e != 0, to)
        return unlift(z3.Not(z3.fpIsZero(e)), to)
    if t in "iu":
        n = to.itemsize * 8
        if f == "b":
            return unlift(z3.If(e, z3.BitVecVal(1, n), z3.BitVecVal(0, n)), to)
        if f in "iu":
            m = dt.itemsize * 8
            if m == n:
                return e
            if m > n:
                return unlift(z3.Extract(n - 1, 0, e), to)
            return unlift(z3.SignExt(n - m, e) if f == "i" else z3.ZeroExt(n - m, e), to)
        # float -> int outside of range is undefined in C: require it to be in range
        s = fpsort(dt)
        lim = float(2 ** (n - 1 if t == "i" else n))
        lo = -lim if t == "i" else -1.0
        inr = z3.And(z3.Not(fpisnan(e)), z3.fpLT(e, z3.FPVal(lim, s)),
                     z3.fpGEQ(e, z3.FPVal(lo, s)) if t == "i" else z3.fpGT(e, z3.FPVal(lo, s)))
        if not engine.current().decide(inr):
            raise Incomplete("float-to-integer cast out of range is undefined behaviour")
        return unlift(z3.fpToSBV(RTZ, e, z3.BitVecSort(n)) if t == "i" else z3.fpToUBV(RTZ, e, z3.BitVecSort(n)), to)
    if t == "f":
        s = fpsort(to)
        if f == "b":
            return unlift(z3.If(e, z3.FPVal(1.0, s), z3.FPVal(0.0, s)), to)
        if f == "i":
            return unlift(z3.fpSignedToFP(RNE, e, s), to)
        if f == "u":
            return unlift(z3.fpUnsignedToFP(RNE, e, s), to)
        return unlift(z3.fpFPToFP(RNE, e, s), to)
    raise Incomplete("cast of a symbolic {0} to {1}".format(dt, to))

def truth(e, dt):
    """raw -> condition (Python bool or z3 Bool)"""
    if dt.kind == "O":
        if isinstance(e, SymScalar):
            return truth(e._e, e._dt)
        return bool(e)
    if not issym(e):
        return bool(e)
    return cast(e, dt, BOOL)

def decide(c):
    if c is True or c is False or isinstance(c, np.bool_):
        return bool(c)
    return engine.current().decide(c)

def concretize(e, dt):
    """concrete Python value of a raw element (forks)"""
    if dt.kind == "O":
        if isinstance(e, SymScalar):
            return e._concrete()
        return e
    if not issym(e):
        return e
    if dt.kind == "b":
        return engine.current().decide(e)
    if dt.kind in "iu":
        return engine.current().concretize(e, dt.kind == "i")
    if dt.kind == "f":
        # only worthwhile when the value is determined
        eng = engine.current()
        m = eng.getmodel()
        v = m.eval(e, model_completion=True)
        r, _ = eng.check(z3.Not(e == v))
        if str(r) == "unsat":
            return fpval(v)
        raise Incomplete("a symbolic float is needed as a concrete value")
    raise Incomplete("cannot make a concrete {0}".format(dt))

def ite(c, a, b, dt):
    if c is True or (not issym(c) and c):
        return a
    if not issym(c):
        return b
    if not issym(a) and not issym(b):
        if dt.kind == "f":
            if a == b or (a != a and b != b):
                return a
        elif dt.kind == "O":
            if a is b:
                return a
        elif a == b:
            return a
    if dt.kind == "O":
        if isinstance(a, SymScalar) and isinstance(b, SymScalar) and a._dt == b._dt and a._py == b._py:
            return make(ite(c, a._e, b._e, a._dt), a._dt, a._py)
        return a if decide(c) else b
    return unlift(z3.If(c, lift(a, dt), lift(b, dt)), dt)

def and_(*cs):
    out = []
    for c in cs:
        if issym(c):
            out.append(c)
        elif not c:
            return False
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)

def or_(*cs):
    out = []
    for c in cs:
        if issym(c):
            out.append(c)
        elif c:
            return True
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)

def not_(c):
    if issym(c):
        return z3.Not(c)
    return not c

_SWAP = {"lt": "gt", "le": "ge", "eq": "eq", "ne": "ne", "gt": "lt", "ge": "le"}

def _cmpconverted(op, x, c):
    """(x converted to a wider float) op (float constant c) without the conversion, or None"""
    k = x.decl().kind()
    if x.num_args() != 2 or k not in (z3.Z3_OP_FPA_TO_FP, z3.Z3_OP_FPA_TO_FP_UNSIGNED) or c != c or not x.arg(0).eq(RNE):
        return None
    t = x.arg(1)
    if z3.is_fp(t):
        if t.sort() != F32 or x.sort() != F64:
            return None
        with np.errstate(all="ignore"):
            if float(np.float32(c)) != c:
                return None
        return cmp(op, t, float(c), np.dtype(np.float32))
    if not z3.is_bv(t):
        return None
    mant = 53 if x.sort() == F64 else 24
    if abs(c) == float("inf"):
        if t.size() > 64:
            return None
        return {"lt": c > 0, "le": c > 0, "eq": False, "ne": True, "gt": c < 0, "ge": c < 0}[op]
    if abs(c) >= 2.0 ** (mant - 1):
        return None       # below that the conversion is exact and order-preserving around c
    signed = k == z3.Z3_OP_FPA_TO_FP
    lo, hi = (-2 ** (t.size() - 1), 2 ** (t.size() - 1) - 1) if signed else (0, 2 ** t.size() - 1)
    f = math.floor(c)
    if f != c:
        if op in ("eq", "ne"):
            return op == "ne"
        op, v = ("le", f) if op in ("lt", "le") else ("ge", f + 1)
    else:
        v = f
    if v < lo:
        return op in ("gt", "ge", "ne")
    if v > hi:
        return op in ("lt", "le", "ne")
    return cmp(op, t, v, np.dtype(("int%d" if signed else "uint%d") % t.size()))

def cmp(op, a, b, dt):
    """comparison of two raw elements of the same dtype -> condition"""
    if not issym(a) and not issym(b):
        return {"lt": a < b, "le": a <= b, "eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b}[op]
    if dt.kind == "f" and issym(a) != issym(b):
        c = _cmpconverted(op, a, b) if issym(a) else _cmpconverted(_SWAP[op], b, a)
        if c is not None:
            return c
    x, y = lift(a, dt), lift(b, dt)
    k = dt.kind
    if k == "f" and x.eq(y):
        t = z3.BoolVal(False) if op in ("lt", "gt") else fpisnan(x) if op == "ne" else z3.Not(fpisnan(x))
    elif k == "f":
        t = {"lt": z3.fpLT, "le": z3.fpLEQ, "eq": z3.fpEQ, "ne": lambda p, q: z3.Not(z3.fpEQ(p, q)), "gt": z3.fpGT, "ge": z3.fpGEQ}[op](x, y)
    elif k == "b":
        t = {"lt": lambda: z3.And(z3.Not(x), y), "le": lambda: z3.Or(z3.Not(x), y), "eq": lambda: x == y, "ne": lambda: x != y,
             "gt": lambda: z3.And(x, z3.Not(y)), "ge": lambda: z3.Or(x, z3.Not(y))}[op]()
    elif k == "u":
        t = {"lt": lambda: z3.ULT(x, y), "le": lambda: z3.ULE(x, y), "eq": lambda: x == y, "ne": lambda: x != y, "gt": lambda: z3.UGT(x, y), "ge": lambda: z3.UGE(x, y)}[op]()
    else:
        t = {"lt": lambda: x < y, "le": lambda: x <= y, "eq": lambda: x == y, "ne": lambda: x != y, "gt": lambda: x > y, "ge": lambda: x >= y}[op]()
    return unlift(t, BOOL)

def make(e, dt, py=False):
    """raw element -> scalar object handed to the code under test"""
    if dt.kind == "O":
        return e
    if issym(e):
        e = unlift(e, dt)
    if not issym(e):
        if py:
            return e
        return dt.type(e)
    return SymScalar(e, dt, py)

def rawof(x):
    """scalar object -> (raw, dtype), or None when x is not a scalar we know"""
    if isinstance(x, SymScalar):
        return x._e, x._dt
    if isinstance(x, (bool, np.bool_)):
        return bool(x), BOOL
    if isinstance(x, np.generic):
        if x.dtype.kind in "biufc":
            return x.item(), x.dtype
        return None
    if isinstance(x, int):
        if -2**63 <= x < 2**63:
            return x, INT64
        if x < 2**64:
            return x, np.dtype(np.uint64)
        return x, OBJECT
    if isinstance(x, float):
        return x, FLOAT64
    if isinstance(x, complex):
        return x, np.dtype(complex)
    return None

_PYTYPE = {"b": bool, "i": int, "u": int, "f": float}

class SymScalar(object):
    """stands for a numpy scalar (or, with py=True, a Python scalar) whose value is a z3 term"""
    __slots__ = ("_e", "_dt", "_py")
    __array_priority__ = 1000000.0

    __iter__ = None     # like numpy's scalars: subscriptable with (), not iterable
    def __init__(self, e, dt, py=False):
        self._e, self._dt, self._py = e, dt, py

    @property
    def __class__(self):
        if self._py:
            return _PYTYPE[self._dt.kind]
        return self._dt.type

    # ---- numpy scalar interface
    @property
    def dtype(self):
        if self._py:
            raise AttributeError("dtype")
        return self._dt
    @property
    def shape(self):
        if self._py:
            raise AttributeError("shape")
        return ()
    @property
    def ndim(self):
        if self._py:
            raise AttributeError("ndim")
        return 0
    @property
    def size(self):
        if self._py:
            raise AttributeError("size")
        return 1
    @property
    def itemsize(self):
        return self._dt.itemsize
    @property
    def nbytes(self):
        return self._dt.itemsize
    @property
    def base(self):
        if self._py:
            raise AttributeError("base")
        return None
    @property
    def real(self):
        return self
    def tolist(self):
        if self._py:
            raise AttributeError("tolist")
        return SymScalar(self._e, self._dt, True)
    item = tolist
    def copy(self):
        return self
    def astype(self, dt):
        dt = np.dtype(dt)
        return make(cast(self._e, self._dt, dt), dt)
    def __copy__(self):
        return self
    def __deepcopy__(self, memo):
        return self
    def any(self, *a, **k):
        return make(truth(self._e, self._dt), BOOL)
    all = any
    def _arr(self):
        from . import nd
        return nd.scalar_array(self._e, self._dt)
    def __getattr__(self, name):
        if self._py or name.startswith("__"):
            raise AttributeError(name)
        from . import nd
        if hasattr(nd.ndarray, name):
            return getattr(self._arr(), name)
        raise AttributeError(name)
    def __getitem__(self, where):
        if self._py:
            raise TypeError("'int' object is not subscriptable")
        return self._arr()[where]

    # ---- conversions that need a concrete value
    def _concrete(self):
        v = concretize(self._e, self._dt)
        return v if self._py else self._dt.type(v)
    def __bool__(self):
        return decide(truth(self._e, self._dt))
    def __index__(self):
        if self._dt.kind not in "iu":
            if self._py and self._dt.kind == "b":
                return int(concretize(self._e, self._dt))
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return int(concretize(self._e, self._dt))
    def __int__(self):
        return int(concretize(self._e, self._dt))
    def __float__(self):
        return float(concretize(self._e, self._dt))
    def __complex__(self):
        return complex(concretize(self._e, self._dt))
    def __hash__(self):
        return hash(concretize(self._e, self._dt))
    def __repr__(self):
        return "<sym {0} {1}>".format(self._dt, str(self._e).replace("\n", " ")[:60])
    def __str__(self):
        return repr(self)
    def __format__(self, spec):
        return repr(self)
    def __round__(self, n=0):
        return _uf("rint")(self)

    def __array_ufunc_sym__(self):
        return True

def _uf(name):
    from . import nd
    return nd.UFUNCS[name]

def _binary(name, uf):
    def f(self, other):
        return _binop(uf, self, other)
    def r(self, other):
        return _binop(uf, other, self)
    setattr(SymScalar, "__%s__" % name, f)
    setattr(SymScalar, "__r%s__" % name, r)

_KNOWN = (bool, int, float, complex, np.generic)

def _binop(uf, a, b):
    other = b if type(a) is SymScalar else a
    if type(other) is not SymScalar and not isinstance(other, _KNOWN):
        from . import nd
        if isinstance(other, (list, tuple)):
            pass
        elif not isinstance(other, nd.ndarray) and getattr(type(other), "__array_ufunc__", None) is None:
            return NotImplemented
    out = _uf(uf)(a, b)
    apy = a._py if type(a) is SymScalar else (isinstance(a, (bool, int, float)) and not isinstance(a, np.generic))
    bpy = b._py if type(b) is SymScalar else (isinstance(b, (bool, int, float)) and not isinstance(b, np.generic))
    if apy and bpy:
        if type(out) is SymScalar:
            return SymScalar(out._e, out._dt, True)
        if isinstance(out, np.generic):
            return out.item()
    return out

for _n, _u in [("add", "add"), ("sub", "subtract"), ("mul", "multiply"), ("truediv", "true_divide"), ("floordiv", "floor_divide"),
               ("mod", "remainder"), ("pow", "power"), ("lshift", "left_shift"), ("rshift", "right_shift"), ("divmod", "divmod"),
               ("and", "bitwise_and"), ("or", "bitwise_or"), ("xor", "bitwise_xor")]:
    _binary(_n, _u)

def _cmp(name, uf):
    def f(self, other):
        out = _binop(uf, self, other)
        if out is NotImplemented:
            if name == "eq":
                return False
            if name == "ne":
                return True
        return out
    setattr(SymScalar, "__%s__" % name, f)

for _n, _u in [("lt", "less"), ("le", "less_equal"), ("eq", "equal"), ("ne", "not_equal"), ("gt", "greater"), ("ge", "greater_equal")]:
    _cmp(_n, _u)

def _unary(name, uf):
    def f(self):
        out = _uf(uf)(self)
        if self._py:
            if type(out) is SymScalar:
                return SymScalar(out._e, out._dt, True)
            return out.item()
        return out
    setattr(SymScalar, "__%s__" % name, f)

for _n, _u in [("neg", "negative"), ("pos", "positive"), ("abs", "absolute"), ("invert", "invert")]:
    _unary(_n, _u)
