"""A numpy look-alike whose arrays may hold z3 terms.

``ndarray`` keeps a *logical* dtype (a real numpy dtype) and stores its elements
in a real numpy object array, so that shapes, strides, views, slicing and
aliasing are numpy's own; only element values are symbolic.  Operations on
arrays without symbolic elements are executed by the real numpy.
"""
import builtins
import itertools
import functools
import operator
import types
import warnings
import numpy as np
import z3

from . import engine
from .engine import Incomplete
from . import scalar as S
from .scalar import SymScalar, issym, BOOL, INT64, FLOAT64, OBJECT

TOUCHED = set()      # numpy functions executed on symbolic data (for evidence)
FALLBACK = set()     # numpy functions executed after making their symbolic arguments concrete

_obj0 = lambda: np.empty((), dtype=object)

def _box(e):
    b = np.empty((), dtype=object)
    b[()] = e
    return b

def _native(dt):
    """dtypes whose elements are kept one by one (possibly symbolic); other dtypes are stored as they are"""
    return dt.kind in "biufcO" and dt.fields is None and dt.subdtype is None

def _flatlist(s):
    """elements of an object array in C order"""
    return list(s.flat)

def _build(elems, shape):
    out = np.empty(len(elems), dtype=object)
    for i, e in enumerate(elems):
        out[i] = e
    return out.reshape(shape)

def _concstore(real):
    """real array -> object storage of canonical Python scalars"""
    if real.dtype.kind == "O":
        out = np.empty(real.shape, dtype=object)
        f = out.reshape(-1)
        for i, x in enumerate(real.flat):
            f[i] = x
        return out
    return real.astype(object)

def wrap(real, order=None):
    """real numpy result -> ndarray (or scalar)"""
    if isinstance(real, np.ma.MaskedArray) or isinstance(real, ndarray):
        return real
    if isinstance(real, np.ndarray):
        if real.dtype.kind == "O":
            st = np.empty(real.shape, dtype=object)
            f = st.reshape(-1)
            for i, x in enumerate(real.flat):
                f[i] = wrap(x) if isinstance(x, np.ndarray) else x
            return ndarray._new(st, real.dtype)
        if _native(real.dtype):
            return ndarray._new(_concstore(real), real.dtype)
        if real.base is not None:
            real = real.copy()
        return ndarray._new(real, real.dtype)
    if isinstance(real, tuple):
        if hasattr(real, "_fields"):
            return real
        return tuple(wrap(x) for x in real)
    if isinstance(real, list):
        return [wrap(x) for x in real]
    return real

def scalar_array(e, dt):
    return ndarray._new(_box(e), dt)

def has_sym(x):
    if isinstance(x, SymScalar):
        return True
    if isinstance(x, ndarray):
        return x._hassym()
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    return False

def unwrap(x, conc=False):
    """fake value -> real value; symbolic elements are made concrete when conc"""
    if isinstance(x, SymScalar):
        if not conc:
            raise Incomplete("symbolic scalar passed to a numpy function outside of the encoding")
        return x._concrete()
    if isinstance(x, ndarray):
        return x._real(conc)
    if isinstance(x, tuple):
        return tuple(unwrap(y, conc) for y in x)
    if isinstance(x, list):
        return [unwrap(y, conc) for y in x]
    if isinstance(x, dict):
        return dict((k, unwrap(v, conc)) for k, v in x.items())
    if isinstance(x, UFunc):
        return x._real
    if isinstance(x, slice):
        return slice(unwrap(x.start, conc), unwrap(x.stop, conc), unwrap(x.step, conc))
    return x

_PICKLED = []
def _unpickle(i):
    return _PICKLED[i].copy()

class _Flags(object):
    def __init__(self, arr):
        s = arr._s
        self.owndata = arr._base is None
        self.c_contiguous = s.flags.c_contiguous
        self.f_contiguous = s.flags.f_contiguous
        self.contiguous = s.flags.c_contiguous
        self.writeable = s.flags.writeable
        self.aligned = True
    def __getitem__(self, k):
        return getattr(self, {"C": "c_contiguous", "F": "f_contiguous", "C_CONTIGUOUS": "c_contiguous", "F_CONTIGUOUS": "f_contiguous", "OWNDATA": "owndata", "WRITEABLE": "writeable", "W": "writeable", "O": "owndata"}.get(k, k.lower()))

class _Ctypes(object):
    def __init__(self, arr):
        self.data = arr._addr()

class ndarray(object):
    __array_priority__ = 0.0
    _masked = False
    __hash__ = None

    def __new__(cls, shape=None, dtype=float, buffer=None, offset=0, strides=None, order=None):
        if buffer is None and strides is None:
            return empty(shape, dtype=dtype)
        raise Incomplete("numpy.ndarray constructor with a buffer")

    @classmethod
    def _new(cls, store, dt, base=None):
        self = object.__new__(cls)
        self._s = store
        self._dt = dt
        self._base = base
        return self

    # ---- storage helpers
    def _hassym(self):
        s = self._s
        if s.dtype.kind != "O":
            return False
        if self._dt.kind == "O":
            for e in s.flat:
                if type(e) is SymScalar:
                    return True
            return False
        for e in s.flat:
            if isinstance(e, z3.ExprRef):
                return True
        return False

    def _real(self, conc=False):
        """real numpy array with the same contents"""
        if self._s.dtype.kind != "O" or self._dt.kind == "O":
            if self._dt.kind == "O":
                out = np.empty(self._s.shape, dtype=object)
                f = out.reshape(-1)
                for i, e in enumerate(self._s.flat):
                    if type(e) is SymScalar:
                        if not conc:
                            raise Incomplete("symbolic element of an object array outside of the encoding")
                        e = e._concrete()
                    f[i] = e
                return out
            return self._s
        out = np.empty(self._s.shape, dtype=self._dt)
        f = out.reshape(-1)
        for i, e in enumerate(self._s.flat):
            if issym(e):
                if not conc:
                    raise Incomplete("symbolic element outside of the encoding")
                e = S.concretize(e, self._dt)
            f[i] = e
        return out

    def _view(self, s, dt=None, cls=None):
        """wrap a storage array obtained from self._s by a numpy view operation"""
        b = s.base
        if b is None:
            base = None
        elif b is self._s:
            base = self if self._base is None else self._base
        elif isinstance(self._base, ndarray) and b is self._base._s:
            base = self._base
        elif self._s.base is b:
            base = self._base if self._base is not None else self
        else:
            base = ndarray._new(b, self._dt)
        return (cls or type(self))._new(s, dt or self._dt, base)

    def _addr(self):
        own = self
        while isinstance(own._base, ndarray):
            own = own._base
        o = own._s.__array_interface__["data"][0]
        p = self._s.__array_interface__["data"][0]
        if self._s.dtype.kind != "O":
            return p
        return o + (p - o) // 8 * self._dt.itemsize

    # ---- attributes
    @property
    def dtype(self): return self._dt
    @dtype.setter
    def dtype(self, v):
        r = self.view(v)
        self._s, self._dt = r._s, r._dt
    @property
    def shape(self): return self._s.shape
    @shape.setter
    def shape(self, v):
        if not isinstance(v, tuple):
            v = (v,) if not isinstance(v, list) else tuple(v)
        self._s.shape = tuple(_idx(x) for x in v)
    @property
    def ndim(self): return self._s.ndim
    @property
    def size(self): return self._s.size
    @property
    def itemsize(self): return self._dt.itemsize
    @property
    def nbytes(self): return self._s.size * self._dt.itemsize
    @property
    def strides(self):
        if self._s.dtype.kind != "O":
            return self._s.strides
        return tuple(x // 8 * self._dt.itemsize for x in self._s.strides)
    @property
    def base(self): return self._base
    @property
    def flags(self): return _Flags(self)
    @property
    def ctypes(self): return _Ctypes(self)
    @property
    def __array_interface__(self):
        return {"data": (self._addr(), False), "shape": self.shape, "strides": None, "typestr": self._dt.str, "version": 3}
    @property
    def data(self):
        return self._real().data
    @property
    def T(self): return self._view(self._s.T)
    @property
    def flat(self): return iter([self._scalar(e) for e in self._s.flat])
    @property
    def real(self): return self if self._dt.kind != "c" else wrap(self._real().real)
    @property
    def imag(self): return wrap(self._real(True).imag)

    def _scalar(self, e):
        if self._s.dtype.kind != "O":
            return e
        return S.make(e, self._dt)

    # ---- Python protocol
    def __len__(self):
        if self._s.ndim == 0:
            raise TypeError("len() of unsized object")
        return len(self._s)
    def __iter__(self):
        if self._s.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(len(self._s)):
            yield self[i]
    def __contains__(self, x):
        return builtins.bool((self == x).any())
    def __bool__(self):
        if self._s.size == 1:
            return S.decide(S.truth(self._s.reshape(-1)[0], self._dt)) if self._s.dtype.kind == "O" else builtins.bool(self._s)
        if self._s.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
    def _single(self):
        if self._s.size != 1:
            raise TypeError("only size-1 arrays can be converted to Python scalars")
        return self._scalar(self._s.reshape(-1)[0])
    def __index__(self):
        if self._s.ndim != 0 or self._dt.kind not in "iu":
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return operator.index(self._single())
    def __int__(self): return int(self._single())
    def __float__(self): return float(self._single())
    def __complex__(self): return complex(self._single())
    def __repr__(self): return "symarray({0!r}, dtype={1})".format(self._s.tolist(), self._dt)
    __str__ = __repr__
    def __reduce__(self):
        # pickle is a black box that gives back an equal array: the array travels by reference
        _PICKLED.append(self.copy())
        return (_unpickle, (len(_PICKLED) - 1,))
    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo): return self.copy()
    def __buffer__(self, flags):
        return memoryview(np.ascontiguousarray(self._real(True)))
    def __array__(self, dtype=None):
        return self._real().astype(dtype) if dtype is not None else self._real()
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        uf = ufunc if isinstance(ufunc, UFunc) else UFUNCS.get(ufunc.__name__)
        if uf is None:
            uf = UFunc(ufunc)
        return getattr(uf, method)(*inputs, **kwargs)

    # ---- indexing
    def __getitem__(self, where):
        if self._s.dtype.kind != "O":
            r = self._s[unwrap(where, True)]
            if isinstance(r, np.ndarray):
                if r.dtype.kind in "biufcO" and r.dtype.fields is None:
                    out = wrap(r)
                    return out
                return self._view(r, r.dtype)
            return r
        if isinstance(where, str) or (isinstance(where, list) and len(where) and all(isinstance(x, str) for x in where)):
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
        # element or single-array access with a symbolic index: no fork over the values
        w = where[0] if isinstance(where, tuple) and len(where) == 1 else where
        if type(w) is SymScalar and w._dt.kind in "iu" and self._s.ndim == 1 and self._dt.kind != "O":
            return self._scalar(self._mux([w._e], w._dt, "index")[0])
        if type(w) is ndarray and w._dt.kind in "iu" and self._dt.kind != "O" and self._s.ndim >= 1 and w._hassym():
            TOUCHED.add("ndarray.__getitem__(symbolic index array)")
            n = self._s.shape[0]
            rest = self._s.shape[1:]
            elems = _flatlist(w._s)
            if rest == ():
                return type(self)._new(_build(self._mux(elems, w._dt, "index"), w._s.shape), self._dt)
            self._inbounds(elems, w._dt, n)
            cols = self._s.reshape(n, -1)
            out = np.empty((len(elems), cols.shape[1]), dtype=object)
            for j in range(cols.shape[1]):
                col = ndarray._new(cols[:, j], self._dt)._mux(elems, w._dt, None)
                for i, e in enumerate(col):
                    out[i, j] = e
            return type(self)._new(out.reshape(w._s.shape + rest), self._dt)
        idx, full = self._index(where)
        if full:
            return self._scalar(self._s[idx])
        r = self._s[idx]
        if not isinstance(r, np.ndarray):
            return self._scalar(r)
        if self._basic(idx):
            return self._view(r)
        return type(self)._new(r if r.base is None else r.copy(), self._dt)

    @staticmethod
    def _basic(idx):
        return all(x is None or x is Ellipsis or isinstance(x, slice) or (isinstance(x, int) and not isinstance(x, bool)) for x in idx)

    def _inbounds(self, elems, dt, n):
        conds = []
        for e in elems:
            if issym(e):
                if dt.kind == "u":
                    conds.append(z3.ULT(e, z3.BitVecVal(n, e.size())) if n < 2 ** e.size() else True)
                elif n >= 2 ** (e.size() - 1):
                    conds.append(True)
                else:
                    conds.append(z3.And(e >= -n, e < n))
            else:
                conds.append(-n <= e < n)
        c = S.and_(*conds)
        if not S.decide(c):
            raise IndexError("index out of bounds for axis with size {0}".format(n))

    def _mux(self, elems, dt, what):
        """elements selected from a one-dimensional array by (symbolic) integers"""
        n = self._s.shape[0]
        if what is not None:
            self._inbounds(elems, dt, n)
        vals = _flatlist(self._s)
        out = []
        for e in elems:
            if not issym(e):
                out.append(vals[e])
                continue
            size = e.size()
            r = vals[n - 1]
            for k in range(n - 2, -1, -1):
                c = e == k
                if dt.kind == "i":
                    c = z3.Or(c, e == k - n)
                r = S.ite(c, vals[k], r, self._dt)
            out.append(r)
        return out

    def _index(self, where):
        """index expression -> (tuple of real index objects, whether it selects one element)"""
        if not isinstance(where, tuple):
            where = (where,)
        out = []
        dim = 0
        nnew = sum(1 for x in where if x is None)
        # how many dimensions does each component consume (for clamping symbolic slices)
        def consumed(x):
            if x is None or x is Ellipsis:
                return 0
            if isinstance(x, ndarray) and x._dt.kind == "b":
                return x._s.ndim
            return 1
        total = sum(consumed(x) for x in where)
        allint = True
        for x in where:
            if x is Ellipsis:
                dim = self._s.ndim - sum(consumed(y) for y in where[len(out) + 1:])
                out.append(x)
                allint = False
                continue
            if x is None:
                out.append(x)
                allint = False
                continue
            n = self._s.shape[dim] if 0 <= dim < self._s.ndim else 0
            dim += consumed(x)
            if isinstance(x, slice):
                out.append(slice(_clamp(x.start, n), _clamp(x.stop, n), _idx(x.step)))
                allint = False
            elif type(x) is SymScalar:
                if x._dt.kind == "b":
                    out.append(np.bool_(S.decide(x._e)))
                    allint = False
                elif x._dt.kind in "iu":
                    self._inbounds([x._e], x._dt, n)
                    out.append(int(S.concretize(x._e, x._dt)))
                else:
                    raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
            elif isinstance(x, ndarray):
                if x._dt.kind in "iu" and x._s.ndim == 0 and not x._hassym():
                    out.append(int(x._s[()]))
                elif x._dt.kind == "b":
                    if x._hassym():
                        TOUCHED.add("ndarray.__getitem__(symbolic mask)")
                    r = np.empty(x._s.shape, dtype=bool)
                    f = r.reshape(-1)
                    d = dim - x._s.ndim
                    if tuple(x._s.shape) != tuple(self._s.shape[d:d + x._s.ndim]):
                        # numpy decides on the shape alone (raises IndexError)
                        f[:] = False
                        if x._s.ndim == 1 and len(f) and d < self._s.ndim and len(f) != self._s.shape[d]:
                            raise IndexError("boolean index did not match indexed array along dimension {0}; dimension is {1} but corresponding boolean dimension is {2}".format(d, self._s.shape[d], len(f)))
                    else:
                        for i, e in enumerate(x._s.flat):
                            f[i] = S.decide(e) if issym(e) else e
                    out.append(r)
                    allint = False
                else:
                    if x._dt.kind in "iu" and x._hassym() and 0 <= dim - 1 < self._s.ndim:
                        self._inbounds(_flatlist(x._s), x._dt, n)
                    out.append(x._real(True))
                    allint = False
            elif isinstance(x, (bool, np.bool_)):
                out.append(x)
                allint = False
            elif isinstance(x, (int, np.integer)):
                out.append(int(x))
            elif isinstance(x, (list, tuple)):
                a = array(x)
                if a._dt.kind == "f" and a._s.size == 0:
                    a = a.astype(INT64)
                out.append(a._real(True))
                allint = False
            elif hasattr(x, "__array__") or (hasattr(x, "__len__") and hasattr(x, "__getitem__") and not isinstance(x, (str, bytes, dict))):
                a = array(x)
                out.append(a._real(True))
                allint = False
            elif hasattr(x, "__index__"):
                out.append(operator.index(x))
            else:
                raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
        return tuple(out), allint and len(out) == self._s.ndim

    def __setitem__(self, where, what):
        if self._s.dtype.kind != "O":
            self._s[unwrap(where, True)] = unwrap(what, True)
            return
        if isinstance(where, str):
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
        if not self._s.flags.writeable:
            raise ValueError("assignment destination is read-only")
        w = where[0] if isinstance(where, tuple) and len(where) == 1 else where
        v = self._tostore(what)
        # scatter through symbolic positions, without forking over the positions
        if self._s.ndim == 1 and self._dt.kind != "O" and ((type(w) is SymScalar and w._dt.kind in "iu") or (type(w) is ndarray and w._dt.kind in "iu" and w._hassym())):
            TOUCHED.add("ndarray.__setitem__(symbolic index)")
            if type(w) is SymScalar:
                pos, wdt, shape = [w._e], w._dt, ()
            else:
                pos, wdt, shape = _flatlist(w._s), w._dt, w._s.shape
            n = self._s.shape[0]
            self._inbounds(pos, wdt, n)
            vals = _flatlist(np.broadcast_to(v, shape))
            for p, val in zip(pos, vals):
                if not issym(p):
                    self._s[p] = val
                    continue
                for k in range(n):
                    c = p == k
                    if wdt.kind == "i":
                        c = z3.Or(c, p == k - n)
                    self._s[k:k + 1] = _box(S.ite(c, val, self._s[k], self._dt))
            return
        # assignment under a symbolic mask of the same shape from a broadcastable single value: no fork
        if type(w) is ndarray and w._dt.kind == "b" and w._s.shape == self._s.shape and v.size == 1 and self._dt.kind != "O" and w._hassym():
            TOUCHED.add("ndarray.__setitem__(symbolic mask)")
            val = v.reshape(-1)[0]
            it = np.nditer(self._s, flags=["multi_index", "refs_ok"])
            for ix in itertools.product(*[range(k) for k in self._s.shape]):
                self._s[ix] = S.ite(w._s[ix], val, self._s[ix], self._dt)
            return
        idx, full = self._index(where)
        if full:
            if self._dt.kind == "O" and isinstance(what, ndarray) and what._s.ndim > 0:
                self._s[idx] = what
                return
            if v.size != 1:
                if self._dt.kind == "O" and not isinstance(what, ndarray):
                    self._s[idx] = what
                    return
                raise ValueError("setting an array element with a sequence.")
            self._s[idx] = v.reshape(-1)[0]
            return
        self._s[idx] = v

    def _tostore(self, what):
        """value to assign -> object array of raw elements of our dtype"""
        if self._dt.kind == "O":
            if isinstance(what, ndarray):
                if what._s.dtype.kind != "O":
                    return what._s.astype(object)
                return _build([what._scalar(e) for e in what._s.flat], what._s.shape)
            if isinstance(what, (list, tuple)):
                return _concstore(np.array(what, dtype=object))
            return _box(what)
        r = S.rawof(what)
        if r is not None:
            if r[1].kind in "f" and not issym(r[0]) and self._dt.kind in "iu" and isinstance(what, float) and r[0] != r[0]:
                raise ValueError("cannot convert float NaN to integer")
            return _box(S.cast(r[0], r[1], self._dt))
        if what is None:
            if self._dt.kind == "f":
                return _box(float("nan"))
            if self._dt.kind == "b":
                return _box(False)
            raise TypeError("int() argument must be a string, a bytes-like object or a real number, not 'NoneType'")
        if not isinstance(what, ndarray):
            what = array(what)
        return what.astype(self._dt)._s

    # ---- copies and views
    def copy(self, order="C"):
        return type(self)._new(self._s.copy(order="C" if order in ("K", "A") else order), self._dt)
    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        dt = np.dtype(dtype)
        if dt == self._dt:
            return self.copy() if copy else self
        if not (_native(dt) and _native(self._dt)):
            return wrap(self._real(True).astype(dt))
        TOUCHED.add("ndarray.astype")
        if dt.kind == "O":
            return ndarray._new(_build([SymScalar(e, self._dt, True) if issym(e) else e for e in self._s.flat], self._s.shape), dt)
        if not self._hassym():
            with np.errstate(all="ignore"):
                return wrap(self._real().astype(dt))
        if not (S.encodable(dt) and (S.encodable(self._dt) or self._dt.kind == "O")):
            return wrap(self._real(True).astype(dt))
        return ndarray._new(_build([S.cast(e, self._dt, dt) for e in self._s.flat], self._s.shape), dt)
    def view(self, dtype=None, type=None):
        if dtype is None or (isinstance(dtype, builtins.type) and issubclass(dtype, ndarray)):
            return self._view(self._s.view())
        dt = np.dtype(dtype)
        if dt == self._dt:
            return self._view(self._s.view())
        owner = self if self._base is None else self._base
        if not self._hassym():
            out = wrap(np.ascontiguousarray(self._real()).view(dt))
            if isinstance(out, ndarray):
                out._base = owner
            return out
        if dt.itemsize == self._dt.itemsize and _native(dt):
            TOUCHED.add("ndarray.view")
            f, t = self._dt.kind, dt.kind
            if f == "b" and t in "iu":
                return ndarray._new(_build([S.cast(e, BOOL, dt) for e in self._s.flat], self._s.shape), dt, owner)
            if f in "iu" and t == "b":
                for e in self._s.flat:
                    if issym(e) and not engine.current().decide(z3.Or(e == 0, e == 1)):
                        raise Incomplete("viewing bytes other than 0 and 1 as booleans")
                return ndarray._new(_build([S.cast(e, self._dt, dt) for e in self._s.flat], self._s.shape), dt, owner)
            if f in "iu" and t in "iu":
                return ndarray._new(_build([e if issym(e) else S.norm(e, dt) for e in self._s.flat], self._s.shape), dt, owner)
            if f in "f" and t in "iu":
                return ndarray._new(_build([z3.fpToIEEEBV(S.lift(e, self._dt)) for e in self._s.flat], self._s.shape), dt, owner)
            if f in "iu" and t in "f":
                return ndarray._new(_build([S.unlift(z3.fpBVToFP(S.lift(e, self._dt), S.fpsort(dt)), dt) for e in self._s.flat], self._s.shape), dt, owner)
        if self._dt.kind in "iu" and dt.kind in "iu" and self._s.ndim == 1 and self._s.flags.c_contiguous:
            TOUCHED.add("ndarray.view")
            a, b = self._dt.itemsize, dt.itemsize
            if a > b:
                out = []
                for e in self._s.flat:
                    t = S.lift(e, self._dt)
                    for j in range(a // b):
                        out.append(S.unlift(z3.Extract(8 * b * (j + 1) - 1, 8 * b * j, t), dt))
                return ndarray._new(_build(out, (len(out),)), dt, owner)
            k = b // a
            if self._s.size % k == 0:
                es = [S.lift(e, self._dt) for e in self._s.flat]
                out = [S.unlift(z3.Concat(*reversed(es[i:i + k])), dt) for i in range(0, len(es), k)]
                return ndarray._new(_build(out, (len(out),)), dt, owner)
            raise ValueError("When changing to a larger dtype, its size must be a divisor of the total size in bytes of the last axis of the array.")
        return wrap(np.ascontiguousarray(self._real(True)).view(dt))
    def reshape(self, *shape, **kw):
        order = kw.get("order", "C")
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        elif len(shape) == 1 and isinstance(shape[0], ndarray):
            shape = tuple(shape[0])
        return self._view(self._s.reshape(tuple(_idx(x) for x in shape), order=order))
    def ravel(self, order="C"):
        return self._view(self._s.ravel(order))
    def flatten(self, order="C"):
        return type(self)._new(self._s.flatten(order), self._dt)
    def transpose(self, *axes):
        return self._view(self._s.transpose(*axes))
    def swapaxes(self, a, b):
        return self._view(self._s.swapaxes(a, b))
    def squeeze(self, axis=None):
        return self._view(self._s.squeeze(axis))
    def tolist(self):
        if self._s.dtype.kind != "O":
            return self._s.tolist()
        def rec(s):
            if s.ndim == 0:
                e = s[()]
                return S.make(e, self._dt, True) if self._dt.kind != "O" else e
            if s.ndim == 1:
                return [S.make(s[i], self._dt, True) if self._dt.kind != "O" else s[i] for i in range(len(s))]
            return [rec(s[i]) for i in range(len(s))]
        return rec(self._s)
    def item(self, *args):
        if args:
            return self[args if len(args) > 1 else args[0]].tolist()
        return S.make(self._s.reshape(-1)[0], self._dt, True) if self._s.dtype.kind == "O" else self._s.item()
    def tobytes(self, order="C"):
        if SYMBYTES and order == "C" and _native(self._dt) and not all(isinstance(e, (bool, int, float, np.generic)) for e in self._s.flat):
            return SymBuffer(self.ravel().copy())
        return self._real(True).tobytes(order)
    tostring = tobytes
    def byteswap(self, inplace=False):
        if inplace or self._hassym():
            raise Incomplete("byteswap")
        return wrap(self._real().byteswap())
    def newbyteorder(self, *a):
        return wrap(self._real(True).newbyteorder(*a))
    def fill(self, v):
        self[...] = v
    def resize(self, *shape, **kw):
        raise Incomplete("in-place ndarray.resize")
    def put(self, ind, v, mode="raise"):
        put(self, ind, v, mode)
    def take(self, indices, axis=None, out=None, mode="raise"):
        return take(self, indices, axis)
    def repeat(self, repeats, axis=None):
        return repeat(self, repeats, axis)
    def nonzero(self):
        return nonzero(self)
    def sort(self, axis=-1, kind=None, order=None):
        self[...] = sort(self, axis)
    def argsort(self, axis=-1, kind=None, order=None):
        return argsort(self, axis)
    def searchsorted(self, v, side="left", sorter=None):
        return searchsorted(self, v, side, sorter)
    def compress(self, cond, axis=None):
        return compress(cond, self, axis)
    def choose(self, choices, **kw):
        return choose(self, choices, **kw)
    def clip(self, a_min=None, a_max=None, out=None):
        return clip(self, a_min, a_max)
    def round(self, decimals=0, out=None):
        return UFUNCS["rint"](self) if decimals == 0 else _fallback("round", np.round)(self, decimals)
    def conj(self): return self
    conjugate = conj
    def dot(self, o): return _fallback("dot", np.dot)(self, o)
    def diagonal(self, *a, **k): return self._view(self._s.diagonal(*a, **k))

    # ---- reductions
    def sum(self, axis=None, dtype=None, out=None, keepdims=False): return UFUNCS["add"].reduce(self, axis, dtype, out, keepdims)
    def prod(self, axis=None, dtype=None, out=None, keepdims=False): return UFUNCS["multiply"].reduce(self, axis, dtype, out, keepdims)
    def max(self, axis=None, out=None, keepdims=False): return UFUNCS["maximum"].reduce(self, axis, None, out, keepdims)
    def min(self, axis=None, out=None, keepdims=False): return UFUNCS["minimum"].reduce(self, axis, None, out, keepdims)
    def any(self, axis=None, out=None, keepdims=False): return UFUNCS["logical_or"].reduce(self, axis, None, out, keepdims)
    def all(self, axis=None, out=None, keepdims=False): return UFUNCS["logical_and"].reduce(self, axis, None, out, keepdims)
    def cumsum(self, axis=None, dtype=None, out=None): return cumsum(self, axis, dtype, out)
    def cumprod(self, axis=None, dtype=None, out=None): return _accumulate("multiply", self, axis, dtype, out)
    def argmax(self, axis=None, out=None): return argmax(self, axis)
    def argmin(self, axis=None, out=None): return argmin(self, axis)
    def ptp(self, axis=None): return self.max(axis) - self.min(axis)
    def mean(self, axis=None, dtype=None, out=None): return mean(self, axis)
    def std(self, *a, **k): return _fallback("std", np.std)(self, *a, **k)
    def var(self, *a, **k): return _fallback("var", np.var)(self, *a, **k)

def _idx(x):
    """Python int from anything usable as an index (forks on symbolic values)"""
    if x is None:
        return None
    return operator.index(x)

def _clamp(x, n):
    """slice bound, made concrete; values beyond the array are told apart only as far as a slice can"""
    if type(x) is not SymScalar:
        return _idx(x)
    if x._dt.kind != "i":
        return _idx(x)
    eng = engine.current()
    if eng.decide(x._e > n):
        return n + 1
    if eng.decide(x._e < -n):
        return -n - 1
    return int(S.concretize(x._e, x._dt))

# ------------------------------------------------------------------ ufuncs

def _i(name, fn):
    return fn

def _floordiv_int(x, y, dt):
    n = dt.itemsize * 8
    if dt.kind == "u":
        return z3.If(y == 0, z3.BitVecVal(0, n), z3.UDiv(x, y))
    q = x / y          # signed division truncating toward zero
    r = z3.SRem(x, y)
    adj = z3.And(r != 0, (r < 0) != (y < 0))
    return z3.If(y == 0, z3.BitVecVal(0, n), z3.If(adj, q - 1, q))

def _mod_int(x, y, dt):
    n = dt.itemsize * 8
    if dt.kind == "u":
        return z3.If(y == 0, z3.BitVecVal(0, n), z3.URem(x, y))
    r = z3.SRem(x, y)
    return z3.If(y == 0, z3.BitVecVal(0, n), z3.If(z3.And(r != 0, (r < 0) != (y < 0)), r + y, r))

def _minmax(x, y, dt, mx, nanprop=True):
    if dt.kind == "b":
        return z3.Or(x, y) if mx else z3.And(x, y)
    if dt.kind == "f":
        c = z3.fpGEQ(x, y) if mx else z3.fpLEQ(x, y)
        if nanprop:
            return z3.If(z3.Or(c, S.fpisnan(x)), x, y)
        return z3.If(z3.Or(c, S.fpisnan(y)), x, y)
    if dt.kind == "u":
        c = z3.UGE(x, y) if mx else z3.ULE(x, y)
    else:
        c = x >= y if mx else x <= y
    return z3.If(c, x, y)

def _shift(x, y, dt, left):
    n = dt.itemsize * 8
    big = z3.UGE(y, z3.BitVecVal(n, n))      # also true for negative shift counts
    if left:
        return z3.If(big, z3.BitVecVal(0, n), x << y)
    if dt.kind == "u":
        return z3.If(big, z3.BitVecVal(0, n), z3.LShR(x, y))
    return z3.If(big, z3.If(x < 0, z3.BitVecVal(-1, n), z3.BitVecVal(0, n)), x >> y)

def _k_add(x, y, dt): return z3.Or(x, y) if dt.kind == "b" else z3.fpAdd(S.RNE, x, y) if dt.kind == "f" else x + y
def _k_sub(x, y, dt): return z3.fpSub(S.RNE, x, y) if dt.kind == "f" else x - y
def _k_mul(x, y, dt): return z3.And(x, y) if dt.kind == "b" else z3.fpMul(S.RNE, x, y) if dt.kind == "f" else x * y
def _k_div(x, y, dt): return z3.fpDiv(S.RNE, x, y)
def _k_fdiv(x, y, dt):
    if dt.kind == "f":
        raise Incomplete("floor_divide of symbolic floats")
    return _floordiv_int(x, y, dt)
def _k_mod(x, y, dt):
    if dt.kind == "f":
        raise Incomplete("remainder of symbolic floats")
    return _mod_int(x, y, dt)
def _k_pow(x, y, dt):
    yy = S.unlift(y, dt)
    if not issym(yy) and 0 <= yy <= 4 and yy == int(yy):
        if yy == 0:
            return S.lift(1, dt)
        out = x
        for _ in range(int(yy) - 1):
            out = _k_mul(out, x, dt)
        return out
    raise Incomplete("power with a symbolic exponent")

BINARY = {
    "add": _k_add, "subtract": _k_sub, "multiply": _k_mul, "true_divide": _k_div, "divide": _k_div, "floor_divide": _k_fdiv, "remainder": _k_mod, "mod": _k_mod,
    "power": _k_pow,
    "maximum": lambda x, y, dt: _minmax(x, y, dt, True), "minimum": lambda x, y, dt: _minmax(x, y, dt, False),
    "fmax": lambda x, y, dt: _minmax(x, y, dt, True, False), "fmin": lambda x, y, dt: _minmax(x, y, dt, False, False),
    "bitwise_and": lambda x, y, dt: z3.And(x, y) if dt.kind == "b" else x & y,
    "bitwise_or": lambda x, y, dt: z3.Or(x, y) if dt.kind == "b" else x | y,
    "bitwise_xor": lambda x, y, dt: z3.Xor(x, y) if dt.kind == "b" else x ^ y,
    "left_shift": lambda x, y, dt: _shift(x, y, dt, True), "right_shift": lambda x, y, dt: _shift(x, y, dt, False),
}
UNARY = {
    "negative": lambda x, dt: z3.fpNeg(x) if dt.kind == "f" else -x,
    "positive": lambda x, dt: x,
    "absolute": lambda x, dt: x if dt.kind in "bu" else z3.fpAbs(x) if dt.kind == "f" else z3.If(x < 0, -x, x),
    "fabs": lambda x, dt: z3.fpAbs(x),
    "invert": lambda x, dt: z3.Not(x) if dt.kind == "b" else ~x,
    "square": lambda x, dt: _k_mul(x, x, dt),
    "sqrt": lambda x, dt: z3.fpSqrt(S.RNE, x),
    "conjugate": lambda x, dt: x,
    "rint": lambda x, dt: z3.fpRoundToIntegral(S.RNE, x), "floor": lambda x, dt: z3.fpRoundToIntegral(z3.RTN(), x),
    "ceil": lambda x, dt: z3.fpRoundToIntegral(z3.RTP(), x), "trunc": lambda x, dt: z3.fpRoundToIntegral(S.RTZ, x),
    "sign": lambda x, dt: (z3.If(x < 0, z3.BitVecVal(-1, x.size()), z3.If(x == 0, z3.BitVecVal(0, x.size()), z3.BitVecVal(1, x.size()))) if dt.kind == "i" else
                           z3.If(x == 0, z3.BitVecVal(0, x.size()), z3.BitVecVal(1, x.size())) if dt.kind == "u" else
                           z3.If(S.fpisnan(x), x, z3.If(z3.fpGT(x, z3.FPVal(0, x.sort())), z3.FPVal(1, x.sort()), z3.If(z3.fpLT(x, z3.FPVal(0, x.sort())), z3.FPVal(-1, x.sort()), z3.FPVal(0, x.sort()))))),
}
UNARY["bitwise_not"] = UNARY["invert"]
UNARY["conj"] = UNARY["conjugate"]
UNARY["abs"] = UNARY["absolute"]
COMPARE = {"less": "lt", "less_equal": "le", "equal": "eq", "not_equal": "ne", "greater": "gt", "greater_equal": "ge"}
LOGICAL = {"logical_and": S.and_, "logical_or": S.or_, "logical_not": S.not_,
           "logical_xor": lambda a, b: z3.Xor(S.lift(a, BOOL), S.lift(b, BOOL)) if issym(a) or issym(b) else bool(a) != bool(b)}
PREDICATE = {"isnan": lambda x, dt: S.fpisnan(x) if dt.kind == "f" else False,
             "isinf": lambda x, dt: z3.fpIsInf(x) if dt.kind == "f" else False,
             "isfinite": lambda x, dt: z3.Not(z3.Or(S.fpisnan(x), z3.fpIsInf(x))) if dt.kind == "f" else True,
             "signbit": lambda x, dt: z3.fpIsNegative(x) if dt.kind == "f" else x < 0}

def _dummy(x):
    """stand-in with the same dtype (and scalar-ness) for type resolution"""
    if isinstance(x, ndarray):
        if x._s.ndim == 0:
            return _scalar_dummy(x._s[()], x._dt)
        return np.ones((1,) * x._s.ndim, dtype=x._dt) if x._dt.kind != "O" else np.ones((1,) * x._s.ndim, dtype=object)
    if type(x) is SymScalar:
        return _scalar_dummy(x._e, x._dt)
    return x

def _scalar_dummy(e, dt):
    if not issym(e):
        return dt.type(e) if dt.kind != "O" else e
    return dt.type(1)

def _value_based(args):
    """numpy 1.x looks at the value of a scalar when it meets an array of the same kind but another size:
    fork on the smallest type that holds the symbolic value"""
    arrs = [a for a in args if isinstance(a, ndarray) and a._s.ndim > 0]
    if not arrs:
        return None
    kinds = {"b": 0, "u": 1, "i": 1, "f": 2, "c": 3}
    amax = max(kinds.get(a._dt.kind, 9) for a in arrs)
    repl = {}
    for a in args:
        sc = a if type(a) is SymScalar else None
        if sc is None and isinstance(a, ndarray) and a._s.ndim == 0 and issym(a._s[()]):
            sc = SymScalar(a._s[()], a._dt)
        if sc is None:
            continue
        k = kinds.get(sc._dt.kind, 9)
        if k > amax or sc._dt.kind in "bf":
            continue
        if all(b._dt == sc._dt for b in arrs) or (amax == 2 and all(b._dt.itemsize == 8 for b in arrs)):
            continue
        v = None
        n = sc._dt.itemsize * 8
        eng = engine.current()
        if sc._dt.kind == "i":
            for lim in [x for x in (8, 16, 32) if x < n]:
                if eng.decide(z3.And(sc._e >= 0, sc._e < 2 ** lim)):
                    v = 2 ** (lim - 1) if not eng.decide(sc._e < 2 ** (lim - 1)) else 2 ** (lim - 1) - 1
                    break
                if eng.decide(z3.And(sc._e < 0, sc._e >= -2 ** (lim - 1))):
                    v = -2 ** (lim - 1)
                    break
            else:
                v = 2 ** 40 if eng.decide(sc._e >= 0) else -2 ** 40
        else:
            for lim in [x for x in (8, 16, 32) if x < n]:
                if eng.decide(z3.ULT(sc._e, z3.BitVecVal(2 ** lim, n))):
                    v = 2 ** lim - 1
                    break
            else:
                v = 2 ** (n - 1)
        repl[id(a)] = sc._dt.type(v)
    return repl or None

class UFunc(object):
    def __init__(self, real):
        self._real = real
        self.__name__ = real.__name__
        self.__doc__ = real.__doc__
        self.nin, self.nout, self.nargs = real.nin, real.nout, real.nargs
        self.identity = real.identity
        self.types = real.types
        self.ntypes = real.ntypes
        self.signature = real.signature

    def __repr__(self):
        return "<sym ufunc {0!r}>".format(self.__name__)

    def __reduce__(self):
        return (_getufunc, (self.__name__,))

    def _override(self, method, args, kwargs):
        seen = []
        for x in list(args) + [y for y in (kwargs.get("out") if isinstance(kwargs.get("out"), tuple) else (kwargs.get("out"),)) if y is not None]:
            t = type(x)
            if t is ndarray or t is SymScalar or isinstance(x, ndarray) or isinstance(x, (np.generic, np.ndarray)):
                continue
            au = getattr(t, "__array_ufunc__", _MISSING)
            if au is _MISSING:
                continue
            if au is None:
                raise TypeError("operand '{0}' does not support ufuncs (__array_ufunc__=None)".format(t.__name__))
            if all(type(y) is not t for y in seen):
                # subclasses go first
                for i, y in enumerate(seen):
                    if isinstance(x, type(y)):
                        seen.insert(i, x)
                        break
                else:
                    seen.append(x)
        if not seen:
            return False, None
        kw = dict(kwargs)
        if "out" in kw:
            if kw["out"] is None:
                del kw["out"]
            elif not isinstance(kw["out"], tuple):
                kw["out"] = (kw["out"],)
        for x in seen:
            r = x.__array_ufunc__(self, method, *args, **kw)
            if r is not NotImplemented:
                return True, r
        raise TypeError("operand type(s) all returned NotImplemented from __array_ufunc__({0!r}, {1!r}, ...): {2}".format(self, method, ", ".join(repr(type(a)) for a in args)))

    def __call__(self, *args, **kwargs):
        if len(args) > self.nin:
            kwargs["out"] = args[self.nin:]
            args = args[:self.nin]
        if len(args) != self.nin:
            raise TypeError("{0}() takes from {1} to {2} positional arguments but {3} were given".format(self.__name__, self.nin, self.nargs, len(args)))
        done, r = self._override("__call__", args, kwargs)
        if done:
            return r
        out = kwargs.pop("out", None)
        if isinstance(out, tuple):
            if len(out) == 1 and self.nout == 1:
                out = out[0]
            elif all(x is None for x in out):
                out = None
        where = kwargs.pop("where", True)
        dtype = kwargs.pop("dtype", None)
        kwargs.pop("casting", None); kwargs.pop("order", None); kwargs.pop("subok", None)
        args = [a if isinstance(a, (ndarray, SymScalar, np.generic, int, float, complex)) and not isinstance(a, np.ndarray) else _toarr(a) for a in args]
        if any(isinstance(a, MaskedArray) for a in args):
            return _masked_ufunc(self, args)
        if has_sym(args) or (isinstance(out, ndarray) and has_sym(where)):
            res = self._symcall(args, dtype)
        else:
            with np.errstate(**_errstate()):
                kw = {} if dtype is None else {"dtype": dtype}
                res = wrap(self._real(*[unwrap(a) for a in args], **kw))
        if where is not True:
            if out is None:
                raise Incomplete("ufunc where= without out=")
            w = _toarr(where)
            b = _toarr(res)
            shp = out._s.shape
            ws, bs = np.broadcast_to(w._s, shp), np.broadcast_to(b.astype(out._dt)._s, shp)
            for ix in itertools.product(*[range(k) for k in shp]):
                out._s[ix] = S.ite(ws[ix], bs[ix], out._s[ix], out._dt)
            return out
        if out is not None:
            if self.nout == 1:
                _assign_out(out, res)
                return out
            for o, r in zip(out, res):
                if o is not None:
                    _assign_out(o, r)
            return tuple(r if o is None else o for o, r in zip(out, res))
        return res

    def _restypes(self, args, dtype):
        repl = _value_based(args) or {}
        dummies = [repl.get(id(a), None) if id(a) in repl else _dummy(a) for a in args]
        kw = {} if dtype is None else {"dtype": dtype}
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = self._real(*dummies, **kw)
            rt = np.result_type(*dummies) if len(dummies) > 1 else None
        if isinstance(r, tuple):
            return [np.asarray(x).dtype for x in r], rt
        return [np.asarray(r).dtype], rt

    def _symcall(self, args, dtype):
        name = self.__name__
        TOUCHED.add("ufunc " + name)
        dts = [a._dt if isinstance(a, (ndarray, SymScalar)) and type(a) in (ndarray, SymScalar) else S.rawof(a)[1] for a in args]
        stores = [a._s if isinstance(a, ndarray) else _box(a._e if type(a) is SymScalar else S.rawof(a)[0]) for a in args]
        if any(d.kind == "O" for d in dts):
            return self._objcall(stores, dts)
        if any(not S.encodable(d) for d in dts):
            FALLBACK.add(name)
            return wrap(self._real(*[unwrap(a, True) for a in args]))
        outs, rt = self._restypes(args, dtype)
        odt = outs[0]
        if name in COMPARE:
            loop = rt
            op = COMPARE[name]
            fn = lambda x, y: S.cmp(op, x, y, loop)
        elif name in LOGICAL:
            loop = BOOL
            f = LOGICAL[name]
            fn = lambda *xs: f(*xs)
        elif name in PREDICATE:
            loop = dts[0]
            f = PREDICATE[name]
            fn = lambda x: f(S.lift(x, loop), loop)
        elif name in BINARY:
            loop = odt
            f = BINARY[name]
            fn = lambda x, y: self._conc2(x, y, loop) if not issym(x) and not issym(y) else f(S.lift(x, loop), S.lift(y, loop), loop)
        elif name in UNARY:
            loop = odt
            if dts[0].kind == "f" and odt.kind == "f":
                loop = dts[0]
            f = UNARY[name]
            fn = lambda x: self._conc1(x, loop) if not issym(x) else f(S.lift(x, loop), loop)
        elif name == "divmod":
            loop = odt
            a = UFUNCS["floor_divide"](*args)
            b = UFUNCS["remainder"](*args)
            return (a, b)
        else:
            FALLBACK.add(name)
            with np.errstate(all="ignore"):
                return wrap(self._real(*[unwrap(a, True) for a in args]))
        if not S.encodable(loop):
            raise Incomplete("ufunc {0} on dtype {1}".format(name, loop))
        bc = np.broadcast(*stores) if len(stores) > 1 else stores[0]
        shape = bc.shape
        if len(stores) > 1:
            stores = [np.broadcast_to(s, shape) for s in stores]
        flats = [_flatlist(s) for s in stores]
        res = []
        for xs in zip(*flats):
            xs = [S.cast(x, d, loop) for x, d in zip(xs, dts)]
            r = fn(*xs)
            if issym(r):
                r = S.unlift(r, odt)
            res.append(r)
        if shape == ():
            return S.make(res[0], odt)
        return ndarray._new(_build(res, shape), odt)

    def _conc2(self, x, y, dt):
        with np.errstate(all="ignore"):
            return self._real(dt.type(x), dt.type(y)).item()
    def _conc1(self, x, dt):
        with np.errstate(all="ignore"):
            return self._real(dt.type(x)).item()

    _OPS = {"add": operator.add, "subtract": operator.sub, "multiply": operator.mul, "true_divide": operator.truediv, "divide": operator.truediv,
            "less": operator.lt, "less_equal": operator.le, "equal": operator.eq, "not_equal": operator.ne, "greater": operator.gt, "greater_equal": operator.ge,
            "bitwise_and": operator.and_, "bitwise_or": operator.or_, "invert": operator.invert, "negative": operator.neg}

    def _objcall(self, stores, dts):
        op = self._OPS.get(self.__name__)
        if op is None:
            raise Incomplete("ufunc {0} on object arrays".format(self.__name__))
        shape = np.broadcast(*stores).shape if len(stores) > 1 else stores[0].shape
        stores = [np.broadcast_to(s, shape) for s in stores]
        res = [op(*[S.make(x, d, True) for x, d in zip(xs, dts)]) for xs in zip(*[_flatlist(s) for s in stores])]
        if self.__name__ in COMPARE:
            out = [S.truth(*S.rawof(r)) for r in res]
            if shape == ():
                return S.make(out[0], BOOL)
            return ndarray._new(_build(out, shape), BOOL)
        if shape == ():
            return res[0]
        return ndarray._new(_build(res, shape), OBJECT)

    # ---- methods
    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False, initial=_obj0, where=True):
        done, r = self._override("reduce", (a,), {} if out is None else {"out": out})
        if done:
            return r
        a = _toarr(a)
        if where is not True:
            raise Incomplete("ufunc.reduce where=")
        if isinstance(a, MaskedArray):
            raise Incomplete("reduction of a numpy.ma array")
        kw = {"axis": axis, "keepdims": keepdims}
        if dtype is not None:
            kw["dtype"] = dtype
        if not a._hassym() and initial is _obj0:
            with np.errstate(**_errstate()):
                res = wrap(self._real.reduce(a._real(), **kw))
            if out is not None:
                _assign_out(out, res)
                return out
            return res
        if a._dt.kind == "O" or not S.encodable(a._dt):
            FALLBACK.add(self.__name__ + ".reduce")
            return wrap(self._real.reduce(a._real(True), **kw))
        TOUCHED.add("ufunc {0}.reduce".format(self.__name__))
        with np.errstate(all="ignore"):
            odt = np.asarray(self._real.reduce(np.ones((1,) * max(1, a._s.ndim), dtype=a._dt), **dict(kw, axis=0, keepdims=False))).dtype
        s = a._s
        if s.ndim == 0:
            return S.make(S.cast(s[()], a._dt, odt), odt)
        if axis is None:
            s = s.reshape(-1)
            oshape = (1,) * a._s.ndim if keepdims else ()
        elif isinstance(axis, tuple):
            raise Incomplete("reduction over several axes")
        else:
            axis = _idx(axis)
            if axis < 0:
                axis += s.ndim
            if not 0 <= axis < s.ndim:
                raise np.AxisError(axis, s.ndim)
            oshape = s.shape[:axis] + ((1,) if keepdims else ()) + s.shape[axis + 1:]
            s = np.moveaxis(s, axis, -1)
        n = s.shape[-1]
        rows = s.reshape((-1, n)) if n else np.empty((int(np.prod(s.shape[:-1])), 0), dtype=object)
        init = None
        if initial is not _obj0 and initial is not None:
            init = S.rawof(initial)
            init = S.cast(init[0], init[1], odt)
        res = []
        for r in rows:
            res.append(self._fold(list(r), a._dt, odt, init))
        if oshape == ():
            result = S.make(res[0], odt)
        else:
            result = ndarray._new(_build(res, oshape), odt)
        if out is not None:
            _assign_out(out, result)
            return out
        return result

    def _fold(self, elems, dt, odt, init=None):
        name = self.__name__
        if name in LOGICAL:
            cs = [S.truth(e, dt) for e in elems]
            if init is not None:
                cs.insert(0, init)
            r = LOGICAL[name](*cs)
            return S.unlift(r, BOOL) if issym(r) else bool(r)
        elems = [S.cast(e, dt, odt) for e in elems]
        if init is not None:
            elems.insert(0, init)
        if not elems:
            ident = self._real.identity
            if ident is None:
                raise ValueError("zero-size array to reduction operation {0} which has no identity".format(name))
            return S.norm(ident, odt)
        out = elems[0]
        for e in elems[1:]:
            out = self._elem2(out, e, odt)
        return out

    def _elem2(self, x, y, dt):
        if not issym(x) and not issym(y):
            return self._conc2(x, y, dt)
        f = BINARY.get(self.__name__)
        if f is None:
            raise Incomplete("reduction with ufunc " + self.__name__)
        return S.unlift(f(S.lift(x, dt), S.lift(y, dt), dt), dt)

    def reduceat(self, a, indices, axis=0, dtype=None, out=None):
        a = _toarr(a)
        indices = _toarr(indices)
        ind = [int(i) for i in indices._real(True)]
        kw = {"axis": axis}
        if dtype is not None:
            kw["dtype"] = dtype
        if not a._hassym():
            with np.errstate(**_errstate()):
                res = wrap(self._real.reduceat(a._real(), np.array(ind, dtype=np.int64), **kw))
        else:
            TOUCHED.add("ufunc {0}.reduceat".format(self.__name__))
            with np.errstate(all="ignore"):
                odt = self._real.reduceat(np.ones((1,) * a._s.ndim, dtype=a._dt), [0], **dict(kw, axis=0)).dtype
            if axis < 0:
                axis += a._s.ndim
            s = np.moveaxis(a._s, axis, 0)
            n = s.shape[0]
            for i in ind:
                if not 0 <= i < n:
                    raise IndexError("index {0} out-of-bounds in {1}.reduceat [0, {2})".format(i, self.__name__, n))
            rest = s.shape[1:]
            cols = s.reshape(n, -1)
            o = np.empty((len(ind), cols.shape[1]), dtype=object)
            for k, i in enumerate(ind):
                j = ind[k + 1] if k + 1 < len(ind) else n
                if k + 1 < len(ind) and j <= i:
                    j = i + 1
                for c in range(cols.shape[1]):
                    o[k, c] = self._fold(list(cols[i:j, c]), a._dt, odt)
            res = ndarray._new(np.moveaxis(o.reshape((len(ind),) + rest), 0, axis), odt)
        if out is not None:
            _assign_out(out, res)
            return out
        return res

    def accumulate(self, a, axis=0, dtype=None, out=None):
        return _accumulate(self.__name__, _toarr(a), axis, dtype, out)

    def at(self, a, indices, b=None):
        done, r = self._override("at", (a, indices) if b is None else (a, indices, b), {})
        if done:
            return r
        ind = _toarr(indices)
        if b is None:
            for i in ind._real(True).reshape(-1):
                a[int(i)] = self(a[int(i)])
            return
        bs = np.broadcast_to(_toarr(b)._s, ind._s.shape)
        bd = _toarr(b)._dt
        if ind._dt.kind == "b":
            ind = nonzero(ind)[0]
            bs = np.broadcast_to(_toarr(b)._s, ind._s.shape)
        for e, v in zip(_flatlist(ind._s), _flatlist(bs)):
            i = S.make(e, ind._dt)
            a[i] = self(a[i], S.make(v, bd))

    def outer(self, a, b, **kw):
        a, b = _toarr(a), _toarr(b)
        return self(a.reshape(a.shape + (1,) * b.ndim), b, **kw)

_MISSING = object()

def _getufunc(name):
    return UFUNCS[name]

def _assign_out(out, res):
    if not isinstance(out, ndarray):
        raise TypeError("return arrays must be of ArrayType")
    r = _toarr(res)
    if not np.can_cast(r._dt, out._dt, "same_kind"):
        raise TypeError("Cannot cast ufunc output from {0!r} to {1!r} with casting rule 'same_kind'".format(r._dt, out._dt))
    if r._s.shape != out._s.shape and r._s.ndim > 0:
        if np.broadcast(r._s, out._s).shape != out._s.shape:
            raise ValueError("non-broadcastable output operand with shape {0} doesn't match the broadcast shape {1}".format(out._s.shape, r._s.shape))
    if r._s.dtype.kind == "O" and out._s.dtype.kind == "O":
        out._s[...] = r.astype(out._dt)._s
    else:
        out[...] = r

UFUNCS = {}
for _name in dir(np):
    _u = getattr(np, _name) if not _name.startswith("_") and _name not in ("bool", "int", "float", "complex", "object", "str", "long", "unicode") else None
    if isinstance(_u, np.ufunc):
        if _u.__name__ not in UFUNCS:
            UFUNCS[_u.__name__] = UFunc(_u)
        UFUNCS[_name] = UFUNCS[_u.__name__]

_ERR = {}
def _errstate():
    return {"all": "ignore"}

# operators of ndarray and the mixin
def _opbin(ufname):
    def f(self, other):
        if _defers(other):
            return NotImplemented
        return UFUNCS[ufname](self, other)
    def r(self, other):
        if _defers(other):
            return NotImplemented
        return UFUNCS[ufname](other, self)
    def i(self, other):
        return UFUNCS[ufname](self, other, out=(self,))
    return f, r, i

def _defers(other):
    au = getattr(type(other), "__array_ufunc__", _MISSING)
    return au is None

class NDArrayOperatorsMixin(object):
    pass

_BIN = [("add", "add"), ("sub", "subtract"), ("mul", "multiply"), ("truediv", "true_divide"), ("floordiv", "floor_divide"), ("mod", "remainder"),
        ("pow", "power"), ("lshift", "left_shift"), ("rshift", "right_shift"), ("and", "bitwise_and"), ("xor", "bitwise_xor"), ("or", "bitwise_or"), ("matmul", "matmul")]
for _n, _u in _BIN:
    _f, _r, _ii = _opbin(_u)
    for _c in (ndarray, NDArrayOperatorsMixin):
        setattr(_c, "__%s__" % _n, _f)
        setattr(_c, "__r%s__" % _n, _r)
        setattr(_c, "__i%s__" % _n, _ii)
for _n, _u in [("lt", "less"), ("le", "less_equal"), ("eq", "equal"), ("ne", "not_equal"), ("gt", "greater"), ("ge", "greater_equal"), ("divmod", "divmod")]:
    _f, _r, _ii = _opbin(_u)
    for _c in (ndarray, NDArrayOperatorsMixin):
        setattr(_c, "__%s__" % _n, _f)
        if _n == "divmod":
            setattr(_c, "__rdivmod__", _r)
def _mkun(u):
    return lambda self: UFUNCS[u](self)
for _n, _u in [("neg", "negative"), ("pos", "positive"), ("abs", "absolute"), ("invert", "invert")]:
    for _c in (ndarray, NDArrayOperatorsMixin):
        setattr(_c, "__%s__" % _n, _mkun(_u))
NDArrayOperatorsMixin.__hash__ = None

def _eqguard(name, orig):
    def f(self, other):
        if other is None or isinstance(other, (str, bytes)):
            if self._dt.kind == "O" or self._s.dtype.kind != "O":
                res = [(e == other) if name == "eq" else (e != other) for e in self._s.flat]
                return ndarray._new(_build([bool(x) for x in res], self._s.shape), BOOL)
            if other is None:
                return ndarray._new(_build([name == "ne"] * self._s.size, self._s.shape), BOOL)
            return name == "ne"
        if self._s.dtype.kind != "O" or (isinstance(other, ndarray) and other._s.dtype.kind != "O"):
            return wrap(getattr(self._real(), "__%s__" % name)(unwrap(other)))
        if isinstance(other, ndarray):
            try:
                np.broadcast_shapes(self._s.shape, other._s.shape)
            except ValueError:
                return name == "ne"     # numpy 1.23: DeprecationWarning "elementwise comparison failed"
        return orig(self, other)
    return f
ndarray.__eq__ = _eqguard("eq", ndarray.__eq__)
ndarray.__ne__ = _eqguard("ne", ndarray.__ne__)

def _sym_array_ufunc(self, ufunc, method, *inputs, **kwargs):
    uf = ufunc if isinstance(ufunc, UFunc) else UFUNCS[ufunc.__name__]
    return getattr(uf, method)(*inputs, **kwargs)
SymScalar.__array_ufunc__ = _sym_array_ufunc

# ------------------------------------------------------------------ array creation

def _toarr(x):
    if isinstance(x, ndarray):
        return x
    return array(x)

def array(obj, dtype=None, copy=True, order="K", subok=False, ndmin=0, like=None):
    if dtype is not None:
        dtype = np.dtype(dtype)
    if isinstance(obj, ndarray):
        if isinstance(obj, MaskedArray) and not subok:
            obj = ndarray._new(obj._s, obj._dt, obj._base)
        if dtype is None or dtype == obj._dt:
            out = obj.copy() if copy else obj
        else:
            out = obj.astype(dtype)
    elif isinstance(obj, SymScalar):
        out = scalar_array(obj._e, obj._dt)
        if dtype is not None:
            out = out.astype(dtype)
    elif isinstance(obj, (list, tuple)):
        out = _fromseq(obj, dtype)
    elif isinstance(obj, np.ndarray):
        out = wrap(np.array(obj, dtype=dtype))
    elif hasattr(type(obj), "__array__") and not isinstance(obj, np.generic):
        out = obj.__array__(dtype) if dtype is not None else obj.__array__()
        if isinstance(out, np.ndarray):
            out = wrap(out)
        if dtype is not None and out._dt != dtype:
            out = out.astype(dtype)
    elif isinstance(obj, range):
        out = wrap(np.array(obj, dtype=dtype))
    elif hasattr(obj, "__len__") and hasattr(obj, "__getitem__") and not isinstance(obj, (str, bytes, dict, np.generic)):
        out = _fromseq([obj[i] for i in range(len(obj))], dtype)
    else:
        r = np.array(obj, dtype=dtype)
        if r.dtype.kind == "O" and r.ndim == 0:
            out = ndarray._new(_box(obj), OBJECT)
        else:
            out = wrap(r)
    if ndmin > out.ndim:
        out = out.reshape((1,) * (ndmin - out.ndim) + out.shape)
    return out

def _anyfake(x, depth=0):
    if isinstance(x, (ndarray, SymScalar)):
        return True
    if isinstance(x, (list, tuple)):
        return any(_anyfake(y, depth + 1) for y in x)
    if hasattr(type(x), "__array__") and not isinstance(x, np.generic):
        return True
    return False

def _fromseq(obj, dtype):
    if (dtype is None or dtype.kind != "O") and any(isinstance(x, (SymBuffer, SymText)) for x in obj):
        raise Incomplete("array of symbolic strings")
    if not _anyfake(obj):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return wrap(np.array(obj, dtype=dtype))
    if not has_sym(obj) and not any(hasattr(type(x), "__array__") and not isinstance(x, (ndarray, np.generic)) for x in obj):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return wrap(np.array(unwrap(obj), dtype=dtype))
    # nested sequence with symbolic leaves (or awkward arrays in it)
    items = []
    for x in obj:
        if isinstance(x, SymScalar):
            items.append(scalar_array(x._e, x._dt))
        elif isinstance(x, ndarray):
            items.append(x)
        elif x is None or isinstance(x, (str, bytes, dict)) or (type(x) is int and not -2**63 <= x < 2**64):
            items.append(ndarray._new(_box(x), OBJECT))
        elif type(x) is int and x >= 2**63:
            items.append(scalar_array(x, np.dtype(np.uint64)))
        else:
            r = S.rawof(x)
            items.append(scalar_array(*r) if r is not None else array(x))
    if len(set(i._s.shape for i in items)) > 1:
        if dtype is not None and dtype.kind != "O":
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        return ndarray._new(_build([i if i.ndim else i._scalar(i._s[()]) for i in items], (len(items),)), OBJECT)
    if dtype is None:
        if any(i._dt.kind == "O" for i in items):
            dtype = OBJECT
        else:
            dtype = np.result_type(*[i._dt for i in items])
    st = [i.astype(dtype)._s for i in items]
    out = np.empty((len(st),) + st[0].shape, dtype=object if _native(dtype) else dtype)
    for i, x in enumerate(st):
        out[i:i + 1] = x.reshape((1,) + x.shape)
    return ndarray._new(out, dtype)

def asarray(a, dtype=None, order=None, like=None):
    return array(a, dtype=dtype, copy=False)
def asanyarray(a, dtype=None, order=None, like=None):
    return a if isinstance(a, ndarray) and dtype is None else array(a, dtype=dtype, copy=False, subok=True)
def ascontiguousarray(a, dtype=None, like=None):
    out = array(a, dtype=dtype, copy=False, ndmin=1)
    return out if out._s.flags.c_contiguous else out.copy()
def copy(a, order="K", subok=False):
    return array(a, copy=True)

def _shape(shape):
    if isinstance(shape, ndarray):
        shape = tuple(shape) if shape.ndim else (shape,)
    if isinstance(shape, (tuple, list)):
        return tuple(_idx(x) for x in shape)
    return (_idx(shape),)

def _filled(shape, e, dt):
    if not _native(dt):
        out = np.empty(shape, dtype=dt)
        out[...] = e
        return ndarray._new(out, dt)
    out = np.empty(shape, dtype=object)
    out[...] = _box(e)
    return ndarray._new(out, dt)

_POISON = {"i": -1171171171171171171, "u": 200, "b": True, "f": -7.17e77, "c": -7.17e77, "O": None}

def empty(shape, dtype=float, order="C", like=None):
    dt = np.dtype(dtype)
    shape = _shape(shape)
    if dt.subdtype is not None:
        dt, shape = dt.subdtype[0], shape + dt.subdtype[1]
    if any(x < 0 for x in shape):
        raise ValueError("negative dimensions are not allowed")
    if not _native(dt):
        return ndarray._new(np.zeros(shape, dtype=dt), dt)
    if dt.kind == "O":
        return _filled(shape, None, dt)
    out = np.empty(shape, dtype=object)
    if dt.kind in "iuf" and S.encodable(dt):
        # uninitialised memory: arbitrary, but fixed, contents
        eng = engine.CUR
        f = out.reshape(-1)
        for i in range(out.size):
            f[i] = _garbage(eng, dt, i)
    else:
        out[...] = S.norm(_POISON[dt.kind], dt) if dt.kind != "O" else None
    return ndarray._new(out, dt)

def _garbage(eng, dt, i):
    return S.norm(_POISON[dt.kind] + i, dt)

def zeros(shape, dtype=float, order="C", like=None):
    dt = np.dtype(dtype)
    r = np.zeros((), dtype=dt)
    if not _native(dt):
        return ndarray._new(np.zeros(_shape(shape), dtype=dt), dt)
    return _filled(_shape(shape), r.item() if dt.kind != "O" else 0, dt)
def ones(shape, dtype=float, order="C", like=None):
    dt = np.dtype(dtype)
    return _filled(_shape(shape), np.ones((), dtype=dt).item() if dt.kind != "O" else 1, dt)
def full(shape, fill_value, dtype=None, order="C", like=None):
    v = _toarr(fill_value)
    dt = np.dtype(dtype) if dtype is not None else v._dt
    out = empty(_shape(shape), dtype=dt)
    out[...] = fill_value if S.rawof(fill_value) is not None or fill_value is None else v
    return out
def empty_like(a, dtype=None, order="K", subok=True, shape=None):
    a = _toarr(a)
    return empty(a.shape if shape is None else shape, dtype=a._dt if dtype is None else dtype)
def zeros_like(a, dtype=None, order="K", subok=True, shape=None):
    if _overrides(a): return a.zeros_like() if dtype is None else NotImplemented
    a = _toarr(a)
    return zeros(a.shape if shape is None else shape, dtype=a._dt if dtype is None else dtype)
def ones_like(a, dtype=None, order="K", subok=True, shape=None):
    a = _toarr(a)
    return ones(a.shape if shape is None else shape, dtype=a._dt if dtype is None else dtype)
def full_like(a, fill_value, dtype=None, order="K", subok=True, shape=None):
    a = _toarr(a)
    return full(a.shape if shape is None else shape, fill_value, dtype=a._dt if dtype is None else dtype)
def _overrides(a):
    return False

def arange(*args, **kw):
    kw.pop("like", None)
    args = [S.make(*S.rawof(a)) if S.rawof(a) is not None else a for a in args]
    dts = [a._dt if type(a) is SymScalar else None for a in args]
    conc = [a._concrete() if type(a) is SymScalar else (a._real(True) if isinstance(a, ndarray) else a) for a in args]
    for k in list(kw):
        if type(kw[k]) is SymScalar:
            kw[k] = kw[k]._concrete()
    return wrap(np.arange(*conc, **kw))

def frombuffer(buffer, dtype=float, count=-1, offset=0, like=None):
    dt = np.dtype(dtype)
    if dt.subdtype is not None:
        base, shape = dt.subdtype
        if dt.itemsize == 0:
            raise ValueError("itemsize cannot be zero in type")
        size = dt.itemsize // base.itemsize
        return frombuffer(buffer, base, count if count == -1 else _idx(count) * size, offset).reshape((-1,) + shape)
    if isinstance(buffer, SymBuffer):
        a = buffer._arr
        if a._dt == dt and _idx(offset) == 0 and (count == -1 or 0 <= _idx(count) <= a.size):
            out = a.ravel() if count == -1 else a.ravel()[:_idx(count)]
            out._base = buffer
            return out
        raw = a.view(np.uint8) if a._dt != np.dtype(np.uint8) else a
        raw = raw[_idx(offset):]
        n = raw.size // dt.itemsize if count == -1 else _idx(count)
        out = raw[:n * dt.itemsize].view(dt)
        out._base = buffer
        return out
    if isinstance(buffer, ndarray):
        if not buffer._s.flags.c_contiguous:
            raise ValueError("ndarray is not C-contiguous")
        if not _native(dt):
            return wrap(np.frombuffer(buffer.tobytes(), dtype=dt, count=_idx(count), offset=_idx(offset)).copy())
        out = buffer.reshape(-1)
        if offset != 0 or count != -1 or dt != out._dt:
            if out._dt != dt or _idx(offset) % dt.itemsize:
                if out._dt != np.dtype(np.uint8):
                    out = out.view(np.uint8)
                out = out[_idx(offset):]
                n = out.size // dt.itemsize if count == -1 else _idx(count)
                out = out[:n * dt.itemsize].view(dt)
            else:
                out = out[_idx(offset) // dt.itemsize:]
                out = out if count == -1 else out[:_idx(count)]
        return out
    if isinstance(buffer, SymScalar):
        raise TypeError("a bytes-like object is required, not 'int'")
    r = np.frombuffer(buffer, dtype=dt, count=_idx(count), offset=_idx(offset))
    out = wrap(r)
    out._base = buffer
    out._s.flags.writeable = r.flags.writeable
    return out

SYMBYTES = False    # whether tobytes keeps symbolic contents symbolic (as a SymBuffer)

def _unusable(name):
    def f(self, *args, **kwargs):
        raise Incomplete("{0} of a symbolic string".format(name))
    return f

class SymBuffer(bytes):
    """a bytes object with symbolic contents (only its length is known)"""
    def __new__(cls, arr):
        out = bytes.__new__(cls, b"\xff" * arr.nbytes)
        out._arr = arr
        out.size = arr.nbytes
        return out
    def cells(self):
        return (self._arr if self._arr._dt == np.dtype(np.uint8) else self._arr.view(np.uint8)).tolist()
    def _normal_(self):
        return ("bytes", self.cells())
    def __getitem__(self, where):
        out = ndarray.__getitem__(array(self.cells(), dtype=np.uint8), where)
        return SymBuffer(out) if isinstance(out, ndarray) else out
    def decode(self, encoding="utf-8", errors="strict"):
        return symtext(self._arr, encoding)
    def __repr__(self):
        return "<symbolic bytes>"

class SymText(str):
    """a str object whose (ASCII) characters are symbolic"""
    def __new__(cls, cells):
        out = str.__new__(cls, "\ufffd" * len(cells))
        out._cells = cells
        return out
    def _normal_(self):
        return ("str", list(self._cells))
    def encode(self, encoding="utf-8", errors="strict"):
        return SymBuffer(encodecells(self._cells, encoding))
    def __getitem__(self, where):
        out = self._cells[where]
        return SymText(out if isinstance(out, list) else [out])
    def __repr__(self):
        return "<symbolic str>"

def _textcells(x):
    return list(x._cells) if isinstance(x, SymText) else [ord(c) for c in x]

def _bytecells(x):
    return x.cells() if isinstance(x, SymBuffer) else list(x)

def _texteq(kind, cells):
    def eq(self, other):
        if not isinstance(other, kind):
            return NotImplemented
        one, two = cells(self), cells(other)
        if len(one) != len(two):
            return False
        out = True
        for x, y in zip(one, two):
            out = out & (x == y)
        return out
    def ne(self, other):
        out = eq(self, other)
        return out if out is NotImplemented else (not out) if isinstance(out, bool) else ~out
    return eq, ne

SymText.__eq__, SymText.__ne__ = _texteq(str, _textcells)
SymBuffer.__eq__, SymBuffer.__ne__ = _texteq(bytes, _bytecells)

for _n in ("__lt__", "__le__", "__gt__", "__ge__", "__hash__", "__contains__", "__add__", "__iter__", "startswith", "endswith", "strip", "rstrip", "lstrip", "split", "join", "replace", "find", "upper", "lower"):
    for _c in (SymBuffer, SymText):
        setattr(_c, _n, _unusable(_n))

WIDTH = {"utf-8": 1, "ascii": 1, "latin-1": 1, "utf-16le": 2, "utf-32le": 4, "utf-16-le": 2, "utf-32-le": 4, "utf8": 1, "utf_8": 1, "utf_32_le": 4, "utf_16_le": 2, "iso8859-1": 1}

def encodecells(cells, encoding):
    """ASCII characters -> bytes"""
    out = []
    for c in cells:
        out.extend([c] + [0] * (WIDTH[encoding.lower()] - 1))
    return array(out, dtype=np.uint8) if out else empty(0, dtype=np.uint8)

def symtext(arr, encoding):
    """bytes -> text; the characters have to be ASCII (what the harnesses assume of their inputs)"""
    if encoding.lower() not in WIDTH:
        raise Incomplete("symbolic text in encoding {0}".format(encoding))
    w = WIDTH[encoding.lower()]
    cells = (arr if arr._dt == np.dtype(np.uint8) else arr.view(np.uint8)).tolist()
    if len(cells) % w:
        raise Incomplete("truncated characters")
    for i, c in enumerate(cells):
        if i % w and not (type(c) is int and c == 0):
            raise Incomplete("symbolic text which is not ASCII")
    return SymText(cells[::w])

def fromiter(it, dtype, count=-1):
    items = list(it)
    if count != -1:
        items = items[:_idx(count)]
    return _fromseq(items, np.dtype(dtype)) if items else empty(0, dtype=dtype)

# ------------------------------------------------------------------ manipulation

def concatenate(arrays, axis=0, out=None, dtype=None, casting="same_kind"):
    arrs = [_toarr(a) for a in arrays]
    if not arrs:
        raise ValueError("need at least one array to concatenate")
    if any(isinstance(a, MaskedArray) for a in arrs):
        arrs = [ndarray._new(a._s, a._dt, a._base) for a in arrs]     # as numpy.concatenate: the data without the mask
    if any(a._s.ndim == 0 for a in arrs) and axis is not None:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    if any(not _native(a._dt) for a in arrs):
        return wrap(np.concatenate([a._real(True) for a in arrs], axis=axis))
    dt = np.dtype(dtype) if dtype is not None else np.result_type(*[np.empty((1,) * a.ndim, dtype=a._dt) for a in arrs])
    if axis is None:
        arrs = [a.ravel() for a in arrs]
        axis = 0
    s = np.concatenate([a.astype(dt, copy=False)._s for a in arrs], axis=_idx(axis))
    res = ndarray._new(s, dt)
    if out is not None:
        _assign_out(out, res)
        return out
    return res
def append(arr, values, axis=None):
    a = _toarr(arr)
    if axis is None:
        v = _toarr(values).ravel()
        # 0-d arrays keep their dtype in numpy.append (concatenate of 1-d arrays)
        return concatenate([a.ravel(), v], axis=0)
    return concatenate([a, values], axis=axis)
def stack(arrays, axis=0, out=None):
    arrs = [_toarr(a) for a in arrays]
    if not arrs:
        raise ValueError("need at least one array to stack")
    if len(set(a.shape for a in arrs)) != 1:
        raise ValueError("all input arrays must have the same shape")
    nd = arrs[0].ndim + 1
    if axis < 0:
        axis += nd
    sl = (slice(None),) * axis + (None,)
    return concatenate([a[sl] for a in arrs], axis=axis)
def vstack(tup):
    return concatenate([atleast_2d(a) for a in tup], 0)
row_stack = vstack
def hstack(tup):
    arrs = [atleast_1d(a) for a in tup]
    return concatenate(arrs, 0 if arrs and arrs[0].ndim == 1 else 1)
def column_stack(tup):
    return concatenate([_toarr(a).reshape(-1, 1) if _toarr(a).ndim < 2 else _toarr(a) for a in tup], 1)
def atleast_1d(*arys):
    out = [_toarr(a) if _toarr(a).ndim >= 1 else _toarr(a).reshape(1) for a in arys]
    return out[0] if len(out) == 1 else out
def atleast_2d(*arys):
    out = []
    for a in arys:
        a = _toarr(a)
        out.append(a.reshape(1, 1) if a.ndim == 0 else a[None, :] if a.ndim == 1 else a)
    return out[0] if len(out) == 1 else out
def reshape(a, newshape, order="C"): return _toarr(a).reshape(newshape, order=order)
def ravel(a, order="C"): return _toarr(a).ravel(order)
def transpose(a, axes=None): return _toarr(a).transpose(*(() if axes is None else (axes,)))
def swapaxes(a, x, y): return _toarr(a).swapaxes(x, y)
def moveaxis(a, x, y):
    a = _toarr(a)
    return a._view(np.moveaxis(a._s, x, y))
def squeeze(a, axis=None): return _toarr(a).squeeze(axis)
def expand_dims(a, axis):
    a = _toarr(a)
    return a._view(np.expand_dims(a._s, axis))
def broadcast_to(a, shape, subok=False):
    a = _toarr(a)
    return a._view(np.broadcast_to(a._s, _shape(shape)))
def broadcast_arrays(*args, **kw):
    arrs = [_toarr(a) for a in args]
    shape = np.broadcast(*[a._s for a in arrs]).shape if len(arrs) > 1 else arrs[0].shape
    return [broadcast_to(a, shape) for a in arrs]
def flip(a, axis=None):
    a = _toarr(a)
    return a._view(np.flip(a._s, axis))
def roll(a, shift, axis=None):
    a = _toarr(a)
    return ndarray._new(np.roll(a._s, _idx(shift), axis), a._dt)
def tile(a, reps):
    a = _toarr(a)
    if not _native(a._dt):
        return wrap(np.tile(a._s, unwrap(reps, True)))
    reps = tuple(_idx(r) for r in reps) if isinstance(reps, (tuple, list)) else (_idx(reps) if not isinstance(reps, ndarray) else tuple(_idx(r) for r in reps))
    return ndarray._new(np.tile(a._s, reps), a._dt)
def repeat(a, repeats, axis=None):
    a = _toarr(a)
    r = _toarr(repeats)
    if r._dt.kind not in "iub":
        raise TypeError("Cannot cast array data from {0!r} to dtype('int64') according to the rule 'safe'".format(r._dt))
    if r._hassym():
        TOUCHED.add("repeat")
    rc = r._real(True)
    if r._dt == np.dtype(np.uint64):
        raise TypeError("Cannot cast array data from dtype('uint64') to dtype('int64') according to the rule 'safe'")
    if rc.ndim == 0:
        rc = int(rc)
    return type(a)._new(np.repeat(a._s, rc, axis), a._dt)
def resize(a, new_shape):
    a = _toarr(a)
    shp = _shape(new_shape)
    n = 1
    for x in shp:
        n *= x
        if x < 0:
            raise ValueError("all elements of `new_shape` must be non-negative")
    f = a._s.ravel()
    if f.size == 0 or n == 0:
        return zeros(shp, dtype=a._dt)
    k = -(-n // f.size)
    return ndarray._new(np.concatenate([f] * k)[:n].reshape(shp), a._dt)
def insert(arr, obj, values, axis=None):
    a = _toarr(arr)
    if axis is not None and a.ndim > 1:
        return _fallback("insert", np.insert)(arr, obj, values, axis)
    a = a.ravel()
    v = _toarr(values).astype(a._dt)
    o = unwrap(obj, True)
    if isinstance(o, np.ndarray) or isinstance(o, (list, tuple, slice)):
        return ndarray._new(np.insert(a._s, o, v._s), a._dt)
    pos = int(o)
    if pos < -len(a) or pos > len(a):
        raise IndexError("index out of bounds")
    if pos < 0:
        pos += len(a)
    return concatenate([a[:pos], v.ravel(), a[pos:]])
def delete(arr, obj, axis=None):
    a = _toarr(arr)
    return ndarray._new(np.delete(a._s, unwrap(obj, True), axis), a._dt)
def split(ary, indices_or_sections, axis=0):
    a = _toarr(ary)
    return [a._view(s) for s in np.split(a._s, unwrap(indices_or_sections, True), axis)]
def array_split(ary, indices_or_sections, axis=0):
    a = _toarr(ary)
    return [a._view(s) for s in np.array_split(a._s, unwrap(indices_or_sections, True), axis)]

# ------------------------------------------------------------------ selection and search

def where(cond, *args):
    c = _toarr(cond)
    if not args:
        return nonzero(c)
    x, y = args
    if not has_sym((c, x, y)) and not isinstance(x, MaskedArray):
        return wrap(np.where(c._real(), unwrap(_plain(x)), unwrap(_plain(y))))
    TOUCHED.add("where")
    xa, ya = _toarr(x), _toarr(y)
    dt = np.result_type(_dummy(x if S.rawof(x) is not None else xa), _dummy(y if S.rawof(y) is not None else ya)) if OBJECT not in (xa._dt, ya._dt) else OBJECT
    shape = np.broadcast(c._s, xa._s, ya._s).shape
    cs, xs, ys = [np.broadcast_to(s, shape) for s in (c._s, xa.astype(dt)._s, ya.astype(dt)._s)]
    out = [S.ite(S.truth(k, c._dt), p, q, dt) for k, p, q in zip(cs.flat, xs.flat, ys.flat)]
    return ndarray._new(_build(out, shape), dt)
def _plain(x):
    return x if isinstance(x, ndarray) or S.rawof(x) is not None else _toarr(x)
def _truths(a):
    """concrete truth values of all elements (forks)"""
    r = np.empty(a._s.shape, dtype=bool)
    f = r.reshape(-1)
    for i, e in enumerate(a._s.flat):
        f[i] = S.decide(S.truth(e, a._dt))
    return r
def nonzero(a):
    a = _toarr(a)
    if a._s.dtype.kind != "O":
        return wrap(np.nonzero(a._s))
    if a._hassym():
        TOUCHED.add("nonzero")
    return wrap(np.nonzero(_truths(a)))
def flatnonzero(a): return nonzero(_toarr(a).ravel())[0]
def argwhere(a): return transpose(_toarr([x for x in nonzero(a)]))
def count_nonzero(a, axis=None, keepdims=False):
    a = _toarr(a)
    if not a._hassym():
        return wrap(np.count_nonzero(a._real(), axis=axis, keepdims=keepdims))
    TOUCHED.add("count_nonzero")
    b = ndarray._new(_build([S.cast(S.truth(e, a._dt), BOOL, INT64) for e in a._s.flat], a._s.shape), INT64)
    r = UFUNCS["add"].reduce(b, axis=axis, keepdims=keepdims)
    return r
def take(a, indices, axis=None, out=None, mode="raise"):
    a = _toarr(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    if axis < 0:
        axis += a.ndim
    ind = indices if S.rawof(indices) is not None else _toarr(indices)
    return a[(slice(None),) * axis + (ind,)]
def compress(condition, a, axis=None, out=None):
    a = _toarr(a)
    c = _toarr(condition).astype(bool)
    if axis is None:
        a = a.ravel()
        axis = 0
    idx = nonzero(c)[0]
    return a[(slice(None),) * axis + (idx,)]
def extract(condition, arr): return compress(ravel(condition), ravel(arr))
def put(a, ind, v, mode="raise"):
    ind = _toarr(ind).ravel()
    v = _toarr(v).ravel()
    if len(ind) == 0 or len(v) == 0:
        return
    if len(v) != len(ind):
        v = resize(v, len(ind))
    if a._s.ndim == 1:
        a[ind] = v
    else:
        if not a._s.flags.c_contiguous:
            raise Incomplete("put on a non-contiguous array")
        f = a.reshape(-1)
        f[ind] = v
def place(arr, mask, vals):
    m = _toarr(mask)
    n = int(count_nonzero(m))
    arr[m.astype(bool)] = resize(_toarr(vals), n)
def choose(a, choices, out=None, mode="raise"):
    a = _toarr(a)
    chs = [_toarr(c) for c in choices]
    dt = np.result_type(*[c._dt for c in chs])
    shape = np.broadcast(a._s, *[c._s for c in chs]).shape
    sts = [np.broadcast_to(c.astype(dt)._s, shape) for c in chs]
    sel = np.broadcast_to(a._s, shape)
    if mode != "raise":
        raise Incomplete("choose mode")
    sela = ndarray._new(sel, a._dt)
    out = []
    for i, e in enumerate(sel.flat):
        vals = ndarray._new(_build([s.reshape(-1)[i] if s.flags.c_contiguous else list(s.flat)[i] for s in sts], (len(sts),)), dt)
        c = S.cmp("ge", e, 0, a._dt) if issym(e) else e >= 0
        if not S.decide(c):
            raise ValueError("invalid entry in choice array")
        try:
            out.append(vals._mux([e], a._dt, "index")[0])
        except IndexError:
            raise ValueError("invalid entry in choice array")
    return ndarray._new(_build(out, shape), dt)
def select(condlist, choicelist, default=0):
    out = _toarr(default)
    for c, v in reversed(list(zip(condlist, choicelist))):
        out = where(c, v, out)
    return out
def clip(a, a_min, a_max, out=None):
    r = a
    if a_min is not None:
        r = UFUNCS["maximum"](r, a_min)
    if a_max is not None:
        r = UFUNCS["minimum"](r, a_max)
    if out is not None:
        _assign_out(out, r)
        return out
    return r

def _lt_num(x, y, dt):
    """sort order of numpy: NaN last"""
    if dt.kind == "f":
        if not issym(x) and not issym(y):
            return x < y or (y != y and x == x)
        X, Y = S.lift(x, dt), S.lift(y, dt)
        return engine.simplify(z3.Or(z3.fpLT(X, Y), z3.And(S.fpisnan(Y), z3.Not(S.fpisnan(X)))))
    return S.cmp("lt", x, y, dt)

def searchsorted(a, v, side="left", sorter=None):
    a = _toarr(a)
    if sorter is not None:
        a = a[sorter]
    va = _toarr(v)
    dt = np.result_type(a._dt, va._dt)
    if not has_sym((a, va)):
        return wrap(np.searchsorted(a._real(), va._real() if va.ndim else va._real()[()], side=side))
    TOUCHED.add("searchsorted")
    elems = [S.cast(e, a._dt, dt) for e in a._s]
    n = len(elems)
    srt = S.and_(*[S.not_(_lt_num(elems[i + 1], elems[i], dt)) for i in range(n - 1)]) if n > 1 else True
    issorted = S.decide(srt)
    out = []
    last = None
    for x in va._s.flat:
        x = S.cast(x, va._dt, dt)
        goes_right = (lambda e: _lt_num(e, x, dt)) if side == "left" else (lambda e: S.not_(_lt_num(x, e, dt)))
        if issorted:
            tot = 0
            cs = [goes_right(e) for e in elems]
            r = z3.BitVecVal(0, 64)
            for c in cs:
                r = r + (z3.If(c, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)) if issym(c) else z3.BitVecVal(1 if c else 0, 64))
            out.append(S.unlift(r, INT64))
        else:
            # numpy's binary search on data that is not sorted, step by step (single key)
            if va._s.size > 1:
                raise Incomplete("searchsorted with several keys on unsorted data")
            lo, hi = 0, n
            while lo < hi:
                mid = lo + ((hi - lo) >> 1)
                if S.decide(goes_right(elems[mid])):
                    lo = mid + 1
                else:
                    hi = mid
            out.append(lo)
    if va._s.ndim == 0:
        return S.make(out[0], INT64)
    return ndarray._new(_build(out, va._s.shape), INT64)
def digitize(x, bins, right=False):
    return searchsorted(bins, x, side="left" if right else "right")

def _argsorted(elems, dt):
    def c(i, j):
        if S.decide(_lt_num(elems[i], elems[j], dt)):
            return -1
        if S.decide(_lt_num(elems[j], elems[i], dt)):
            return 1
        return 0
    return sorted(range(len(elems)), key=functools.cmp_to_key(c))
def argsort(a, axis=-1, kind=None, order=None):
    a = _toarr(a)
    if not a._hassym():
        return wrap(np.argsort(a._real(), axis=axis, kind=kind))
    TOUCHED.add("argsort")
    if axis is None:
        a = a.ravel()
        axis = 0
    if a.ndim == 1:
        return wrap(np.array(_argsorted(_flatlist(a._s), a._dt), dtype=np.int64))
    if axis not in (-1, a.ndim - 1):
        raise Incomplete("argsort along an inner axis")
    rows = a._s.reshape(-1, a._s.shape[-1])
    return wrap(np.array([_argsorted(list(r), a._dt) for r in rows], dtype=np.int64).reshape(a.shape))
def sort(a, axis=-1, kind=None, order=None):
    a = _toarr(a)
    if not a._hassym():
        return wrap(np.sort(a._real(), axis=axis))
    TOUCHED.add("sort")
    if axis is None or a.ndim == 1:
        a = a.ravel()
        return ndarray._new(a._s[_argsorted(_flatlist(a._s), a._dt)], a._dt)
    rows = a._s.reshape(-1, a._s.shape[-1])
    out = np.empty(rows.shape, dtype=object)
    for i, r in enumerate(rows):
        out[i] = r[_argsorted(list(r), a._dt)]
    return ndarray._new(out.reshape(a.shape), a._dt)
def lexsort(keys, axis=-1):
    ks = [_toarr(k) for k in keys]
    n = len(ks[0])
    idx = list(range(n))
    for k in ks:
        es = _flatlist(k._s)
        order = _argsorted([es[i] for i in idx], k._dt)
        idx = [idx[i] for i in order]
    return wrap(np.array(idx, dtype=np.int64))
def unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None):
    a = _toarr(ar)
    if not a._hassym():
        return wrap(np.unique(a._real(), return_index, return_inverse, return_counts, axis))
    TOUCHED.add("unique")
    if axis is not None:
        raise Incomplete("unique along an axis")
    es = _flatlist(a._s)
    order = _argsorted(es, a._dt)
    vals, index, counts, inverse = [], [], [], [None] * len(es)
    for i in order:
        if vals and S.decide(S.cmp("eq", vals[-1], es[i], a._dt)):
            counts[-1] += 1
            index[-1] = min(index[-1], i)
        else:
            vals.append(es[i]); index.append(i); counts.append(1)
        inverse[i] = len(vals) - 1
    out = [ndarray._new(_build(vals, (len(vals),)), a._dt)]
    if return_index: out.append(wrap(np.array(index, dtype=np.int64)))
    if return_inverse: out.append(wrap(np.array(inverse, dtype=np.int64)))
    if return_counts: out.append(wrap(np.array(counts, dtype=np.int64)))
    return out[0] if len(out) == 1 else tuple(out)
def in1d(a, b, assume_unique=False, invert=False):
    a, b = _toarr(a).ravel(), _toarr(b).ravel()
    dt = np.result_type(a._dt, b._dt)
    out = []
    for x in a._s.flat:
        x = S.cast(x, a._dt, dt)
        c = S.or_(*[S.cmp("eq", x, S.cast(y, b._dt, dt), dt) for y in b._s.flat])
        out.append(S.not_(c) if invert else c)
    return ndarray._new(_build([S.unlift(c, BOOL) if issym(c) else bool(c) for c in out], (len(out),)), BOOL)
def isin(element, test_elements, assume_unique=False, invert=False):
    e = _toarr(element)
    return in1d(e, test_elements, invert=invert).reshape(e.shape)
def bincount(x, weights=None, minlength=0):
    x = _toarr(x)
    if not has_sym((x, weights)):
        return wrap(np.bincount(x._real(), unwrap(_plain(weights)) if weights is not None else None, _idx(minlength)))
    TOUCHED.add("bincount")
    if not S.decide(S.and_(*[S.cmp("ge", e, 0, x._dt) for e in x._s.flat])):
        raise ValueError("'list' argument must have no negative elements")
    n = _idx(minlength)
    if x._s.size:
        n = max(n, int(x.max()) + 1)
    out = zeros(n, dtype=np.int64 if weights is None else np.float64)
    w = ones(x.shape, dtype=np.int64) if weights is None else _toarr(weights)
    for k in range(n):
        for e, q in zip(x._s.flat, w._s.flat):
            c = S.cmp("eq", e, k, x._dt)
            cur = S.make(out._s[k], out._dt)
            new = cur + S.make(S.cast(q, w._dt, out._dt), out._dt)
            out._s[k] = S.ite(c, S.rawof(new)[0], out._s[k], out._dt)
    return out

# ------------------------------------------------------------------ arithmetic helpers

def _accumulate(ufname, a, axis, dtype, out):
    a = _toarr(a)
    uf = UFUNCS[ufname]
    if axis is None:
        a = a.ravel()
        axis = 0
    kw = {} if dtype is None else {"dtype": dtype}
    if not a._hassym():
        with np.errstate(all="ignore"):
            res = wrap(uf._real.accumulate(a._real(), axis=axis, **kw))
    else:
        TOUCHED.add("ufunc {0}.accumulate".format(ufname))
        odt = uf._real.accumulate(np.ones((1,) * a._s.ndim, dtype=a._dt), **kw).dtype
        s = np.moveaxis(a._s, axis, 0)
        o = np.empty(s.shape, dtype=object)
        cols, oc = s.reshape(s.shape[0], -1), o.reshape(s.shape[0], -1)
        for c in range(cols.shape[1]):
            acc = None
            for i in range(cols.shape[0]):
                e = S.cast(cols[i, c], a._dt, odt)
                acc = e if acc is None else uf._elem2(acc, e, odt)
                oc[i, c] = acc
        res = ndarray._new(np.moveaxis(oc.reshape(s.shape), 0, axis), odt)
    if out is not None:
        _assign_cast(out, res)
        return out
    return res
def _assign_cast(out, res):
    if not np.can_cast(res._dt, out._dt, "same_kind"):
        raise TypeError("Cannot cast ufunc 'add' output from {0!r} to {1!r} with casting rule 'same_kind'".format(res._dt, out._dt))
    if res.shape != out.shape:
        raise ValueError("provided out is the wrong size for the accumulation.")
    out._s[...] = res.astype(out._dt)._s
def cumsum(a, axis=None, dtype=None, out=None):
    a = _toarr(a)
    if out is not None and dtype is None and out._dt != a._dt:
        # numpy accumulates in the dtype of out
        dtype = out._dt
    return _accumulate("add", a, axis, dtype, out)
def cumprod(a, axis=None, dtype=None, out=None): return _accumulate("multiply", a, axis, dtype, out)
def diff(a, n=1, axis=-1, prepend=None, append=None):
    a = _toarr(a)
    if prepend is not None:
        p = _toarr(prepend)
        a = concatenate([p.reshape(1) if p.ndim == 0 else p, a])
    if append is not None:
        p = _toarr(append)
        a = concatenate([a, p.reshape(1) if p.ndim == 0 else p])
    if a.ndim == 0:
        raise ValueError("diff requires input that is at least one dimensional")
    for _ in range(n):
        if axis in (-1, a.ndim - 1):
            x, y = a[..., 1:], a[..., :-1]
        elif axis == 0:
            x, y = a[1:], a[:-1]
        else:
            raise Incomplete("diff along an inner axis")
        a = UFUNCS["not_equal" if a._dt.kind == "b" else "subtract"](x, y)
    return a
def ediff1d(a, to_end=None, to_begin=None): return diff(ravel(a), prepend=to_begin, append=to_end)
def argmax(a, axis=None, out=None): return _argm(a, axis, True)
def argmin(a, axis=None, out=None): return _argm(a, axis, False)
def _argm(a, axis, mx):
    a = _toarr(a)
    if not a._hassym():
        return wrap((np.argmax if mx else np.argmin)(a._real(), axis=axis))
    TOUCHED.add("argmax" if mx else "argmin")
    if axis is not None and a.ndim > 1:
        raise Incomplete("argmax along an axis")
    es = _flatlist(a._s)
    bi, bv = 0, es[0]
    for i, e in enumerate(es[1:], 1):
        if a._dt.kind == "f":
            X, Y = S.lift(e, a._dt), S.lift(bv, a._dt)
            c = z3.And(z3.Not(S.fpisnan(Y)), z3.Or(S.fpisnan(X), z3.fpGT(X, Y) if mx else z3.fpLT(X, Y)))
        else:
            c = S.cmp("gt" if mx else "lt", e, bv, a._dt)
        bi = S.ite(c, i, bi, INT64)
        bv = S.ite(c, e, bv, a._dt)
    return S.make(bi, INT64)
def mean(a, axis=None, dtype=None, out=None, keepdims=False):
    a = _toarr(a)
    if not a._hassym():
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return wrap(np.mean(a._real(), axis=axis, keepdims=keepdims))
    n = a.size if axis is None else a.shape[axis]
    f = a.astype(np.float64) if a._dt.kind in "biu" else a
    return f.sum(axis=axis) / n
def array_equal(a1, a2, equal_nan=False):
    try:
        a, b = _toarr(a1), _toarr(a2)
    except Exception:
        return False
    if a.shape != b.shape:
        return False
    if not has_sym((a, b)) and a._dt.kind != "O" and b._dt.kind != "O":
        return bool(np.array_equal(a._real(), b._real()))
    TOUCHED.add("array_equal")
    r = (a == b).all()
    return r if isinstance(r, SymScalar) else bool(r)
def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return _fallback("allclose", np.allclose)(a, b, rtol, atol, equal_nan)
def packbits(a, axis=None, bitorder="big"):
    a = _toarr(a)
    if not a._hassym():
        return wrap(np.packbits(a._real(), axis=axis, bitorder=bitorder))
    TOUCHED.add("packbits")
    bits = [S.truth(e, a._dt) for e in a._s.reshape(-1)]
    out = []
    U8 = np.dtype(np.uint8)
    for i in range(0, len(bits), 8):
        b = bits[i:i + 8] + [False] * (8 - len(bits[i:i + 8]))
        if bitorder == "big":
            b = b[::-1]
        t = z3.BitVecVal(0, 8)
        for j, c in enumerate(b):
            t = t | (z3.If(c, z3.BitVecVal(1 << j, 8), z3.BitVecVal(0, 8)) if issym(c) else z3.BitVecVal((1 << j) if c else 0, 8))
        out.append(S.unlift(t, U8))
    return ndarray._new(_build(out, (len(out),)), U8)
def unpackbits(a, axis=None, count=None, bitorder="big"):
    a = _toarr(a)
    if a._dt != np.dtype(np.uint8):
        raise TypeError("Expected an input array of unsigned byte data type")
    if not a._hassym():
        return wrap(np.unpackbits(a._real(), axis=axis, count=_idx(count), bitorder=bitorder))
    TOUCHED.add("unpackbits")
    U8 = np.dtype(np.uint8)
    out = []
    for e in a._s.reshape(-1):
        t = S.lift(e, U8)
        bits = [S.unlift(z3.ZeroExt(7, z3.Extract(j, j, t)), U8) for j in range(8)]
        out.extend(bits if bitorder == "little" else bits[::-1])
    if count is not None:
        count = _idx(count)
        out = out[:count] if count < 0 else (out + [0] * (count - len(out)))[:count]
    return ndarray._new(_build(out, (len(out),)), U8)

def _reduction(name):
    def f(a, axis=None, *args, **kw):
        if not isinstance(a, ndarray) and hasattr(a, name) and not isinstance(a, (np.generic, SymScalar)):
            return getattr(a, name)()            # numpy calls the method of foreign objects
        return getattr(_toarr(a), name)(axis=axis, **dict((k, v) for k, v in kw.items() if v is not None and v is not np._NoValue))
    f.__name__ = name
    return f
_REDUCTIONS = {}
for _names, _meth in [("sum", "sum"), ("prod product", "prod"), ("any sometrue", "any"), ("all alltrue", "all"), ("max amax", "max"), ("min amin", "min")]:
    for _n in _names.split():
        _REDUCTIONS[_n] = _reduction(_meth)

def size(a, axis=None):
    a = _toarr(a)
    return a.size if axis is None else a.shape[axis]
def shape(a): return _toarr(a).shape
def ndim(a): return _toarr(a).ndim
def round_(a, decimals=0, out=None): return _toarr(a).round(decimals)

class _RClass(object):
    def __init__(self, axis):
        self.axis = axis
    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        out = []
        for k in key:
            if isinstance(k, slice):
                out.append(arange(k.start or 0, k.stop, k.step or 1))
            elif isinstance(k, str):
                raise Incomplete("numpy.r_ directive")
            else:
                a = _toarr(k)
                out.append(a.reshape(1) if a.ndim == 0 else a)
        return concatenate(out)
r_ = _RClass(0)

def _fallback(name, real):
    def f(*args, **kwargs):
        if has_sym(list(args)) or has_sym(list(kwargs.values())):
            FALLBACK.add(name)
        return wrap(real(*unwrap(tuple(args), True), **unwrap(kwargs, True)))
    f.__name__ = name
    return f

# ------------------------------------------------------------------ numpy.ma (only what the code needs)

class MaskedArray(ndarray):
    def __new__(cls, data=None, mask=False, dtype=None, copy=False, **kw):
        d = array(data, dtype=dtype, copy=copy)
        self = cls._new(d._s, d._dt, d._base)
        self.mask = np.ma.nomask if mask is False or mask is np.ma.nomask else array(mask, dtype=bool, copy=copy)
        return self
    def __init__(self, *a, **k):
        pass
    @classmethod
    def _new(cls, store, dt, base=None, mask=np.ma.nomask):
        self = object.__new__(cls)
        self._s, self._dt, self._base, self.mask = store, dt, base, mask
        return self
    @property
    def data(self): return ndarray._new(self._s, self._dt, self._base)
    def _m(self):
        return zeros(self.shape, dtype=bool) if self.mask is np.ma.nomask else self.mask
    def __getitem__(self, where):
        d = self.data[where]
        if self.mask is np.ma.nomask:
            m = np.ma.nomask
        else:
            m = self.mask[where]
        if isinstance(d, ndarray):
            return MaskedArray._new(d._s, d._dt, d._base, m)
        if m is not np.ma.nomask and bool(m):
            return np.ma.masked
        return d
    def __setitem__(self, where, what):
        if what is np.ma.masked:
            if self.mask is np.ma.nomask:
                self.mask = zeros(self.shape, dtype=bool)
            self.mask[where] = True
            return
        self.data[where] = what
    def tolist(self):
        d = self.data.tolist()
        if self.mask is np.ma.nomask:
            return d
        m = _truths(self.mask)
        def rec(x, mm):
            if mm.ndim == 0:
                return None if mm else x
            return [rec(y, mm[i]) for i, y in enumerate(x)]
        return rec(d, m)
    def reshape(self, *shape, **kw):
        d = self.data.reshape(*shape, **kw)
        return MaskedArray._new(d._s, d._dt, d._base, np.ma.nomask if self.mask is np.ma.nomask else self.mask.reshape(*shape, **kw))
    def copy(self, order="C"):
        return MaskedArray._new(self._s.copy(), self._dt, None, np.ma.nomask if self.mask is np.ma.nomask else self.mask.copy())
    def _real(self, conc=False):
        return np.ma.MaskedArray(ndarray._real(self.data, conc), np.ma.nomask if self.mask is np.ma.nomask else self.mask._real(conc))
    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

def _masked_ufunc(uf, args):
    m = zeros((), dtype=bool)
    plain = []
    for a in args:
        if isinstance(a, MaskedArray):
            m = UFUNCS["logical_or"](m, a._m())
            plain.append(a.data)
        else:
            plain.append(a)
    r = uf(*plain)
    return MaskedArray._new(r._s, r._dt, r._base, broadcast_to(_toarr(m), r.shape).copy())

class _MaCore(object):
    MaskedConstant = np.ma.core.MaskedConstant
    MaskedArray = MaskedArray
def _getmask(a):
    return a.mask if isinstance(a, MaskedArray) else np.ma.nomask
def _getdata(a):
    return a.data if isinstance(a, MaskedArray) else _toarr(a)

ma = types.ModuleType("numpy.ma")
ma.MaskedArray = ma.array = ma.masked_array = MaskedArray
ma.core = _MaCore
ma.masked = np.ma.masked
ma.nomask = np.ma.nomask
ma.getmask = _getmask
ma.getdata = _getdata
ma.getmaskarray = lambda a: a._m() if isinstance(a, MaskedArray) else zeros(_toarr(a).shape, dtype=bool)
ma.is_masked = lambda a: isinstance(a, MaskedArray) and a.mask is not np.ma.nomask and bool(a.mask.any())
ma.isMaskedArray = ma.isMA = lambda a: isinstance(a, MaskedArray)

# ------------------------------------------------------------------ the module object

class FakeNumpy(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            real = getattr(np, name)
        if isinstance(real, np.ufunc):
            out = UFUNCS.setdefault(real.__name__, UFunc(real))
        elif isinstance(real, (type, types.ModuleType)) or not callable(real):
            out = real
        elif name in ("dtype", "iinfo", "finfo", "errstate", "seterr", "geterr", "result_type", "can_cast", "promote_types", "issubdtype", "min_scalar_type"):
            out = real
        else:
            out = _fallback(name, real)
        setattr(self, name, out)
        return out

def _result_type(*args):
    return np.result_type(*[_dummy(a) if isinstance(a, (ndarray, SymScalar)) else a for a in args])
def _isscalar(x):
    return isinstance(x, SymScalar) or np.isscalar(x)

def build_module():
    m = FakeNumpy("numpy")
    g = globals()
    for name in ("ndarray array asarray asanyarray ascontiguousarray copy empty zeros ones full empty_like zeros_like ones_like full_like arange frombuffer fromiter "
                 "concatenate append stack vstack row_stack hstack column_stack atleast_1d atleast_2d reshape ravel transpose swapaxes moveaxis squeeze expand_dims broadcast_to broadcast_arrays "
                 "flip roll tile repeat resize insert delete split array_split where nonzero flatnonzero argwhere count_nonzero take compress extract put place choose select clip searchsorted digitize "
                 "argsort sort lexsort unique in1d isin bincount cumsum cumprod diff ediff1d argmax argmin mean array_equal allclose packbits unpackbits "
                 "size shape ndim r_ ma round_").split():
        setattr(m, name, g[name])
    for name, f in _REDUCTIONS.items():
        setattr(m, name, f)
    m.round = m.around = round_
    m.result_type = _result_type
    m.isscalar = _isscalar
    for name, uf in UFUNCS.items():
        setattr(m, name, uf)
    for alias in dir(np):
        if alias.startswith("_") or alias in ("bool", "int", "float", "complex", "object", "str", "long", "unicode"):
            continue
        r = getattr(np, alias)
        if isinstance(r, np.ufunc):
            setattr(m, alias, UFUNCS[r.__name__])
    lib = types.ModuleType("numpy.lib")
    mixins = types.ModuleType("numpy.lib.mixins")
    mixins.NDArrayOperatorsMixin = NDArrayOperatorsMixin
    lib.mixins = mixins
    m.lib = lib
    m.__version__ = np.__version__
    m.__path__ = np.__path__
    m.bool, m.int, m.float, m.complex, m.object, m.str = builtins.bool, builtins.int, builtins.float, builtins.complex, builtins.object, builtins.str
    return m, {"numpy.lib": lib, "numpy.lib.mixins": mixins, "numpy.ma": ma}
