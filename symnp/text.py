"""Symbolic strings (z3 sequences) that pass for Python's str where the code under test only compares, slices from the
front, tests prefixes, concatenates, or gives them to fnmatch; everything else is Incomplete."""
import fnmatch
import re
import z3
from . import engine, scalar as S
from .engine import Incomplete

_match = fnmatch.fnmatchcase

class Input(str):
    """a string that came from the input (concrete run); stays one through slicing and concatenation"""
    def __getitem__(self, k):
        return Input(str.__getitem__(self, k))
    def __add__(self, other):
        return Input(str.__add__(self, other))
    def __radd__(self, other):
        return Input(str.__add__(other, self))

def term(x):
    if isinstance(x, SymStr):
        return x._term
    return z3.StringVal(x) if isinstance(x, str) else None

_COUNT = [0]

class SymStr(str):
    def __new__(cls, t):
        _COUNT[0] += 1
        self = str.__new__(cls, "\uf8ff<symbolic string %d>" % _COUNT[0])
        self._term = t
        return self
    def __eq__(self, other):
        t = term(other)
        return False if t is None else engine.current().decide(self._term == t)
    def __ne__(self, other):
        return not self == other
    def startswith(self, prefix, *args):
        if args:
            raise Incomplete("startswith with positions")
        if isinstance(prefix, tuple):
            return any(self.startswith(p) for p in prefix)
        return engine.current().decide(z3.PrefixOf(term(prefix), self._term))
    def endswith(self, suffix, *args):
        if args:
            raise Incomplete("endswith with positions")
        if isinstance(suffix, tuple):
            return any(self.endswith(p) for p in suffix)
        return engine.current().decide(z3.SuffixOf(term(suffix), self._term))
    def __contains__(self, other):
        return engine.current().decide(z3.Contains(self._term, term(other)))
    def __getitem__(self, k):
        if isinstance(k, slice) and k.step in (None, 1):
            a, b = k.start or 0, k.stop
            if a >= 0 and (b is None or b >= 0):
                n = z3.Length(self._term)
                return SymStr(engine.simplify(z3.SubString(self._term, a, n - a if b is None else max(b - a, 0))))
        raise Incomplete("index of a symbolic string")
    def __add__(self, other):
        return SymStr(z3.Concat(self._term, term(other)))
    def __radd__(self, other):
        return SymStr(z3.Concat(term(other), self._term))
    def __hash__(self):
        raise Incomplete("hash of a symbolic string")
    def __bool__(self):
        return engine.current().decide(z3.Length(self._term) != 0)
    def __str__(self):
        return self
    def __repr__(self):
        return str.__repr__(str.__str__(self))
    def __format__(self, spec):
        return "<symbolic string>"

def _refusal(name):
    def method(self, *args, **kwargs):
        raise Incomplete("str.%s of a symbolic string" % name)
    return method
for _n in dir(str):
    if _n not in SymStr.__dict__ and (not _n.startswith("_") or _n in ("__lt__", "__le__", "__gt__", "__ge__", "__len__", "__iter__", "__mod__", "__mul__", "__rmul__")):
        setattr(SymStr, _n, _refusal(_n))

def pystring(v):
    """Python string of a z3 string value"""
    import ctypes
    n = z3.Z3_get_string_length(v.ctx_ref(), v.as_ast())
    buf = (ctypes.c_uint * n)()
    z3.Z3_get_string_contents(v.ctx_ref(), v.as_ast(), n, buf)
    return "".join(chr(c) for c in buf)

_ANY = z3.AllChar(z3.ReSort(z3.StringSort()))

def regex(pattern):
    """z3 regular expression of a (concrete) fnmatch pattern"""
    out, i, n = [], 0, len(pattern)
    lit = lambda c: z3.Re(z3.StringVal(c))
    while i < n:
        c = pattern[i]
        i += 1
        if c == "*":
            out.append(z3.Star(_ANY))
        elif c == "?":
            out.append(_ANY)
        elif c == "[":
            j = i
            if j < n and pattern[j] == "!":
                j += 1
            if j < n and pattern[j] == "]":
                j += 1
            while j < n and pattern[j] != "]":
                j += 1
            if j >= n:
                out.append(lit("["))
                continue
            body = pattern[i:j]
            i = j + 1
            neg = body.startswith("!")
            body = body[1:] if neg else body
            alts, k = [], 0
            while k < len(body):
                if k + 2 < len(body) and body[k + 1] == "-":
                    alts.append(z3.Range(body[k], body[k + 2]))
                    k += 3
                else:
                    alts.append(lit(body[k]))
                    k += 1
            cls = alts[0] if len(alts) == 1 else z3.Union(*alts)
            out.append(z3.Intersect(_ANY, z3.Complement(cls)) if neg else cls)
        else:
            out.append(lit(c))
    if not out:
        return lit("")
    return out[0] if len(out) == 1 else z3.Concat(*out)

class Pattern(str):
    """literal (of symbolic content) followed by '*'"""

def prefix(lit):
    """the pattern that everything beginning with this literal matches"""
    if isinstance(lit, SymStr):
        out = Pattern.__new__(Pattern, "\uf8ff<symbolic pattern>*")
        out._lit = lit._term
        return out
    return str(lit) + "*"

def literal(E, name):
    """an arbitrary string without the special characters of patterns"""
    s = E.string(name)
    if E.symbolic:
        E.assume(S.SymScalar(z3.InRe(s._term, z3.Star(z3.Union(z3.Range(" ", ")"), z3.Range("+", ">"), z3.Range("@", "Z"), z3.Range("]", "~")))), S.BOOL))
    else:
        E.assume(all(" " <= c <= "~" and c not in "*?[" for c in s))
    return s

def matchterm(n, p):
    """z3 condition (or bool) that n matches the pattern p"""
    if isinstance(p, Pattern) and hasattr(p, "_lit"):
        return z3.PrefixOf(p._lit, term(n))
    if isinstance(p, SymStr):
        return term(n) == p._term
    if isinstance(n, SymStr):
        return z3.InRe(n._term, regex(p)) if any(c in p for c in "*?[") else n._term == z3.StringVal(p)
    return _match(n, p)

def fnmatchcase(n, p):
    return engine.current().decide(matchterm(n, p))
