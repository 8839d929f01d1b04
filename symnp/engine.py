"""Path-forking symbolic execution engine on top of z3.

A harness is run repeatedly.  Every time the code under test needs a concrete
decision (truth value of a symbolic condition, value of a symbolic integer used
as a length/slice bound), the engine asks z3 which outcomes are feasible under
the path condition collected so far, takes one and queues the others.  The
exploration is over when the queue is empty: every value of the symbolic inputs
(within the declared bounds) then belongs to exactly one explored path.
"""
import time
import z3

class Incomplete(BaseException):
    """this path needs something outside the encoding (not an Exception: the code under test must not swallow it)"""

class Infeasible(BaseException):
    """path condition became unsatisfiable (an assumption excluded this path)"""

class Budget(BaseException):
    """wall-clock budget used up"""

CUR = None   # engine of the path being executed

def current():
    if CUR is None:
        raise Incomplete("symbolic value used outside of an exploration")
    return CUR

_CTX = z3.main_ctx().ref()
_astid = z3.z3core.Z3_get_ast_id.__defaults__[0].f
_TRUE = z3.BoolVal(True)
_FALSE = z3.BoolVal(False)

_SIMPLIFIED = {}   # ast id -> (term, simplified term)

def simplify(t):
    """z3.simplify, remembered: the result may depend on the order in which terms were made, so a term and what it was
    simplified to are kept for the whole exploration (a path that is replayed must meet the same terms)"""
    key = _astid(_CTX, t.ast)
    hit = _SIMPLIFIED.get(key)
    if hit is None:
        hit = _SIMPLIFIED[key] = t, z3.simplify(t)
    return hit[1]

class Engine(object):
    MAXVALUES = 130

    def __init__(self, timeout_ms=60000, deadline=None):
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.deadline = deadline
        self.fids = []
        self.frames = []          # z3 terms asserted in self.solver, one push level each
        self.queries = 0
        self.solver_s = 0.0
        self.unknowns = 0
        self.decisions = 0
        self.paths = 0
        self.reset([])

    # ---- per-path state
    def reset(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.pc = []
        self.ids = []             # ast ids of pc (terms are hash-consed: equal ids mean equal terms)
        self.pending = []
        self.model = None         # a model of pc (z3.ModelRef) or None
        self.syms = {}            # name -> (term, kind)
        self.notes = []
        self.fresh = 0
        self.facts = []           # (term, replacement) pairs that hold under pc[:factpos]
        self.factpos = 0
        self.factarr = None
        self.decided = {}         # ast id -> (term, truth value on this path)

    # ---- solver plumbing
    def _sync(self):
        ids = self.ids
        for t in self.pc[len(ids):]:
            ids.append(_astid(_CTX, t.ast))
        i, fids = 0, self.fids
        n = min(len(fids), len(ids))
        while i < n and fids[i] == ids[i]:
            i += 1
        extra = len(self.frames) - i
        if extra:
            self.solver.pop(extra)
            del self.frames[i:]
            del fids[i:]
        for t in self.pc[i:]:
            self.solver.push()
            self.solver.add(t)
            self.frames.append(t)   # keeps the term (and so its id) alive
        fids.extend(ids[i:])

    def check(self, cond=None):
        """sat of pc (and cond): returns (z3result, model or None)"""
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget()
        self._sync()
        t0 = time.time()
        self.queries += 1
        if cond is not None:
            self.solver.push()
            self.solver.add(cond)
        try:
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
        finally:
            if cond is not None:
                self.solver.pop()
            self.solver_s += time.time() - t0
        if r == z3.unknown:
            self.unknowns += 1
        return r, m

    def _add(self, t):
        self.pc.append(t)
        if self.model is not None:
            if not z3.is_true(self.model.eval(t, model_completion=True)):
                self.model = None

    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            raise Infeasible()
        cond = simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise Infeasible()
        self._add(cond)
        if len(self.trace) >= len(self.prefix) and self.model is None:
            r, m = self.check()
            if r == z3.unsat:
                raise Infeasible()
            if r == z3.unknown:
                raise Incomplete("solver returned unknown")
            self.model = m

    def getmodel(self):
        if self.model is None:
            r, m = self.check()
            if r == z3.unsat:
                raise Infeasible()
            if r == z3.unknown:
                raise Incomplete("solver returned unknown")
            self.model = m
        return self.model

    def under(self, cond):
        """cond with everything the path condition says literally substituted (equivalent under the path condition)"""
        if self.factpos < len(self.pc):
            for t in self.pc[self.factpos:]:
                self._fact(t)
            self.factpos = len(self.pc)
        if not self.facts:
            return cond
        n = len(self.facts)
        if self.factarr is None or self.factarr[0] != n:
            f, t = (z3.Ast * n)(), (z3.Ast * n)()
            for i, (a, b) in enumerate(self.facts):
                f[i], t[i] = a.ast, b.ast
            self.factarr = n, f, t
        n, f, t = self.factarr
        for i in range(3):
            new = z3.z3._to_expr_ref(z3.Z3_substitute(_CTX, cond.ast, n, f, t), cond.ctx)
            if new.ast.value == cond.ast.value:
                break
            new = simplify(new)
            if new.ast.value == cond.ast.value:
                break
            cond = new
        return cond

    def _fact(self, t):
        k = t.decl().kind()
        if k == z3.Z3_OP_AND:
            for c in t.children():
                self._fact(c)
        elif k == z3.Z3_OP_NOT and t.arg(0).decl().kind() == z3.Z3_OP_OR:
            for c in t.arg(0).children():
                self._fact(simplify(z3.Not(c)))
        elif k == z3.Z3_OP_NOT:
            self.facts.append((t.arg(0), _FALSE))
            if t.arg(0).decl().kind() == z3.Z3_OP_EQ:      # a bit that is not this is the other
                a, b = t.arg(0).children()
                if z3.is_bv(a) and a.size() == 1:
                    if z3.is_bv_value(a):
                        a, b = b, a
                    if z3.is_bv_value(b):
                        self.facts.append((a, z3.BitVecVal(1 - b.as_long(), 1)))
        else:
            if k == z3.Z3_OP_EQ:
                a, b = t.children()
                if z3.is_bv_value(a):
                    self.facts.append((b, a))
                elif z3.is_bv_value(b):
                    self.facts.append((a, b))
            self.facts.append((t, _TRUE))

    # ---- decisions
    def decide(self, cond):
        """truth value of a z3 Bool, forking when both are feasible"""
        if cond is True or cond is False:
            return cond
        cond = simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        # already decided on this path?
        neg = cond.decl().kind() == z3.Z3_OP_NOT
        atom = cond.arg(0) if neg else cond
        key = _astid(_CTX, atom.ast)
        hit = self.decided.get(key)
        if hit is not None:
            return hit[1] != neg
        val = self._decide(cond)
        self.decided[key] = (atom, val != neg)
        return val

    def _decide(self, cond):
        i = len(self.trace)
        if i < len(self.prefix):
            val = self.prefix[i]
            if val is not True and val is not False:
                raise Incomplete("replay of a path went another way")
        else:
            cond = self.under(cond)
            if z3.is_true(cond) or z3.is_false(cond):
                val = z3.is_true(cond)
                self.trace.append(val)
                return val
            m = self.getmodel()
            mine = z3.is_true(m.eval(cond, model_completion=True))
            other = z3.Not(cond) if mine else cond
            r, m2 = self.check(other)
            if r == z3.unknown:
                raise Incomplete("solver returned unknown")
            val = mine
            if r == z3.sat:
                self.pending.append(self.trace + [not mine])
                self.decisions += 1
            else:
                # implied: no need to record a choice, nor to grow the path condition
                self.trace.append(mine)
                self._fact(cond if mine else simplify(z3.Not(cond)))
                return mine
        self.trace.append(val)
        self._add(cond if val else simplify(z3.Not(cond)))
        return val

    def concretize(self, term, signed=True):
        """concrete value of a bit-vector term; forks over all feasible values"""
        term = simplify(term)
        if z3.is_bv_value(term):
            return term.as_signed_long() if signed else term.as_long()
        i = len(self.trace)
        if i < len(self.prefix):
            val = self.prefix[i]
            if val is True or val is False:
                raise Incomplete("replay of a path went another way")
        else:
            term = self.under(term)
            if z3.is_bv_value(term):
                val = term.as_signed_long() if signed else term.as_long()
                self.trace.append(val)
                return val
            vals = []
            m = self.getmodel()
            conds = []
            while True:
                v = m.eval(term, model_completion=True)
                vals.append(v.as_signed_long() if signed else v.as_long())
                if len(vals) > self.MAXVALUES:
                    raise Incomplete("symbolic value with more than {0} feasible values used where a concrete one is needed".format(self.MAXVALUES))
                conds.append(term != v)
                r, m = self.check(z3.And(*conds))
                if r == z3.unknown:
                    raise Incomplete("solver returned unknown")
                if r == z3.unsat:
                    break
            vals.sort()
            for v in reversed(vals[1:]):
                self.pending.append(self.trace + [v])
            self.decisions += len(vals) - 1
            val = vals[0]
            if len(vals) == 1:
                self.trace.append(val)
                self.facts.append((term, z3.BitVecVal(val, term.size())))
                return val
        self.trace.append(val)
        self._add(simplify(term == z3.BitVecVal(val, term.size())))
        return val

    # ---- exploration
    def explore(self, run, on_path, maxpaths=None):
        """run() executes the harness on one path; on_path(status, detail) is called with the path state still live"""
        global CUR
        work = [[]]
        _SIMPLIFIED.clear()
        complete = True
        while work:
            if maxpaths is not None and self.paths >= maxpaths:
                complete = False
                break
            prefix = work.pop()
            self.reset(prefix)
            CUR = self
            status, detail = "ok", None
            try:
                detail = run()
            except Incomplete as err:
                status, detail = "incomplete", str(err)
            except Infeasible:
                status = "infeasible"
            except Budget:
                CUR = None
                return False
            self.paths += 1
            work.extend(self.pending)
            self.pending = []
            try:
                stop = on_path(status, detail)
            except Budget:
                CUR = None
                return False
            finally:
                CUR = None
            if stop:
                return False
        return complete
