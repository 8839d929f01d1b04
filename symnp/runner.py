"""Explore one harness with one set of parameters; every path is decided by z3 and replayed on the real code."""
import gc
import os
import random
import sys
import time
import traceback
import numpy as np
from . import engine, loader, nd
from .engine import Engine, Incomplete, Infeasible
from .harness import REGISTRY, Sym, Real, Violated, concretized, plain_equal, encode_value

_COPIES = {}

class _Copies(object):
    """symbolic copy only when needed (replays run the real package alone)"""
    def __getitem__(self, i):
        key = ("sym", "real")[i]
        if key not in _COPIES:
            _COPIES[key] = loader.Copy(key == "sym")
        return _COPIES[key]
    def __iter__(self):
        return iter([self[0], self[1]])

def copies():
    return _Copies()

def run_real(h, params, values):
    """(status, label/info, log) of the harness on concrete inputs with the real numpy"""
    real = copies()[1]
    E = Real(real, values)
    with real.active(), np.errstate(all="ignore"):
        try:
            h.fn(E, **params)
        except Violated as err:
            return "violated", (err.label, str(err.info)), E
        except Infeasible:
            return "infeasible", None, E
        except Exception as err:
            info = "{0}: {1}".format(type(err).__name__, err)
            tb, prefix = err.__traceback__, os.path.realpath(loader.REPO) + os.sep
            while tb is not None:
                if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(prefix):
                    # the code under test refused something that every harness takes for granted
                    return "violated", ("unexpected error", info), E
                tb = tb.tb_next
            return "error", info, E
    return "ok", None, E

class FunctionTrace(object):
    """names of the functions of the package under test that were executed symbolically"""
    def __init__(self):
        self.seen = set()
        self.prefix = os.path.realpath(loader.REPO) + os.sep
    def __call__(self, frame, event, arg):
        if event == "call":
            co = frame.f_code
            if co.co_filename.startswith(self.prefix):
                self.seen.add("{0}:{1}".format(co.co_filename[len(self.prefix):], getattr(co, "co_qualname", co.co_name)))
        return None

def explore(name, params, budget_s=None, maxpaths=None, maxviolations=3, validate=True):
    h = REGISTRY[name]
    gc.disable()
    sym = copies()[0]
    t0 = time.time()
    deadline = None if budget_s is None else t0 + budget_s
    eng = Engine(deadline=deadline)
    res = {"harness": name, "params": params, "paths": 0, "infeasible": 0, "incomplete": [], "violations": [], "unreproduced": [], "mismatch": [],
           "validated": 0, "checks": 0, "reach": set(), "functions": set(), "samples": [], "complete": True, "errors": []}
    tracer = FunctionTrace()
    state = {}

    def run():
        if eng.paths % 200 == 199:
            gc.collect()
        E = state["E"] = Sym(sym, eng)
        state["violated"] = None
        state["error"] = None
        trace = eng.paths < 3 or eng.paths % 37 == 0
        del nd._PICKLED[:]
        with sym.active():
            if trace:
                sys.setprofile(tracer)
            try:
                with np.errstate(all="ignore"):
                    h.fn(E, **params)
            except Violated as err:
                state["violated"] = err
            except Exception as err:
                state["error"] = err
                state["tb"] = traceback.format_exc()
            finally:
                if trace:
                    sys.setprofile(None)

    def on_path(status, detail):
        E = state["E"]
        res["checks"] += E.nchecks
        if status == "infeasible":
            res["infeasible"] += 1
            return
        res["paths"] += 1
        if status == "incomplete":
            # undecided path: still give its witness to the real code
            try:
                m = eng.getmodel()
            except (Incomplete, Infeasible):
                res["incomplete"].append({"why": detail})
                return
            vals = E.values(m)
            st, info, R = run_real(h, params, vals)
            res["incomplete"].append({"why": detail, "values": dict((k, encode_value(v)) for k, v in vals.items())})
            if st == "violated":
                add_violation(info[0], info[1], vals, "undecided path, witness violates")
            return len(res["violations"]) >= maxviolations
        if state["violated"] is not None:
            err = state["violated"]
            vals = E.values(err.model)
            st, info, R = run_real(h, params, vals)
            if st == "violated":
                add_violation(info[0], info[1], vals, "counterexample")
            else:
                res["unreproduced"].append({"label": err.label, "info": str(err.info)[:1000], "values": dict((k, encode_value(v)) for k, v in vals.items()), "real": st, "realinfo": str(info)[:500]})
            return len(res["violations"]) >= maxviolations
        m = eng.getmodel()
        vals = E.values(m)
        if state["error"] is not None:
            # the harness itself raised: only the real code can tell what that means
            st, info, R = run_real(h, params, vals)
            if st == "violated":
                add_violation(info[0], info[1], vals, "witness")
            else:
                res["errors"].append({"error": repr(state["error"])[:500], "tb": state["tb"][-1500:], "real": st, "realinfo": str(info), "values": dict((k, encode_value(v)) for k, v in vals.items())})
            return len(res["violations"]) >= maxviolations
        res["reach"] |= E.reach
        if validate:
            st, info, R = run_real(h, params, vals)
            if st == "violated":
                add_violation(info[0], info[1], vals, "witness")
                return len(res["violations"]) >= maxviolations
            slog = [(a, concretized(b, m)) for a, b in E.log]
            if st != "ok" or not plain_equal(slog, [(a, b) for a, b in R.log]):
                bad = [(a, b) for a, b in zip(slog, R.log) if not plain_equal(a, tuple(b))]
                res["mismatch"].append({"values": dict((k, encode_value(v)) for k, v in vals.items()), "real": st, "info": str(info)[:500], "diff": repr(bad[:2])[:1500]})
            else:
                res["validated"] += 1
            if len(res["samples"]) < 2 and slog:
                res["samples"].append({"inputs": dict((k, encode_value(v)) for k, v in list(vals.items())[:12]), "observed": repr(slog[:2])[:300]})
        else:
            res["validated"] += 0

    def add_violation(label, info, vals, how):
        res["violations"].append({"harness": name, "params": params, "label": label, "info": str(info)[:2000], "how": how, "values": dict((k, encode_value(v)) for k, v in vals.items())})

    res["complete"] = eng.explore(run, on_path, maxpaths) and not res["violations"]
    res.update(queries=eng.queries, solver_s=eng.solver_s, decisions=eng.decisions, unknowns=eng.unknowns, wall_s=time.time() - t0,
               functions=sorted(tracer.seen), reach=sorted(res["reach"]), numpy=sorted(nd.TOUCHED), fallback=sorted(nd.FALLBACK))
    return res
