"""Encoding validation: run the repository's own unit tests with the symbolic numpy standing in for numpy
(no symbolic values) and list the tests that behave differently from a run with the real numpy."""
import sys; sys.dont_write_bytecode = True
import warnings; warnings.simplefilter("ignore")
import os, unittest, importlib.util, glob, io, traceback
import numpy
import numpy.lib.mixins, numpy.ma
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symnp import loader
skip = ("test_arrow", "test_pandas", "test_hdf5", "test_persist_parquet")
def run(copy, verbose):
    out = {}
    with copy.active():
        for f in sorted(glob.glob(loader.REPO + "/tests/**/test_*.py", recursive=True)):
            name = os.path.basename(f)[:-3]
            if any(name.startswith(s) for s in skip):
                continue
            try:
                spec = importlib.util.spec_from_file_location("tt_" + name, f)
                m = importlib.util.module_from_spec(spec)
                sys.modules["tt_" + name] = m
                spec.loader.exec_module(m)
            except BaseException as e:
                out[name] = "import: " + repr(e)
                continue
            suite = unittest.defaultTestLoader.loadTestsFromModule(m)
            res = unittest.TestResult()
            suite.run(res)
            ran = [t for s in suite for t in (s if isinstance(s, unittest.TestSuite) else [s])]
            bad = dict((t.id(), tb) for t, tb in res.failures + res.errors)
            for s in unittest.defaultTestLoader.loadTestsFromModule(m):
                for t in s:
                    out[t.id()] = bad.get(t.id(), "ok")
    return out
a = run(loader.Copy(False), False)
b = run(loader.Copy(True), True)
n = 0
for k in sorted(b):
    if a.get(k) == "ok" and b[k] != "ok":
        n += 1
        print("DIFF", k); 
        if len(sys.argv) > 1: print(b[k])
print("real ok", sum(v == "ok" for v in a.values()), "of", len(a), "; symbolic numpy ok", sum(v == "ok" for v in b.values()), "; differing", n)
