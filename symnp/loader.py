"""Two copies of the package under test, both imported from /repo's current source:
one bound to the symbolic numpy, one to the real numpy (for replay)."""
import contextlib
import importlib
import os
import sys
import numpy as np
from . import arrow, frames, nd

STANDIN = ("numpy", "zlib", "pyarrow", "pyarrow.lib", "pyarrow.parquet", "pandas")

REPO = os.environ.get("VERIF_REPO", "/repo")

def fakezlib():
    """zlib as far as the code under test needs it: decompress undoes compress"""
    import types, zlib
    m = types.ModuleType("zlib")
    class Compressed(object):
        def __init__(self, data):
            self.data = data
    def compress(data, *args, **kwargs):
        return Compressed(nd.SymBuffer(data.copy()) if isinstance(data, nd.ndarray) else bytes(data))
    def decompress(data, *args, **kwargs):
        if not isinstance(data, Compressed):
            raise zlib.error("incorrect header check")
        return data.data
    m.compress, m.decompress, m.error = compress, decompress, zlib.error
    return m

def fakecodecs():
    """codecs as far as the code under test needs it, for arrays and strings with symbolic contents"""
    import types, codecs
    m = types.ModuleType("codecs")
    def getdecoder(encoding):
        real = codecs.getdecoder(encoding)
        name = codecs.lookup(encoding).name
        def decode(x, errors="strict"):
            if isinstance(x, nd.SymBuffer):
                return x.decode(name), len(x)
            if isinstance(x, nd.ndarray) and x._hassym():
                return nd.symtext(x, name), x.nbytes
            return real(x, errors)
        return decode
    def getencoder(encoding):
        real = codecs.getencoder(encoding)
        name = codecs.lookup(encoding).name
        return lambda x, errors="strict": (x.encode(name), len(x)) if isinstance(x, nd.SymText) else real(x, errors)
    m.__getattr__ = lambda name: getattr(codecs, name)
    m.getdecoder, m.getencoder, m.lookup = getdecoder, getencoder, codecs.lookup
    return m

class Copy(object):
    def __init__(self, symbolic):
        self.symbolic = symbolic
        self.mods = {}
        if symbolic:
            self.numpy, sub = nd.build_module()
            self.mods["numpy"] = self.numpy
            self.mods["zlib"] = fakezlib()
            self.mods["pandas"] = frames.build()
            self.mods["pyarrow"], self.mods["pyarrow.lib"], self.mods["pyarrow.parquet"] = arrow.build()
        else:
            self.numpy = np
        with self.active():
            import awkward0
            import awkward0.arrow, awkward0.persist, awkward0.generate, awkward0.type, awkward0.util
            self.ak = awkward0
            if symbolic:
                for m in list(sys.modules.values()):
                    if getattr(m, "__name__", "").startswith("awkward0") and hasattr(m, "codecs"):
                        m.codecs = fakecodecs()
            f = os.path.realpath(awkward0.__file__)
            if not f.startswith(os.path.realpath(REPO) + os.sep):
                raise RuntimeError("awkward0 was imported from {0}, not from {1}".format(f, REPO))

    @contextlib.contextmanager
    def active(self):
        saved = {}
        names = [k for k in sys.modules if k == "awkward0" or k.startswith("awkward0.") or (self.symbolic and k in STANDIN)]
        for k in names:
            saved[k] = sys.modules.pop(k)
        sys.modules.update(self.mods)
        oldpath = list(sys.path)
        sys.path.insert(0, REPO)
        try:
            yield self
        finally:
            sys.path[:] = oldpath
            for k in list(sys.modules):
                if k == "awkward0" or k.startswith("awkward0."):
                    self.mods[k] = sys.modules.pop(k)
                elif self.symbolic and k in STANDIN:
                    del sys.modules[k]
            sys.modules.update(saved)
