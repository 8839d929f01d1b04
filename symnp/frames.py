"""A stand-in for pandas, as far as converting arrays to a DataFrame needs it: it keeps the columns and the index it is
given after the same checks (every column one-dimensional and as long as the index, every level of the index as long as
the others).  That it does what pandas does is checked by the replays, which run on the real pandas."""
import types
import numpy as np
from . import nd

def onedim(x):
    if isinstance(x, nd.ndarray) and len(x.shape) != 1 or isinstance(x, np.ndarray) and x.ndim != 1:
        raise ValueError("Per-column arrays must each be 1-dimensional")
    return x

class Index(object):
    def __init__(self, data):
        self.levels_ = [onedim(data)]
        self.single = True
    @property
    def nlevels(self):
        return len(self.levels_)
    def __len__(self):
        return len(self.levels_[0])
    def tolist(self):
        cols = [list(x) for x in self.levels_]
        return cols[0] if self.single else [tuple(r) for r in zip(*cols)]

class MultiIndex(Index):
    @classmethod
    def from_arrays(cls, arrays):
        out = cls.__new__(cls)
        out.levels_ = [onedim(x) for x in arrays]
        out.single = False
        if not out.levels_:
            raise ValueError("Must pass non-zero number of levels/codes")
        if any(len(x) != len(out.levels_[0]) for x in out.levels_):
            raise ValueError("all arrays must be same length")
        return out
    @classmethod
    def from_tuples(cls, tuples):
        tuples = list(tuples)
        if not tuples:
            raise TypeError("Cannot infer number of levels from empty list")
        out = cls.__new__(cls)
        n = max(len(t) for t in tuples)
        out.levels_ = [[t[i] if i < len(t) else float("nan") for t in tuples] for i in range(n)]
        out.single = False
        return out

class Series(object):
    def __init__(self, data=None, index=None):
        self.values_, self.index = onedim(data), index if index is not None else Index(np.arange(len(data)))
        if len(self.values_) != len(self.index):
            raise ValueError("Length of values ({0}) does not match length of index ({1})".format(len(self.values_), len(self.index)))
    def tolist(self):
        return list(self.values_)

class DataFrame(object):
    def __init__(self, data=None, index=None, columns=None):
        if not isinstance(data, dict) or index is None or columns is None:
            raise NotImplementedError("only DataFrame(data=dict, index=..., columns=...)")
        self.index, self.columns = index, columns
        self.series = [Series(self._repeated(data[k], index), index) for k in columns.tolist()]
    @staticmethod
    def _repeated(x, index):        # a column of one value is a value for every row
        return [list(x)[0]] * len(index) if len(x) == 1 != len(index) else x
    def column(self, i):
        return self.series[i].tolist()

def build():
    m = types.ModuleType("pandas")
    m.Index, m.MultiIndex, m.Series, m.DataFrame = Index, MultiIndex, Series, DataFrame
    return m
