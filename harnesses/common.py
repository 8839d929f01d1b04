from symnp.harness import harness, Fail

class Lazy(object):
    """reference list of lists whose rows are looked up only when asked for"""
    def __init__(self, n, row):
        self.n, self.row, self.memo = n, row, {}
    def __len__(self):
        return self.n
    def __getitem__(self, i):
        if isinstance(i, slice):
            return [self[j] for j in range(*i.indices(self.n))]
        i = int(i)
        if i < 0:
            i += self.n
        if not 0 <= i < self.n:
            raise IndexError(i)
        if i not in self.memo:
            self.memo[i] = self.row(i)
        return self.memo[i]
    def __iter__(self):
        for i in range(self.n):
            yield self[i]
    def all(self):
        return [self[i] for i in range(self.n)]

def structure(E, name, maxlists=3, maxlen=3, minlists=0, placement="any", total=4, extra=True, nlists=None, minlen=0):
    """starts/stops description of a jagged structure: returns (kind, arrays, total content length, Lazy-row function of (start, stop))
    placement: 'any' (arbitrary starts/stops: overlapping, out of order, with gaps), 'offsets' (may not begin at 0 nor cover
    the content), 'counts' (compact)"""
    n = E.size(name + ".n", minlists, maxlists) if nlists is None else nlists
    if placement == "any":
        starts = E.array(name + ".starts", n, "int64", 0, total)
        counts = E.array(name + ".counts", n, "int64", minlen, maxlen)
        for i in range(n):
            E.assume(starts[i] + counts[i] <= total)
        stops = starts + counts if n else E.np.array([], dtype="int64")
        return n, starts, stops, total, lambda i: (int(starts[i]), int(stops[i]))
    cs = E.sizes(name + ".count", n, minlen, maxlen)
    first = E.size(name + ".first", 0, 1) if placement == "offsets" else 0
    last = E.size(name + ".last", 0, 1) if placement == "offsets" else 0
    offs = [first]
    for c in cs:
        offs.append(offs[-1] + c)
    offs = [int(x) for x in offs]
    return n, offs, cs, offs[-1] + last, lambda i: (offs[i], offs[i + 1])

def jagged(E, name, maxlists=3, maxlen=3, placement="counts", total=4, dtype="int64", cls=None, minlists=0, lo=None, hi=None, content=None, nlists=None, minlen=0):
    """a JaggedArray over fresh content (or content(total) -> (array, reference list)) and its reference"""
    cls = cls or E.ak.JaggedArray
    n, p, q, total, bounds = structure(E, name, maxlists, maxlen, minlists, placement, total, nlists=nlists, minlen=minlen)
    if content is None:
        data = E.array(name + ".content", total, dtype, lo, hi)
        items = E.items(data)
    else:
        data, items = content(total)
    if placement == "any":
        a = cls(p, q, data)
    elif placement == "offsets":
        a = cls.fromoffsets(E.np.array(p, dtype="int64"), data)
    else:
        a = cls.fromcounts(E.np.array(q, dtype="int64"), data)
    def row(i):
        lo_, hi_ = bounds(i)
        return items[lo_:hi_]
    return a, Lazy(n, row)

def inrange(E, i, n, why="index out of range"):
    """Python-list index semantics: position, or Fail"""
    if not (i >= -n) or not (i < n):
        raise Fail(why)
    return int(i)

def pick(E, lst, i):
    return lst[inrange(E, i, len(lst))]

def optslice(E, name, lo, hi, steps=(None, 1, 2, -1, -2)):
    """slice with symbolic (possibly absent) bounds and a chosen step"""
    st = E.choice(name + ".step", list(steps)) if len(steps) > 1 else steps[0]
    a = None if E.flag(name + ".nostart") else E.int(name + ".start", lo, hi, py=True)
    b = None if E.flag(name + ".nostop") else E.int(name + ".stop", lo, hi, py=True)
    return slice(a, b, st)

def plain(s):
    """the slice with concrete bounds"""
    f = lambda x: None if x is None else int(x)
    return slice(f(s.start), f(s.stop), f(s.step))

def refslice(lst, s):
    return lst[plain(s)]
