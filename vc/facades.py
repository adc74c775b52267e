"""Contract stand-ins for numpy / pandas calls the pointwise engine does not interpret.
Each one is the library call's documented contract; all of them are listed as assumptions."""
import z3
from . import pysym as ps
from .pysym import SNum, SBool, PArr, SymList, Unsupported, _z

class SymMap:
    """dict(zip(keys, values)): lookups are justified only for keys of the mapping"""
    def __init__(self, it): self.it = it
    def get(self, x, *d):
        p = ps.CUR
        k = SNum(p.fresh_int("key"))
        p.assume(z3.And(k.t >= 0, k.t < _z(self.it.n)))
        key, val = self.it.elem(k)
        p.assume(_z(key) == _z(x))
        return val
    def __getitem__(self, x): return self.get(x)

def b_dict(*a, **k):
    if len(a) == 1 and isinstance(a[0], ps.SymIter): return SymMap(a[0])
    return dict(*a, **k)

class ColMask:
    def __init__(self, pred): self.pred = pred
class Col:
    def __init__(self, t, name): self.t = t; self.name = name
    def __eq__(self, x):
        t, name = self.t, self.name
        return ColMask(lambda k: SBool(_z(t.cell(name, k)) == _z(x)))
    __hash__ = None
    def to_list(self): return SymList(self.t.n, lambda k: self.t.cell(self.name, k))
    tolist = to_list
    @property
    def values(self): return PArr((self.t.n,), lambda k: self.t.cell(self.name, k))
    to_numpy = lambda self: self.values
    def __symlen__(self): return self.t.n
class Row:
    def __init__(self, t, k): self.t = t; self.k = k
    def __getitem__(self, name): return self.t.cell(name, self.k)
    @property
    def iloc(self): return [self]
class STable:
    """a pandas table of symbolic length: columns name -> fn(row)"""
    def __init__(self, n, cols, unique=()): self.n = n; self.cols = dict(cols); self.unique = unique
    def cell(self, name, k):
        if name not in self.cols: raise KeyError(name)
        return self.cols[name](k)
    def __getitem__(self, x):
        if isinstance(x, str):
            if x not in self.cols: raise KeyError(x)
            return Col(self, x)
        if isinstance(x, ColMask): return self.pick(x)
        raise Unsupported("table index")
    def __symlen__(self): return self.n
    @property
    def shape(self): return (self.n, len(self.cols))
    def assign(self, **kw):
        c = dict(self.cols)
        for name, v in kw.items():
            if isinstance(v, PArr): c[name] = (lambda v: lambda k: v.at(k))(v)
            elif isinstance(v, SymList): c[name] = (lambda v: lambda k: v.get(k))(v)
            else: raise Unsupported("assign of %r" % type(v))
        return STable(self.n, c, self.unique)
    def copy(self): return STable(self.n, self.cols, self.unique)
    @property
    def loc(self): return self
    def pick(self, m):
        """the one row selected by the mask (obliged to exist and to be unique by the table's unique column)"""
        p = ps.CUR
        k = SNum(p.fresh_int("row"))
        p.assume(z3.And(k.t >= 0, k.t < _z(self.n))); p.assume(m.pred(k).t)
        return Row(self, k)
