"""Deductive front end for Python.

The real module source is read from /repo, its imports are bound to symbolic
facades (numpy, pandas) or to other modules extracted in the same way, and the
function under contract is executed on symbolic values.  A symbolic branch
forks; a loop over a symbolic range is replaced, by an AST rewrite that keeps
its body verbatim, with the deductive loop rule (check invariant, havoc what the
body writes, run the body once for an arbitrary index, check invariant / leave
the loop with the invariant).  No bound is involved: the obligations cover every
input and every number of iterations.

What the extraction drops: decorators on functions (click), imports of libraries
with no facade (touching them raises Unsupported), docstrings, numpy dtypes and
machine widths (integers are mathematical, floats are reals with a NaN flag).
"""
import ast, builtins, os, z3
from fractions import Fraction

class Unsupported(BaseException):
    pass
class PathEnd(BaseException):
    pass
class Restart(BaseException):
    pass

CUR = None          # the current Path

# ---------------------------------------------------------------- numbers

def _z(x):
    if isinstance(x, SNum): return x.t
    if isinstance(x, SBool): return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool): return z3.IntVal(int(x))
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, float):
        if x != x: raise Unsupported("nan literal")
        fr = Fraction(x); return z3.RealVal(str(fr))
    if isinstance(x, Fraction): return z3.RealVal(str(x))
    if z3.is_expr(x): return x
    if hasattr(x, 'item') and not isinstance(x, PArr): return _z(x.item())
    raise Unsupported("not a number: %r" % (type(x),))

def _nan(x):
    return x.nan if isinstance(x, SNum) and x.nan is not None else None

def _or(a, b):
    if a is None: return b
    if b is None: return a
    return z3.Or(a, b)

def isnum(x):
    return isinstance(x, (int, float, SNum, SBool, Fraction)) or z3.is_expr(x)

def real(t):
    return z3.ToReal(t) if z3.is_int(t) else t

def _pair(a, b):
    a, b = _z(a), _z(b)
    if z3.is_int(a) and z3.is_int(b): return a, b
    return real(a), real(b)

def simp(t):
    return z3.simplify(t)

def conc(x):
    """concrete int of x, or None"""
    if isinstance(x, bool): return int(x)
    if isinstance(x, int): return x
    t = _z(x)
    s = z3.simplify(t)
    if z3.is_int_value(s): return s.as_long()
    if z3.is_rational_value(s) and s.denominator_as_long() == 1: return s.numerator_as_long()
    return None

class SBool:
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __bool__(self): return CUR.branch(self.t)
    def __and__(self, o): return SBool(z3.And(self.t, tob(o)))
    __rand__ = __and__
    def __or__(self, o): return SBool(z3.Or(self.t, tob(o)))
    __ror__ = __or__
    def __invert__(self): return SBool(z3.Not(self.t))
    def __eq__(self, o):
        if isinstance(o, (bool, SBool)): return SBool(self.t == tob(o))
        return SNum(_z(self)) == o
    def __ne__(self, o): return SBool(z3.Not((self == o).t))
    def __hash__(self): return hash(self.t)
    def __add__(self, o): return SNum(_z(self)) + o
    def __radd__(self, o): return SNum(_z(self)) + o
    def __mul__(self, o): return SNum(_z(self)) * o
    __rmul__ = __mul__

def tob(x):
    if isinstance(x, SBool): return x.t
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, SNum): return x.t != 0
    if isinstance(x, int): return z3.BoolVal(bool(x))
    if z3.is_bool(x): return x
    raise Unsupported("not a bool: %r" % (type(x),))

def floordiv(a, b):
    """Python floor division on integer terms"""
    q = a / b                      # z3: remainder always >= 0
    if z3.is_int_value(z3.simplify(b)):
        return q if z3.simplify(b).as_long() > 0 else z3.If(a % b == 0, q, q - 1)
    return z3.If(b > 0, q, z3.If(a % b == 0, q, q - 1))

def pymod(a, b):
    bs = z3.simplify(b)
    if z3.is_int_value(bs) and bs.as_long() > 0: return a % b
    return z3.If(b > 0, a % b, z3.If(a % b == 0, 0, a % b + b))

def trunc(t):
    """truncation toward zero of a real term to Int"""
    return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))

def int_of(x, toward_zero):
    """floor / truncation of a real-valued SNum as an Int term"""
    if x.frac is not None:
        a, b = x.frac
        if z3.is_int_value(z3.simplify(b)) and z3.simplify(b).as_long() > 0:
            q, r = a / b, a % b
        else: q, r = CUR.euclid(a, b)
        return z3.If(z3.Or(a >= 0, r == 0), q, q + 1) if toward_zero else q
    return trunc(x.t) if toward_zero else z3.ToInt(x.t)

class TokStr(str):
    """text of one symbolic value"""
    def pad(s, n):
        m = __import__("re").fullmatch(r"<#(\d+)>", s)
        if not m: raise Unsupported("padding of mixed text")
        v, spec = CUR.fmt[builtins.int(m.group(1))]
        if spec not in ("", "d"): raise Unsupported("padding of formatted text")
        return format(v, "0%d" % n)
    def zfill(s, n): return s.pad(n)
    def rjust(s, n, ch=" "):
        if ch != "0": raise Unsupported("padding")
        return s.pad(n)

class SNum:
    # frac: (a, b) integer terms when the value is the quotient a / b of integers
    __slots__ = ('t', 'nan', 'frac')
    __array_priority__ = 1000
    def __init__(self, t, nan=None, frac=None): self.t = t; self.nan = nan; self.frac = frac
    def _bin(self, o, f, rev=False):
        if isinstance(o, PArr): return NotImplemented
        if not isnum(o): return NotImplemented
        a, b = _pair(self, o)
        if rev: a, b = b, a
        return SNum(f(a, b), _or(self.nan, _nan(o)))
    def _fr(s, r, o, sgn):
        if isinstance(r, SNum) and s.frac is not None and isnum(o) and z3.is_int(_z(o)):
            r.frac = (s.frac[0] + sgn * _z(o) * s.frac[1], s.frac[1])
        return r
    def __add__(s, o): return s._fr(s._bin(o, lambda a, b: a + b), o, 1)
    def __radd__(s, o): return s._fr(s._bin(o, lambda a, b: a + b, True), o, 1)
    def __sub__(s, o): return s._fr(s._bin(o, lambda a, b: a - b), o, -1)
    def __rsub__(s, o): return s._bin(o, lambda a, b: a - b, True)
    def __mul__(s, o): return s._bin(o, lambda a, b: a * b)
    def __rmul__(s, o):
        if isinstance(o, list) and len(o) == 1:
            v = o[0]; return SymList(s, lambda k: v)
        return s._bin(o, lambda a, b: a * b, True)
    def _div(a, b):
        a, b = real(a), real(b)
        CUR.oblige("division by zero", b != 0)
        return a / b
    def _tdiv(a, b, r):
        if isinstance(r, SNum) and isnum(a) and isnum(b) and z3.is_int(_z(a)) and z3.is_int(_z(b)): r.frac = (_z(a), _z(b))
        return r
    def __truediv__(s, o): return SNum._tdiv(s, o, s._bin(o, SNum._div))
    def __rtruediv__(s, o): return SNum._tdiv(o, s, s._bin(o, SNum._div, True))
    def _fdiv(a, b):
        CUR.oblige("division by zero", b != 0)
        if z3.is_int(a): return floordiv(a, b) if z3.is_int_value(z3.simplify(b)) else CUR.euclid(a, b)[0]
        return z3.ToReal(z3.ToInt(a / b))
    def __floordiv__(s, o): return s._bin(o, SNum._fdiv)
    def __rfloordiv__(s, o): return s._bin(o, SNum._fdiv, True)
    def _mod(a, b):
        CUR.oblige("modulo by zero", b != 0)
        if z3.is_int(a): return pymod(a, b) if z3.is_int_value(z3.simplify(b)) else CUR.euclid(a, b)[1]
        return a - b * z3.ToReal(z3.ToInt(a / b))
    def __mod__(s, o): return s._bin(o, SNum._mod)
    def __rmod__(s, o): return s._bin(o, SNum._mod, True)
    def __divmod__(s, o): return (s // o, s % o)
    def __rdivmod__(s, o): return (o // s, o % s)
    def __pow__(s, o):
        k = conc(o)
        if k is None or k < 0 or k > 8: raise Unsupported("pow")
        r = SNum(z3.IntVal(1))
        for _ in range(k): r = r * s
        return r
    def __neg__(s): return SNum(-s.t, s.nan)
    def __pos__(s): return s
    def __abs__(s): return SNum(z3.If(s.t >= 0, s.t, -s.t), s.nan)
    def _cmp(s, o, f, ne=False):
        if isinstance(o, PArr): return NotImplemented
        if o is None or isinstance(o, str): return ne
        if not isnum(o): return NotImplemented
        if isinstance(o, float) and o in (float('inf'), float('-inf')):
            # every finite symbolic number lies strictly between the infinities
            r = z3.BoolVal(builtins.bool(f(0.0, o))); n = s.nan
            if n is not None: r = z3.Or(n, r) if ne else z3.And(z3.Not(n), r)
            return SBool(r)
        a, b = _pair(s, o)
        r = f(a, b)
        n = _or(s.nan, _nan(o))
        if n is not None: r = z3.Or(n, r) if ne else z3.And(z3.Not(n), r)
        return SBool(r)
    def __lt__(s, o): return s._cmp(o, lambda a, b: a < b)
    def __le__(s, o): return s._cmp(o, lambda a, b: a <= b)
    def __gt__(s, o): return s._cmp(o, lambda a, b: a > b)
    def __ge__(s, o): return s._cmp(o, lambda a, b: a >= b)
    def __eq__(s, o): return s._cmp(o, lambda a, b: a == b)
    def __ne__(s, o): return s._cmp(o, lambda a, b: a != b, True)
    def __hash__(s): return hash(s.t)
    def __bool__(s): return CUR.branch(s.t != 0)
    def __and__(s, o): return bitand(s, o)
    __rand__ = __and__
    def __rshift__(s, o):
        k = conc(o)
        if k is None or not z3.is_int(s.t): raise Unsupported("shift")
        return SNum(s.t / (1 << k))
    def __lshift__(s, o):
        k = conc(o)
        if k is None: raise Unsupported("shift")
        return s * (1 << k)
    def __index__(s):
        k = conc(s)
        if k is None: raise Unsupported("symbolic value used as a concrete index")
        return k
    __int__ = __index__
    def __floor__(s): return s if z3.is_int(s.t) else SNum(int_of(s, False))
    def __ceil__(s): return -((-s).__floor__())
    def __trunc__(s): return s if z3.is_int(s.t) else SNum(int_of(s, True))
    def __round__(s, nd=None):
        if nd is not None: raise Unsupported("round digits")
        return SNum(round_half_even(real(s.t)))
    def item(s): return s
    def astype(s, *_): return s
    @property
    def iloc(s): return [s]
    def __repr__(s): return "SNum(%s)" % s.t
    def __format__(s, spec):
        """symbolic values survive in strings as tokens; unfmt() recovers them"""
        if CUR is None: return "<%s>" % s.t
        CUR.fmt.append((s, spec)); return TokStr("<#%d>" % (len(CUR.fmt) - 1))
    __str__ = lambda s: format(s, "")

def round_half_even(t):
    f = z3.ToInt(t); d = t - z3.ToReal(f)
    half = z3.RealVal("1/2")
    return z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))

def bitand(a, b):
    if isinstance(a, int) and isinstance(b, int): return a & b
    ca, cb = conc(a), conc(b)
    if ca is not None: a, b, cb = b, a, ca
    if cb is None or cb < 0: raise Unsupported("bitwise and of two symbolic values")
    t = _z(a)
    if not z3.is_int(t): raise Unsupported("bitand on float")
    r = z3.IntVal(0); k = 0
    while cb >> k:
        if (cb >> k) & 1: r = r + ((t / (1 << k)) % 2) * (1 << k)
        k += 1
    return SNum(r)

def ite(c, a, b):
    """numeric/bool ite on symbolic or concrete values"""
    if isinstance(c, bool): return a if c else b
    ct = tob(c)
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return SBool(z3.If(ct, tob(a), tob(b)))
    x, y = _pair(a, b)
    na, nb = _nan(a), _nan(b)
    n = None
    if na is not None or nb is not None:
        n = z3.If(ct, na if na is not None else z3.BoolVal(False), nb if nb is not None else z3.BoolVal(False))
    return SNum(z3.If(ct, x, y), n)

def nand(*a):
    a = [tob(x) for x in a]
    return SBool(z3.And(*a)) if a else True

# ---------------------------------------------------------------- arrays

def same(a, b):
    ca, cb = conc(a), conc(b)
    if ca is not None and cb is not None: return ca == cb
    return z3.eq(z3.simplify(_z(a)), z3.simplify(_z(b)))

def prod(xs):
    r = 1
    for x in xs: r = r * x
    return r

class PArr:
    """n-d array of any (symbolic) shape: a total function from index tuples to values."""
    __array_priority__ = 2000
    def __init__(self, shape, f, base=None, imap=None, tag=None):
        self.shape = tuple(shape); self._f = f
        self.base = base; self.imap = imap    # view: self[i] is base[imap(i)]
        self.uid = CUR.new_uid(self) if base is None and CUR is not None else None
        self.tag = tag
        self.dtype = None
    @property
    def ndim(self): return len(self.shape)
    @property
    def size(self): return prod(self.shape)
    def at(self, *idx):
        if self.base is not None: return self.base.at(*self.imap(idx))
        return self._f(*idx)
    def snap(self):
        """value semantics: the current content as a pure function"""
        if self.base is not None:
            g, m = self.base.snap(), self.imap
            return lambda *i: g(*m(i))
        return self._f
    def update(self, cond, val):
        """a[i] = val(i) where cond(i)"""
        if self.base is not None:
            raise Unsupported("masked write through a view")
        CUR.wrote(self)
        old = self._f
        self._f = lambda *i: ite(cond(*i), val(*i), old(*i))
    # -- indexing
    def _norm(self, key):
        if not isinstance(key, tuple): key = (key,)
        out, shape = [], []
        if any(k is Ellipsis for k in key): raise Unsupported("ellipsis")
        key = list(key) + [slice(None)] * (self.ndim - len(key))
        if len(key) > self.ndim: raise Unsupported("too many indices")
        for k, n in zip(key, self.shape):
            if isinstance(k, slice):
                if k.step is not None and conc(k.step) != 1: raise Unsupported("slice step")
                lo = 0 if k.start is None else k.start
                hi = n if k.stop is None else k.stop
                if isinstance(lo, int) and lo < 0: lo = n + lo
                if isinstance(hi, int) and hi < 0: hi = n + hi
                if k.start is not None or k.stop is not None:
                    CUR.oblige("slice in range", z3.And(_z(lo) >= 0, _z(lo) <= _z(hi), _z(hi) <= _z(n)))
                out.append(('s', lo, hi)); shape.append(SNum(simp(_z(hi) - _z(lo))) if not (isinstance(lo, int) and isinstance(hi, int)) else hi - lo)
            elif isnum(k):
                if isinstance(k, int) and k < 0: k = n + k
                CUR.oblige("index in range", z3.And(_z(k) >= 0, _z(k) < _z(n)))
                out.append(('i', k))
            else:
                raise Unsupported("index kind %r" % type(k))
        return out, shape
    def __getitem__(self, key):
        if isinstance(key, PArr):
            if key.is_bool(): return self._mask_get(key)
            g, me = key.snap(), self
            if self.ndim != 1: raise Unsupported("fancy index")
            s = self.snap()
            return PArr(key.shape, lambda *i: s(g(*i)))
        if isinstance(key, tuple) and any(isinstance(k, PArr) for k in key):
            raise Unsupported("fancy index")
        nk, shape = self._norm(key)
        def imap(idx):
            it = iter(idx); r = []
            for e in nk:
                if e[0] == 'i': r.append(e[1])
                else:
                    j = next(it); lo = e[1]
                    r.append(j if isinstance(lo, int) and lo == 0 else j + lo)
            return tuple(r)
        if not shape: return self.at(*imap(()))
        root, m = self, imap
        if self.base is not None:
            pm = self.imap
            root = self.base; m = lambda idx, pm=pm, imap=imap: pm(imap(idx))
        return PView(shape, root, m, nk if self.base is None else None)
    def is_bool(self):
        v = self._f(*[SNum(z3.IntVal(0))] * self.ndim) if self.base is None else self.at(*[SNum(z3.IntVal(0))] * self.ndim)
        return isinstance(v, (bool, SBool))
    def _mask_get(self, m):
        return Masked(self, m)
    def __setitem__(self, key, val):
        if isinstance(key, PArr):
            if not key.is_bool(): raise Unsupported("fancy store")
            if isinstance(val, PArr): raise Unsupported("masked array store")
            m = key.snap()
            if isinstance(val, Masked):
                if val.m_uid != id(m): pass
                v = val.a.snap(); return self.update(m, v)
            return self.update(m, lambda *i: val)
        nk, shape = self._norm(key)
        if self.base is not None and isinstance(self, PView):
            return self._vset(nk, shape, val)
        self._store(nk, shape, val)
    def _store(self, nk, shape, val):
        src = None
        if isinstance(val, PArr):
            if val.ndim > len(shape): raise Unsupported("store rank")
            for a, b in zip(shape[len(shape)-val.ndim:], val.shape):
                if conc(b) == 1 and conc(a) != 1: raise Unsupported("broadcast store")
                if not same(a, b): CUR.oblige("stored block has the shape of its slot", _z(a) == _z(b))
            src = val.snap()
        elif isinstance(val, (list, tuple)):
            return self._store(nk, shape, asarray(val))
        def cond(*i):
            c = []
            for e, j in zip(nk, i):
                if e[0] == 'i': c.append(_z(j) == _z(e[1]))
                else:
                    if not (isinstance(e[1], int) and e[1] == 0): c.append(_z(j) >= _z(e[1]))
                    c.append(_z(j) < _z(e[2]))
            return SBool(z3.And(*c)) if c else True
        def value(*i):
            if src is None: return val
            r = []
            for e, j in zip(nk, i):
                if e[0] == 's': r.append(j - e[1] if not (isinstance(e[1], int) and e[1] == 0) else j)
            return src(*r[len(r)-val.ndim:])
        self.update(cond, value)
    # -- elementwise
    def _ew(self, o, f, rev=False):
        if isinstance(o, (list, tuple)): o = asarray(o)
        a = self.snap()
        if isinstance(o, PArr):
            sh, ga, gb = broadcast(self, o)
            return PArr(sh, (lambda *i: f(gb(*i), ga(*i))) if rev else (lambda *i: f(ga(*i), gb(*i))))
        return PArr(self.shape, (lambda *i: f(o, a(*i))) if rev else (lambda *i: f(a(*i), o)))
    def __add__(s, o): return s._ew(o, lambda a, b: a + b)
    def __radd__(s, o): return s._ew(o, lambda a, b: a + b, True)
    def __sub__(s, o): return s._ew(o, lambda a, b: a - b)
    def __rsub__(s, o): return s._ew(o, lambda a, b: a - b, True)
    def __mul__(s, o): return s._ew(o, lambda a, b: a * b)
    def __rmul__(s, o): return s._ew(o, lambda a, b: a * b, True)
    def __truediv__(s, o): return s._ew(o, lambda a, b: a / b)
    def __rtruediv__(s, o): return s._ew(o, lambda a, b: a / b, True)
    def __floordiv__(s, o): return s._ew(o, lambda a, b: a // b)
    def __mod__(s, o): return s._ew(o, lambda a, b: a % b)
    def __neg__(s): a = s.snap(); return PArr(s.shape, lambda *i: -a(*i))
    def __lt__(s, o): return s._ew(o, lambda a, b: a < b)
    def __le__(s, o): return s._ew(o, lambda a, b: a <= b)
    def __gt__(s, o): return s._ew(o, lambda a, b: a > b)
    def __ge__(s, o): return s._ew(o, lambda a, b: a >= b)
    def __eq__(s, o): return s._ew(o, lambda a, b: a == b)
    def __ne__(s, o): return s._ew(o, lambda a, b: a != b)
    def __rshift__(s, o): return s._ew(o, lambda a, b: a >> b)
    def __lshift__(s, o): return s._ew(o, lambda a, b: a << b)
    def __and__(s, o): return s._ew(o, lambda a, b: (a & b))
    __rand__ = __and__
    def __or__(s, o): return s._ew(o, lambda a, b: (a | b))
    __ror__ = __or__
    def __invert__(s): a = s.snap(); return PArr(s.shape, lambda *i: SBool(z3.Not(tob(a(*i)))))
    __hash__ = object.__hash__
    def __bool__(s): raise Unsupported("truth of an array")
    # -- shape
    def astype(s, *a, **k): return PArr(s.shape, s.snap())
    def copy(s): return PArr(s.shape, s.snap())
    @property
    def T(s):
        f = s.snap(); n = s.ndim
        return PArr(s.shape[::-1], lambda *i: f(*i[::-1]))
    def reshape(s, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)): shape = tuple(shape[0])
        return reshape(s, shape)
    def ravel(s): return reshape(s, (s.size,))
    flatten = ravel
    def __len__(s):
        raise Unsupported("len() of a symbolic array through the C builtin")
    def __iter__(s):
        n = conc(s.shape[0])
        if n is None: raise Unsupported("iterating a symbolic array outside a for loop")
        return iter([s[i] for i in range(n)])
    def tolist(s):
        return [x.tolist() if isinstance(x, PArr) else x for x in s]

class PView(PArr):
    def __init__(self, shape, base, imap, nk):
        PArr.__init__(self, shape, None, base, imap); self.nk = nk
    def _vset(self, nk, shape, val):
        if self.nk is None: raise Unsupported("store through nested view")
        # compose the two selections
        it = iter(nk); out = []
        for e in self.nk:
            if e[0] == 'i': out.append(e)
            else:
                d = next(it)
                if d[0] == 'i': out.append(('i', d[1] + e[1] if not (isinstance(e[1], int) and e[1] == 0) else d[1]))
                else:
                    lo = d[1] + e[1]; hi = d[2] + e[1]
                    out.append(('s', lo, hi))
        self.base._store(out, shape, val)
    def update(self, cond, val):
        if self.nk is None: raise Unsupported("masked write through nested view")
        nk = self.nk
        def inside(*i):
            c = []
            for e, j in zip(nk, i):
                if e[0] == 'i': c.append(_z(j) == _z(e[1]))
                else: c += [_z(j) >= _z(e[1]), _z(j) < _z(e[2])]
            return z3.And(*c)
        def sub(*i):
            return [j - e[1] for e, j in zip(nk, i) if e[0] == 's']
        self.base.update(lambda *i: SBool(z3.And(inside(*i), tob(cond(*sub(*i))))), lambda *i: val(*sub(*i)))

class Masked:
    def __init__(self, a, m): self.a = a; self.m = m; self.m_uid = id(m)
    def _op(self, f):
        b = self.a
        return Masked(f(b), self.m)
    def __add__(s, o): return s._op(lambda b: b + o)
    def __sub__(s, o): return s._op(lambda b: b - o)
    def __mul__(s, o): return s._op(lambda b: b * o)
    def __truediv__(s, o): return s._op(lambda b: b / o)

def broadcast(x, y):
    n = max(x.ndim, y.ndim)
    sx = (1,) * (n - x.ndim) + x.shape; sy = (1,) * (n - y.ndim) + y.shape
    fx, fy = x.snap(), y.snap()
    sh, mx, my = [], [], []
    for a, b in zip(sx, sy):
        if same(a, b): sh.append(a); mx.append(1); my.append(1)
        elif conc(a) == 1: sh.append(b); mx.append(0); my.append(1)
        elif conc(b) == 1: sh.append(a); mx.append(1); my.append(0)
        else:
            CUR.oblige("operands have equal shapes", _z(a) == _z(b)); sh.append(a); mx.append(1); my.append(1)
    dx, dy = n - x.ndim, n - y.ndim
    ga = lambda *i: fx(*[(j if m else 0) for j, m in zip(i, mx)][dx:])
    gb = lambda *i: fy(*[(j if m else 0) for j, m in zip(i, my)][dy:])
    return sh, ga, gb

def DIV(a, b):
    a, b = _z(a), _z(b)
    if z3.is_int_value(b) and b.as_long() == 1: return SNum(a)
    return SNum(CUR.euclid(a, b)[0])
def MOD(a, b):
    a, b = _z(a), _z(b)
    if z3.is_int_value(b) and b.as_long() == 1: return SNum(z3.IntVal(0))
    return SNum(CUR.euclid(a, b)[1])

def reshape(a, shape):
    shape = list(shape)
    if any(conc(s) == -1 for s in shape):
        k = [conc(s) == -1 for s in shape].index(True)
        rest = prod([s for j, s in enumerate(shape) if j != k])
        if len(shape) == 1: shape[0] = a.size
        else:
            shape[k] = SNum(CUR.euclid(_z(a.size), _z(rest))[0])
    if not same(a.size, prod(shape)):
        CUR.oblige("reshape keeps the number of elements", _z(a.size) == _z(prod(shape)))
    f = a.snap(); old = a.shape
    # keep common leading / trailing axes apart to avoid needless div/mod
    lead = 0
    while lead < min(len(old), len(shape)) and same(old[lead], shape[lead]): lead += 1
    tail = 0
    while tail < min(len(old), len(shape)) - lead and same(old[-1 - tail], shape[-1 - tail]): tail += 1
    om = old[lead:len(old) - tail]; nm = shape[lead:len(shape) - tail]
    def g(*i):
        i = list(i)
        if not om and not nm: return f(*i)
        mid = i[lead:len(i) - tail]
        flat = 0
        for n, j in zip(nm, mid):
            flat = flat * n + j if not (isinstance(flat, int) and flat == 0) else j
        if not mid: flat = 0
        res = []
        for n in reversed(om[1:]):
            res.append(MOD(flat, n)); flat = DIV(flat, n)
        if om: res.append(flat)
        return f(*(i[:lead] + res[::-1] + i[len(i) - tail:]))
    return PArr(shape, g)

def asarray(x, dtype=None, **k):
    if isinstance(x, PArr): return x
    if isinstance(x, SymList): return x.stack()
    if isinstance(x, (list, tuple)):
        xs = [asarray(e) if isinstance(e, (list, tuple)) else e for e in x]
        if xs and isinstance(xs[0], PArr):
            n = len(xs)
            def f(i, *r):
                c = conc(i)
                if c is not None: return xs[c].at(*r)
                v = xs[-1].at(*r)
                for k in range(n - 2, -1, -1): v = ite(SBool(_z(i) == k), xs[k].at(*r), v)
                return v
            return PArr((n,) + xs[0].shape, f)
        n = len(xs)
        def f(i):
            c = conc(i)
            if c is not None: return xs[c]
            v = xs[-1]
            for k in range(n - 2, -1, -1): v = ite(SBool(_z(i) == k), xs[k], v)
            return v
        r = PArr((n,), f)
        if dtype == "int" or (dtype is None and xs and all(isinstance(e, int) and not isinstance(e, bool) or (isinstance(e, SNum) and z3.is_int(e.t)) for e in xs)): r.dtype = "int"
        return r
    if isnum(x): return x
    raise Unsupported("asarray")

class SymList:
    """a list of symbolic length; element k is given by get(k) (arrays: a view of one stacked array)"""
    def __init__(self, n, get): self.n = n; self.get = get
    def __getitem__(self, k):
        if isinstance(k, slice): raise Unsupported("list slice")
        if isinstance(k, int) and k < 0: k = self.n + k
        CUR.oblige("list index in range", z3.And(_z(k) >= 0, _z(k) < _z(self.n)))
        return self.get(k)
    def stack(self):
        e = self.get(SNum(CUR.fresh_int("k")))
        g = self.get
        if isinstance(e, PArr): return PArr((self.n,) + e.shape, lambda k, *i: g(k).at(*i))
        return PArr((self.n,), lambda k: g(k))

class GList(list):
    """a list literal that starts empty.  Filled inside a symbolic loop it becomes a symbolic
    set: mem(x) is the membership predicate (order and multiplicity are abstracted)"""
    def __init__(self, *a):
        list.__init__(self, *a); self.mem = None
        self.uid = CUR.new_uid(self) if CUR is not None else None
    def snap(self): return self.member
    def member(self, x):
        if self.mem is not None: return self.mem(x)
        return z3.Or(*[_z(x) == _z(e) for e in self]) if len(self) else z3.BoolVal(False)
    def append(self, x):
        if CUR is None: return list.append(self, x)
        CUR.wrote(self)
        if self.mem is not None or (CUR.loops and isnum(x) and self.uid <= CUR.loops[-1][1]):
            old = self.member if self.mem is None else self.mem
            if self.mem is None:
                elems = list(self); old = lambda y: z3.Or(*[_z(y) == _z(e) for e in elems]) if elems else z3.BoolVal(False)
            self.mem = lambda y: z3.Or(old(y), _z(y) == _z(x))
        else: list.append(self, x)
    def havoc(self):
        CUR.nfresh += 1
        F = z3.Function("set!%d" % CUR.nfresh, z3.IntSort(), z3.BoolSort())
        self.mem = lambda y: F(_z(y))
    def _no(self, *a, **k):
        if CUR is not None and CUR.loops: raise Unsupported("list mutation in a symbolic loop")
        if self.mem is not None: raise Unsupported("symbolic list operation")
    def extend(self, x): self._no(); list.extend(self, x)
    def insert(self, *a): self._no(); list.insert(self, *a)
    def pop(self, *a): self._no(); return list.pop(self, *a)
    def remove(self, *a): self._no(); list.remove(self, *a)
    def __setitem__(self, *a): self._no(); list.__setitem__(self, *a)
    def __iadd__(self, o): self._no(); return list.__iadd__(self, o)
    def __len__(self):
        if self.mem is not None: raise Unsupported("length of a symbolic list")
        return list.__len__(self)
    def __iter__(self):
        if self.mem is not None: raise Unsupported("iteration of a symbolic list")
        return list.__iter__(self)

class SRec:
    """one record with named fields (field -> number or PArr)"""
    def __init__(self, get): self._get = get
    def __getitem__(self, name):
        if not isinstance(name, str): raise Unsupported("record index")
        return self._get(name)

class SRecArr:
    """structured array of symbolic length: get(i, field)"""
    def __init__(self, n, get, fields): self.n = n; self.get = get; self.fields = fields; self.shape = (n,)
    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.fields: raise KeyError(k)
            sh = self.fields[k]
            if sh: raise Unsupported("array field column")
            return PArr((self.n,), lambda i: self.get(i, k))
        if isinstance(k, slice): raise Unsupported("record slice")
        if isinstance(k, int) and k < 0: k = self.n + k
        CUR.oblige("record index in range", z3.And(_z(k) >= 0, _z(k) < _z(self.n)))
        def g(name):
            if name not in self.fields: raise KeyError(name)
            sh = self.fields[name]
            if sh: return PArr(sh, lambda *i: self.get(k, name, *i))
            return self.get(k, name)
        return SRec(g)

# ---------------------------------------------------------------- paths

class Path:
    def __init__(self, ex, prefix):
        self.ex = ex; self.prefix = prefix; self.k = 0
        self.pc = list(ex.pre); self.nfresh = 0; self.uids = 0
        self.solver = z3.Solver(); self.solver.set("timeout", ex.branch_timeout)
        for p in self.pc: self.solver.add(p)
        self.loops = []       # active loops (loop id, uid watermark)
        self.arrs = {}
        self.notes = []
        self.eucl = {}
        self.fmt = []
    def new_uid(self, arr):
        self.uids += 1; self.arrs[self.uids] = arr; return self.uids
    def fresh_int(self, n):
        self.nfresh += 1; return z3.Int("%s!%d" % (n, self.nfresh))
    def fresh_real(self, n):
        self.nfresh += 1; return z3.Real("%s!%d" % (n, self.nfresh))
    def fresh_like(self, v, n):
        if isinstance(v, (bool, SBool)):
            self.nfresh += 1; return SBool(z3.Bool("%s!%d" % (n, self.nfresh)))
        if isinstance(v, float): return SNum(self.fresh_real(n), None)
        if isinstance(v, int): return SNum(self.fresh_int(n))
        if isinstance(v, SNum):
            return SNum(self.fresh_int(n) if z3.is_int(v.t) else self.fresh_real(n), None if v.nan is None else z3.Bool("%s!nan%d" % (n, self.nfresh)))
        raise Unsupported("havoc of %r" % type(v))
    def assume(self, t):
        t = tob(t); self.pc.append(t); self.solver.add(t)
    def euclid(self, a, b):
        """quotient and remainder of integer terms, b > 0 obliged; axiomatised, plus
        uniqueness instances against the explorer's quotient hints"""
        a, b = z3.simplify(a), z3.simplify(b)
        key = (a.get_id(), b.get_id())
        if key in self.eucl: return self.eucl[key][:2]
        if z3.is_int_value(b) and b.as_long() > 0:
            q, r = a / b, a % b
            self.eucl[key] = (q, r, a, b); return q, r
        self.oblige("divisor positive", b > 0)
        q, r = self.fresh_int("q"), self.fresh_int("r")
        self.assume(z3.Implies(b > 0, z3.And(a == q * b + r, r >= 0, r < b)))
        for (qh, rh) in self.ex.hints(a, b):
            # uniqueness of Euclidean division (lemma, proved once in the lemma file)
            self.assume(z3.Implies(z3.And(b > 0, a == qh * b + rh, rh >= 0, rh < b), z3.And(q == qh, r == rh)))
        self.eucl[key] = (q, r, a, b)
        return q, r
    def branch(self, t):
        t = z3.simplify(t)
        if z3.is_true(t): return True
        if z3.is_false(t): return False
        if self.k < len(self.prefix):
            d = self.prefix[self.k]; self.k += 1
        else:
            ct = self.feasible(t); cf = self.feasible(z3.Not(t))
            if not ct and not cf: raise PathEnd()
            if ct and cf:
                self.ex.push(self.prefix + [False]); d = True
            else: d = ct
            self.prefix = self.prefix + [d]; self.k += 1
        self.assume(t if d else z3.Not(t))
        return d
    def feasible(self, t):
        self.solver.push(); self.solver.add(t)
        r = self.solver.check(); self.solver.pop()
        return r != z3.unsat
    def oblige(self, name, t, info=None, kind="safety"):
        t = tob(t)
        if z3.is_true(z3.simplify(t)): 
            self.ex.trivial += 1; return
        self.ex.obls.append((self.ex.name + ": " + name, list(self.pc), t, info, kind))
        if kind == "safety": self.assume(t)
    def wrote(self, arr):
        for lid, mark in self.loops:
            if arr.uid is not None and arr.uid <= mark and arr.uid not in self.ex.loopw.setdefault(lid, set()):
                self.ex.loopw[lid].add(arr.uid); raise Restart()

class Explorer:
    """runs one function on symbolic arguments over all its paths"""
    def __init__(self, name, pre=(), hints=None, max_paths=4000, branch_timeout=4000):
        self.name = name; self.pre = list(pre); self.obls = []; self.trivial = 0
        self.loopw = {}; self.invs = {}; self.dropped = {}
        self._hints = hints or []; self.max_paths = max_paths; self.branch_timeout = branch_timeout
        self.paths = 0; self.work = []; self.loopinv = None; self.nret = 0
    def hints(self, a, b): return [h(a, b) if callable(h) else h for h in self._hints]
    def push(self, p): self.work.append(p)
    def run(self, body):
        """body(path) executes the function and states its postconditions with path.oblige"""
        global CUR
        while True:
            self.obls = []; self.trivial = 0; self.work = [[]]; self.paths = 0; self.nret = 0; self.final = []
            try:
                while self.work:
                    pre = self.work.pop()
                    self.paths += 1
                    if self.paths > self.max_paths: raise Unsupported("too many paths")
                    CUR = Path(self, pre)
                    try:
                        body(CUR); self.nret += 1; self.final.append(list(CUR.pc))
                    except PathEnd:
                        pass
                break
            except Restart:
                continue
            finally:
                CUR = None
        return self.obls

# ---------------------------------------------------------------- loops

class SymIter:
    """symbolic iteration space: n iterations, element(i)"""
    def __init__(self, n, elem): self.n = n; self.elem = elem
    def __iter__(self): raise Unsupported("symbolic iteration outside a for statement")

def to_iter(it):
    """SymIter for symbolic spaces, a concrete iterable otherwise"""
    if isinstance(it, SymIter): return it
    if isinstance(it, SymList): return SymIter(it.n, it.get) if conc(it.n) is None else [it.get(i) for i in range(conc(it.n))]
    if isinstance(it, SRecArr):
        return SymIter(it.n, lambda i: it[i]) if conc(it.n) is None else [it[i] for i in range(conc(it.n))]
    if isinstance(it, PArr):
        return SymIter(it.shape[0], lambda i: it[i]) if conc(it.shape[0]) is None else [it[i] for i in range(conc(it.shape[0]))]
    return it

class Loop:
    def __init__(self, it, lid):
        self.it = to_iter(it); self.lid = lid; self.sym = isinstance(self.it, SymIter)
    def start(self, loc):
        """loc: dict of locals assigned in the body.  Returns nothing."""
        p = CUR; ex = p.ex
        self.mark = p.uids
        self.n = self.it.n
        p.assume(_z(self.n) >= 0)
        self.pre = {u: p.arrs[u].snap() for u in ex.loopw.get(self.lid, ())}
        self.entry = dict(loc)
        self.inv("initially", SNum(z3.IntVal(0)), loc, check=True)
        self.i = SNum(p.fresh_int("i"))
        self.iterate = p.branch(z3.Bool("iterate!%s!%d" % (self.lid, self.bump())))
        for u in ex.loopw.get(self.lid, ()):
            havoc_array(p.arrs[u])
    def bump(self):
        CUR.nfresh += 1; return CUR.nfresh
    def inv(self, when, i, loc, check):
        p = CUR; ex = p.ex
        cands = ex.loopinv(self, i, loc) if ex.loopinv else []
        for name, t in cands:
            if check: p.oblige("loop invariant %s (%s)" % (name, when), t, kind="inv")
            else: p.assume(t)
    def havoc(self, v, name):
        if v is UNDEF: return UNDEF
        if isinstance(v, (list, dict, PArr, SymList, SRecArr, SRec, str)) or v is None or callable(v): return v
        return CUR.fresh_like(v, name)
    def enter(self, loc):
        p = CUR
        if self.iterate:
            p.assume(z3.And(self.i.t >= 0, self.i.t < _z(self.n)))
            self.inv("assumed", self.i, loc, check=False)
            p.loops.append((self.lid, self.mark))
            self.plain = [(v, type(v)(v)) for v in loc['*'].values() if type(v) in (list, dict)]
            return True
        self.inv("assumed", SNum(_z(self.n)), loc, check=False)
        return False
    def elem(self): return self.it.elem(self.i)
    def end_iter(self, loc):
        p = CUR
        p.loops.pop(); self.check_plain()
        self.inv("preserved", self.i + 1, loc, check=True)
        raise PathEnd()
    def check_plain(self):
        for v, old in self.plain:
            same_ = len(v) == len(old) and (all(a is b for a, b in zip(v, old)) if isinstance(v, list) else all(k in v and v[k] is old[k] for k in old))
            if not same_: raise Unsupported("a plain container is changed inside a symbolic loop")
    def broke(self):
        CUR.loops.pop(); self.check_plain()

class _U:
    def __repr__(self): return "UNDEF"
UNDEF = _U()

def havoc_array(a):
    p = CUR
    if isinstance(a, GList): return a.havoc()
    if a.base is not None: raise Unsupported("havoc of a view")
    p.nfresh += 1; n = p.nfresh
    probe = a._f(*[SNum(z3.IntVal(0))] * a.ndim)
    if isinstance(probe, (bool, SBool)):
        F = z3.Function("arr!%d" % n, *([z3.IntSort()] * a.ndim), z3.BoolSort())
        a._f = lambda *i: SBool(F(*[_z(x) for x in i]))
    else:
        if a.dtype == "int":
            F = z3.Function("arr!%d" % n, *([z3.IntSort()] * a.ndim), z3.IntSort())
            a._f = lambda *i: SNum(F(*[_z(x) for x in i])); return
        srt = z3.RealSort()
        F = z3.Function("arr!%d" % n, *([z3.IntSort()] * a.ndim), srt)
        N = z3.Function("arrnan!%d" % n, *([z3.IntSort()] * a.ndim), z3.BoolSort())
        a._f = lambda *i: SNum(F(*[_z(x) for x in i]), N(*[_z(x) for x in i]))

class Rewriter(ast.NodeTransformer):
    """for loops -> dual concrete/deductive form; comprehensions -> helper calls"""
    def __init__(self, modname): self.m = modname; self.c = 0
    def visit_FunctionDef(self, node):
        node.decorator_list = []
        self.generic_visit(node); return node
    def visit_List(self, node):
        self.generic_visit(node)
        if not node.elts and isinstance(node.ctx, ast.Load):
            return ast.copy_location(ast.Call(func=ast.Name(id="_vc_glist", ctx=ast.Load()), args=[], keywords=[]), node)
        return node
    def visit_ListComp(self, node):
        self.generic_visit(node)
        if len(node.generators) == 1 and not node.generators[0].ifs:
            g = node.generators[0]
            names = [n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)]
            if isinstance(g.target, ast.Name):
                lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=g.target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]), body=node.elt)
                return ast.copy_location(ast.Call(func=ast.Name(id="_vc_lc", ctx=ast.Load()), args=[lam, g.iter], keywords=[]), node)
        return node
    def visit_For(self, node):
        import copy
        orig = copy.deepcopy(node)
        self.generic_visit(node)
        conc_node = node
        if orig.orelse: return node
        self.c += 1
        lid = "%s:%d" % (self.m, orig.lineno)
        lp = "_vc_lp%d" % self.c
        assigned = sorted({n.id for b in node.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and not n.id.startswith("_vc_")} |
                          set())
        tgt = {n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)}
        hv = [a for a in assigned if a not in tgt]
        def src(s): return ast.parse(s).body
        locs = "_vc_locs(locals(), %r)" % (hv,)
        pre = src("%s = _vc_Loop(None, %r)" % (lp, lid))
        pre[0].value.args[0] = node.iter
        symbody = []
        symbody += src("%s.start(%s)" % (lp, locs))
        for a in hv:
            symbody += src("%s = %s.havoc(_vc_get(locals(), %r), %r)" % (a, lp, a, a))
        it = src("if %s.enter(%s):\n  pass" % (lp, locs))[0]
        el = ast.Assign(targets=[copy.deepcopy(node.target)], value=src("%s.elem()" % lp)[0].value)
        inner = src("for _vc_once in (0,):\n  pass\nelse:\n  %s.end_iter(%s)" % (lp, locs))[0]
        inner.body = copy.deepcopy(node.body)
        it.body = [el, inner] + src("%s.broke()" % lp)
        symbody.append(it)
        cn = copy.deepcopy(node); cn.iter = src("%s.it" % lp)[0].value
        top = src("if %s.sym:\n  pass\nelse:\n  pass" % lp)[0]
        top.body = symbody; top.orelse = [cn]
        out = pre + [top]
        for o in out:
            ast.copy_location(o, node)
            for n in ast.walk(o):
                if not hasattr(n, 'lineno') and isinstance(n, (ast.stmt, ast.expr)): n.lineno = node.lineno; n.col_offset = 0; n.end_lineno = node.lineno; n.end_col_offset = 0
        return out

def _locs(l, names): return {n: l.get(n, UNDEF) for n in names} | {'*': l}
def _get(l, n): return l.get(n, UNDEF)
def _lc(f, it):
    it = to_iter(it)
    if isinstance(it, SymIter):
        e = f(it.elem(SNum(CUR.fresh_int("lc"))))
        if isinstance(e, PArr):
            # one stacked array so that element stores are kept
            proto = e.snap
            el = it.elem
            def mk(k, *i): return f(el(k)).at(*i)
            st = PArr((it.n,) + e.shape, mk)
            return SymList(it.n, lambda k: st[k])
        return SymList(it.n, lambda k: f(it.elem(k)))
    return [f(x) for x in it]

# ---------------------------------------------------------------- builtins

def b_int(x=0, *a):
    if isinstance(x, SNum):
        if x.nan is not None: CUR.oblige("int() of NaN", z3.Not(x.nan))
        return x if z3.is_int(x.t) else SNum(int_of(x, True))
    if isinstance(x, SBool): return SNum(_z(x))
    return builtins.int(x, *a)
def b_float(x=0.0):
    if isinstance(x, SNum): return SNum(real(x.t), x.nan)
    return builtins.float(x)
def b_len(x):
    if isinstance(x, PArr): return x.shape[0]
    if isinstance(x, (SymList, SRecArr)): return x.n
    if isinstance(x, SymIter): return x.n
    if hasattr(x, '__symlen__'): return x.__symlen__()
    return builtins.len(x)
def b_range(*a):
    if all(conc(x) is not None for x in a): return builtins.range(*[conc(x) for x in a])
    if len(a) == 1: lo, hi, st = 0, a[0], 1
    elif len(a) == 2: lo, hi, st = a[0], a[1], 1
    else: lo, hi, st = a
    st = conc(st)
    if st not in (1, -1): raise Unsupported("range step")
    n = (hi - lo) if st == 1 else (lo - hi)
    n = SNum(z3.If(_z(n) >= 0, _z(n), 0))
    return SymIter(n, lambda i: (lo + i if not (isinstance(lo, int) and lo == 0) else i) if st == 1 else lo - i)
def b_enumerate(x, start=0):
    it = to_iter(x)
    if isinstance(it, SymIter): return SymIter(it.n, lambda i: ((i + start) if start else i, it.elem(i)))
    return builtins.enumerate(it, start)
def b_zip(*xs):
    its = [to_iter(x) for x in xs]
    if any(isinstance(i, SymIter) for i in its):
        if not all(isinstance(i, SymIter) for i in its): raise Unsupported("zip of mixed")
        n = its[0].n
        for o in its[1:]:
            if not same(n, o.n): n = SNum(z3.If(_z(n) <= _z(o.n), _z(n), _z(o.n)))
        return SymIter(n, lambda i: tuple(o.elem(i) for o in its))
    return builtins.zip(*its)
def _fold(xs, pick):
    if len(xs) == 1: xs = list(to_iter(xs[0])) 
    if isinstance(xs, SymIter): raise Unsupported("min/max of symbolic iterable")
    r = xs[0]
    for x in xs[1:]: r = pick(r, x)
    return r
def _min2(a, b):
    if isinstance(a, SNum) or isinstance(b, SNum): return ite(SBool(tob(b < a)) if not isinstance(b < a, bool) else (b < a), b, a)
    return builtins.min(a, b)
def _max2(a, b):
    if isinstance(a, SNum) or isinstance(b, SNum): return ite(SBool(tob(b > a)) if not isinstance(b > a, bool) else (b > a), b, a)
    return builtins.max(a, b)
def b_min(*xs, **k):
    if k: return builtins.min(*xs, **k)
    return _fold(list(xs), _min2)
def b_max(*xs, **k):
    if k: return builtins.max(*xs, **k)
    return _fold(list(xs), _max2)
def b_abs(x): return x.__abs__() if isinstance(x, SNum) else builtins.abs(x)
def b_sum(xs, start=0):
    xs = to_iter(xs)
    if isinstance(xs, SymIter): raise Unsupported("symbolic sum")
    r = start
    for x in xs: r = r + x
    return r
def b_round(x, *a):
    if isinstance(x, SNum): return x.__round__(*a)
    return builtins.round(x, *a)
def b_bool(x=False):
    if isinstance(x, (SNum, SBool)): return SBool(tob(x))
    return builtins.bool(x)
def b_isinstance(x, c):
    cs = c if isinstance(c, tuple) else (c,)
    cs = tuple(INTMAP.get(k, k) if isinstance(k, Facade_t) or callable(k) else k for k in cs)
    if isinstance(x, SNum):
        for k in cs:
            if k is b_int or k is int: 
                if z3.is_int(x.t): return True
            elif k is b_float or k is float:
                if not z3.is_int(x.t): return True
            elif isinstance(k, type) and issubclass(int if z3.is_int(x.t) else float, k): return True
            elif isinstance(k, ABCNum): 
                if k.accept(x): return True
        return False
    if isinstance(x, SBool):
        m = {b_int: int, b_float: float, b_bool: builtins.bool}
        return any(isinstance(m.get(k, k), type) and issubclass(builtins.bool, m.get(k, k)) for k in cs)
    real_cs = tuple({b_int: int, b_float: float, b_bool: builtins.bool, b_list: builtins.list, b_str: builtins.str}.get(k, k) for k in cs)
    real_cs = tuple(k for k in real_cs if isinstance(k, type))
    return builtins.isinstance(x, real_cs)
class Facade_t: pass
class ABCNum:
    def __init__(self, accept): self.accept = accept
INTMAP = {}
def b_list(x=()):
    it = to_iter(x)
    if isinstance(it, SymIter): return SymList(it.n, it.elem)
    return builtins.list(it)
def b_sorted(*a, **k):
    return builtins.sorted(*a, **k)
def b_print(*a, **k): pass
def b_str(x=""):
    if isinstance(x, SNum): return format(x, "")
    return builtins.str(x)
def unfmt(s):
    """the symbolic values written into a string, with their format specs, in order"""
    import re
    return [CUR.fmt[builtins.int(k)] for k in re.findall(r"<#(\d+)>", s)], re.sub(r"<#\d+>", "<>", s)

BUILTINS = dict(int=b_int, float=b_float, len=b_len, range=b_range, enumerate=b_enumerate, zip=b_zip,
                min=b_min, max=b_max, abs=b_abs, sum=b_sum, round=b_round, bool=b_bool, list=b_list, print=b_print,
                isinstance=b_isinstance, str=b_str)

# ---------------------------------------------------------------- facades

class Opaque:
    """a library without facade: any use is Unsupported"""
    def __init__(self, name): object.__setattr__(self, '_n', name)
    def __getattr__(self, a):
        if a.startswith('__') and a.endswith('__'): raise AttributeError(a)
        return Opaque(self._n + "." + a)
    def __call__(self, *a, **k): raise Unsupported("call of " + self._n)
    def __or__(self, o): return self
    def __ror__(self, o): return self
    def __getitem__(self, k): return self

UF = {}
def uf(name, n=1):
    if name not in UF: UF[name] = z3.Function(name, *([z3.RealSort()] * n), z3.RealSort())
    return UF[name]
def _un(name):
    def f(x, *a, **k):
        if isinstance(x, PArr):
            g = x.snap(); return PArr(x.shape, lambda *i: f(g(*i)))
        return SNum(uf(name)(real(_z(x))), _nan(x))
    return f
def _map1(fn):
    def f(x, *a, **k):
        if isinstance(x, (list, tuple)): x = asarray(x)
        if isinstance(x, PArr):
            g = x.snap(); return PArr(x.shape, lambda *i: fn(g(*i)))
        return fn(x)
    return f
def _map2(fn):
    def f(x, y, *a, **k):
        if isinstance(x, (list, tuple)): x = asarray(x)
        if isinstance(y, (list, tuple)): y = asarray(y)
        if isinstance(x, PArr): return x._ew(y, fn)
        if isinstance(y, PArr): return y._ew(x, fn, True)
        return fn(x, y)
    return f
def mapn(fn):
    """elementwise over any mix of arrays / scalars"""
    def f(*xs):
        arrs = [x for x in xs if isinstance(x, PArr)]
        if not arrs: return fn(*xs)
        sh = arrs[0].shape
        gs = [x.snap() if isinstance(x, PArr) else (lambda *i, x=x: x) for x in xs]
        for a in arrs[1:]:
            for p, q in zip(sh, a.shape):
                if not same(p, q): CUR.oblige("operands have equal shapes", _z(p) == _z(q))
        return PArr(sh, lambda *i: fn(*[g(*i) for g in gs]))
    return f
def shape_of(s):
    return tuple(s) if isinstance(s, (tuple, list)) else (s,)

class NP:
    pi = 3.141592653589793
    inf = float('inf')
    newaxis = None
    int8 = int16 = int32 = int64 = uint8 = uint16 = uint32 = short = "int"
    float32 = float64 = "float"
    nan = property(lambda s: SNum(z3.RealVal(0), z3.BoolVal(True)))
    ndarray = PArr
    bool_ = "bool"
    def __init__(self, extra=None): self.extra = extra or {}
    def __getattr__(self, a):
        if a in self.__dict__.get('extra', {}): return self.extra[a]
        raise Unsupported("numpy." + a)
    def double(self, x=0): return b_float(x)
    def full(self, shape, val, dtype=None, **k):
        r = PArr(shape_of(shape), lambda *i: val)
        if dtype == "int" or (dtype is None and isinstance(val, int) and not isinstance(val, bool)): r.dtype = "int"
        return r
    def full_like(self, a, val, **k): return PArr(a.shape, lambda *i: val)
    def zeros(self, shape, dtype=None, **k):
        r = PArr(shape_of(shape), lambda *i: 0)
        if dtype == "int": r.dtype = "int"
        return r
    def ones(self, shape, dtype=None, **k):
        r = PArr(shape_of(shape), lambda *i: 1)
        if dtype == "int": r.dtype = "int"
        return r
    empty = zeros
    def zeros_like(self, a, *r, **k): return PArr(a.shape, lambda *i: 0)
    def copy(self, a): return a.copy()
    bitwise_and = staticmethod(_map2(bitand))
    right_shift = staticmethod(_map2(lambda a, b: a >> b))
    def _w(c, a, b): return ite(c, a, b)
    where3 = staticmethod(mapn(lambda c, a, b: ite(c if isinstance(c, bool) else SBool(tob(c)), a, b)))
    def where(self, c, *ab):
        if len(ab) != 2: raise Unsupported("where/1")
        return self.where3(c, *ab)
    logical_and = staticmethod(_map2(lambda a, b: SBool(z3.And(tob(a), tob(b)))))
    logical_or = staticmethod(_map2(lambda a, b: SBool(z3.Or(tob(a), tob(b)))))
    logical_not = staticmethod(_map1(lambda a: SBool(z3.Not(tob(a)))))
    isnan = staticmethod(_map1(lambda x: SBool(x.nan if isinstance(x, SNum) and x.nan is not None else z3.BoolVal(False))))
    minimum = staticmethod(_map2(_min2))
    maximum = staticmethod(_map2(_max2))
    abs = absolute = fabs = staticmethod(_map1(b_abs))
    floor = staticmethod(_map1(lambda x: SNum(z3.ToReal(x.__floor__().t), x.nan) if isinstance(x, SNum) else float(x // 1)))
    trunc = staticmethod(_map1(lambda x: SNum(z3.ToReal(x.__trunc__().t), x.nan) if isinstance(x, SNum) else float(int(x))))
    floor_divide = staticmethod(_map2(lambda a, b: a // b))
    mod = remainder = staticmethod(_map2(lambda a, b: a % b))
    equal = staticmethod(_map2(lambda a, b: a == b))
    greater = staticmethod(_map2(lambda a, b: a > b))
    cos = staticmethod(_un("cos")); sin = staticmethod(_un("sin")); log10 = staticmethod(_un("log10"))
    sqrt = staticmethod(_un("sqrt")); log = staticmethod(_un("log"))
    array = asarray = staticmethod(asarray)
    def arange(self, start=None, stop=None, step=1, **k):
        if stop is None: start, stop = 0, start
        n = SNum(CUR.euclid(_z(stop) - _z(start) + _z(step) - 1, _z(step))[0])
        return PArr((n,), lambda i: start + i * step)
    def reshape(self, a, shape, **k): return reshape(a, shape_of(shape))
    def clip(self, a, lo, hi): return self.minimum(self.maximum(a, lo), hi)
    def dot(self, a, b):
        a, b = asarray(a), asarray(b)
        n = conc(a.shape[0])
        if a.ndim != 1 or n is None: raise Unsupported("dot")
        if b.ndim == 1: return b_sum([a[i] * b[i] for i in range(n)])
        if b.ndim == 2:
            ga, gb = a.snap(), b.snap()
            return PArr((b.shape[1],), lambda j: b_sum([ga(i) * gb(i, j) for i in range(n)]))
        raise Unsupported("dot")
    def hstack(self, xs): return concat(xs, 1)
    def vstack(self, xs): return concat(xs, 0)
    def concatenate(self, xs, axis=0, **k): return concat(xs, axis)
    def hsplit(self, a, n): return split(a, n, 1)
    def vsplit(self, a, n): return split(a, n, 0)
    def split(self, a, n, axis=0): return split(a, n, axis)
    def array_split(self, a, n, axis=0): return split(a, n, axis)
    def transpose(self, a, axes=None):
        if axes is None: return a.T
        f = a.snap(); axes = list(axes)
        def g(*i):
            o = [None] * len(axes)
            for k, ax in enumerate(axes): o[ax] = i[k]
            return f(*o)
        return PArr([a.shape[x] for x in axes], g)
    def swapaxes(self, a, p, q):
        ax = list(range(a.ndim)); ax[p], ax[q] = ax[q], ax[p]
        return self.transpose(a, ax)
    def stack(self, xs, axis=0):
        if axis != 0: raise Unsupported("stack axis")
        return asarray(xs)
    def isin(self, a, vals):
        if isinstance(vals, GList): return _map1(lambda x: SBool(vals.member(x)))(a)
        if isinstance(vals, (list, tuple)): return _map1(lambda x: SBool(z3.Or(*[tob(x == v) for v in vals])))(a)
        raise Unsupported("isin")
    def vectorize(self, f, **k): return _map1(f)
    def save(self, path, a): CUR.ex.on_save(path, a)
    def load(self, path, **k): return CUR.ex.on_load(path)

def concat(xs, axis):
    if isinstance(xs, (list, tuple)):
        xs = list(xs)
        if any(not isinstance(x, PArr) for x in xs): raise Unsupported("concat of non arrays")
        if xs[0].ndim == 1 and axis == 1: axis = 0
        offs = [0]
        for x in xs: offs.append(offs[-1] + x.shape[axis])
        fs = [x.snap() for x in xs]
        sh = list(xs[0].shape); sh[axis] = offs[-1]
        def g(*i):
            j = i[axis]; v = None
            for k in range(len(xs) - 1, -1, -1):
                ii = list(i); ii[axis] = j - offs[k]
                e = fs[k](*ii)
                v = e if v is None else ite(SBool(_z(j) < _z(offs[k + 1])), e, v)
            return v
        return PArr(sh, g)
    if isinstance(xs, SymList):
        e = xs.get(SNum(CUR.fresh_int("k")))
        if not isinstance(e, PArr): raise Unsupported("concat of scalars")
        w = e.shape[axis]
        # all elements share the shape of the generic element (SymList elements are uniform)
        sh = list(e.shape); sh[axis] = xs.n * w
        get = xs.get
        def g(*i):
            ii = list(i); k = DIV(i[axis], w); ii[axis] = MOD(i[axis], w)
            return get(k).at(*ii)
        return PArr(sh, g)
    raise Unsupported("concat")

def split(a, n, axis):
    if isinstance(n, (list, PArr)): raise Unsupported("split at indices")
    q, r = CUR.euclid(_z(a.shape[axis]), _z(n))
    CUR.oblige("split is even", r == 0)
    w = SNum(q)
    f = a.snap(); sh = list(a.shape); sh[axis] = w
    def get(k):
        def g(*i):
            ii = list(i); ii[axis] = k * w + i[axis]
            return f(*ii)
        return PArr(sh, g)
    c = conc(n)
    if c is not None: return [get(k) for k in range(c)]
    return SymList(n, get)

class SStr:
    """a string with symbolic parts: the format template and its arguments"""
    def __init__(self, tmpl, args): self.tmpl = tmpl; self.args = args
    def __add__(self, o): return SStr(self.tmpl + o, self.args) if isinstance(o, str) else SStr(self.tmpl + o.tmpl, self.args + o.args)
    def __radd__(self, o): return SStr(o + self.tmpl, self.args)

class FStr(str):
    """str whose .format keeps symbolic arguments"""

# ---------------------------------------------------------------- extraction

class Module:
    """shadow import of one /repo module"""
    def __init__(self, repo, rel, facades=None, cache=None, overrides=None):
        self.repo = repo; self.rel = rel
        path = os.path.join(repo, "src/python", rel)
        self.src = open(path).read()
        self.cache = cache if cache is not None else {}
        self.cache[rel] = self
        self.tree = ast.parse(self.src)
        self.facades = facades or {}
        self.ns = {"__name__": "shadow." + rel, "_vc_Loop": Loop, "_vc_locs": _locs, "_vc_get": _get, "_vc_lc": _lc, "_vc_glist": GList}
        b = dict(vars(builtins)); b.update(BUILTINS); self.ns["__builtins__"] = b
        self.load()
    def load(self):
        mod = os.path.basename(self.rel)
        for st in self.tree.body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    top = a.name.split(".")[0]
                    self.ns[a.asname or top] = self.lib(a.name if a.asname else top)
            elif isinstance(st, ast.ImportFrom):
                m = st.module or ""
                if st.level or m.split(".")[0] == "pycold":
                    base = "pycold"
                    if not st.level:
                        sub = m.split(".")[1:]
                    else:
                        pk = os.path.dirname(self.rel).split("/")
                        pk = pk[:len(pk) - (st.level - 1)]
                        sub = pk[1:] + (m.split(".") if m else [])
                    for a in st.names:
                        self.ns[a.asname or a.name] = self.local(sub, a.name)
                else:
                    l = self.lib(m)
                    for a in st.names:
                        self.ns[a.asname or a.name] = getattr(l, a.name, Opaque(m + "." + a.name)) if not isinstance(l, Opaque) else Opaque(m + "." + a.name)
            else:
                is_def = isinstance(st, (ast.FunctionDef, ast.ClassDef))
                node = Rewriter(mod).visit(st)
                node = node if isinstance(node, list) else [node]
                m = ast.Module(body=node, type_ignores=[]); ast.fix_missing_locations(m)
                try:
                    exec(compile(m, self.rel, "exec"), self.ns)
                except (Unsupported, Exception):
                    if is_def and isinstance(st, ast.FunctionDef):
                        # annotations or defaults need an absent library: drop annotations
                        for n in ast.walk(m):
                            if isinstance(n, ast.arg): n.annotation = None
                            if isinstance(n, ast.FunctionDef): n.returns = None
                        try: exec(compile(m, self.rel, "exec"), self.ns)
                        except (Unsupported, Exception): pass
    def lib(self, name):
        if name in self.facades: return self.facades[name]
        if name == "numpy": return NP()
        if name in ("dataclasses", "collections", "abc", "math", "numbers", "warnings", "functools", "os", "typing", "logging", "inspect", "operator", "datetime", "itertools", "os.path", "sys", "time"):
            import importlib
            return importlib.import_module(name)
        return Opaque(name)
    def local(self, sub, name):
        if sub and sub[-1] == "app" and name == "defaults": return load_defaults(self.repo)
        key = "pycold." + ".".join(sub + [name])
        if key in self.facades: return self.facades[key]
        cands = ["pycold/" + "/".join(sub) + ".py"] if sub else ["pycold/__init__.py"]
        for c in cands:
            p = os.path.join(self.repo, "src/python", c)
            if os.path.exists(p) and c != "pycold/__init__.py":
                m = self.cache.get(c) or Module(self.repo, c, self.facades, self.cache)
                return m.ns.get(name, Opaque(key))
        return Opaque(key)
    def fn(self, name):
        f = self.ns.get(name)
        if f is None or isinstance(f, Opaque): raise Unsupported("function %s not found in %s" % (name, self.rel))
        return f
    def hash_all(self):
        import hashlib
        return hashlib.sha256(ast.dump(ast.parse(self.src)).encode()).hexdigest()[:16]
    def hash_of(self, *names):
        import hashlib
        h = hashlib.sha256()
        for st in ast.parse(self.src).body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)) and st.name in names:
                h.update(ast.dump(st).encode())
        return h.hexdigest()[:16]

def load_defaults(repo):
    """pycold.app.defaults, read from the same YAML file with the same nesting"""
    import re
    d = {}; cur = None
    for line in open(os.path.join(repo, "src/python/pycold/constants.yaml")):
        if not line.strip() or line.lstrip().startswith("#"): continue
        k, v = line.split("#")[0].rstrip().split(":", 1)
        if not line.startswith((" ", "\t")): cur = d.setdefault(k.strip(), {})
        else:
            v = v.strip()
            try: v = builtins.int(v)
            except ValueError:
                try: v = builtins.float(v)
                except ValueError: pass
            cur[k.strip()] = v
    return d

def euclid_lemma():
    """the uniqueness lemma used by Path.euclid, as an obligation"""
    a, b, q, r, qh, rh = z3.Ints("a b q r qh rh")
    asm = [b > 0, a == q * b + r, 0 <= r, r < b, a == qh * b + rh, 0 <= rh, rh < b]
    d, k = z3.Ints("d k")
    # (q-qh)*b = rh-r, |rh-r| < b; with d = q-qh: d >= 1 -> d*b >= b, d <= -1 -> d*b <= -b
    return [("lemma: Euclidean division is unique (step d>=1)", [b > 0, d >= 1], d * b >= b, None, "lemma"),
            ("lemma: Euclidean division is unique (step d<=-1)", [b > 0, d <= -1], d * b <= -b, None, "lemma"),
            ("lemma: Euclidean division is unique (conclusion)",
             asm + [d == q - qh, k == d * b, (q * b) - (qh * b) == k, z3.Implies(d >= 1, k >= b), z3.Implies(d <= -1, k <= -b)],
             z3.And(q == qh, r == rh), None, "lemma")]
