"""Contracts of the GSL vector / matrix routines used by the library, over concrete sizes:
a gsl_vector is a block of n reals, a gsl_matrix of n x m reals (documented GSL semantics)."""
import z3
from fractions import Fraction
from .ceng import Ptr, Region, Unsupported, arith, conc, zr, simp, zi
from . import ceng as ce

D = ("flt", 8)
def vec(e, name, n): r = Region(name, D, 1, (n,), kind="heap"); e.reg_of[r.id] = r; return Ptr(r, "", (0,), D)
def mat(e, name, n, m): r = Region(name, D, 2, (n, m), kind="heap"); e.reg_of[r.id] = r; return Ptr(r, "", (0, 0), D)
def num(x):
    x = simp(x) if ce.isz(x) else x
    if ce.isz(x): raise Unsupported("symbolic GSL size")
    return int(x)
def size(p):
    if p.reg is None: raise Unsupported("null GSL object")
    return p.reg.lens
def at(p, *ix): return Ptr(p.reg, "", tuple(ix), D, p.null)
def get(e, st, p, *ix): return e.load(st, None, at(p, *ix))
def put(e, st, p, v, *ix): e.store(st, at(p, *ix), v)
def sym(e, st, uplo, P, i, j):
    """element of a symmetric matrix of which one triangle is referenced"""
    if (uplo == UPPER and i > j) or (uplo == LOWER and i < j): i, j = j, i
    return get(e, st, P, i, j)
NOTRANS, TRANS, UPPER, LOWER, LEFT, RIGHT = 111, 112, 121, 122, 141, 142
def add(*xs):
    r = Fraction(0)
    for x in xs: r = arith("+", r, x)
    return r
def need(e, st, what, c): e.oblige(st, what, c, "safety")
def valloc(e, st, a): return vec(e, "gslv", num(a[0]))
def malloc(e, st, a): return mat(e, "gslm", num(a[0]), num(a[1]))
def mcalloc(e, st, a):
    p = malloc(e, st, a)
    p.reg.init[""] = z3.K(z3.IntSort(), z3.K(z3.IntSort(), z3.RealVal(0))); return p
def vcalloc(e, st, a):
    p = valloc(e, st, a); p.reg.init[""] = z3.K(z3.IntSort(), z3.RealVal(0)); return p
def vget(e, st, a): return get(e, st, a[0], a[1])
def vset(e, st, a): put(e, st, a[0], a[2], a[1])
def mget(e, st, a): return get(e, st, a[0], a[1], a[2])
def mset(e, st, a): put(e, st, a[0], a[3], a[1], a[2])
def vcopy(e, st, a):
    d, s = a
    if size(d) != size(s): need(e, st, "vector copy between equal lengths", False); return 0
    for i in range(size(d)[0]): put(e, st, d, get(e, st, s, i), i)
    return 0
def mcopy(e, st, a):
    d, s = a
    if size(d) != size(s): need(e, st, "matrix copy between equal shapes", False); return 0
    for i in range(size(d)[0]):
        for j in range(size(d)[1]): put(e, st, d, get(e, st, s, i, j), i, j)
    return 0
def madd(e, st, a):
    d, s = a
    for i in range(size(d)[0]):
        for j in range(size(d)[1]): put(e, st, d, add(get(e, st, d, i, j), get(e, st, s, i, j)), i, j)
    return 0
def dot(e, st, a):
    x, y, r = a
    if size(x) != size(y): need(e, st, "dot product of equal lengths", False); return 0
    e.store(st, r, add(*[arith("*", get(e, st, x, i), get(e, st, y, i)) for i in range(size(x)[0])])); return 0
def scale(b, old): return Fraction(0) if ce.lit(b) and b == 0 else arith("*", b, old())
def dsymv(e, st, a):
    up, al, A, x, be, y = a; n = size(A)[0]
    v = [add(arith("*", al, add(*[arith("*", sym(e, st, up, A, i, j), get(e, st, x, j)) for j in range(n)])), scale(be, lambda: get(e, st, y, i))) for i in range(n)]
    for i in range(n): put(e, st, y, v[i], i)
    return 0
def dgemv(e, st, a):
    tr, al, A, x, be, y = a; n, m = size(A)
    el = (lambda i, j: get(e, st, A, i, j)) if tr == NOTRANS else (lambda i, j: get(e, st, A, j, i))
    if tr != NOTRANS: n, m = m, n
    v = [add(arith("*", al, add(*[arith("*", el(i, j), get(e, st, x, j)) for j in range(m)])), scale(be, lambda: get(e, st, y, i))) for i in range(n)]
    for i in range(n): put(e, st, y, v[i], i)
    return 0
def alias(*ps): return len({p.reg.id for p in ps}) != len(ps)
def dsymm(e, st, a):
    side, up, al, A, Bm, be, C = a; n, m = size(C)
    if C.reg in (A.reg, Bm.reg): raise Unsupported("aliased GSL operands")
    if side == LEFT: f = lambda i, j: add(*[arith("*", sym(e, st, up, A, i, k), get(e, st, Bm, k, j)) for k in range(n)])
    else: f = lambda i, j: add(*[arith("*", get(e, st, Bm, i, k), sym(e, st, up, A, k, j)) for k in range(m)])
    v = [[add(arith("*", al, f(i, j)), scale(be, lambda: get(e, st, C, i, j))) for j in range(m)] for i in range(n)]
    for i in range(n):
        for j in range(m): put(e, st, C, v[i][j], i, j)
    return 0
def dgemm(e, st, a):
    ta, tb, al, A, Bm, be, C = a; n, m = size(C)
    if C.reg in (A.reg, Bm.reg): raise Unsupported("aliased GSL operands")
    K = size(A)[1] if ta == NOTRANS else size(A)[0]
    ea = (lambda i, k: get(e, st, A, i, k)) if ta == NOTRANS else (lambda i, k: get(e, st, A, k, i))
    eb = (lambda k, j: get(e, st, Bm, k, j)) if tb == NOTRANS else (lambda k, j: get(e, st, Bm, j, k))
    v = [[add(arith("*", al, add(*[arith("*", ea(i, k), eb(k, j)) for k in range(K)])), scale(be, lambda: get(e, st, C, i, j))) for j in range(m)] for i in range(n)]
    for i in range(n):
        for j in range(m): put(e, st, C, v[i][j], i, j)
    return 0
def daxpy(e, st, a):
    al, x, y = a
    for i in range(size(x)[0]): put(e, st, y, add(arith("*", al, get(e, st, x, i)), get(e, st, y, i)), i)
    return 0
def dsyr(e, st, a):
    up, al, x, A = a; n = size(A)[0]
    for i in range(n):
        for j in range(n):
            if (up == UPPER and j >= i) or (up == LOWER and j <= i):
                put(e, st, A, add(arith("*", al, arith("*", get(e, st, x, i), get(e, st, x, j))), get(e, st, A, i, j)), i, j)
    return 0
NOP = lambda e, st, a: 0
GSL = {"gsl_vector_alloc": valloc, "gsl_vector_calloc": vcalloc, "gsl_matrix_alloc": malloc, "gsl_matrix_calloc": mcalloc, "gsl_vector_free": NOP, "gsl_matrix_free": NOP,
       "gsl_vector_get": vget, "gsl_vector_set": vset, "gsl_matrix_get": mget, "gsl_matrix_set": mset, "gsl_vector_memcpy": vcopy, "gsl_matrix_memcpy": mcopy, "gsl_matrix_add": madd,
       "gsl_blas_ddot": dot, "gsl_blas_dsymv": dsymv, "gsl_blas_dgemv": dgemv, "gsl_blas_dsymm": dsymm, "gsl_blas_dgemm": dgemm, "gsl_blas_daxpy": daxpy, "gsl_blas_dsyr": dsyr}
