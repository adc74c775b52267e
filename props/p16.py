"""P16: harmonic coefficients and state vectors convert into each other without loss, and the
Kalman recursions advance them by the state transition.
Under contract (KFAS.c, s_ccd.c): fit_cft2vec_a, vec_a2fit_cft, initialize_ssmconstants,
filter1step_missingobs, filter1step_validobs, compute_f, KF_ts_filter_regular,
KF_ts_filter_falsechange."""
import z3
from fractions import Fraction
from vc import ceng as ce, gslc
from vc.ceng import Proof, Unsupported, FA, zi, zr, PI, arith

I, R = z3.IntSort(), z3.RealSort()
INT, FLOAT, DOUBLE = ("int", 32, True), ("flt", 4), ("flt", 8)
W = 2 * PI / Fraction("365.25")
k = z3.Int("k")
def tr(name, n, d): return ce.trig(name, zr(n * W) * z3.ToReal(d))
def pyth(d): return [tr("cos", n, d) * tr("cos", n, d) + tr("sin", n, d) * tr("sin", n, d) == 1 for n in (1, 2, 3)]
def ang(name, n): return ce.trig(name, zr(n * W))
def addition(d):
    """angle addition for one day: cos((d+1)w), sin((d+1)w)"""
    f = []
    for n in (1, 2):
        f.append(tr("cos", n, d + 1) == tr("cos", n, d) * ang("cos", n) - tr("sin", n, d) * ang("sin", n))
        f.append(tr("sin", n, d + 1) == tr("sin", n, d) * ang("cos", n) + tr("cos", n, d) * ang("sin", n))
    return f
def vec_of(c, d, m, structure):
    """the state vector of fit c (function of the index) at day d"""
    v = [c(0) + z3.ToReal(d) * c(1) / 10000, c(1) / 10000]
    for dig, n in ((1, 1), (10, 2)):
        if len(v) < m and (structure % 10 == 1 if dig == 1 else structure // 10 == 1):
            p, q = c(2 * n), c(2 * n + 1)
            v += [p * tr("cos", n, d) + q * tr("sin", n, d), -p * tr("sin", n, d) + q * tr("cos", n, d)]
    return v
def fit_of(v, d, m, structure):
    """the fit of state vector v at day d (6 coefficients)"""
    c = [v(0) - v(1) * z3.ToReal(d), v(1) * 10000] + [z3.RealVal(0)] * 4
    j = 2
    for dig, n in ((1, 1), (10, 2)):
        if j < m and (structure % 10 == 1 if dig == 1 else structure // 10 == 1):
            c[2 * n] = tr("cos", n, d) * v(j) - tr("sin", n, d) * v(j + 1)
            c[2 * n + 1] = tr("cos", n, d) * v(j + 1) + tr("sin", n, d) * v(j)
            j += 2
    return c
def Tmat(i, j):
    """the state transition of one day"""
    if i == 0: return z3.RealVal(1 if j < 2 else 0)
    if i == 1: return z3.RealVal(1 if j == 1 else 0)
    n = i // 2
    if j // 2 != n or j < 2: return z3.RealVal(0)
    if i == j: return ang("cos", n)
    return ang("sin", n) if i < j else -ang("sin", n)
SHAPES = [(2, 11), (4, 1), (4, 10), (6, 11)]
def poly(p, name, lhs, rhs): p.post(name, z3.simplify(lhs - rhs, som=True, sort_sums=True) == 0)

def to_vec(c, u, m, structure):
    p = Proof(c, [u], "fit_cft2vec_a", "fit_cft2vec_a, %d states, structure %d" % (m, structure), contracts=gslc.GSL, houdini=False)
    F, A, D, M, S = [n for n, _ in p.params]
    d = p.int(D); p.array(F, FLOAT, [(0, 6)]); p.vals[A] = gslc.vec(p.e, "a", m); p.set(M, m); p.set(S, structure)
    p.run()
    f = p.out(F, True); v = p.out(A)
    for i, w in enumerate(vec_of(lambda j: f[j], d, m, structure)): poly(p, "state %d is the fit's component at the date" % i, v[i], w)
    p.post("the coefficients are only read", p.out(F) == f)
    p.done()

def to_fit(c, u, m, structure):
    p = Proof(c, [u], "vec_a2fit_cft", "vec_a2fit_cft, %d states, structure %d" % (m, structure), contracts=gslc.GSL, houdini=False)
    A, F, D, M, S = [n for n, _ in p.params]
    d = p.int(D); p.array(F, FLOAT, [(0, 6)]); p.vals[A] = gslc.vec(p.e, "a", m); p.set(M, m); p.set(S, structure)
    p.run()
    v = p.out(A, True); f = p.out(F)
    for i, w in enumerate(fit_of(lambda j: v[j], d, m, structure)): poly(p, "coefficient %d is that of the state" % i, f[i], w)
    p.post("the state is only read", p.out(A) == v)
    p.done()

def lemmas(c):
    """consequences of the two contracts: round trips, prediction, transition (any number of days by induction)"""
    d = z3.Int("d"); C = [z3.Real("c%d" % i) for i in range(6)]; V = [z3.Real("v%d" % i) for i in range(6)]
    obls = []
    for m, s in SHAPES:
        v = vec_of(lambda j: C[j], d, m, s); back = fit_of(lambda j: v[j], d, m, s)
        used = {0, 1} | ({2, 3} if s % 10 == 1 and m > 2 else set()) | ({4, 5} if s // 10 == 1 and m > 2 else set())
        for i in range(6):
            obls.append(("lemma: coefficient %d survives the round trip (%d states, structure %d)" % (i, m, s), pyth(d), back[i] == (C[i] if i in used else 0), None, "lemma"))
        f = fit_of(lambda j: V[j], d, m, s); w = vec_of(lambda j: f[j], d, m, s)
        for i in range(m): obls.append(("lemma: state %d survives the round trip (%d states, structure %d)" % (i, m, s), pyth(d), w[i] == V[i], None, "lemma"))
    v = vec_of(lambda j: C[j], d, 6, 11); v1 = vec_of(lambda j: C[j], d + 1, 6, 11)
    Z = [1, 0, 1, 0, 1, 0]
    pred = C[0] + C[1] * z3.ToReal(d) / 10000 + sum(C[2 * n] * tr("cos", n, d) + C[2 * n + 1] * tr("sin", n, d) for n in (1, 2))
    obls.append(("lemma: the observed component is the fit's prediction", [], sum(z * x for z, x in zip(Z, v)) == pred, None, "lemma"))
    for i in range(6):
        obls.append(("lemma: the transition moves state %d of a fit to the next day" % i, addition(d), sum(Tmat(i, j) * v[j] for j in range(6)) == v1[i], None, "lemma"))
    c.defer(obls, "lemmas over the conversion contracts")

def inst(p, u, name, zero=False):
    r = p.scalar_out(name, u.type({"type": {"qualType": "ssmodel_constants"}}))
    z, t, q = gslc.vec(p.e, "Z", 6), gslc.mat(p.e, "T", 6, 6), gslc.mat(p.e, "Q", 6, 6)
    if zero:
        for x in (t, q): x.reg.init[""] = z3.K(I, z3.K(I, z3.RealVal(0)))
    r.init.update({"Z": z, "T": t, "Q": q}); return r, z, t, q

def constants(c, u):
    p = Proof(c, [u], "initialize_ssmconstants", contracts=gslc.GSL, houdini=False)
    N, H, INS = [n for n, _ in p.params]
    p.set(N, 6); h = p.real(H); r, z, t, q = inst(p, u, INS, True)
    ret = p.run(); e = p.e
    p.post("success is reported", ce.cmp("==", ret, 0))
    L = lambda x: e.leaf(p.st, x.reg, "")
    for i in range(6):
        p.post("Z[%d]" % i, L(z)[i] == (1 if i % 2 == 0 else 0))
        for j in range(6):
            p.post("T[%d][%d] is the transition of one day" % (i, j), L(t)[i][j] == Tmat(i, j))
            p.post("Q[%d][%d] is diagonal" % (i, j), L(q)[i][j] == 0 if i != j else L(q)[i][j] >= 0)
    p.post("m is the number of states, both cycles are on, H is the given noise", z3.And(zi(e.leaf(p.st, r, "m")) == 6, zi(e.leaf(p.st, r, "structure")) == 11, zr(e.leaf(p.st, r, "H")) == h))
    p.done()

def symm(P): return lambda i, j: P[min(i, j)][max(i, j)]
def mul(n, a, b): return lambda i, j: z3.Sum(*[a(i, x) * b(x, j) for x in range(n)])
def missing_spec(n, T, P, Q):
    """T P T' + Q with P read as a symmetric matrix"""
    TP = mul(n, lambda i, j: T[i][j], symm(P))
    return lambda i, j: z3.Sum(*[TP(i, x) * T[j][x] for x in range(n)]) + Q[i][j]
def norm(x): return z3.simplify(x, som=True, sort_sums=True)

def missing(c, u):
    p = Proof(c, [u], "filter1step_missingobs", contracts=gslc.GSL, houdini=False)
    names = [n for n, _ in p.params]; Z, H, T, Q, FT, P_, K, M = names; e = p.e
    p.vals.update({Z: gslc.vec(e, "Z", 6), T: gslc.mat(e, "T", 6, 6), Q: gslc.mat(e, "Q", 6, 6), P_: gslc.mat(e, "P", 6, 6), K: gslc.vec(e, "K", 6)})
    p.scalar_out(FT, DOUBLE); p.set(M, 6); p.real(H)
    p.run()
    sp = missing_spec(6, p.out(T, True), p.out(P_, True), p.out(Q, True)); N = p.out(P_)
    for i in range(6):
        for j in range(6): p.post("covariance [%d][%d] is T P T' + Q" % (i, j), norm(N[i][j] - sp(i, j)) == 0)
    p.post("the model constants are only read", z3.And(p.out(T) == p.out(T, True), p.out(Q) == p.out(Q, True), p.out(Z) == p.out(Z, True)))
    p.done()

def valid(c, u):
    p = Proof(c, [u], "filter1step_validobs", contracts=gslc.GSL, houdini=False)
    names = [n for n, _ in p.params]; Y, Z, H, T, Q, A, P_, VT, FT, K, M, ATT = names; e = p.e
    p.vals.update({Z: gslc.vec(e, "Z", 6), T: gslc.mat(e, "T", 6, 6), Q: gslc.mat(e, "Q", 6, 6), P_: gslc.mat(e, "P", 6, 6), K: gslc.vec(e, "K", 6), A: gslc.vec(e, "A", 6), ATT: gslc.vec(e, "ATT", 6)})
    p.scalar_out(FT, DOUBLE); p.scalar_out(VT, DOUBLE); p.scalar_out(H, FLOAT); p.set(M, 6); y = p.real(Y)
    p.run()
    o = lambda n: p.out(n, True)
    z, P, a, T_, Q_ = o(Z), o(P_), o(A), o(T), o(Q); S = symm(P)
    Kv = [z3.Sum(*[S(i, x) * z[x] for x in range(6)]) for i in range(6)]
    F = z3.Sum(*[z[i] * Kv[i] for i in range(6)]) + o(H); v = y - z3.Sum(*[z[i] * a[i] for i in range(6)])
    p.post("the innovation is the observation minus the prediction", norm(p.out(VT) - v) == 0)
    k_ = p.out(K)
    for i in range(6): p.post("gain %d is P z" % i, norm(k_[i] - Kv[i]) == 0)
    # the two cases of the update: F above the tolerance or not; 1/F is the symbol r
    r = z3.Real("recF"); Fn = norm(F); memo = {}
    def is_F(x):
        k_ = ("F", x.get_id())
        if k_ not in memo: memo[k_] = (x, z3.is_true(z3.simplify(norm(x - F) == 0)))
        return memo[k_][1]
    def side(cn):
        """does this condition say that F is above a small positive tolerance (True), or the opposite (False)?"""
        if z3.is_not(cn): return not side(cn.arg(0))
        g = {z3.Z3_OP_GT: 1, z3.Z3_OP_GE: 1, z3.Z3_OP_LT: -1, z3.Z3_OP_LE: -1}.get(cn.decl().kind())
        if g is None: raise Unsupported("condition of the update")
        n = norm((cn.arg(0) - cn.arg(1)) * g)
        for sg in (1, -1):
            t = z3.simplify(norm(n * sg - F))
            if z3.is_rational_value(t):
                tol = -Fraction(t.numerator_as_long(), t.denominator_as_long())
                if not 0 <= tol <= Fraction(1, 10 ** 10): raise Unsupported("tolerance of the update")
                return sg == 1
        raise Unsupported("condition of the update")
    def case(x, upd):
        key = (x.get_id(), upd)
        if key in memo: return memo[key][1]
        if z3.is_app_of(x, z3.Z3_OP_ITE): res = case(x.arg(1 if side(x.arg(0)) == upd else 2), upd)
        elif z3.is_app_of(x, z3.Z3_OP_DIV) and not z3.is_rational_value(x.arg(1)):
            if not is_F(x.arg(1)): raise Unsupported("division by something other than F")
            res = case(x.arg(0), upd) * r
        elif x.num_args(): res = x.decl()(*[case(y_, upd) for y_ in x.children()])
        else: res = x
        memo[key] = (x, res); return res
    A1, P1 = p.out(A), p.out(P_)
    for upd in (True, False):
        if upd: a2 = [a[i] + v * r * Kv[i] for i in range(6)]; S2 = lambda i, j: S(i, j) - r * Kv[i] * Kv[j]
        else: a2 = [a[i] for i in range(6)]; S2 = S
        w = "F above the tolerance" if upd else "F not above the tolerance"
        if upd: p.post("the variance of the innovation is z'Pz + H (%s)" % w, norm(case(z3.simplify(p.out(FT)), upd) - F) == 0)
        else: p.post("the variance of the innovation is 0 (%s)" % w, norm(case(z3.simplify(p.out(FT)), upd)) == 0)
        for i in range(6):
            p.post("state %d moves by the transition (%s)" % (i, w), norm(case(z3.simplify(A1[i]), upd) - z3.Sum(*[T_[i][j] * a2[j] for j in range(6)])) == 0)
        for i in range(6):
            for j in range(6):
                spec = z3.Sum(*[z3.Sum(*[T_[i][x_] * S2(x_, y_) for x_ in range(6)]) * T_[j][y_] for y_ in range(6)]) + Q_[i][j]
                p.post("covariance [%d][%d] is T P2 T' + Q (%s)" % (i, j, w), norm(case(z3.simplify(P1[i][j]), upd) - spec) == 0)
    p.post("the model constants are only read", z3.And(p.out(T) == o(T), p.out(Q) == o(Q), p.out(Z) == o(Z)))
    p.done()

def b_vec(e, st, a):
    """fit_cft2vec_a by its contract"""
    F, A, D, m, s = a; arr = e.arrv(st, F); off = F.idx[-1]; d = zi(D)
    for i, w in enumerate(vec_of(lambda j: z3.Select(arr, zi(arith("+", off, j))), d, 6, 11)): gslc.put(e, st, A, w, i)
    e.oblige(st, "call of fit_cft2vec_a: six states, both cycles", ce.conj([ce.cmp("==", m, 6), ce.cmp("==", s, 11)]), "pre")
def b_fit(e, st, a):
    A, F, D, m, s = a; v = e.leaf(st, A.reg, ""); d = zi(D)
    e.oblige(st, "call of vec_a2fit_cft: six states, both cycles", ce.conj([ce.cmp("==", m, 6), ce.cmp("==", s, 11)]), "pre")
    for i, w in enumerate(fit_of(lambda j: v[j], d, 6, 11)): e.store(st, ce.Ptr(F.reg, F.path, F.idx[:-1] + (arith("+", F.idx[-1], i),), FLOAT, F.null), w)
MAT = z3.ArraySort(I, z3.ArraySort(I, R)); VEC = z3.ArraySort(I, R)
MISS = z3.Function("missing_step", MAT, MAT, MAT, MAT)
MISSN = z3.Function("missing_steps", I, MAT, MAT, MAT, MAT)
VP, VA, VV = z3.Function("valid_P", R, VEC, R, MAT, MAT, VEC, MAT, MAT), z3.Function("valid_a", R, VEC, R, MAT, MAT, VEC, MAT, VEC), z3.Function("valid_v", R, VEC, R, MAT, MAT, VEC, MAT, R)
def b_missing(e, st, a):
    Z, H, T, Q, FT, P, K, m = a
    e.oblige(st, "call of filter1step_missingobs: six states", ce.cmp("==", m, 6), "pre")
    L = lambda x: e.leaf(st, x.reg, "")
    st.mem[(P.reg.id, "")] = MISS(L(T), L(P), L(Q)); e.note(P.reg, "")
def b_valid(e, st, a):
    Y, Z, H, T, Q, A, P, VT, FT, K, m, ATT = a
    e.oblige(st, "call of filter1step_validobs: six states", ce.cmp("==", m, 6), "pre")
    L = lambda x: e.leaf(st, x.reg, "")
    h = zr(e.load(st, None, H)); arg = (zr(Y), L(Z), h, L(T), L(Q), L(A), L(P))
    e.store(st, VT, VV(*arg)); st.mem[(P.reg.id, "")] = VP(*arg); st.mem[(A.reg.id, "")] = VA(*arg)
    for x in (P, A): e.note(x.reg, "")
    for x in (K, ATT): st.mem[(x.reg.id, "")] = e.fresh("gsl", VEC); e.note(x.reg, "")
    e.store(st, FT, e.fresh("ft", R))

def falsechange(c, u):
    con = dict(gslc.GSL); con["filter1step_missingobs"] = b_missing
    p = Proof(c, [u], "KF_ts_filter_falsechange", contracts=con, houdini=False); e = p.e
    INS, X, P_, CI = [n for n, _ in p.params]
    i = p.int(CI, 0); x = p.array(X, INT, [(i, i + 2)]); r, z, t, q = inst(p, u, INS); r.init.update({"m": 6, "structure": 11}); p.vals[P_] = gslc.mat(e, "P", 6, 6)
    def inv(L):
        j = L["j"]; o = lambda n: p.out(n, True); gap = L.arr(X)[i + 1] - L.arr(X)[i]
        T0, Q0 = e.leaf(p.old, t.reg, ""), e.leaf(p.old, q.reg, "")
        return [("j counts the days", z3.And(j >= 0, z3.Or(j <= gap, j == 0))), ("the covariance made j steps", e.leaf(L.st, p.vals[P_].reg, "") == MISSN(j, T0, o(P_), Q0))]
    e.inv[("KF_ts_filter_falsechange", 0)] = inv
    fr(p, t, q)
    p.run(); X_ = p.out(X, True); gap = X_[i + 1] - X_[i]
    T0, Q0 = e.leaf(p.old, t.reg, ""), e.leaf(p.old, q.reg, "")
    p.post("the covariance makes one missing-observation step per day of the gap", p.out(P_) == MISSN(z3.If(gap > 0, gap, 0), T0, p.out(P_, True), Q0))
    p.done()
def fr(p, t, q):
    a, b, m = z3.Const("a", MAT), z3.Const("b", MAT), z3.Const("m", MAT)
    e = p.e
    e.facts.append(z3.ForAll([a, m, b], MISSN(0, a, m, b) == m, patterns=[MISSN(0, a, m, b)]))
    e.facts.append(z3.ForAll([k, a, m, b], z3.Implies(k >= 0, MISSN(k + 1, a, m, b) == MISS(a, MISSN(k, a, m, b), b)), patterns=[MISS(a, MISSN(k, a, m, b), b)]))

def regular(c, u, steady):
    con = dict(gslc.GSL); con.update({"filter1step_missingobs": b_missing, "filter1step_validobs": b_valid, "fit_cft2vec_a": b_vec, "vec_a2fit_cft": b_fit})
    p = Proof(c, [u], "KF_ts_filter_regular", "KF_ts_filter_regular%s" % (", steady" if steady else ""), contracts=con, houdini=False); e = p.e
    INS, X, Y, P_, FC, CI, IB, VT, ST = [n for n, _ in p.params]
    i = p.int(CI, 0); b = p.int(IB, 0, 5); p.array(X, INT, [(i, i + 2)]); p.array(Y, FLOAT, [(i, i + 1)]); p.array(FC, FLOAT, [(0, b + 1), (0, 6)], nd=2)
    r, z, t, q = inst(p, u, INS); r.init.update({"m": 6, "structure": 11, "H": p.real("Hn")}); p.vals[P_] = gslc.mat(e, "P", 6, 6); p.scalar_out(VT, DOUBLE); p.set(ST, 1 if steady else 0)
    fr(p, t, q)
    o = lambda x: e.leaf(p.old, x.reg, "")
    def spec():
        X_ = p.out(X, True); F0 = p.out(FC, True); d = X_[i]
        v = vec_of(lambda j: F0[b][j], d, 6, 11)
        return X_, F0, d, v
    def inv(L):
        X_, F0, d, v = spec(); j = L["j"]; gap = X_[i + 1] - X_[i]
        Fn = e.leaf(L.st, p.vals[FC].reg, ""); Pn = e.leaf(L.st, p.vals[P_].reg, ""); vt = e.leaf(L.st, p.vals[VT].reg, "")
        a = A0(L.st, v)
        arg = (p.out(Y, True)[i], o(z), zr(e.leaf(p.old, r, "H")), o(t), o(q), a, p.out(P_, True))
        na = VA(*arg); nf = fit_of(lambda x: na[x], d + 1, 6, 11)
        row = Fn[b]
        out = [("j counts the days", z3.And(j >= 0, z3.Or(j <= gap, j == 0))),
               ("nothing changes before the first day", z3.Implies(j == 0, z3.And(Fn == F0, Pn == p.out(P_, True), vt == p.out(VT, True)))),
               ("the residual is that of the valid step", z3.Implies(j >= 1, vt == VV(*arg))),
               ("the covariance makes the valid step and then a missing step per day", z3.Implies(j >= 1, Pn == (VP(*arg) if steady else MISSN(j - 1, o(t), VP(*arg), o(q))))),
               ("other rows stay", FA([k], z3.Implies(k != b, Fn[k] == F0[k]), Fn[k]))]
        out += [("coefficient %d is that of the filtered state at the next day" % x, z3.Implies(j >= 1, row[x] == nf[x])) for x in range(6)]
        return out
    memo = {}
    def A0(st, v):
        """the state vector of the fit: the six written cells over the allocated block"""
        return memo["a"]
    def vecc(e_, st, a):
        # the valid step reads only the six cells; the block is named by its cells
        F, A, D, m, s = a
        b_vec(e_, st, a)
        arr = e_.leaf(st, A.reg, "")
        nm = memo["a"]
        e_.oblige(st, "the state is that of the fit at the observation date", z3.And(*[z3.Select(arr, x) == w for x, w in enumerate(vec_of(lambda j: p.out(FC, True)[b][j], p.out(X, True)[i], 6, 11))]), "pre")
        st.mem[(A.reg.id, "")] = nm
    con["fit_cft2vec_a"] = vecc
    memo["a"] = z3.Const("a_of_fit", VEC)
    e.inv[("KF_ts_filter_regular", 0)] = inv
    p.run()
    X_, F0, d, v = spec(); gap = X_[i + 1] - X_[i]
    arg = (p.out(Y, True)[i], o(z), zr(e.leaf(p.old, r, "H")), o(t), o(q), memo["a"], p.out(P_, True)); na = VA(*arg); nf = fit_of(lambda x: na[x], d + 1, 6, 11)
    row = p.out(FC)[b]
    for x in range(6): p.post("coefficient %d is that of the filtered state at the next day" % x, z3.Implies(gap >= 1, row[x] == nf[x]))
    p.post("the covariance makes the valid step and then a missing step per day", z3.Implies(gap >= 1, p.out(P_) == (VP(*arg) if steady else MISSN(gap - 1, o(t), VP(*arg), o(q)))))
    p.post("the residual is that of the valid step", z3.Implies(gap >= 1, p.out(VT) == VV(*arg)))
    p.done()

def run(c):
    m = {}
    def load():
        for f in ("KFAS.c", "s_ccd.c"): m[f] = ce.unit(c.repo, f)
    c.guard("clang", load)
    for n, s in SHAPES:
        c.guard("fit_cft2vec_a", lambda: to_vec(c, m["KFAS.c"], n, s))
        c.guard("vec_a2fit_cft", lambda: to_fit(c, m["KFAS.c"], n, s))
    c.guard("lemmas", lambda: lemmas(c))
    c.guard("initialize_ssmconstants", lambda: constants(c, m["KFAS.c"]))
    c.guard("filter1step_missingobs", lambda: missing(c, m["KFAS.c"]))
    c.guard("filter1step_validobs", lambda: valid(c, m["KFAS.c"]))
    c.guard("KF_ts_filter_falsechange", lambda: falsechange(c, m["s_ccd.c"]))
    for st in (False, True): c.guard("KF_ts_filter_regular", lambda: regular(c, m["s_ccd.c"], st))
    c.flush()
    c.trusted.append("documented semantics of the GSL vector, matrix and BLAS routines (vc/gslc.py)")
    c.assumptions += ["floats as reals (the state -> fit -> float32 coefficient rounding is bounded by the oracle only)",
                      "trigonometric identities assumed: cos^2 + sin^2 = 1 and angle addition for one day, at multiples of the annual frequency",
                      "the covariance is read as a symmetric matrix (upper triangle), as the code's BLAS calls do",
                      "T and Q of the model constants are zero when initialize_ssmconstants is called (its callers use gsl_matrix_calloc)",
                      "six states and structure 11 in the filters: the only configuration the detector uses"]
    c.oracle("o_kalman.py")
