"""P14: model complexity follows the number of observations and unused terms are zero.
Under contract (misc.c): update_cft; auto_ts_fit, auto_ts_fit_float, auto_ts_fit_sccd for every
series and range and each supported number of coefficients (what is given to the lasso is the
design matrix of the model P15's predictors evaluate; what comes back is stored term by term, the
rest is zero); c_glmnet (every term of the compressed solution at its own place, the others zero)."""
import z3
from vc import ceng as ce
from vc.ceng import Proof, Unsupported, FA, zi, zr, uf
from props.p15 import W
from props.p23 import loops_by
from props.p12 import alloc2d, kill

I, R = z3.IntSort(), z3.RealSort()
INT, FLOAT, DOUBLE = ("int", 32, True), ("flt", 4), ("flt", 8)
k, a, b = z3.Ints("k a b")

def complexity(c, u):
    """update_cft called with the constants of the package: 4 below 18, 6 below 24, 8 from 24 on, never above the maximum"""
    p = Proof(c, [u], "update_cft"); names = [x for x, _ in p.params]
    if len(names) != 7: raise Unsupported("parameters of update_cft")
    n = p.int(names[0], 0); nt, lo, mid, hi = 3, 4, 6, 8
    # any consistent constants: the package's are an instance
    NT, LO, MID, HI, NC = [z3.Int(x) for x in names[1:6]]
    p.vals.update({names[1]: NT, names[2]: LO, names[3]: MID, names[4]: HI, names[5]: NC}); p.pre(NT >= 1, LO >= 1, LO <= MID, MID <= HI, NC >= 1)
    p.scalar_out(names[6], INT); p.run(); v = zi(p.cell(names[6]))
    m = lambda x, y: z3.If(x < y, x, y)
    spec = lambda q: m(z3.If(q < MID * NT, LO, z3.If(q < HI * NT, MID, HI)), NC)
    p.post("the number of coefficients is that of the number of observations, at most the maximum", v == spec(n))
    p.post("never above the requested maximum", v <= NC)
    pk = [NT == nt, LO == lo, MID == mid, HI == hi]
    p.post("with the package's constants: 4 below 18, 6 below 24, 8 from 24 on", z3.Implies(z3.And(*pk), v == m(z3.If(n < 18, 4, z3.If(n < 24, 6, 8)), NC)))
    n2 = z3.Int("later")
    p.post("more observations never mean fewer coefficients", z3.Implies(n <= n2, v <= spec(n2)))
    p.done()

def fit(c, u, fn, ty, df, lmu, scaled, ncoef):
    p = Proof(c, [u], fn, "%s, %d coefficients, %s" % (fn, df, "solved" if lmu else "no solution"), houdini=False); e = p.e; e.split = "deep"; e.allocfail = False
    names = [x for x, _ in p.params]
    if len(names) != 10: raise Unsupported("parameters of " + fn)
    X, Y, BI, LB, ST, EN, DF, CO, RM, VD = names
    st, en, bi, lb = p.int(ST, 0), p.int(EN), p.int(BI, 0, 6), p.int(LB, 0, 6); n = en - st + 1; p.pre(n > df)
    p.array(X, INT, [(st, en + 1)]); p.array(Y, FLOAT, [(bi, bi + 1), (st, en + 1)], nd=2); p.set(DF, df)
    p.array(CO, ty, [(lb, lb + 1), (0, ncoef)], nd=2); p.array(VD, ty, [(lb, lb + 1), (0, n)], nd=2)
    # rmse may be a cell of a vector
    p.scalar_out(RM, ty); p.snap()
    X0, Y0 = p.out(X, True), p.out(Y, True)
    def term(j, d):
        """the regressor of coefficient j + 1 in the model P15's predictors evaluate"""
        if df != 5 and j == 0: return z3.ToReal(d)
        if df != 5: j -= 1
        return ce.trig("cos" if j % 2 == 0 else "sin", (j // 2 + 1) * zr(W) * z3.ToReal(d))
    PRED = z3.Function("predicted", I, R)
    ls = loops_by(u, fn); gh = {}
    design = lambda M, V, top: [("column %d is its own term of the model" % j, FA([k], z3.Implies(z3.And(0 <= k, k < top), M[j][k] == term(j, X0[st + k])), M[j][k])) for j in range(df - 1)] + \
        [("the response is the band's own values", FA([k], z3.Implies(z3.And(0 <= k, k < top), V[k] == Y0[bi][st + k]), V[k]))]
    def inv_design(L):
        i = L["i"]; return [("i counts up", z3.And(i >= 0, i <= n))] + design(L.arr("x"), L.arr("y"), i)
    def inv_res(L):
        i, V, H = L["i"], L.arr(VD), L.arr("yhat"); V0 = p.out(VD, True)
        return [("i counts up", z3.And(i >= 0, i <= n)), ("residuals so far", FA([k], z3.Implies(z3.And(0 <= k, k < i), V[lb][k] == Y0[bi][st + k] - H[k]), V[lb][k])),
                ("residuals of other bands stay", FA([a, k], z3.Implies(a != lb, V[a][k] == V0[a][k]), V[a][k]))]
    for q, r in enumerate(ls):
        if VD in r: e.inv[(fn, q)] = inv_res
        elif X in r: e.inv[(fn, q)] = inv_design
    cf = [z3.Real("solution_%d" % j) for j in range(df)]; N = z3.Real("norm")
    def glm(e_, s, A):
        no, ni, Xp, Yp, nl, ul, al, LM, CF = A; gh["fit"] = 1
        e_.oblige(s, "the fit uses exactly the range", zi(no) == n, "pre"); e_.oblige(s, "one predictor less than coefficients, one penalty", z3.And(zi(ni) == df - 1, zi(nl) == 1), "pre")
        if any(ce.conc(z3.simplify(zi(x))) != 0 for x in Xp.idx + Yp.idx): raise Unsupported("offset of the design matrix")
        for nm, g in design(e_.leaf(s, Xp.reg, ""), e_.leaf(s, Yp.reg, ""), n): e_.oblige(s, nm, g, "pre")
        e_.store(s, LM, lmu)
        arr = e_.leaf(s, CF.reg, ""); new = e_.fresh("cfs", arr.sort()); st_ = s.mem; st_[(CF.reg.id, "")] = new; e_.note(CF.reg, "")
        for j in range(df): e_.fact(s, new[0][j] == cf[j])
        return e_.fresh("status", I)
    def predict(e_, s, A):
        Xp, C, d, B, s0, s1, H = A; gh["predict"] = 1
        e_.oblige(s, "predictions are those of the fitted model on exactly the range", z3.And(zi(d) == df, zi(B) == lb, zi(s0) == st, zi(s1) == en), "pre")
        if Xp.reg is not p.vals[X].reg or C.reg is not p.vals[CO].reg: raise Unsupported("prediction from other arrays")
        new = e_.fresh("yhat", e_.leaf(s, H.reg, "").sort()); s.mem[(H.reg.id, "")] = new; e_.note(H.reg, ""); gh["C"] = e_.leaf(s, C.reg, "")
        e_.fact(s, FA([k], z3.Implies(z3.And(0 <= k, k < n), new[k] == PRED(k)), new[k])); return 0
    def norm(e_, s, A):
        V, d, m, O = A; gh["norm"] = 1; e_.oblige(s, "the error is that of exactly these residuals", z3.And(zi(d) == lb, zi(m) == n), "pre")
        if V.reg is not p.vals[VD].reg: raise Unsupported("norm of other residuals")
        gh["V"] = e_.leaf(s, V.reg, ""); e_.store(s, O, N); return None
    e.contracts.update({"allocate_2d_array": alloc2d, "free_2d_array": lambda e_, s, A: 0, "c_glmnet": glm, "auto_ts_predict": predict, "auto_ts_predict_float": predict, "matlab_2d_array_norm": norm, "matlab_2d_array_norm_float": norm})
    r = zi(p.run())
    if set(gh) != {"fit", "predict", "norm", "V", "C"}: raise Unsupported("a step is not reached")
    C, C0, V, V0 = p.out(CO), p.out(CO, True), p.out(VD), p.out(VD, True); j, ok = z3.Int("j"), r == 0
    val = lambda t: (cf[t] * (10000 if scaled and df != 5 and t == 1 else 1) if lmu else z3.RealVal(0))
    for t in range(ncoef):
        want = val(t) if t < df else z3.RealVal(0)
        p.post("coefficient %d %s" % (t, "is the fitted one of its own term" if t < df else "beyond the fitted number is zero"), z3.Implies(ok, C[lb][t] == want))
    p.post("coefficients of other bands stay", z3.Implies(a != lb, C[a][b] == C0[a][b]))
    p.post("residuals are observed minus predicted", z3.Implies(z3.And(ok, 0 <= k, k < n), V[lb][k] == Y0[bi][st + k] - PRED(k)))
    p.post("the predictions are those of the stored coefficients", z3.Implies(ok, gh["C"][lb] == C[lb]))
    p.post("residuals of other bands stay", z3.Implies(a != lb, V[a][b] == V0[a][b]))
    p.post("the error is normalised by the degrees of freedom", z3.Implies(ok, zr(p.cell(RM)) == N / uf("sqrt", R, R)(z3.ToReal(n - df))))
    p.post("the residuals measured are the stored ones", z3.Implies(ok, gh["V"] == V))
    p.post("dates and values are only read", z3.And(p.out(X) == X0, p.out(Y) == Y0))
    p.done()

def unsupported(c, u, fn, ty):
    p = Proof(c, [u], fn, fn + ", unsupported number of coefficients", houdini=False); e = p.e; X, Y, BI, LB, ST, EN, DF, CO, RM, VD = [x for x, _ in p.params]
    d = p.int(DF, 1); p.pre(*[d != q for q in (2, 4, 5, 6, 8)]); p.array(X, INT, [(0, 0)]); p.array(Y, FLOAT, [(0, 0), (0, 0)], nd=2); p.array(CO, ty, [(0, 0), (0, 0)], nd=2); p.array(VD, ty, [(0, 0), (0, 0)], nd=2); p.scalar_out(RM, ty); e.contracts["allocate_2d_array"] = alloc2d
    def never(e_, s, A): e_.oblige(s, "no fit is attempted", False, "pre"); kill(s); return 0
    e.contracts["c_glmnet"] = never; e.contracts["free_2d_array"] = lambda e_, s, A: 0
    r = zi(p.run()); p.post("an unsupported number of coefficients is reported", r != 0); p.post("nothing is stored", z3.And(p.out(CO) == p.out(CO, True), p.out(VD) == p.out(VD, True))); p.done()

def solve(c, u, ni):
    """c_glmnet: intercept, then every compressed coefficient at the place of its predictor, the others zero"""
    p = Proof(c, [u], "c_glmnet", "c_glmnet, %d predictors" % ni, houdini=False); e = p.e; e.allocfail = False
    names = [x for x, _ in p.params]
    if len(names) != 9: raise Unsupported("parameters of c_glmnet")
    NO, NI, X, Y, NL, UL, AL, LM, CF = names
    no = p.int(NO, 1); p.set(NI, ni); p.set(NL, 1); p.array(X, FLOAT, [(0, no)]); p.array(Y, FLOAT, [(0, no)]); p.array(UL, FLOAT, [(0, 1)]); al = p.real(AL); p.scalar_out(LM, INT); p.array(CF, ("arr", DOUBLE, ni + 1), [(0, 1)])
    p.snap(); gh = {}
    M, J = z3.Int("solved"), z3.Int("jerr"); A0 = z3.Real("a0"); CA = z3.Function("compressed", I, R); IA = z3.Function("pointer", I, I); NIN = z3.Int("nin")
    ORDER = z3.Function("order", I, I)
    def elnet2(e_, s, A):
        KA, PA, N_, P_, Xp, Yp, Wp, JD, VP, NE, NX, NLAM, FL, U, TH, IS, L_, A_, C_, IAp, NN, RS, AM, NP, JE = A; gh["elnet"] = 1
        ld = lambda q: e_.load(s, None, q)
        e_.oblige(s, "the solver gets the numbers of observations, predictors and penalties", z3.And(zi(ld(N_)) == no, zi(ld(P_)) == ni, zi(ld(NLAM)) == 1), "pre")
        if Xp.reg is not p.vals[X].reg or Yp.reg is not p.vals[Y].reg or U.reg is not p.vals[UL].reg: raise Unsupported("the solver gets other arrays")
        e_.oblige(s, "the solver gets the mixing parameter", zr(ld(PA)) == al, "pre")
        nx = ld(NX); e_.oblige(s, "there is room for every coefficient", zi(nx) == ni, "pre")
        W = e_.leaf(s, Wp.reg, ""); e_.oblige(s, "all observations have the same weight", FA([k], z3.Implies(z3.And(0 <= k, k < no), W[k] == 1), W[k]), "pre")
        V = e_.leaf(s, VP.reg, ""); e_.oblige(s, "all coefficients have the same penalty", z3.And(*[V[j] == 1 for j in range(ni)]), "pre")
        s.pc.append(z3.Implies(J == 0, z3.And(M >= 0, M <= 1, NIN >= 0, NIN <= ni)))
        for q in range(ni):
            s.pc.append(z3.Implies(z3.And(J == 0, q < NIN), z3.And(IA(q) >= 1, IA(q) <= ni)))
            for r in range(q): s.pc.append(z3.Implies(z3.And(J == 0, q < NIN), IA(q) != IA(r)))
        old = ld(L_); e_.store(s, L_, z3.If(J == 0, M, zi(old)))     # nothing is returned on an error
        for P_, srt in ((A_, "a0"), (C_, "ca"), (IAp, "ia"), (NN, "nin"), (RS, "rsq"), (AM, "alm")):
            g = e_.fresh(srt, e_.leaf(s, P_.reg, "").sort()); s.mem[(P_.reg.id, "")] = g; e_.note(P_.reg, "")
            if srt == "a0": e_.fact(s, g[0] == A0)
            if srt == "nin": e_.fact(s, z3.Implies(J == 0, g[0] == NIN))
            if srt == "ia": e_.fact(s, z3.And(*[g[q] == IA(q) for q in range(ni)]))
            if srt == "ca": e_.fact(s, z3.And(*[g[0][q] == CA(q) for q in range(ni)]))
        e_.store(s, JE, J); return None
    def sort(e_, s, A):
        """quick_sort_index by its contract (P13): keys ascending, the index attached to its key"""
        K_, X_, l, r = A; gh["sort"] = 1; e_.oblige(s, "sorting: the range is not empty", z3.And(0 <= zi(l), zi(l) <= zi(r)), "pre"); e_.oblige(s, "sorting: all coefficients", z3.And(zi(l) == 0, zi(r) == NIN - 1), "pre")
        k0, x0 = e_.leaf(s, K_.reg, ""), e_.leaf(s, X_.reg, ""); k1, x1 = e_.fresh("ia", k0.sort()), e_.fresh("oja", x0.sort())
        for P_, g in ((K_, k1), (X_, x1)): s.mem[(P_.reg.id, "")] = g; e_.note(P_.reg, "")
        for q in range(ni):
            e_.fact(s, z3.Implies(q < NIN, z3.And(ORDER(q) >= 0, ORDER(q) < NIN, k1[q] == k0[ORDER(q)], x1[q] == x0[ORDER(q)])))
            # a permutation: every position of the range is reached
            e_.fact(s, z3.Implies(q < NIN, z3.Or(*[z3.And(t < NIN, ORDER(t) == q) for t in range(ni)])))
            for t in range(q): e_.fact(s, z3.Implies(q < NIN, ORDER(q) != ORDER(t)))
        return None
    e.contracts.update({"__builtin_inff": lambda e_, s, A: e_.fresh("infinity", R), "elnet_": elnet2, "quick_sort_index": sort})
    ls = loops_by(u, "c_glmnet")
    def inv_w(L):
        W, i = L.arr("w"), L["i"]; return [("weights so far", z3.And(i >= 0, i <= no, FA([k], z3.Implies(z3.And(0 <= k, k < i), W[k] == 1), W[k])))]
    e.inv[("c_glmnet", [q for q, r in enumerate(ls) if "w" in r][0])] = inv_w
    p.pre(z3.BoolVal(True))
    return p, e, ls, gh, (M, J, A0, CA, IA, NIN, ORDER), names
def solved(c, u, ni):
    p, e, ls, gh, (M, J, A0, CA, IA, NIN, ORDER), (NO, NI, X, Y, NL, UL, AL, LM, CF) = solve(c, u, ni)
    # place(j): the compressed position whose predictor is j
    done = lambda C, top, K1, X1: [z3.Implies(z3.And(q < top), C[0][K1[q]] == CA(X1[q])) for q in range(ni)]
    outer = [q for q, r in enumerate(ls) if "a0" in r][0]; inner = [q for q, r in enumerate(ls) if q > outer]
    lo = zi(p.cell(LM, old=True))
    want = lambda C: [C[0][0] == A0] + [z3.And(*[z3.Implies(z3.And(q < NIN, IA(q) == j), C[0][j] == CA(q)) for q in range(ni)], z3.Implies(z3.And(*[z3.Or(q >= NIN, IA(q) != j) for q in range(ni)]), C[0][j] == 0)) for j in range(1, ni + 1)]
    def inv_o(L):
        i = L["i"]; C = L.arr(CF); m = zi(L.e.load(L.st, None, p.vals[LM]))
        K1 = L.arr("ia"); return [("the pointers are the solver's until sorted", z3.Implies(i == 0, z3.And(*[K1[q] == IA(q) for q in range(ni)]))), ("solutions so far", z3.And(i >= 0, i <= z3.If(m > 0, m, 0), z3.Implies(i > 0, z3.And(*want(C)))))]
    e.inv[("c_glmnet", outer)] = inv_o
    def inv_k(L):
        i, O = L["k"], L.arr("oja"); return [("identity so far", z3.And(i >= 0, i <= NIN, *[z3.Implies(q < i, O[q] == q) for q in range(ni)]))]
    def inv_j(L):
        j, C, K1, X1 = L["j"], L.arr(CF), L.arr("ia"), L.arr("oja"); en = L.x["entry"]; i = L["i"]
        reached = lambda t: z3.Or(*[z3.And(q < j, K1[q] == t) for q in range(ni)])
        return [("placed so far", z3.And(j >= 0, j <= NIN, C[i][0] == A0, *[z3.Implies(q < j, C[i][K1[q]] == CA(X1[q])) for q in range(ni)])), ("the others are zero", z3.And(*[z3.Implies(z3.Not(reached(t)), C[i][t] == 0) for t in range(1, ni + 1)]))]
    ks = [q for q in inner if "k" in ls[q] and q != outer]; js = [q for q in inner if "oja" in ls[q] and q not in ks and "a0" not in ls[q]]
    for q in ks: e.inv[("c_glmnet", q)] = inv_k
    for q in js: e.inv[("c_glmnet", q)] = inv_j
    r = zi(p.run())
    if "elnet" not in gh or "sort" not in gh: raise Unsupported("a step is not reached")
    C = e.leaf(p.st, p.vals[CF].reg, ""); m = zi(p.cell(LM))
    p.post("an error of the solver is reported", (r == 0) == (J == 0))
    p.post("the number of solutions is the solver's", z3.Implies(r == 0, m == M))
    p.post("the intercept comes first", z3.Implies(z3.And(r == 0, m == 1), C[0][0] == A0))
    for j in range(1, ni + 1):
        p.post("coefficient %d is that of its own predictor, zero if it was left out" % j, z3.Implies(z3.And(r == 0, m == 1), want(C)[j]))
    p.done()

def run(c):
    m = {}
    c.guard("clang", lambda: m.update(u=ce.unit(c.repo, "misc.c")))
    c.guard("update_cft", lambda: complexity(c, m["u"]))
    for ni in (1, 3, 4, 5, 7): c.guard("c_glmnet", lambda: solved(c, m["u"], ni))
    for fn, ty, dfs, scaled, nc in (("auto_ts_fit", DOUBLE, (2, 4, 5, 6, 8), False, 8), ("auto_ts_fit_float", FLOAT, (2, 4, 5, 6, 8), True, 8), ("auto_ts_fit_sccd", FLOAT, (2, 4, 6), True, 6)):
        for df in dfs:
            for lmu in (1, 0): c.guard(fn, lambda: fit(c, m["u"], fn, ty, df, lmu, scaled, nc))
        c.guard(fn, lambda: unsupported(c, m["u"], fn, ty))
    c.flush()
    c.assumptions += ["floats as reals; cos and sin uninterpreted; memory allocation succeeds", "elnet_ (Fortran, GLMnet.f) by its documented results: none on an error, otherwise at most one solution with distinct predictors", "the predictors, the norm and the sort by the contracts proved under P15, P22 and P13", "more observations in the range than coefficients"]
    c.oracle("o_fit.py")
