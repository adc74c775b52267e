"""P20: the near-real-time state of S-CCD.
Under contract (s_ccd.c): step3_processing_end, sccd_standard, sccd_snow, step2_KF_ChangeDetection,
entire, and sccd (by the proof of P12); the parts of the state returned by the binding are proved on
its source (_colds_cython.pyx)."""
import z3
from vc import ceng as ce, gslc
from vc.ceng import Proof, Unsupported, FA, zi, zr, zb
from props.p12 import alloc2d as rows2d, refs, LONG, INT, FLOAT, DOUBLE, SHORT, I, R, k, a, b, real
from props.p12 import sccd
from props.p23 import loops_by
LAUNCH = 723742
LO, HI = LAUNCH - 30000, LAUNCH + 32000          # dates of which the 16-bit day number is exact
def alloc2d(e, st, A):
    """rows of floats, or an array of GSL objects"""
    if zi(A[2]).eq(z3.IntVal(4)): return rows2d(e, st, A)
    t = ("ptr", ("void",)); r = ce.Region("objects", t, 1, (A[0],), kind="heap"); e.reg_of[r.id] = r; return ce.Ptr(r, "", (0,), t)
free2d = lambda e_, st, A: 0
def havoc(e_, st, P, what):
    A = e_.fresh(what, e_.leaf(st, P.reg, P.path).sort()); st.mem[(P.reg.id, P.path)] = A; e_.note(P.reg, P.path); return A
CAP = 0
def capacity(c):
    """the number of records the callers' arrays hold (NUM_FC)"""
    global CAP
    import os, re, subprocess
    r = subprocess.run(["gcc", "-E", "-P", "-x", "c", "-"], input='#include "defines.h"\nlong verif_capacity = NUM_FC;\n', capture_output=True, text=True, cwd=os.path.join(c.repo, "src/cxx"))
    v = r.stdout.rstrip().rsplit("verif_capacity =", 1)[-1].strip(" ;\n()")
    if r.returncode or not v.isdigit(): raise Unsupported("NUM_FC")
    CAP = int(v)
def rule(q): return z3.If(q < 18, 4, 6)
FIELDS = ["t_start_since1982", "num_obs", "obs", "obs_date_since1982", "covariance", "nrt_coefs", "H", "rmse_sum", "norm_cm", "cm_angle", "conse_last"]
def cft(e_, st, A):
    e_.oblige(st, "the number of coefficients by the package's rule", z3.And(zi(A[1]) == 3, zi(A[2]) == 4, zi(A[3]) == 6, zi(A[4]) == 6, zi(A[5]) == 6), "post")
    e_.store(st, A[6], rule(zi(A[0]))); return None
def hook(e_, st, op, x, y, t):
    if isinstance(x, ce.Ptr) or isinstance(y, ce.Ptr) or op not in ("*", "/"): return None
    x, y = ce.num(x), ce.num(y)
    if ce.lit(y) or t[0] != "flt" or op == "*" and ce.lit(x): return None
    return e_.fresh("product" if op == "*" else "quotient", R)

def end(c, u, others):
    """the state written at the end of a run"""
    fn = "step3_processing_end"
    p = Proof(c, [u] + others, fn, houdini=False, contracts=dict(gslc.GSL)); e = p.e; names = [x for x, _ in p.params]; ty = dict(p.params); e.allocfail = False; e.push = True; e.counting = True
    if len(names) != 21: raise Unsupported("parameters of " + fn)
    INS, COV, FC, X_, Y_, CUR, N, MODE, IST, PREV, MODEL, NQ, QUEUE, SSV, NOP, TST, CONSE, MINR, GATE, CHG, PRED = names
    n = z3.Int("n"); p.pre(n >= 1); p.scalar_out(N, INT).init[""] = n
    mode = z3.Int("mode"); p.scalar_out(MODE, INT).init[""] = mode; p.pre(z3.Or(*[mode == q for q in (1, 11, 2, 12, 5)]))
    conse = p.int(CONSE, 1, 8); cur = p.int(CUR, 0); ist = p.int(IST, 0); prev = p.int(PREV, 0); nop = p.int(NOP, 0, 32767); ts = p.int(TST, LO, HI); p.pre(ist <= n, prev <= n)
    p.array(INS, ty[INS][1], [(0, 6)]); p.array(X_, INT, [(0, n)]); p.array(Y_, FLOAT, [(0, 6), (0, n)], nd=2); p.array(FC, FLOAT, [(0, 6), (0, 6)], nd=2)
    p.array(COV, ty[COV][1], [(0, 6)]); P = [gslc.mat(e, "P%d" % j, 6, 6) for j in range(6)]; p.vals[COV].reg.init[""] = {(j,): P[j] for j in range(6)}
    p.array(MODEL, ty[MODEL][1], [(0, 1)]); p.array(QUEUE, ty[QUEUE][1], [(0, 240)]); p.scalar_out(NQ, INT); p.array(SSV, ty[SSV][1], [(0, 6)]); p.array(MINR, SHORT, [(0, 6)])
    p.real(GATE); p.real(PRED); chg = p.int(CHG, 0, 1); p.snap()
    for q in P: e.leaf(p.old, q.reg, "")
    for q in P: p.st.mem[(q.reg.id, "")] = e.leaf(p.old, q.reg, "")
    X, Y = p.out(X_, True), p.out(Y_, True)
    mon = z3.Or(mode == 1, mode == 11)
    p.pre(z3.Implies(mon, z3.And(cur + conse == n, nop > 0)))
    e.facts.append(FA([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(X[k] >= LO, X[k] <= HI)), X[k]))
    e.facts.append(FA([k], z3.And(*[z3.Implies(z3.And(0 <= k, k < n), z3.And(Y[j][k] >= -32768, Y[j][k] <= 32767, Y[j][k] == real(z3.ToInt(Y[j][k])))) for j in range(6)]), X[k]))
    def predict(e_, st, A):
        i0, i1, bb, cu = zi(A[4]), zi(A[5]), A[6], zi(A[7]); e_.oblige(st, "a prediction is at an observation of the last ones", z3.And(i0 == i1, i0 >= 0, i0 < n, zb(A[2].reg is P[bb].reg)), "pre")
        e_.store(st, A[8], e_.fresh("predicted", R)); e_.store(st, A[9], e_.fresh("variance", R)); return 0
    def angle(e_, st, A): e_.oblige(st, "an angle of at least one difference of the five bands", z3.And(zi(A[1]) == 5, zi(A[2]) >= 1, zi(A[2]) <= conse), "pre"); return e_.fresh("angle", R)
    e.op_hook = hook
    e.contracts.update({"update_cft": cft, "KF_ts_predict_conse": predict, "MeanAngl_float": angle, "allocate_2d_array": alloc2d, "free_2d_array": free2d, "sqrtf": lambda e_, st, A: e_.fresh("root", R), "clock": lambda e_, st, A: e_.fresh("clock", I)})
    ls = loops_by(u, fn)
    start = z3.If(n - prev > 240, n - 240, prev); num = n - start
    qf = lambda L, f: e.leaf(L.st, p.vals[QUEUE].reg, f)
    def queue(L, top):
        d, y = qf(L, "clrx_since1982"), qf(L, "clry")
        return [("queued dates", FA([k], z3.Implies(z3.And(0 <= k, k < top), d[k] + LAUNCH == X[start + k]), d[k]))] + [("band %d of queued observations" % j, FA([k], z3.Implies(z3.And(0 <= k, k < top), real(y[k][j]) == Y[j][start + k]), y[k])) for j in range(6)]
    for q, r in enumerate(ls):
        if QUEUE in r and X_ in r: e.inv[(fn, q)] = lambda L: [("counter", z3.And(L["k"] >= 0, L["k"] <= num, zi(L.cell(NQ)) == num))] + queue(L, L["k"])
        elif "stable_count" in r: e.inv[(fn, q)] = lambda L: [("counter", z3.And(L["i"] >= 0, z3.Or(L["i"] == 0, L["i"] <= L["valid_conse_last"])))]
    p.run(); ok = zi(p.ret) == 0; L = ce.View(e, p.st, p.fr); m1 = zi(p.cell(MODE)); f = lambda nm, old=False: e.leaf(p.old if old else p.st, p.vals[MODEL].reg, nm)
    p.post("it succeeds", ok)
    p.post("without a monitoring mode the mode stays", z3.Implies(z3.Not(mon), m1 == mode))
    p.post("predictability, once confirmed, stays; only the predictability digit changes", z3.Implies(mon, z3.Or(m1 == mode, z3.And(mode == 11, m1 == 1))))
    p.post("the number queued is that of the observations since the last break, 240 at most", z3.Implies(z3.Not(mon), z3.And(zi(p.cell(NQ)) == num, num >= 0, num <= 240)))
    p.post("a monitoring mode leaves the queue", z3.Implies(mon, z3.And(zi(p.cell(NQ)) == zi(p.cell(NQ, old=True)), *[e.leaf(p.st, p.vals[QUEUE].reg, x) == e.leaf(p.old, p.vals[QUEUE].reg, x) for x in ("clrx_since1982", "clry")])))
    for nm, q in queue(L, num): p.post("the newest observations: " + nm, z3.Implies(z3.Not(mon), q))
    for x in FIELDS: p.post("a queue mode leaves the model (%s)" % x, z3.Implies(z3.Not(mon), f(x)[0] == f(x, True)[0]))
    for j in range(8):
        d = f("obs_date_since1982")[0][j]; p.post("date %d of the tail" % j, z3.Implies(mon, z3.If(j < conse, d + LAUNCH == X[n - conse + j], d == 0)))
        for bb in range(6):
            y = f("obs")[0][bb][j]; p.post("band %d of observation %d of the tail" % (bb, j), z3.Implies(mon, z3.If(j < conse, real(y) == Y[bb][n - conse + j], y == 0)))
    p.post("the model's start and number of observations", z3.Implies(mon, z3.And(f("t_start_since1982")[0] + LAUNCH == ts, f("num_obs")[0] == nop)))
    H = e.leaf(p.old, p.vals[INS].reg, "H"); S = p.out(SSV, True); co = p.out(FC, True)
    for bb in range(6):
        p.post("noise and residual sum of band %d" % bb, z3.Implies(mon, z3.And(f("H")[0][bb] == H[bb], f("rmse_sum")[0][bb] == S[bb])))
        p.post("coefficients of band %d" % bb, z3.Implies(mon, z3.And(*[f("nrt_coefs")[0][bb][q] == co[bb][q] for q in range(6)])))
        C = e.leaf(p.old, P[bb].reg, ""); p.post("covariance of band %d" % bb, z3.Implies(mon, z3.And(*[f("covariance")[0][bb][q * 6 + s] == C[q][s] for q in range(6) for s in range(6)])))
    for x in (X_, Y_, FC, SSV, MINR): p.post("%s stays" % x, p.out(x) == p.out(x, True))
    p.done()

def matrices(p, name, n=6):
    """a parameter that points to n 6x6 matrices"""
    P = [gslc.mat(p.e, "P%d" % j, 6, 6) for j in range(n)]; p.vals[name].reg.init[""] = {(j,): P[j] for j in range(n)}; return P
def keep_initial(p, Ps):
    for q in Ps: p.st.mem[(q.reg.id, "")] = p.old.mem[(q.reg.id, "")] = p.e.leaf(p.old, q.reg, "")
def exact(e, X, Y, n, nb=6):
    """observations as the state can hold them: 16-bit day numbers and reflectances"""
    e.facts.append(FA([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(X[k] >= LO, X[k] <= HI)), X[k]))
    for j in range(nb): e.facts.append(FA([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(Y[j][k] >= -32768, Y[j][k] <= 32767, Y[j][k] == real(z3.ToInt(Y[j][k])))), X[k], Y[j][k]))
def constants(e_, st, A):
    st.mem[(A[2].reg.id, (A[2].path + "." if A[2].path else "") + "H")] = z3.Store(e_.leaf(st, A[2].reg, "H"), zi(A[2].idx[0]), zr(A[1])); e_.note(A[2].reg, "H"); return 0
def fit_row(e_, st, P, j):
    A = e_.leaf(st, P.reg, P.path); st.mem[(P.reg.id, P.path)] = z3.Store(A, zi(j), e_.fresh("coefficients", A.sort().range())); e_.note(P.reg, P.path)

def snow(c, u, others):
    fn = "sccd_snow"
    p = Proof(c, [u] + others, fn, houdini=False, contracts=dict(gslc.GSL)); e = p.e; names = [x for x, _ in p.params]; ty = dict(p.params); e.allocfail = False; e.push = True; e.counting = True
    if len(names) != 7: raise Unsupported("parameters of " + fn)
    X_, Y_, N, MODE, MODEL, NQ, QUEUE = names
    n = p.int(N, 0, 32767); mode = z3.Int("mode"); p.scalar_out(MODE, INT).init[""] = mode; p.pre(z3.Or(mode == 0, mode == 3, mode == 4), z3.Implies(mode == 3, n >= 8))
    p.array(X_, INT, [(0, n)]); p.array(Y_, FLOAT, [(0, 6), (0, n)], nd=2); p.array(MODEL, ty[MODEL][1], [(0, 1)]); p.array(QUEUE, ty[QUEUE][1], [(0, 240)]); p.scalar_out(NQ, INT); p.snap()
    X, Y = p.out(X_, True), p.out(Y_, True); exact(e, X, Y, n); f = lambda nm, old=False: e.leaf(p.old if old else p.st, p.vals[MODEL].reg, nm)
    p.pre(z3.Implies(mode == 3, z3.And(f("num_obs", True)[0] >= 0, f("num_obs", True)[0] + n <= 32767)))
    def fit(e_, st, A):
        e_.oblige(st, "the fit is given a range of observations", z3.And(zi(A[4]) >= 0, zi(A[4]) <= zi(A[5]), zi(A[5]) < n), "pre"); fit_row(e_, st, A[7], A[3]); e_.store(st, A[8], e_.fresh("error", R)); return e_.fresh("status", I)
    def ssm(e_, st, A):
        e_.oblige(st, "the filter is begun on the observations", z3.And(zi(A[3]) >= 0, zi(A[3]) <= zi(A[4]), zi(A[4]) < n, zi(A[9]) == n), "pre"); havoc(e_, st, A[6], "covariance"); fit_row(e_, st, A[5], A[7]); e_.store(st, A[8], e_.fresh("squares", I)); return 0
    def step(e_, st, A):
        e_.oblige(st, "the filter advances at an observation that leaves the tail", z3.And(zi(A[5]) >= 0, zi(A[5]) < n - 8), "post"); havoc(e_, st, A[3], "covariance"); fit_row(e_, st, A[4], A[6]); e_.store(st, A[7], e_.fresh("residual", R)); return 0
    e.op_hook = hook; e.contracts.update({"auto_ts_fit_sccd": fit, "step1_ssm_initialize": ssm, "initialize_ssmconstants": constants, "KF_ts_filter_regular": step, "allocate_2d_array": alloc2d, "free_2d_array": free2d})
    qf = lambda st, x: e.leaf(st, p.vals[QUEUE].reg, x); ls = loops_by(u, fn)
    def queue(st, top):
        d, y = qf(st, "clrx_since1982"), qf(st, "clry")
        return [("queued dates", FA([k], z3.Implies(z3.And(0 <= k, k < top), d[k] + LAUNCH == X[k]), d[k]))] + [("band %d of queued observations" % j, FA([k], z3.Implies(z3.And(0 <= k, k < top), real(y[k][j]) == Y[j][k]), y[k])) for j in range(6)]
    for q, r in enumerate(ls):
        if QUEUE in r and X_ in r: e.inv[(fn, q)] = lambda L: [("counter", z3.And(L["k"] >= 0, L["k"] <= n))] + queue(L.st, L["k"])
    r = zi(p.run()); ok = r == 0; m1 = zi(p.cell(MODE)); few = z3.And(mode != 3, n < 18); mon = z3.And(ok, z3.Not(few))
    p.post("too few observations are queued", z3.Implies(few, z3.And(ok, m1 == 4, zi(p.cell(NQ)) == n)))
    for nm, q in queue(p.st, n): p.post("all observations: " + nm, z3.Implies(few, q))
    p.post("otherwise the pixel is monitored", z3.Implies(mon, z3.And(m1 == 3)))
    for x in FIELDS: p.post("queueing leaves the model (%s)" % x, z3.Implies(few, f(x)[0] == f(x, True)[0]))
    p.post("monitoring leaves the queue", z3.Implies(z3.Not(few), z3.And(zi(p.cell(NQ)) == zi(p.cell(NQ, old=True)), *[qf(p.st, x) == qf(p.old, x) for x in ("clrx_since1982", "clry")])))
    for j in range(8):
        p.post("date %d of the tail" % j, z3.Implies(mon, f("obs_date_since1982")[0][j] + LAUNCH == X[n - 8 + j]))
        for bb in range(6): p.post("band %d of observation %d of the tail" % (bb, j), z3.Implies(mon, real(f("obs")[0][bb][j]) == Y[bb][n - 8 + j]))
    p.post("the model's number of observations", z3.Implies(mon, f("num_obs")[0] == z3.If(mode == 3, f("num_obs", True)[0] + n - 8, n)))
    p.post("the model begins at the first observation and keeps its start", z3.Implies(mon, z3.If(mode == 3, f("t_start_since1982")[0] == f("t_start_since1982", True)[0], f("t_start_since1982")[0] + LAUNCH == X[0])))
    p.post("while monitoring the noise stays", z3.Implies(z3.And(mon, mode == 3), z3.And(*[f("H")[0][q] == f("H", True)[0][q] for q in range(6)])))
    for x in (X_, Y_): p.post("%s stays" % x, p.out(x) == p.out(x, True))
    p.done()

def kalman(c, u, others, pin):
    """one observation examined: change, noise or regular"""
    fn = "step2_KF_ChangeDetection"
    p = Proof(c, [u] + others, fn, fn + (", with pinpoints" if pin else ""), houdini=False, contracts=dict(gslc.GSL)); e = p.e; names = [x for x, _ in p.params]; ty = dict(p.params); e.allocfail = False; e.push = True; e.counting = True
    if len(names) != 23: raise Unsupported("parameters of " + fn)
    INS, X_, Y_, CUR, NC, CONSE, MINR, TCG, N, COV, FC, REC, SSV, NOP, TST, BP, RECP, NFP, GATE, CM, ANG, CMO, TMAX = names
    n = z3.Int("n"); p.scalar_out(N, INT).init[""] = n; conse = p.int(CONSE, 1, 8); cur = p.int(CUR, 0); p.pre(cur + conse <= n); p.set(BP, 1 if pin else 0)
    nc = z3.Int("segments"); p.scalar_out(NC, INT).init[""] = nc; p.pre(nc >= 0, nc <= CAP); nop = z3.Int("num_obs"); p.scalar_out(NOP, INT).init[""] = nop; ts = p.int(TST)
    npin = z3.Int("pinpoints"); p.scalar_out(NFP, INT).init[""] = npin; p.pre(npin >= 0, npin <= CAP); ncell = z3.Int("years"); p.pre(ncell >= 1)
    p.array(INS, ty[INS][1], [(0, 6)]); p.array(X_, INT, [(0, n)]); p.array(Y_, FLOAT, [(0, 6), (0, n)], nd=2); p.array(FC, FLOAT, [(0, 6), (0, 6)], nd=2); p.array(COV, ty[COV][1], [(0, 6)]); P = matrices(p, COV)
    p.array(REC, ty[REC][1], [(0, CAP)]); p.array(RECP, ty[RECP][1], [(0, CAP)]); p.array(SSV, ty[SSV][1], [(0, 6)]); p.array(MINR, SHORT, [(0, 6)]); p.scalar_out(CM, SHORT); p.scalar_out(ANG, SHORT); p.array(CMO, FLOAT, [(0, ncell)])
    for x in (TCG, GATE, TMAX): p.real(x)
    p.snap(); keep_initial(p, P); X, Y = p.out(X_, True), p.out(Y_, True); C0 = p.out(CMO, True)
    e.facts.append(FA([a, b], z3.Implies(z3.And(0 <= a, a < b, b < n), X[a] < X[b]), (X[a], X[b])))
    if pin:
        e.facts += [FA([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(X[k] >= 723546, 4 * (X[k] - 723546) < 1461 * ncell)), X[k]), FA([k], z3.Implies(z3.And(0 <= k, k < ncell, C0[k] != 0), npin >= 1), C0[k])]; exact(e, X, Y, n)
    def predict(e_, st, A):
        bb = A[6]; e_.oblige(st, "a prediction is at one of the observations examined", z3.And(zi(A[4]) == zi(A[5]), zi(A[4]) >= cur, zi(A[4]) < cur + conse, zi(A[7]) == cur, zb(A[2].reg is P[bb].reg)), "pre")
        e_.store(st, A[8], e_.fresh("predicted", R)); e_.store(st, A[9], e_.fresh("variance", R)); return 0
    def angle(e_, st, A): e_.oblige(st, "an angle of at least one difference of the five bands", z3.And(zi(A[1]) == 5, zi(A[2]) >= 1, zi(A[2]) <= conse), "pre"); return e_.fresh("angle", R)
    def sort_mag(e_, st, A):
        e_.oblige(st, "sorting: the range is not empty", z3.And(0 == zi(A[1]), zi(A[2]) == conse - 1), "pre"); fit_row(e_, st, A[0].at(path="", idx=(0,)), A[0].idx[0]); return None
    def median(e_, st, A): e_.oblige(st, "a median of all differences", zi(A[2]) == conse, "pre"); e_.store(st, A[3], e_.fresh("median", R)); return None
    def regular(e_, st, A):
        e_.oblige(st, "the filter advances at the observation examined", zi(A[5]) == cur, "post"); havoc(e_, st, A[3], "covariance"); fit_row(e_, st, A[4], A[6]); e_.store(st, A[7], e_.fresh("residual", R)); return 0
    def missing(e_, st, A): e_.oblige(st, "the filter advances at the observation examined", zi(A[3]) == cur, "post"); havoc(e_, st, A[2], "covariance"); return 0
    e.op_hook = hook
    e.contracts.update({"KF_ts_predict_conse": predict, "MeanAngl_float": angle, "quick_sort_float": sort_mag, "matlab_2d_float_median": median, "KF_ts_filter_regular": regular, "KF_ts_filter_falsechange": missing, "allocate_2d_array": alloc2d, "free_2d_array": free2d, "sqrtf": lambda e_, st, A: e_.fresh("root", R), "round": lambda e_, st, A: e_.fresh("rounded", R)})
    ls = loops_by(u, fn)
    for q, r in enumerate(ls):
        if {"m", X_, Y_} <= r and CUR in r and "v_dif_mag" not in r:
            def inv(L):
                q_, A, B = L["m"], L.arr(X_), L.arr(Y_)
                out = [("counter", z3.And(q_ >= cur, q_ <= n - 1)), ("dates moved so far", FA([k], A[k] == z3.If(z3.And(k >= cur, k < q_), X[k + 1], X[k]), A[k]))]
                return out + [("band %d moved so far" % j, FA([k], z3.Implies(z3.And(k >= 0, k < n), B[j][k] == z3.If(z3.And(k >= cur, k < q_), Y[j][k + 1], Y[j][k])), B[j][k])) for j in range(6)]
            e.inv[(fn, q)] = inv
    g = lambda st, nm: e.leaf(st, p.vals[RECP].reg, nm)
    def tail(st, w):
        """pinpoint w holds the observations from the one examined on, zero beyond the series"""
        d, y, t = g(st, "obs_date_since1982"), g(st, "obs"), g(st, "t_break"); A, B = p.out(X_, True), p.out(Y_, True)
        return z3.And(t[w] == A[cur], *[z3.If(cur + q < n, d[w][q] + LAUNCH == A[cur + q], d[w][q] == 0) for q in range(8)], *[z3.If(cur + q < n, real(y[w][j][q]) == B[j][cur + q], y[w][j][q] == 0) for j in range(6) for q in range(8)])
    for q, r in enumerate(ls):
        if {"conse_last", RECP} <= r and NFP not in r and "change_flag" not in r:
            def inv(L):
                w = L["current_pinpoint"]; out = [("counter", z3.And(L["conse_last"] >= 1, L["conse_last"] <= conse + 1, w >= 0))]
                out += [("no other pinpoint is written (%s)" % nm, FA([k], z3.Implies(k != w, g(L.st, nm)[k] == g(p.old, nm)[k]), g(L.st, nm)[k])) for nm in ("t_break", "obs", "obs_date_since1982", "coefs")]
                return out + [("the pinpoint's observations", z3.Implies(L["conse_last"] > 1, tail(L.st, w)))]
            if pin: e.inv[(fn, q)] = inv
    r = zi(p.run()); A, B = p.out(X_), p.out(Y_); f = lambda nm, old=False: e.leaf(p.old if old else p.st, p.vals[REC].reg, nm); nc1 = zi(p.cell(NC))
    chg, noise, reg = r == 1, r == 2, r == 0
    p.post("an observation is a change, noise or regular", z3.Or(chg, noise, reg))
    room = nc < CAP; new = z3.And(chg, room)
    p.post("a change closes a segment, as long as there is room", nc1 == z3.If(new, nc + 1, nc))
    for x in ("t_start", "t_break", "num_obs", "coefs", "rmse", "magnitude"):
        p.post("no other segment is touched (%s)" % x, FA([k], z3.Implies(z3.Or(z3.Not(new), k != nc), f(x)[k] == f(x, True)[k]), f(x)[k]))
    co = p.out(FC, True)
    p.post("the closed segment: its start, its break at the observation examined, its number of observations", z3.Implies(new, z3.And(f("t_start")[nc] == ts, f("t_break")[nc] == X[cur], f("num_obs")[nc] == nop)))
    p.post("the closed segment: the coefficients in force", z3.Implies(new, z3.And(*[f("coefs")[nc][i][j] == co[i][j] for i in range(6) for j in range(6)])))
    p.post("a regular observation is counted, no other", zi(p.cell(NOP)) == z3.If(reg, nop + 1, nop))
    p.post("only noise is removed: dates", FA([k], z3.Implies(z3.And(k >= 0, k < z3.If(noise, n - 1, n)), A[k] == z3.If(z3.And(noise, k >= cur), X[k + 1], X[k])), A[k]))
    for j in range(6): p.post("only noise is removed: band %d" % j, FA([k], z3.Implies(z3.And(k >= 0, k < z3.If(noise, n - 1, n)), B[j][k] == z3.If(z3.And(noise, k >= cur), Y[j][k + 1], Y[j][k])), B[j][k]))
    p.post("coefficients change at regular observations only", z3.Implies(z3.Not(reg), z3.And(*[p.out(FC)[i][j] == co[i][j] for i in range(6) for j in range(6)])))
    p.post("residual sums change at regular observations only", z3.Implies(z3.Not(reg), z3.And(*[p.out(SSV)[i] == p.out(SSV, True)[i] for i in range(6)])))
    for j in range(6): p.post("at a change the covariance stays (band %d)" % j, z3.Implies(chg, e.leaf(p.st, P[j].reg, "") == e.leaf(p.old, P[j].reg, "")))
    p.post("the length is the caller's", zi(p.cell(N)) == n)
    if pin:
        np1, CO = zi(p.cell(NFP)), p.out(CMO)
        p.post("at most one pinpoint more, as long as there is room", z3.And(np1 >= npin, np1 <= npin + 1, np1 <= CAP)); p.post("a year with a magnitude has a pinpoint", FA([k], z3.Implies(z3.And(0 <= k, k < ncell, CO[k] != 0), np1 >= 1), CO[k]))
        for nm in ("t_break", "obs", "obs_date_since1982", "coefs"): p.post("only the last pinpoint is written (%s)" % nm, FA([k], z3.Implies(z3.And(k >= 0, k < npin - 1), g(p.st, nm)[k] == g(p.old, nm)[k]), g(p.st, nm)[k]))
        p.post("a new pinpoint holds the observations examined", z3.Implies(np1 == npin + 1, tail(p.st, npin)))
    else: p.post("no pinpoint", zi(p.cell(NFP)) == npin)
    for x in (MINR, INS): p.post("%s stays" % x, (p.out(x) == p.out(x, True)) if x != INS else e.leaf(p.st, p.vals[x].reg, "H") == e.leaf(p.old, p.vals[x].reg, "H"))
    p.done()

def shifted(X, Y, A, B, frm, upto, by):
    """observations frm..upto-1 of the series A, B are those `by` later in the series X, Y"""
    return [("later observations stay: dates", FA([k], z3.Implies(z3.And(frm <= k, k < upto), A[k] == X[k + by]), A[k]))] + [("later observations stay: band %d" % j, FA([k], z3.Implies(z3.And(frm <= k, k < upto), B[j][k] == Y[j][k + by]), B[j][k])) for j in range(6)]
GIVEN = z3.Function("a_given_observation", I, R, R, R, R, R, R, z3.BoolSort())
def given(X, Y, q): return GIVEN(X[q], *[Y[j][q] for j in range(6)])
def series(A, B, top):
    return [("dates ascend", FA([a, b], z3.Implies(z3.And(0 <= a, a < b, b < top), A[a] < A[b]), (A[a], A[b]))), ("every observation is one of those given, with all its bands", FA([k], z3.Implies(z3.And(0 <= k, k < top), given(A, B, k)), A[k]))]
RECF = ("t_start", "t_break", "num_obs", "coefs", "rmse", "magnitude")

def initial(c, u, others):
    """the start of a model: which observations are removed, where the segment begins, the segment before it"""
    fn = "step1_cold_initialize"
    p = Proof(c, [u] + others, fn, houdini=False); e = p.e; names = [x for x, _ in p.params]; ty = dict(p.params); e.allocfail = False; e.push = True; e.counting = True
    if len(names) != 14: raise Unsupported("parameters of " + fn)
    CONSE, MINR, N, TCG, DENSE, NC, X_, Y_, CUR, ST, REC, SPAN, PREV, RM = names
    def var(x, nm, lo=0): v = z3.Int(nm); p.scalar_out(x, INT).init[""] = v; p.pre(v >= lo); return v
    n, dn, nf, cur, st, pb = var(N, "n"), var(DENSE, "dense"), var(NC, "segments"), var(CUR, "cur"), var(ST, "start"), var(PREV, "prev")
    conse = p.int(CONSE, 1, 8); p.real(TCG); span = p.int(SPAN, 18, 18)
    p.array(MINR, SHORT, [(0, 6)]); p.array(X_, INT, [(0, n)]); p.array(Y_, FLOAT, [(0, 6), (0, n)], nd=2); p.array(REC, ty[REC][1], [(0, CAP)]); p.array(RM, FLOAT, [(0, 6)])
    p.pre(z3.Implies(nf == 0, dn <= st), pb <= st, st + 17 <= cur, cur + conse <= n - 1); p.snap(); X, Y = p.out(X_, True), p.out(Y_, True)
    for nm, q in series(X, Y, n): e.facts.append(q)
    def V(L, x): return zi(L.cell(x))
    def mask(e_, s, A):
        lo, hi = zi(A[2]), zi(A[3])
        e_.oblige(s, "outliers are screened among the observations of the segment and those after it", z3.And(lo == st, hi >= cur, hi < n, hi - lo >= 5), "pre"); havoc(e_, s, A[8], "mask"); return e_.fresh("status", I)
    def fit(e_, s, A):
        L = ce.View(e_, s, e_.frames[-1]); lo, hi, df = zi(A[4]), zi(A[5]), zi(A[6])
        e_.oblige(s, "the fit is given more observations than coefficients, all of the series", z3.And(lo >= 0, hi < V(L, N), zi(A[2]) == zi(A[3]), zi(A[2]) >= 0, zi(A[2]) < 6, df == 4, hi - lo + 1 > df), "pre")
        fit_row(e_, s, A[7], A[3]); e_.store(s, A[8], e_.fresh("error", R)); fit_row(e_, s, A[9], A[3]); return e_.fresh("status", I)
    def predict(e_, s, A):
        L = ce.View(e_, s, e_.frames[-1]); e_.oblige(s, "a prediction is at an observation of the series", z3.And(zi(A[4]) == zi(A[5]), zi(A[4]) >= 0, zi(A[4]) < V(L, N)), "pre"); e_.store(s, A[6], e_.fresh("predicted", R)); return 0
    def angle(e_, s, A): e_.oblige(s, "an angle of at least one difference of the five bands", z3.And(zi(A[1]) == 5, zi(A[2]) >= 1, zi(A[2]) <= conse), "pre"); return e_.fresh("angle", R)
    def sort_mag(e_, s, A): e_.oblige(s, "sorting: the range is not empty", z3.And(0 == zi(A[1]), zi(A[2]) >= 0, zi(A[2]) < conse), "pre"); fit_row(e_, s, A[0].at(path="", idx=(0,)), A[0].idx[0]); return None
    def median(e_, s, A): e_.oblige(s, "a median of at least one difference", z3.And(zi(A[2]) >= 1, zi(A[2]) <= conse), "pre"); e_.store(s, A[3], e_.fresh("median", R)); return None
    e.op_hook = hook
    e.contracts.update({"auto_mask": mask, "auto_ts_fit_sccd": fit, "auto_ts_predict_float": predict, "MeanAngl_float": angle, "quick_sort_float": sort_mag, "matlab_2d_float_median": median, "allocate_2d_array": alloc2d, "free_2d_array": free2d})
    ls = loops_by(u, fn); find = lambda f: [q for q, r in enumerate(ls) if f(r)]
    AB = lambda L: (L.arr(X_), L.arr(Y_))
    for q in find(lambda r: "ids" in r and ST in r and "bl_ids" not in r and Y_ not in r and "rm_ids" not in r):
        e.inv[(fn, q)] = lambda L: [("counter", z3.And(L["k"] >= st, L["k"] <= cur + 1)), ("positions so far", FA([k], z3.Implies(z3.And(0 <= k, k < L["k"] - st), L.arr("ids")[k] == st + k), L.arr("ids")[k]))]
    for q in find(lambda r: {"bl_ids", "rm_ids", "i_span"} <= r):
        def inv(L):
            q_, m, A, sp = L["k"], L["m"], L.arr("rm_ids"), L["i_span"]
            return [("counter", z3.And(q_ >= 0, q_ <= cur - st + 1, m >= 0, sp >= 0, m + sp == q_)), ("removed positions ascend", FA([a, b], z3.Implies(z3.And(0 <= a, a < b, b < m), A[a] < A[b]), (A[a], A[b]))),
                    ("removed positions are of the segment", FA([k], z3.Implies(z3.And(0 <= k, k < m), z3.And(A[k] >= st, A[k] < q_ + st)), A[k]))]
        e.inv[(fn, q)] = inv
    for q in find(lambda r: {"k_new", "rm_ids", "cpx"} <= r):
        def inv(L):
            i, w, m, A, ml = L["k"], L["k_new"], L["m"], L.arr("rm_ids"), L["rm_ids_len"]; C, D = L.arr("cpx"), L.arr("cpy")
            return [("counter", z3.And(i >= 0, i <= n, m >= 0, m <= ml, m <= i, w == i - m, z3.Implies(m < ml, A[m] >= i), z3.Implies(m > 0, A[m - 1] < i), z3.Implies(m + 1 < ml, A[m] < A[m + 1]))),
                    ("what is kept comes before what is to come, and not before what was at its place", FA([k], z3.Implies(z3.And(0 <= k, k < w), z3.And(C[k] >= X[k], z3.Implies(i < n, C[k] < X[i]))), C[k])), ("nothing before the segment is removed", z3.Implies(i <= st, m == 0)), ("all is removed by the end of the segment", z3.Implies(i > cur, m == ml))] + series(C, D, w) + \
                   [(nm, z3.Implies(i > cur, q)) for nm, q in shifted(X, Y, C, D, cur + 1 - ml, w, ml)]
        e.inv[(fn, q)] = inv
    for q in find(lambda r: {"cpx", X_, "cpy"} <= r and "rm_ids" not in r):
        def inv(L):
            (A, B), C, D = AB(L), L.arr("cpx"), L.arr("cpy")
            return [("counter", z3.And(L["k"] >= 0, L["k"] <= V(L, N))), ("copied so far: dates", FA([k], z3.Implies(z3.And(0 <= k, k < L["k"]), A[k] == C[k]), A[k]))] + [("copied so far: band %d" % j, FA([k], z3.Implies(z3.And(0 <= k, k < L["k"]), B[j][k] == D[j][k]), B[j][k])) for j in range(6)]
        e.inv[(fn, q)] = inv
    def state(L):
        (A, B), n1, c1, s1, p1 = AB(L), V(L, N), V(L, CUR), V(L, ST), V(L, PREV)
        return [("as many observations follow the one examined as before", z3.And(n1 - c1 == n - cur, n1 <= n)), ("positions", z3.And(s1 >= 0, s1 + 17 <= c1, p1 >= 0, p1 <= s1, V(L, DENSE) == dn, V(L, NC) == nf)), ("an observation is not before the one that was at its place", FA([k], z3.Implies(z3.And(0 <= k, k < n1), A[k] >= X[k]), A[k]))] + series(A, B, n1) + shifted(X, Y, A, B, c1 + 1, n1, n - n1)
    for q in find(lambda r: {"i_ini", X_, "vec_magg"} <= r and PREV in r and ST in r and "v_dif_magg" not in r):
        e.inv[(fn, q)] = lambda L: state(L) + [("position", z3.And(L["i_ini"] == V(L, ST) - 1, V(L, PREV) == V(L.x["entry"], PREV), V(L, ST) <= V(L.x["entry"], ST)))]
    for q in find(lambda r: {X_, Y_, "k", "i_ini"} <= r and "vec_magg" not in r):
        def inv(L):
            (A, B), (A0, B0), at, q_ = AB(L), AB(L.x["entry"]), L["i_ini"], L["k"]
            mv = lambda W, W0: FA([k], W[k] == z3.If(z3.And(k >= at, k < q_), W0[k + 1], W0[k]), W[k])
            mb = lambda W, W0: FA([k], z3.Implies(z3.And(0 <= k, k < n), W[k] == z3.If(z3.And(k >= at, k < q_), W0[k + 1], W0[k])), W[k])
            return [("counter", z3.And(q_ >= at, q_ <= V(L, N) - 1)), ("moved so far: dates", mv(A, A0))] + [("moved so far: band %d" % j, mb(B[j], B0[j])) for j in range(6)]
        e.inv[(fn, q)] = inv
    r = zi(p.run()); L = ce.View(e, p.st, p.fr); A, B = p.out(X_), p.out(Y_); n1, c1, s1, p1, nf1 = [V(L, x) for x in (N, CUR, ST, PREV, NC)]; f = lambda nm, old=False: e.leaf(p.old if old else p.st, p.vals[REC].reg, nm)
    done = r == 0; go = r == 2; ok = z3.Or(done, go)
    p.post("as many observations follow the one examined as before", z3.Implies(ok, z3.And(n1 - c1 == n - cur, n1 <= n)))
    for nm, q in series(A, B, n1) + shifted(X, Y, A, B, c1 + 1, n1, n - n1): p.post(nm, z3.Implies(ok, q))
    p.post("the model starts at or after the last break, with eighteen observations", z3.Implies(done, z3.And(p1 >= 0, p1 <= s1, s1 + 17 <= c1, V(L, DENSE) == dn, z3.If(nf == 0, s1 >= dn, p1 == pb))))
    p.post("an observation is not before the one that was at its place", z3.Implies(ok, FA([k], z3.Implies(z3.And(0 <= k, k < n1), A[k] >= X[k]), A[k])))
    p.post("without a model the start moves on by one observation at most", z3.Implies(go, z3.And(z3.Or(s1 == st, s1 == st + 1), s1 <= c1, p1 == pb, nf1 == nf, z3.Implies(V(L, DENSE) > dn, z3.And(s1 == st + 1, V(L, DENSE) == dn + 1)), V(L, DENSE) >= dn)))
    new = nf1 == nf + 1
    p.post("at most the segment before the first model is closed", z3.Implies(ok, z3.Or(nf1 == nf, z3.And(new, nf == 0, done))))
    for x in RECF: p.post("no other segment is touched (%s)" % x, z3.Implies(ok, FA([k], z3.Implies(z3.Or(z3.Not(new), k != nf), f(x)[k] == f(x, True)[k]), f(x)[k])))
    p.post("the segment before the first model: its start, its break where the model starts, its number of observations", z3.Implies(z3.And(done, new), z3.And(f("t_start")[nf] == A[0], f("t_break")[nf] == A[s1], f("num_obs")[nf] == s1 - dn, p1 == s1, s1 - dn >= 6)))
    p.post("%s stays" % MINR, p.out(MINR) == p.out(MINR, True))
    p.done()

def standard(c, u, others):
    """a run over a series: the state handed on"""
    fn = "sccd_standard"
    p = Proof(c, [u] + others, fn, houdini=False, contracts=dict(gslc.GSL)); e = p.e; names = [x for x, _ in p.params]; ty = dict(p.params); e.allocfail = False; e.push = True; e.counting = True
    if len(names) != 17: raise Unsupported("parameters of " + fn)
    X_, Y_, N, TCG, REC, NC, MODE, MODEL, NQ, QUEUE, MINR, CONSE, BP, RECP, NFP, GATE, PRED = names
    n = p.int(N, 1, 32767); conse = p.int(CONSE, 1, 8); pin = p.int(BP, 0, 1)
    def var(x, nm, lo=0): v = z3.Int(nm); p.scalar_out(x, INT).init[""] = v; p.pre(v >= lo); return v
    nf, mode, npin = var(NC, "segments"), var(MODE, "mode"), var(NFP, "pinpoints"); p.scalar_out(NQ, INT); p.pre(z3.Or(*[mode == q for q in (0, 1, 11, 2, 12, 5)]))
    for x in (TCG, GATE, PRED): p.real(x)
    p.array(MINR, SHORT, [(0, 6)]); p.array(X_, INT, [(0, n)]); p.array(Y_, FLOAT, [(0, 6), (0, n)], nd=2); p.array(REC, ty[REC][1], [(0, CAP)]); p.array(RECP, ty[RECP][1], [z3.If(pin != 0, CAP, 1)]); p.pre(nf <= CAP, npin <= CAP); p.array(MODEL, ty[MODEL][1], [(0, 1)]); p.array(QUEUE, ty[QUEUE][1], [(0, 240)])
    p.snap(); X, Y = p.out(X_, True), p.out(Y_, True); f = lambda st, nm: e.leaf(st, p.vals[MODEL].reg, nm); rf = lambda st, nm: e.leaf(st, p.vals[REC].reg, nm); qf = lambda st, nm: e.leaf(st, p.vals[QUEUE].reg, nm)
    for nm, q in series(X, Y, n): e.facts.append(q)
    exact(e, X, Y, n); USED = z3.Function("date_of_a_given_observation", I, z3.BoolSort()); e.facts.append(FA([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(USED(X[k]), X[k] >= 723546)), X[k]))
    dt = z3.Int("date"); yy = z3.Reals("y0 y1 y2 y3 y4 y5"); e.facts.append(FA([dt] + yy, z3.Implies(GIVEN(dt, *yy), z3.And(USED(dt), dt >= 723546, dt <= X[n - 1])), GIVEN(dt, *yy)))
    mon0 = mode % 10 == 1; nop0 = f(p.old, "num_obs")[0]; ts0 = f(p.old, "t_start_since1982")[0] + LAUNCH; p.pre(z3.Implies(mon0, z3.And(nop0 >= 1, nop0 + n <= 32767, n >= conse, ts0 < X[0], ts0 >= LO)), z3.Implies(mode == 5, n >= conse))
    # ghost: changes seen in this run; whether the segment at hand has a model
    G = ce.Region("changes_seen", INT, 1, (1,)); T = ce.Region("has_a_model", INT, 1, (1,))
    for r_, v in ((G, z3.IntVal(0)), (T, z3.If(mon0, 1, 0))):
        e.reg_of[r_.id] = r_; p.st.mem[(r_.id, "")] = z3.K(I, v)
    gv = lambda st, r_: e.leaf(st, r_, "")[0]
    def gset(e_, st, r_, v): st.mem[(r_.id, "")] = z3.K(I, v); e_.note(r_, "")
    def V(e_, st): return ce.View(e_, st, e_.frames[-1])
    def new(e_, st, P, what, lo=None): v = e_.fresh(what, I); e_.store(st, P, v); return v
    def val(e_, st, P): return zi(e_.cellv(st, P, ()))
    def receives(e_, st, A, idx, what):
        for q, nm in idx:
            v = p.vals[nm]; ok = (A[q].reg is v.reg and A[q].idx in ((0,), ())) if isinstance(v, ce.Ptr) else (zr(A[q]) == zr(v)) if ce.isreal(v) else zi(A[q]) == zi(v)
            e_.oblige(st, "%s is given %s" % (what, nm), ok, "post")
    def init_model(e_, st, A):
        cn, mr, N1, tcg, D1, NC1, Xp, Yp, C1, S1, rc, span, P1, rm = A; receives(e_, st, A, [(0, CONSE), (1, MINR), (3, TCG), (5, NC), (6, X_), (7, Y_), (10, REC)], "the start of a model")
        n1, d1, nf1, c1, s1, p1 = [val(e_, st, q) for q in (N1, D1, NC1, C1, S1, P1)]
        e_.oblige(st, "call of step1_cold_initialize: positions", z3.And(zi(span) == 18, d1 >= 0, nf1 >= 0, p1 >= 0, z3.Implies(nf1 == 0, d1 <= s1), p1 <= s1, s1 + 17 <= c1, c1 + conse <= n1 - 1), "pre")
        A0, B0 = e_.arrv(st, Xp), e_.arrv(st, Yp); havoc(e_, st, Xp, "dates"); havoc(e_, st, Yp, "bands"); A1, B1 = e_.arrv(st, Xp), e_.arrv(st, Yp); old = {x: rf(st, x) for x in RECF}
        for x in RECF: e_.store_leaf = None; st.mem[(p.vals[REC].reg.id, x)] = e_.fresh("rec_" + x, old[x].sort()); e_.note(p.vals[REC].reg, x)
        havoc(e_, st, rm, "errors"); n2, d2, nf2, c2, s2, p2 = [new(e_, st, q, w) for q, w in ((N1, "n"), (D1, "dense"), (NC1, "segments"), (C1, "cur"), (S1, "start"), (P1, "prev"))]
        r = e_.fresh("status", I); done, go = r == 0, r == 2; nw = nf2 == nf1 + 1
        e_.fact(st, z3.And(z3.Or(done, go), n2 - c2 == n1 - c1, n2 <= n1))
        for nm, q in series(A1, B1, n2) + shifted(A0, B0, A1, B1, c2 + 1, n2, n1 - n2): e_.fact(st, q)
        e_.fact(st, z3.Implies(done, z3.And(p2 >= 0, p2 <= s2, s2 + 17 <= c2, d2 == d1, z3.If(nf1 == 0, s2 >= d1, p2 == p1)))); e_.fact(st, FA([k], z3.Implies(z3.And(0 <= k, k < n2), A1[k] >= A0[k]), A1[k]))
        e_.fact(st, z3.Implies(go, z3.And(z3.Or(s2 == s1, s2 == s1 + 1), s2 <= c2, p2 == p1, nf2 == nf1, z3.Implies(d2 > d1, z3.And(s2 == s1 + 1, d2 == d1 + 1)), d2 >= d1)))
        e_.fact(st, z3.Or(nf2 == nf1, z3.And(nw, nf1 == 0, done)))
        for x in RECF: e_.fact(st, FA([k], z3.Implies(z3.Or(z3.Not(nw), k != nf1), rf(st, x)[k] == old[x][k]), rf(st, x)[k]))
        e_.fact(st, z3.Implies(z3.And(done, nw), z3.And(rf(st, "t_start")[nf1] == A1[0], rf(st, "t_break")[nf1] == A1[s2], p2 == s2, s2 >= 6)))
        gset(e_, st, T, z3.If(done, 1, gv(st, T))); return r
    def examine(e_, st, A):
        ins, Xp, Yp, cu, NC1, cn, mr, tcg, N1, cov, FC, rc, ssv, NOP, ts, bp, rp, NFP1, gate, CM, ANG, CMO, tmax = A; receives(e_, st, A, [(1, X_), (2, Y_), (4, NC), (5, CONSE), (6, MINR), (7, TCG), (11, REC), (15, BP), (16, RECP), (17, NFP), (18, GATE)], "an observation examined")
        n1, nf1, nop, np, cu, ts = val(e_, st, N1), val(e_, st, NC1), val(e_, st, NOP), val(e_, st, NFP1), zi(cu), zi(ts); A0, B0 = e_.arrv(st, Xp), e_.arrv(st, Yp); C0 = e_.arrv(st, CMO)
        e_.oblige(st, "call of step2_KF_ChangeDetection: positions", z3.And(cu >= 0, cu + conse <= n1, nf1 >= 0, nf1 <= CAP, np >= 0, np <= CAP), "pre"); ncell = zi(CMO.reg.lens[0][1] if isinstance(CMO.reg.lens[0], tuple) else CMO.reg.lens[0])
        q = e_.fresh("at", I); e_.oblige(st, "call of step2_KF_ChangeDetection: a year for every date", z3.Implies(z3.And(0 <= q, q < n1), z3.And(A0[q] >= 723546, 4 * (A0[q] - 723546) < 1461 * ncell)), "pre")
        e_.oblige(st, "call of step2_KF_ChangeDetection: a year with a magnitude has a pinpoint", FA([k], z3.Implies(z3.And(0 <= k, k < ncell, C0[k] != 0), np >= 1), C0[k]), "pre")
        r = e_.fresh("status", I); chg, noise, reg = r == 1, r == 2, r == 0; shut = z3.And(chg, nf1 < CAP); e_.fact(st, z3.Or(chg, noise, reg))
        havoc(e_, st, Xp, "dates"); havoc(e_, st, Yp, "bands"); A1, B1 = e_.arrv(st, Xp), e_.arrv(st, Yp)
        mv = lambda W, W0: FA([k], z3.Implies(z3.And(k >= 0, k < z3.If(noise, n1 - 1, n1)), W[k] == z3.If(z3.And(noise, k >= cu), W0[k + 1], W0[k])), W[k])
        e_.fact(st, mv(A1, A0))
        for j in range(6): e_.fact(st, mv(B1[j], B0[j]))
        old = {x: rf(st, x) for x in RECF}
        for x in RECF: st.mem[(p.vals[REC].reg.id, x)] = e_.fresh("rec_" + x, old[x].sort()); e_.note(p.vals[REC].reg, x); e_.fact(st, FA([k], z3.Implies(z3.Or(z3.Not(shut), k != nf1), rf(st, x)[k] == old[x][k]), rf(st, x)[k]))
        e_.store(st, NC1, z3.If(shut, nf1 + 1, nf1)); e_.fact(st, z3.Implies(shut, z3.And(rf(st, "t_start")[nf1] == ts, rf(st, "t_break")[nf1] == A0[cu], rf(st, "num_obs")[nf1] == nop))); e_.store(st, NOP, z3.If(reg, nop + 1, nop))
        havoc(e_, st, FC, "coefficients"); havoc(e_, st, ssv, "squares"); np2 = new(e_, st, NFP1, "pinpoints"); C1 = havoc(e_, st, CMO, "magnitudes"); e_.fact(st, z3.And(np2 >= np, np2 <= np + 1, np2 <= CAP, FA([k], z3.Implies(z3.And(0 <= k, k < ncell, C1[k] != 0), np2 >= 1), C1[k])))
        for P in (CM, ANG): e_.store(st, P, e_.fresh("scaled", I))
        gset(e_, st, G, z3.If(chg, gv(st, G) + 1, gv(st, G))); gset(e_, st, T, z3.If(chg, 0, gv(st, T))); return r
    def fit(e_, st, A):
        L = V(e_, st); lo, hi = zi(A[4]), zi(A[5]); e_.oblige(st, "the fit is given more observations than coefficients, all of the series", z3.And(lo >= 0, hi < L["n_clr"], zi(A[2]) == zi(A[3]), zi(A[6]) == 6, hi - lo + 1 > 6), "pre")
        fit_row(e_, st, A[7], A[3]); e_.store(st, A[8], e_.fresh("error", R)); return e_.fresh("status", I)
    def ssm(e_, st, A):
        L = V(e_, st); e_.oblige(st, "the filter is begun on the observations of the model", z3.And(zi(A[3]) >= 0, zi(A[3]) <= zi(A[4]), zi(A[4]) < L["n_clr"], zi(A[9]) == L["n_clr"]), "pre"); havoc(e_, st, A[6], "covariance"); e_.store(st, A[8], e_.fresh("squares", I)); return 0
    got = []
    def finish(e_, st, A):
        ins, cov, FC, Xp, Yp, cu, N1, M1, s1, p1, mod, nq, que, ssv, nop, ts, cn, mr, gate, chg, pred = A; receives(e_, st, A, [(3, X_), (4, Y_), (7, MODE), (10, MODEL), (11, NQ), (12, QUEUE), (16, CONSE), (17, MINR), (18, GATE), (20, PRED)], "the end of the run")
        n1, m, cu, s1, p1, nop, ts = val(e_, st, N1), val(e_, st, M1), zi(cu), zi(s1), zi(p1), zi(nop), zi(ts); mon = z3.Or(m == 1, m == 11)
        e_.oblige(st, "call of step3_processing_end: positions", z3.And(n1 >= 1, z3.Or(*[m == q for q in (1, 11, 2, 12, 5)]), cu >= 0, s1 >= 0, s1 <= n1, p1 >= 0, p1 <= n1, z3.Implies(mon, z3.And(cu + conse == n1, nop > 0, nop <= 32767, ts >= LO, ts <= HI))), "pre")
        e_.oblige(st, "the model handed on counts the observations of its segment", z3.Implies(mon, nop == z3.If(z3.And(mon0, gv(st, G) == 0), nop0 + cu, cu - s1)), "post")
        A1, B1 = e_.arrv(st, Xp), e_.arrv(st, Yp); got.append(st.copy()); g_ = {"n1": n1, "p1": p1, "nop": nop, "ts": ts, "A": A1, "B": B1, "m": m, "S": e_.arrv(st, ssv), "FC": e_.arrv(st, FC)}; got.append(g_)
        m2 = new(e_, st, M1, "mode"); e_.fact(st, z3.If(mon, z3.Or(m2 == m, z3.And(m == 11, m2 == 1)), m2 == m)); g_["m2"] = m2
        start = z3.If(n1 - p1 > 240, n1 - 240, p1); num = n1 - start; g_["start"] = start
        old = {x: f(st, x) for x in FIELDS}; qold = {x: qf(st, x) for x in ("clrx_since1982", "clry")}; nq0 = val(e_, st, nq); nq1 = new(e_, st, nq, "queued"); e_.fact(st, nq1 == z3.If(mon, nq0, num))
        for x in qold: st.mem[(p.vals[QUEUE].reg.id, x)] = e_.fresh("queue_" + x, qold[x].sort()); e_.note(p.vals[QUEUE].reg, x); e_.fact(st, z3.Implies(mon, qf(st, x) == qold[x]))
        d, y = qf(st, "clrx_since1982"), qf(st, "clry"); e_.fact(st, z3.Implies(z3.Not(mon), FA([k], z3.Implies(z3.And(0 <= k, k < num), d[k] + LAUNCH == A1[start + k]), d[k])))
        for j in range(6): e_.fact(st, z3.Implies(z3.Not(mon), FA([k], z3.Implies(z3.And(0 <= k, k < num), real(y[k][j]) == B1[j][start + k]), y[k])))
        for x in FIELDS: st.mem[(p.vals[MODEL].reg.id, x)] = e_.fresh("model_" + x, old[x].sort()); e_.note(p.vals[MODEL].reg, x); e_.fact(st, z3.Implies(z3.Not(mon), f(st, x)[0] == old[x][0]))
        md, my = f(st, "obs_date_since1982")[0], f(st, "obs")[0]
        for j in range(8):
            e_.fact(st, z3.Implies(mon, z3.If(j < conse, md[j] + LAUNCH == A1[n1 - conse + j], md[j] == 0)))
            for bb in range(6): e_.fact(st, z3.Implies(mon, z3.If(j < conse, real(my[bb][j]) == B1[bb][n1 - conse + j], my[bb][j] == 0)))
        e_.fact(st, z3.Implies(mon, z3.And(f(st, "t_start_since1982")[0] + LAUNCH == ts, f(st, "num_obs")[0] == nop)))
        return 0
    e.op_hook = lambda e_, st, op, x, y, t: hook(e_, st, op, x, y, t)
    e.contracts.update({"step1_cold_initialize": init_model, "step2_KF_ChangeDetection": examine, "step3_processing_end": finish, "auto_ts_fit_sccd": fit, "step1_ssm_initialize": ssm, "initialize_ssmconstants": constants, "allocate_2d_array": alloc2d, "free_2d_array": free2d})
    ls = loops_by(u, fn); find = lambda g_: [q for q, r in enumerate(ls) if g_(r)]
    q = find(lambda r: "bl_train" in r)
    if len(q) != 1: raise Unsupported("one main loop expected")
    def segments(L, A, st, nf1, ts, tr):
        S, B = rf(L.st, "t_start"), rf(L.st, "t_break")
        return [("closed segments of earlier runs stay (%s)" % x, FA([k], z3.Implies(k < nf, rf(L.st, x)[k] == rf(p.old, x)[k]), rf(L.st, x)[k])) for x in RECF] + \
               [("a closed segment starts before its break, which is the date of an observation", FA([k], z3.Implies(z3.And(nf <= k, k < nf1), z3.And(S[k] < B[k], USED(B[k]))), S[k])), ("segments follow one another", FA([k], z3.Implies(z3.And(nf <= k, k + 1 < nf1), B[k] <= S[k + 1]), S[k + 1]))]
    def main(L):
        A, B = L.arr(X_), L.arr(Y_); i, n1, s1, p1, d1, tr, nop, ts, chg = [L[x] for x in ("i", "n_clr", "i_start", "prev_i_break", "i_dense", "bl_train", "num_obs_processed", "t_start", "change_detected")]; nf1, np1 = zi(L.cell(NC)), zi(L.cell(NFP)); C = L.arr("CM_outputs"); lb = rf(L.st, "t_break")
        return [("position", z3.And(i >= 0, n1 >= 1, n1 <= n, z3.Or(z3.And(i == 0, n1 == n), i + conse <= n1), p1 >= 0, p1 <= s1, s1 <= i, d1 >= 0, z3.Implies(nf1 == 0, d1 <= s1), nf1 >= nf, nf1 <= CAP, np1 >= npin, np1 <= CAP, tr == gv(L.st, T), z3.Or(tr == 0, tr == 1))),
                ("the number of observations of the model", z3.Implies(tr == 1, z3.And(nop >= 1, nop <= z3.If(mon0, nop0, 0) + i, ts <= HI, ts >= LO, z3.Or(z3.And(ts == ts0, mon0, s1 == 0, gv(L.st, G) == 0), z3.And(ts == A[s1], s1 < i))))), ("every observation of the model is counted once", z3.Implies(tr == 1, nop == z3.If(z3.And(mon0, gv(L.st, G) == 0), nop0 + i, i - s1))),
                ("after a change the model is that of the closed segment", z3.Implies(z3.And(gv(L.st, G) > 0, nf1 < CAP), z3.And(nf1 > nf, f(L.st, "obs_date_since1982")[0][0] + LAUNCH == lb[nf1 - 1], f(L.st, "num_obs")[0] == rf(L.st, "num_obs")[nf1 - 1], f(L.st, "t_start_since1982")[0] + LAUNCH == rf(L.st, "t_start")[nf1 - 1]))),
                ("a monitored pixel begins with its model", z3.Implies(z3.And(mon0, gv(L.st, G) == 0), z3.And(tr == 1, nf1 == nf, s1 == 0, ts == ts0, i + conse <= n1))),
                ("a change is marked exactly when one is seen in an update", z3.And((chg != 0) == z3.And(gv(L.st, G) > 0, mode != 0), z3.Or(chg == 0, chg == 1), gv(L.st, G) >= 0)), ("the mode stays until the end", zi(L.cell(MODE)) == mode),
                ("without a change in this run the model's tail stays", z3.Implies(z3.Or(gv(L.st, G) == 0), f(L.st, "obs_date_since1982")[0] == f(p.old, "obs_date_since1982")[0])),
                ("a year with a magnitude has a pinpoint", FA([k], z3.Implies(z3.And(0 <= k, k < L["n_cm"], C[k] != 0), np1 >= 1), C[k])), ("the segment at hand starts at or after the last break", z3.Implies(nf1 > nf, z3.And(lb[nf1 - 1] <= A[p1], p1 < n1, s1 < n1)))] + series(A, B, n1) + \
                [("dates are of given observations", FA([k], z3.Implies(z3.And(0 <= k, k < n1), z3.And(USED(A[k]), A[k] >= 723546, A[k] <= X[n - 1])), A[k]))] + shifted(X, Y, A, B, i, n1, n - n1) + segments(L, A, s1, nf1, ts, tr)
    e.inv[(fn, q[0])] = main
    for q in find(lambda r: "CM_outputs" in r and "bl_train" not in r): e.inv[(fn, q)] = lambda L: [("counter", z3.And(L["k"] >= 0, z3.Or(L["k"] == 0, L["k"] <= L["n_cm"]))), ("zero so far", FA([k], z3.Implies(z3.And(0 <= k, k < L["k"]), L.arr("CM_outputs")[k] == 0), L.arr("CM_outputs")[k]))]
    r = zi(p.run())
    if not got: raise Unsupported("the end of the run is not reached")
    g = got[-1]; st = p.st; ok = r == 0; m1 = zi(p.cell(MODE)); G1, T1 = gv(st, G), gv(st, T); A, B, n1, p1 = g["A"], g["B"], g["n1"], g["p1"]; md0 = f(p.old, "obs_date_since1982")[0][0]; mon = z3.Or(m1 == 1, m1 == 11)
    soon = X[n - conse] - md0 - LAUNCH < 15
    want = z3.If(mode == 0, z3.If(T1 == 1, 1, 12), z3.If(G1 > 0, z3.If(mode >= 10, 12, 5), z3.If(mode % 10 == 2, z3.If(T1 == 1, 1, mode), z3.If(mode == 5, z3.If(soon, 5, 12), mode))))
    p.post("it succeeds", z3.Or(ok, r == 1)); p.post("the mode follows the rule", z3.Implies(ok, z3.Or(m1 == want, z3.And(want == 11, m1 == 1))))
    for j in range(8):
        d = f(st, "obs_date_since1982")[0][j]; p.post("monitoring: date %d of the tail is that of the newest observations" % j, z3.Implies(z3.And(ok, mon), z3.If(j < conse, d + LAUNCH == X[n - conse + j], d == 0)))
        for bb in range(6):
            y = f(st, "obs")[0][bb][j]; p.post("monitoring: band %d of observation %d of the tail" % (bb, j), z3.Implies(z3.And(ok, mon), z3.If(j < conse, real(y) == Y[bb][n - conse + j], y == 0)))
    num = zi(p.cell(NQ)); qd, qy = qf(st, "clrx_since1982"), qf(st, "clry"); que = z3.And(ok, z3.Not(mon))
    p.post("queueing: at most 240 observations, at least the newest ones", z3.Implies(que, z3.And(num >= 0, num <= 240, num == n1 - g["start"])))
    p.post("queueing: the dates end with the newest observation", z3.Implies(z3.And(que, num >= 1, n1 > 0), qd[num - 1] + LAUNCH == X[n - 1]))
    p.post("queueing: every queued date is that of a given observation", z3.Implies(que, FA([k], z3.Implies(z3.And(0 <= k, k < num), USED(qd[k] + LAUNCH)), qd[k])))
    p.post("queueing: queued dates ascend", z3.Implies(que, FA([a, b], z3.Implies(z3.And(0 <= a, a < b, b < num), qd[a] < qd[b]), (qd[a], qd[b]))))
    p.post("queueing: a queued observation has all its bands", z3.Implies(que, FA([k], z3.Implies(z3.And(0 <= k, k < num), GIVEN(qd[k] + LAUNCH, *[real(qy[k][j]) for j in range(6)])), qd[k])))
    L = ce.View(e, st, p.fr); nf1 = zi(p.cell(NC))
    for nm, q in segments(L, A, None, nf1, None, None): p.post(nm, z3.Implies(ok, q))
    p.post("no more segments and pinpoints than there is room for", z3.And(nf1 <= CAP, nf1 >= nf, zi(p.cell(NFP)) <= CAP))
    p.post("monitoring: the model's number of observations", z3.Implies(z3.And(ok, mon), z3.And(f(st, "num_obs")[0] >= 1, f(st, "num_obs")[0] <= z3.If(mon0, nop0, 0) + n)))
    p.post("a change leaves the model of the closed segment, as long as there is room", z3.Implies(z3.And(ok, m1 == 5, G1 > 0, nf1 < CAP), z3.And(nf1 > nf, f(st, "obs_date_since1982")[0][0] + LAUNCH == rf(st, "t_break")[nf1 - 1], f(st, "num_obs")[0] == rf(st, "num_obs")[nf1 - 1], f(st, "t_start_since1982")[0] + LAUNCH == rf(st, "t_start")[nf1 - 1])))
    p.post("monitoring without a change keeps the start of the model", z3.Implies(z3.And(ok, mon0, G1 == 0), f(st, "t_start_since1982")[0] == f(p.old, "t_start_since1982")[0]))
    for x in (MINR,): p.post("%s stays" % x, p.out(x) == p.out(x, True))
    p.done()

def returned(c):
    """what the Python layer returns of the state, by mode"""
    from vc import pysym as ps, pyx
    from vc.pysym import Explorer, _z
    from props import binding as bd
    b = bd.Bind(c)
    for name in ("sccd_detect", "sccd_update"):
        rel, cfn, pars = bd.ENTRY[name]; n = z3.Int("n")
        pre = [n >= 1] + [z3.Int("len_" + k) == n for k in bd.SERIES] + [z3.Not(z3.Bool("nan_" + k)) for k in bd.KINDS if bd.KINDS[k] == "real"]
        pre += [z3.Int("p_pos") >= 1, z3.Int("p_conse") >= 1, z3.Int("p_conse") <= 8] + [z3.Real("p_" + k) > 0 for k in ("t_cg", "gate_tcg", "predictability_tcg")]
        pre += [z3.Int("pk_nrec") >= 0, z3.Int("pk_nrec") <= CAP, z3.Int("pk_nqueue") >= 0, z3.Int("pk_nqueue") <= 240, z3.Int("pk_nmodel") == 1, z3.Int("pk_mode") >= 0, z3.Int("pk_mode") <= 15]
        ex = Explorer(name, pre, branch_timeout=2000)
        def body(p, name=name, pars=pars):
            ar = b.arrays(); pv = b.params(pars); pack = b.pack(); b.calls.clear(); ret = None
            pos = [ar[k] for k in bd.SERIES]
            try: ret = b.m.fn(name)(*([pack] + pos if name == "sccd_update" else pos), **pv)
            except (RuntimeError, ValueError) as er: pass
            except Exception as er:
                if type(er) is not Exception: raise
            if not b.calls: return
            _, got = b.calls[-1]; arr = lambda k: got[k].arr; sl = lambda x, k, num: isinstance(x, tuple) and x[0] == "slice" and x[1] is arr(k)
            empty = lambda x: isinstance(x, bd.CArr) and x.src is not None and x.src[0] == "array"
            p.oblige("the arrays handed on hold as many segments, pinpoints and queued observations as the algorithm may write", z3.And(_z(arr("rec_cg").n) >= CAP, z3.Implies(z3.Bool("p_b_pinpoint"), _z(arr("rec_cg_pinpoint").n) >= CAP) if name == "sccd_detect" else z3.BoolVal(got["b_pinpoint"] is False), _z(arr("nrt_queue").n) >= 240, _z(arr("nrt_model").n) >= 1), kind="post")
            if name == "sccd_update":
                md = z3.Int("pk_mode")
                for k, cnt in (("rec_cg", "pk_nrec"), ("nrt_queue", "pk_nqueue")):
                    w = [(q, v) for q, v in arr(k).log]
                    def same(q, v): return isinstance(q, slice) and isinstance(v, tuple) and v[0] == "slice" and v[1] is getattr(pack, k)
                    good = len(w) == 1 and same(*w[0])
                    cond = z3.And(_z(w[0][0].start or 0) == 0, _z(w[0][0].stop) == z3.Int(cnt), _z(w[0][1][2]) == 0, _z(w[0][1][3]) == z3.Int(cnt)) if good else z3.BoolVal(False)
                    p.oblige("the stored %s are continued, each in its place" % k, z3.Implies(z3.Int(cnt) > 0, cond), kind="post")
                m_ = arr("nrt_model"); p.oblige("the stored model is continued in the modes that have one", z3.Implies(z3.Or(md % 10 == 1, md == 3, md % 10 == 5), z3.BoolVal(m_.src is not None and m_.src[0] == "copy" and m_.src[1] is pack.nrt_model)), kind="post")
            m1 = _z(b.outs["nrt_mode"]); nq = _z(b.outs["num_nrt_queue"]); nf = _z(b.outs["num_fc"]); known = z3.Or(m1 == 0, m1 % 10 == 1, m1 % 10 == 2, m1 == 3, m1 == 4, m1 % 10 == 5)
            if ret is None:
                p.oblige("a state of a known mode is returned whenever the algorithm succeeds", z3.Or(_z(b.result) != 0, z3.Not(known)), kind="post"); return
            out = ret
            if isinstance(ret, list):
                out = ret[0]; q = ret[1].rec_cg_pinpoint; np_ = _z(b.outs["num_fc_pinpoint"])
                p.oblige("pinpoint records: all those recorded", z3.If(np_ > 0, z3.And(_z(q[2]) == 0, _z(q[3]) == np_) if sl(q, "rec_cg_pinpoint", np_) else z3.BoolVal(False), z3.BoolVal(empty(q))), kind="post")
                p.oblige("pinpoint records: the position", _z(ret[1].position) == z3.Int("p_pos"), kind="post")
            q = out.rec_cg
            p.oblige("segments: all those closed", z3.Implies(m1 != 0, z3.If(nf > 0, z3.And(_z(q[2]) == 0, _z(q[3]) == nf) if sl(q, "rec_cg", nf) else z3.BoolVal(False), z3.BoolVal(empty(q)))), kind="post")
            ml, qu = out.nrt_model, out.nrt_queue
            hasm = z3.Or(m1 % 10 == 1, m1 == 3, m1 % 10 == 5); hasq = z3.Or(m1 % 10 == 2, m1 == 4, m1 % 10 == 5)
            p.oblige("the model comes back in the modes that have one, and only in those", z3.If(hasm, z3.BoolVal(ml is arr("nrt_model")), z3.BoolVal(empty(ml))), kind="post")
            p.oblige("the queue comes back in the modes that have one, and only in those", z3.If(hasq, z3.And(_z(qu[2]) == 0, _z(qu[3]) == nq) if sl(qu, "nrt_queue", nq) else z3.BoolVal(False), z3.BoolVal(empty(qu))), kind="post")
            p.oblige("the mode and the noise are the algorithm's", z3.And(_z(out.nrt_mode) == m1, z3.BoolVal(out.min_rmse is arr("min_rmse"))), kind="post")
        c.explore(ex, body, "%s: the returned state (colds.py + _colds_cython.pyx)" % name)

ASSUME = ["integers as mathematical integers, floats as reals, products and quotients of floats as any values", "memory allocation succeeds; GSL by its documented contracts (vc/gslc.py)", "dates from 1982-01-01 to 89 years after the Landsat 4 launch and reflectances that fit 16 bits, as the state stores them; at most 32767 observations",
    "auto_mask marks any observations of its range; predictions, fits, angles and medians as any values (their contracts: P14, P15, P16, P22)", "consecutive counts 1 to 8, the same in every run of a state; a monitored state has a start before its tail, at least one observation and a tail of the consecutive count",
    "snow mode: thermal values are not part of the state"]
def run(c):
    m = {}
    c.guard("clang", lambda: m.update(s=ce.unit(c.repo, "s_ccd.c"), ut=ce.unit(c.repo, "utilities.c"), misc=ce.unit(c.repo, "misc.c")))
    o = [m["ut"], m["misc"]]
    c.guard("NUM_FC", lambda: capacity(c))
    c.guard("step1_cold_initialize", lambda: initial(c, m["s"], o))
    for q in (False, True): c.guard("step2_KF_ChangeDetection", lambda: kalman(c, m["s"], o, q))
    c.guard("step3_processing_end", lambda: end(c, m["s"], o))
    c.guard("sccd_standard", lambda: standard(c, m["s"], o))
    c.guard("sccd_snow", lambda: snow(c, m["s"], o))
    c.guard("sccd", lambda: sccd(c, m["s"]))
    c.guard("_sccd_detect, _sccd_update", lambda: returned(c))
    c.flush()
    c.assumptions += ASSUME
    c.oracle("o_state.py")
