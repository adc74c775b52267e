"""P15: every predictor evaluates the same harmonic model.
Under contract: auto_ts_predict_float, auto_ts_predict (misc.c), KF_ts_predict_conse (s_ccd.c),
coefficient_matrix and predict_ref (utils.py), for every series, day, band and range."""
import z3
from vc import ceng as ce, gslc, pysym as ps
from vc.ceng import Proof, Unsupported, FA, zi, zr, PI
from vc.pysym import SNum, PArr, Explorer, Module, _z, real
from fractions import Fraction

I, R = z3.IntSort(), z3.RealSort()
INT, FLOAT, DOUBLE = ("int", 32, True), ("flt", 4), ("flt", 8)
k, a, b = z3.Ints("k a b")
W = 2 * PI / Fraction("365.25")

def model(co, day, df, scale=10000, w=None):
    """the harmonic model with the first df coefficients; day is an integer term"""
    d = z3.ToReal(day); w = zr(W) if w is None else w
    cyc = lambda n: (ce.trig("cos", n * w * d), ce.trig("sin", n * w * d))
    if df == 5: return co(0) + sum(co(1 + 2 * n) * cyc(n + 1)[0] + co(2 + 2 * n) * cyc(n + 1)[1] for n in range(2))
    v = co(0) + co(1) * d / scale
    for n in range((df - 2) // 2): v = v + co(2 + 2 * n) * cyc(n + 1)[0] + co(3 + 2 * n) * cyc(n + 1)[1]
    return v

def batch(c, u, fn, ty, df, scale):
    """pred_y[i] is the model at clrx[start + i]; nothing else changes"""
    p = Proof(c, [u], fn, "%s, %s coefficients" % (fn, df if df else "other numbers of"), houdini=False)
    names = [n for n, _ in p.params]; p.e.split = True
    if len(names) != 7: raise Unsupported("parameters of " + fn)
    X, CO, DF, LB, ST, EN, Y = names
    st, en, lb = p.int(ST, 0), p.int(EN), p.int(LB, 0, 6)
    n = en - st + 1
    p.array(X, INT, [(st, en + 1)]); p.array(CO, ty, [(0, lb + 1), (0, 8)], nd=2); p.array(Y, ty, [(0, n)])
    if df: p.set(DF, df)
    else: d = p.int(DF); p.pre(*[d != q for q in (2, 4, 5, 6, 8)])
    cells = lambda A: [z3.Select(z3.Select(A, lb), z3.IntVal(j)) for j in range(8)]
    def inv(L):
        i = L["i"]; y = L.arr(Y); f = L.x["fn"]; co = cells(p.e.leaf(L.st, p.vals[CO].reg, "")); x = L.arr(X)
        y0 = p.e.leaf(p.old, p.vals[Y].reg, "")
        if not df: return [("no value is written", FA([k], y[k] == y0[k], y[k])), ("no iteration completes", i == 0)]
        return [("i counts up", z3.And(i >= 0, z3.Or(i <= n, i == 0))), ("values before i are predicted", FA([k], z3.Implies(z3.And(0 <= k, k < i), y[k] == model(lambda j: co[j], x[st + k], df, scale)), y[k])),
                ("other cells stay", FA([k], z3.Implies(z3.Or(k < 0, k >= i), y[k] == y0[k]), y[k]))]
    p.e.inv[(fn, 0)] = inv
    r = zi(p.run())
    y, y0 = p.out(Y), p.out(Y, True); co = cells(p.out(CO, True)); x = p.out(X, True)
    if df:
        p.post("success is reported", r == 0)
        p.post("each prediction is the harmonic model at its date", FA([k], z3.Implies(z3.And(0 <= k, k < n), y[k] == model(lambda j: co[j], x[st + k], df, scale)), y[k]))
        p.post("cells outside the predicted range stay", FA([k], z3.Implies(z3.Or(k < 0, k >= n), y[k] == y0[k]), y[k]))
    else: p.post("an unsupported number of coefficients is reported", z3.Implies(n > 0, r != 0))
    p.post("coefficients and dates are only read", z3.And(p.out(CO) == p.out(CO, True), p.out(X) == p.out(X, True)))
    p.done()

def b_missing(e, st, args):
    """filter1step_missingobs changes the covariance and its scratch only (proved in P16)"""
    P = args[5]; e.note(P.reg, ""); st.mem[(P.reg.id, "")] = e.fresh("cov", e.leaf(st, P.reg, "").sort()); return None

def kf(c, u, f_out):
    con = dict(gslc.GSL); con["filter1step_missingobs"] = b_missing
    p = Proof(c, [u], "KF_ts_predict_conse", "KF_ts_predict_conse%s" % (", with variances" if f_out else ""), contracts=con, houdini=False)
    names = [n for n, _ in p.params]; p.e.split = True
    if len(names) != 11: raise Unsupported("parameters of KF_ts_predict_conse")
    INST, X, PI_, FC, PS, PE, IB, CI, Y, YF, BF = names
    s, t, ib = p.int(PS, 0), p.int(PE), p.int(IB, 0, 5); n = t - s + 1
    p.array(X, INT, [(s, t + 1)]); p.array(FC, FLOAT, [(0, ib + 1), (0, 6)], nd=2); p.array(Y, FLOAT, [(0, n)]); p.array(YF, FLOAT, [(0, n)])
    r = p.scalar_out(INST, u.type({"type": {"qualType": "ssmodel_constants"}}))
    r.init.update({"Z": gslc.vec(p.e, "Z", 6), "T": gslc.mat(p.e, "T", 6, 6), "Q": gslc.mat(p.e, "Q", 6, 6), "m": 6, "structure": 11, "H": p.real("H")})
    p.vals[PI_] = gslc.mat(p.e, "P", 6, 6)
    p.set(BF, 1 if f_out else 0)
    def inv(L):
        i = L["i"]; y = L.arr(Y); x = L.arr(X); A = p.e.leaf(L.st, p.vals[FC].reg, ""); co = [A[ib][j] for j in range(6)]
        y0 = p.e.leaf(p.old, p.vals[Y].reg, "")
        yf = L.arr(YF); f0 = p.e.leaf(p.old, p.vals[YF].reg, "")
        return [("i counts up", z3.And(i >= s, z3.Or(i <= t + 1, i == s))), ("values before i are predicted", FA([k], z3.Implies(z3.And(0 <= k, k < i - s), y[k] == model(lambda j: co[j], x[s + k], 6)), y[k])),
                ("other cells stay", FA([k], z3.Implies(z3.Or(k < 0, k >= i - s), z3.And(y[k] == y0[k], yf[k] == f0[k])), y[k]))]
    p.e.inv[("KF_ts_predict_conse", 0)] = inv
    r = zi(p.run())
    y, y0 = p.out(Y), p.out(Y, True); A = p.out(FC, True); co = [A[ib][j] for j in range(6)]; x = p.out(X, True)
    p.post("success is reported", r == 0)
    p.post("each prediction is the harmonic model at its date", FA([k], z3.Implies(z3.And(0 <= k, k < n), y[k] == model(lambda j: co[j], x[s + k], 6)), y[k]))
    p.post("cells outside the predicted range stay", FA([k], z3.Implies(z3.Or(k < 0, k >= n), y[k] == y0[k]), y[k]))
    p.post("coefficients and dates are only read", z3.And(p.out(FC) == p.out(FC, True), p.out(X) == p.out(X, True)))
    p.done()

def run(c):
    m = {}
    def load():
        for f in ("misc.c", "s_ccd.c"): m[f] = ce.unit(c.repo, f)
    c.guard("clang", load)
    for df in (2, 4, 5, 6, 8, 0):
        c.guard("auto_ts_predict_float", lambda: batch(c, m["misc.c"], "auto_ts_predict_float", FLOAT, df, 10000))
        c.guard("auto_ts_predict", lambda: batch(c, m["misc.c"], "auto_ts_predict", DOUBLE, df, 1))
    for f_out in (False, True): c.guard("KF_ts_predict_conse", lambda: kf(c, m["s_ccd.c"], f_out))
    # Python helpers
    def py():
        np = ps.NP(); PIS = SNum(z3.Real("PI")); np.pi = PIS
        import types
        M = Module(c.repo, "pycold/utils.py", facades={"numpy": np}); c.track("utils.py", M.hash_of("coefficient_matrix", "predict_ref"))
        day = z3.Int("day"); w = 2 * PIS.t / z3.RealVal("365.25")
        co = z3.Function("model", I, R)
        for nc in (4, 6, 8, None):
            def body(path, nc=nc):
                f = M.fn("predict_ref"); g = M.fn("coefficient_matrix")
                n = 6 if nc is None else nc
                v = f(PArr((n,), lambda j: SNum(co(_z(j)))), SNum(day), *([] if nc is None else [nc]))
                path.oblige("the prediction is the harmonic model of %d coefficients" % n, real(_z(v)) == model(lambda j: co(j), day, n, w=w))
                q = g(SNum(day), n)
                path.oblige("the coefficient matrix has one entry per coefficient", z3.BoolVal(ps.conc(q.shape[0]) == n))
                e = lambda j: 1 if False else z3.RealVal(0)
                for j in range(n):
                    path.oblige("entry %d of the coefficient matrix" % j, real(_z(q[j])) == model(lambda t, j=j: z3.RealVal(1 if t == j else 0), day, n, w=w))
            c.explore(Explorer("predict_ref(%s)" % ("default" if nc is None else nc), []), body, "predict_ref, %s coefficients (utils.py)" % (nc or "default"))
    c.guard("utils.py", py)
    c.flush()
    c.assumptions += ["floats as reals, ints mathematical; cos and sin uninterpreted", "the double-precision predictor of the unused double fit takes a slope per day (its fit stores it unscaled)",
                      "band index 0..6, coefficient rows of 8 (6 for S-CCD)"]
    c.oracle("o_predict.py")
