"""P16 on the real code: conversions, model constants, Kalman steps and filters against the
written recursions (double precision)."""
from common import *
import ctypes.util
from math import cos, sin, pi
L = clib(); G = L
for n in ("gsl_vector_alloc", "gsl_matrix_calloc"): getattr(G, n).restype = ctypes.c_void_p
VG, VS, MG, MS = G.gsl_vector_get, G.gsl_vector_set, G.gsl_matrix_get, G.gsl_matrix_set
SZ, VP_, D = ctypes.c_size_t, ctypes.c_void_p, ctypes.c_double
VG.restype = MG.restype = D
VG.argtypes = [VP_, SZ]; VS.argtypes = [VP_, SZ, D]; MG.argtypes = [VP_, SZ, SZ]; MS.argtypes = [VP_, SZ, SZ, D]
G.gsl_vector_alloc.argtypes = [SZ]; G.gsl_matrix_calloc.argtypes = [SZ, SZ]
def vec(a):
    v = G.gsl_vector_alloc(len(a))
    for i, x in enumerate(a): VS(v, i, float(x))
    return v
def mat(a):
    n, m = a.shape; v = G.gsl_matrix_calloc(n, m)
    for i in range(n):
        for j in range(m): MS(v, i, j, float(a[i, j]))
    return v
def uv(v, n): return np.array([VG(v, i) for i in range(n)])
def um(v, n): return np.array([[MG(v, i, j) for j in range(n)] for i in range(n)])
class Inst(ctypes.Structure):
    _fields_ = [("Z", VP_), ("H", ctypes.c_float), ("T", VP_), ("Q", VP_), ("m", ctypes.c_int), ("structure", ctypes.c_int)]
rng = np.random.default_rng(SEED)
W = 2 * pi / 365.25
n = 0
def f2v(c, d, m, s):
    v = [c[0] + c[1] * d / 10000, c[1] / 10000]
    for on, h in ((s % 10 == 1, 1), (s // 10 == 1, 2)):
        if len(v) < m and on:
            C, S = cos(h * W * d), sin(h * W * d); p, q = c[2 * h], c[2 * h + 1]
            v += [p * C + q * S, -p * S + q * C]
    return np.array(v, dtype=float)
def v2f(v, d, m, s):
    c = [v[0] - v[1] * d, v[1] * 10000, 0, 0, 0, 0]; j = 2
    for on, h in ((s % 10 == 1, 1), (s // 10 == 1, 2)):
        if j < m and on:
            C, S = cos(h * W * d), sin(h * W * d)
            c[2 * h], c[2 * h + 1] = C * v[j] - S * v[j + 1], C * v[j + 1] + S * v[j]; j += 2
    return np.array(c, dtype=float)
T = np.zeros((6, 6)); T[0, 0] = T[0, 1] = T[1, 1] = 1
for h in (1, 2):
    i = 2 * h; T[i, i] = T[i + 1, i + 1] = cos(h * W); T[i, i + 1] = sin(h * W); T[i + 1, i] = -sin(h * W)
Z = np.array([1, 0, 1, 0, 1, 0.0])
def close(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.all(np.isfinite(a)) and np.all(np.abs(a - b) <= tol * (1 + np.max(np.abs(b))))
def run(f, what, inp):
    global n
    n += 1
    r = forked(f, 60)
    if isinstance(r, dict) and ("crash" in r or "hang" in r or "error" in r):
        if "error" in r: raise RuntimeError(r["error"])
        violation(what + " does not return", inp, got=r); return None
    return r
SH = [(2, 11), (4, 1), (4, 10), (6, 11)]
DATES = [1, 2, 365, 366, 1000, 723546, 735000, 738000] + [int(x) for x in rng.integers(1, 750000, 30)]
def conv():
    out = []
    for m, s in SH:
        for d in DATES:
            c = (rng.normal(size=6) * [3000, 2000, 900, 900, 400, 400]).astype(np.float32); v0 = vec([np.nan] * m); c0 = c.copy()
            L.fit_cft2vec_a(P(c), VP_(v0), d, m, s); g = uv(v0, m); w = f2v(c0.astype(float), d, m, s)
            if not close(g, w, 1e-9): out.append(("the state of a fit", dict(m=m, structure=s, date=d, coefs=c0), w, g))
            if not np.array_equal(c, c0): out.append(("fit_cft2vec_a keeps the fit", dict(m=m, structure=s, date=d, coefs=c0), c0, c))
            b = np.full(6, 77, np.float32); a = rng.normal(size=m) * 500; va = vec(a)
            L.vec_a2fit_cft(VP_(va), P(b), d, m, s); w = v2f(a, d, m, s)
            for j in range(6):
                if abs(float(b[j]) - w[j]) > 1e-5 * (1 + abs(w[j])): out.append(("the fit of a state", dict(m=m, structure=s, date=d, state=a), w, b.copy())); break
            if not np.array_equal(uv(va, m), a): out.append(("vec_a2fit_cft keeps the state", dict(m=m, structure=s, date=d, state=a), a, uv(va, m)))
            b = np.full(6, 77, np.float32); L.vec_a2fit_cft(VP_(v0), P(b), d, m, s)
            use = [0, 1] + ([2, 3] if s % 10 == 1 and m > 2 else []) + ([4, 5] if s // 10 == 1 and m > 2 else [])
            scale = max(1, abs(c0[1]) * d / 10000)
            w = [c0[j] if j in use else 0 for j in range(6)]
            for j in range(6):
                if abs(float(b[j]) - float(w[j])) > 1e-4 * (1 + abs(w[j]) + (1e-3 * scale if j == 0 else 0)): out.append(("fit -> state -> fit", dict(m=m, structure=s, date=d, coefs=c0), w, b.copy())); break
    return out
def spd():
    a = rng.normal(size=(6, 6)); a = a @ a.T * 10.0 ** rng.integers(-2, 4); return (a + a.T) / 2
def inst(H, Tm=None, Q=None):
    x = Inst(); x.Z, x.T, x.Q = vec(Z), mat(T if Tm is None else Tm), mat(np.zeros((6, 6)) if Q is None else Q); x.H = H; x.m = 6; x.structure = 11; return x
def consts():
    out = []
    for H in (1.0, 250.0, 1e4, 3.5):
        x = Inst(); x.Z, x.T, x.Q = vec([np.nan] * 6), mat(np.zeros((6, 6))), mat(np.zeros((6, 6)))
        r = L.initialize_ssmconstants(6, ctypes.c_float(H), ctypes.byref(x))
        if r != 0: out.append(("status", dict(H=H), 0, r))
        if not close(uv(x.Z, 6), Z, 1e-12): out.append(("observation vector", dict(H=H), Z, uv(x.Z, 6)))
        if not close(um(x.T, 6), T, 1e-9): out.append(("transition of one day", dict(H=H), T, um(x.T, 6)))
        q = um(x.Q, 6)
        if np.any(q - np.diag(np.diag(q)) != 0) or np.any(np.diag(q) < 0): out.append(("disturbance covariance is diagonal", dict(H=H), None, q))
        if abs(x.H - np.float32(H)) > 1e-6 * H or x.m != 6 or x.structure != 11: out.append(("noise, states and structure", dict(H=H), (H, 6, 11), (x.H, x.m, x.structure)))
    return out
def step(a, Pm, y, H, Tm, Q):
    K = Pm @ Z; F = Z @ K + H; v = y - Z @ a
    if F > 1e-14: a = a + K * v / F; Pm = Pm - np.outer(K, K) / F
    else: F = 0
    return Tm @ a, Tm @ Pm @ Tm.T + Q, v, F
def steps():
    out = []
    for rep in range(30):
        Pm = spd() if rep % 5 else np.zeros((6, 6)); Q = np.diag(rng.random(6)) * (rep % 3); Tm = T if rep % 2 else rng.normal(size=(6, 6))
        H = 0.0 if rep in (0, 10) else float(np.float32(10.0 ** rng.integers(-1, 4))); a = rng.normal(size=6) * 1000; y = float(np.float32(rng.normal() * 2000))
        inp = dict(P=Pm, H=H, a=a, y=y, T="transition" if rep % 2 else Tm, Q=np.diag(Q))
        p_, k_, f_ = mat(Pm), vec([0.0] * 6), D(-5)
        L.filter1step_missingobs(VP_(vec(Z)), D(H), VP_(mat(Tm)), VP_(mat(Q)), ctypes.byref(f_), VP_(p_), VP_(k_), 6)
        w = Tm @ Pm @ Tm.T + Q
        if not close(um(p_, 6), w, 1e-9): out.append(("covariance after a missing day", inp, w, um(p_, 6)))
        p_, a_, v_, f_, h_ = mat(Pm), vec(a), D(-5), D(-5), ctypes.c_float(H)
        L.filter1step_validobs(ctypes.c_float(y), VP_(vec(Z)), ctypes.byref(h_), VP_(mat(Tm)), VP_(mat(Q)), VP_(a_), VP_(p_), ctypes.byref(v_), ctypes.byref(f_), VP_(k_), 6, VP_(vec([0.0] * 6)))
        a2, P2, v, F = step(a, Pm, y, H, Tm, Q)
        if abs(v_.value - v) > 1e-8 * (1 + abs(v)): out.append(("innovation", inp, v, v_.value))
        if abs(f_.value - F) > 1e-8 * (1 + abs(F)): out.append(("innovation variance", inp, F, f_.value))
        if not close(uv(a_, 6), a2, 1e-8): out.append(("state after an observation", inp, a2, uv(a_, 6)))
        if not close(um(p_, 6), P2, 1e-8): out.append(("covariance after an observation", inp, P2, um(p_, 6)))
    return out
def filters():
    out = []
    for rep in range(24):
        d0 = int(rng.integers(600000, 740000)); gaps = [1, 8, 16, 0, 40, 3, 120]; xs = np.cumsum([d0] + gaps).astype(np.int32); ys = (rng.normal(size=8) * 1500).astype(np.float32)
        i = rep % 7; b = rep % 3; st = (rep // 2) % 2; H = float(np.float32(50 + 100 * rng.random())); Q = np.diag(rng.random(6) * 0.01) * (rep % 2)
        fit = (rng.normal(size=(3, 6)) * [2000, 50, 300, 300, 100, 100]).astype(np.float32); f0 = fit.copy(); Pm = spd(); x = inst(H, None, Q); p_ = mat(Pm); v_ = D(-5)
        inp = dict(dates=xs[i:i + 2], y=ys[i], band=b, fit=f0[b], H=H, steady=st, P=Pm)
        r = L.KF_ts_filter_regular(ctypes.byref(x), P(xs), P(ys), VP_(p_), rows(fit), i, b, ctypes.byref(v_), ctypes.c_bool(bool(st)))
        if r != 0: out.append(("status of the filter", inp, 0, r))
        g = int(xs[i + 1] - xs[i]); a = f2v(f0[b].astype(float), int(xs[i]), 6, 11)
        wf = f0.astype(float); wP = Pm
        if g:
            a2, wP, v, F = step(a, Pm, float(ys[i]), H, T, Q); wf[b] = v2f(a2, int(xs[i]) + 1, 6, 11)
            if abs(v_.value - v) > 1e-7 * (1 + abs(v)): out.append(("residual of the filter", inp, v, v_.value))
            if not st:
                for _ in range(g - 1): wP = T @ wP @ T.T + Q
        if not all(abs(float(fit[k, j]) - wf[k, j]) <= 1e-5 * (1 + abs(wf[k, j])) + (1e-6 * abs(wf[k, 1]) * 75 if j == 0 else 0) for k in range(3) for j in range(6)): out.append(("fits after the filter", inp, wf, fit.copy()))
        if not close(um(p_, 6), wP, 1e-7): out.append(("covariance after the filter", inp, wP, um(p_, 6)))
        p_ = mat(Pm); L.KF_ts_filter_falsechange(ctypes.byref(x), P(xs), VP_(p_), i); wP = Pm
        for _ in range(g): wP = T @ wP @ T.T + Q
        if not close(um(p_, 6), wP, 1e-7): out.append(("covariance over a skipped observation", inp, wP, um(p_, 6)))
        py, pf = np.full(9, 77, np.float32), np.full(9, 77, np.float32)
        for e in (i, 7):
            L.KF_ts_predict_conse(ctypes.byref(x), P(xs), VP_(p_), rows(f0), i, e, b, i, P(py), P(pf), ctypes.c_bool(False))
            for k in range(i, e + 1):
                d = int(xs[k]); c = f0[b].astype(float)
                w = c[0] + c[1] * d / 10000 + c[2] * cos(W * d) + c[3] * sin(W * d) + c[4] * cos(2 * W * d) + c[5] * sin(2 * W * d)
                if abs(float(py[k - i]) - w) > 1e-4 * (1 + abs(w) + abs(c[1]) * 75): out.append(("prediction", dict(inp, date=d), w, float(py[k - i]))); break
    return out
for f, w in ((conv, "conversion"), (consts, "initialize_ssmconstants"), (steps, "Kalman step"), (filters, "Kalman filter")):
    for rep in range(10 if THOROUGH else 2):
        r = run(f, w, {"seed": SEED, "round": rep})
        for x in (r or [])[:2]: violation("%s: %s" % (w, x[0]), x[1], x[2], x[3])
        if r: break
        rng = np.random.default_rng(SEED + 1000 * (rep + 1))
stats(evaluations=n * 60, distinct_nontrivial=n * 60, rule="random fits, states, covariances, gaps; each compared with the written recursion", samples=[])
