"""P14 on the real code: update_cft, the three fits and c_glmnet through ctypes, and the records of
the detectors on series with three strong cycles."""
from common import *
import math
rng = np.random.default_rng(SEED); W = 2 * math.pi / 365.25
lib = clib(); PK = ext_package(c_objects(), "fit_pkg")
def limit(n, most=8): return min(4 if n < 18 else 6 if n < 24 else 8, most)
def term(j, d):
    """regressor of coefficient j"""
    return d if j == 1 else (np.cos if j % 2 == 0 else np.sin)((j // 2) * W * d)
def complexity():
    out = []; n = 0; dflt = (3, 4, 6, 8)
    for nt, lo, mid, hi in (dflt, (2, 4, 6, 8), (3, 2, 4, 6)):
        for mx in (2, 4, 6, 8):
            last = 0
            for k in list(range(0, 60)) + [100, 1000, 100000]:
                v = ctypes.c_int(-1); lib.update_cft(k, nt, lo, mid, hi, mx, ctypes.byref(v)); n += 1
                want = min(lo if k < mid * nt else mid if k < hi * nt else hi, mx)
                if v.value != want: out.append(("number of coefficients", dict(observations=k, n_times=nt, coefficients=[lo, mid, hi], maximum=mx), want, v.value))
                if v.value < last: out.append(("number of coefficients never decreases", dict(observations=k, maximum=mx), ">= %d" % last, v.value))
                last = v.value
    return n, out[:5]
F = {"auto_ts_fit": (np.float64, ctypes.c_double, 1, (2, 4, 5, 6, 8), 8), "auto_ts_fit_float": (np.float32, ctypes.c_float, 10000, (2, 4, 5, 6, 8), 8), "auto_ts_fit_sccd": (np.float32, ctypes.c_float, 10000, (2, 4, 6), 6)}
def fits():
    out = []; n = 0
    for rep in range(1200 if THOROUGH else 220):
        for fn, (dt, ct, sc, dfs, nc) in F.items():
            if not hasattr(lib, fn): continue
            df = int(rng.choice(dfs)); N = int(rng.integers(df + 2, 90)); lo = int(rng.integers(0, 4)); hi = lo + N - 1; M = hi + 1 + int(rng.integers(0, 4))
            x = np.sort(728000 + rng.choice(np.arange(0, 2600), M, replace=False)).astype(np.int32); b, lb = int(rng.integers(0, 6)), int(rng.integers(0, 6))
            Y = rng.normal(1500, 30, (7, M)).astype(np.float32); j = int(rng.integers(1, 5 if df == 5 else df)) if df > 1 else 1
            tj = (j + 1) if df == 5 else j; reg = term(tj, x.astype(float)); a = 3000.0 if tj > 1 else 2.0
            Y[b] += (a * (reg - reg.mean())).astype(np.float32)
            co = rng.normal(7, 50, (7, 8)).astype(dt); c0 = co.copy(); vd = np.full((7, M + 2), -777, dt); v0 = vd.copy(); e = ct(-1); y0 = Y.copy(); x0 = x.copy(); cr, yr, vr = rows(co), rows(Y), rows(vd)
            f = getattr(lib, fn); f.restype = ctypes.c_int; r = f(P(x), yr, b, lb, lo, hi, df, cr, ctypes.byref(e), vr); n += 1
            inp = dict(function=fn, coefficients=df, observations=N, start=lo, end=hi, band=b, row=lb, dates=x[:6].tolist(), signal="term %d" % tj)
            if r != 0: out.append(("the fit succeeds", inp, 0, r)); continue
            c = co[lb].astype(float); rest = c[df:nc]
            if rest.any(): out.append(("coefficients beyond the fitted number are zero", inp, 0, c.tolist())); continue
            if (np.delete(co, lb, 0) != np.delete(c0, lb, 0)).any(): out.append(("coefficients of other bands stay", inp, None, None)); continue
            xs = x[lo:hi + 1].astype(float); X = np.array([term(q + 1 if df == 5 else q, xs) for q in range(1, df)])
            beta = c[1:df].copy()
            if df != 5: beta[0] /= sc
            sd = X.std(1); q = j - 1
            # the strong term comes back in its own place (lasso shrinks it and, over a short range, may share it)
            full = np.linalg.lstsq(np.vstack([np.ones(N), X]).T, Y[b, lo:hi + 1].astype(float), rcond=None)[0]
            cond = np.linalg.cond(((X.T - X.mean(1)) / np.where(sd > 0, sd, 1)))
            if N > 3 * df and cond < 5 and abs(full[j] - beta[q]) * sd[q] > 0.15 * abs(full[j]) * sd[q] + 45: out.append(("the fitted term is at its own place", inp, full.tolist(), c.tolist())); continue
            pred = c[0] + X.T @ beta; res = Y[b, lo:hi + 1] - pred; got = vd[lb, :N].astype(float); tol = (1e-6 if dt == np.float64 else 0.02) + (2e-7 * W * 3 * 731000 * np.abs(beta).sum() + 2e-6 * np.abs(c).max() * 80 if dt != np.float64 else 0) + 1e-3
            if (np.abs(got - res) > tol + 2e-6 * abs(c[1]) * 73 + .05).any(): out.append(("residuals are observed minus predicted", inp, res[:4].tolist(), got[:4].tolist())); continue
            if (vd[lb, N:] != -777).any() or (np.delete(vd, lb, 0) != -777).any(): out.append(("nothing else is written", inp, None, None)); continue
            w = math.sqrt((got ** 2).sum() / (N - df))
            if abs(e.value - w) > 1e-4 * w + 1e-6: out.append(("the error is normalised by the degrees of freedom", inp, w, e.value)); continue
            if (Y != y0).any() or (x != x0).any(): out.append(("dates and values are only read", inp, None, None))
            if len(out) > 3: return n, out
    return n, out
def solver():
    """c_glmnet: on an error of the solver nothing is stored; a solution has every coefficient at its predictor"""
    out = []; n = 0
    for ni in (1, 3, 5, 7):
        for N in (1, 5):
            X = np.full((ni, N), 3.5, np.float32); y = np.full(N, 100, np.float32); ul = np.array([20], np.float32); lm = ctypes.c_int(3); cf = np.full((4, ni + 1), 55.0)
            f = lib.c_glmnet; f.restype = ctypes.c_int; f.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int, ctypes.c_void_p, ctypes.c_float, ctypes.c_void_p, ctypes.c_void_p]
            r = f(N, ni, X.ctypes.data, y.ctypes.data, 1, ul.ctypes.data, 1.0, ctypes.addressof(lm), cf.ctypes.data); n += 1
            if r == 0: continue
            if (cf != 55).any(): out.append(("a solver that fails returns no coefficients", dict(function="c_glmnet", predictors=ni, observations=N, values="all equal", lmu_before=3), "untouched", cf.tolist()))
    for rep in range(120):
        ni = int(rng.choice([1, 3, 4, 5, 7])); N = int(rng.integers(30, 60)); X = rng.normal(0, 2, (ni, N)).astype(np.float32); act = rng.random(ni) < .5; bt = np.where(act, rng.choice([-300, 300, 500], ni), 0)
        y = (40 + bt @ X).astype(np.float32); ul = np.array([20], np.float32); lm = ctypes.c_int(0); cf = np.full((1, ni + 1), 55.0); X2 = X.copy(); y2 = y.copy()
        r = f(N, ni, X2.ctypes.data, y2.ctypes.data, 1, ul.ctypes.data, 1.0, ctypes.addressof(lm), cf.ctypes.data); n += 1
        if r != 0 or lm.value != 1: continue
        s = X.std(1).astype(float); res = y - cf[0, 0] - cf[0, 1:] @ X; g = (X @ res) / N / np.where(s > 0, s, 1)
        sl = np.abs(cf[0, 1:]) > 0; bad = (np.abs(np.where(sl, g - 20 * np.sign(cf[0, 1:]), np.maximum(np.abs(g) - 20, 0))) > 6).any()
        if bad: out.append(("coefficients solve the lasso in their own places", dict(function="c_glmnet", predictors=ni, observations=N, true=bt.tolist()), "stationarity within 6", [cf[0].tolist(), g.tolist()]))
    return n, out[:4]
def records():
    """three strong cycles: the stored number of coefficients"""
    sys.path.insert(0, PK)
    import pycold; out = []; n = 0
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    for rep in range(120 if THOROUGH else 36):
        m = int(rng.integers(14, 130)) if rep % 3 else int(rng.integers(14, 40)); step = int(rng.choice([8, 16, 23])); d = 728000 + np.cumsum(rng.integers(max(step - 4, 1), step + 5, m)); t = d.astype(float)
        sig = lambda base, a: np.rint(base + a * sum(np.cos(q * W * t) + .7 * np.sin(q * W * t) for q in (1, 2, 3)) + rng.normal(0, 12, m)).astype(np.int64)
        B = [sig(1500, 160), sig(1800, 160), sig(1700, 160), sig(3500, 300), sig(2600, 200), sig(2100, 200)]; T = np.rint(2880 + 60 * np.cos(W * t) + rng.normal(0, 4, m)).astype(np.int64); qa = np.zeros(m, np.int64)
        breaks = np.zeros(40, np.int64); nb = int(rng.integers(0, 3))
        if nb and m > 50: breaks[:nb] = np.sort(rng.choice(d[15:-15], nb, replace=False))
        for which in ("cold", "obcold", "sccd"):
            try:
                if which == "cold": rec = pycold.cold_detect(d, *B, T, qa)
                elif which == "obcold": rec = pycold.obcold_reconstruct(d, *B, T, qa, breaks)
                else: rec = pycold.sccd_detect(d, *B, T, qa).rec_cg
            except RuntimeError: continue
            for s in np.atleast_1d(rec):
                if "num_obs" not in s.dtype.names: continue
                k = int(s["num_obs"]); co = np.array(s["coefs"], float); n += 1; used = np.abs(co).sum(0) > 0; top = max([i + 1 for i in range(len(used)) if used[i]] + [0])
                inp = dict(detector=which, observations=m, segment_observations=k, step=step, breaks=breaks[:nb].tolist(), dates=d[:4].tolist())
                most = limit(k + 1, 6 if which == "sccd" else 8)
                if which == "sccd": most = 6
                if "category" in s.dtype.names and int(s["category"]) // 10 in (4, 5): most = 4
                if top > most: out.append(("no coefficients beyond those of the number of observations", inp, most, co[0].tolist()))
                if which == "obcold" and m >= 24 and k >= 27 and s["t_end"] - s["t_start"] > 365 and top < 7: out.append(("as many coefficients as the number of observations gives", inp, 8, co[0].tolist()))
                if which == "cold" and m >= 24 and k >= 12 and int(k / 1.4) - 4 > 24 and top != 8: out.append(("as many coefficients as the number of observations gives", inp, 8, co[0].tolist()))
            if len(out) > 3: return n, out
    return n, out
tot = 0
for nm, f, tm in (("update_cft", complexity, 60), ("fits", fits, 200), ("c_glmnet", solver, 60), ("records", records, 240)):
    r = forked(f, tm)
    if not isinstance(r, tuple):
        if nm == "c_glmnet" or "error" not in r: violation("model complexity: %s without a crash" % nm, {"part": nm, "case": "constant predictors" if nm == "c_glmnet" else "seeded series"}, "returns", str(r))
        elif "AttributeError" not in str(r): raise RuntimeError(str(r))
        continue
    tot += r[0]
    for what, inp, want, got in r[1][:4]: violation("model complexity: " + what, inp, want, got)
stats(evaluations=tot)
