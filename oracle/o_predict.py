"""P15 on the real code: the C batch predictors and the state-space predictor through ctypes,
the Python helpers through the package, against the model in double precision."""
from common import *
import math
rng = np.random.default_rng(SEED)
lib = clib()
W = 2 * math.pi / 365.25
def model(c, d, df, scale):
    d = float(d)
    if df == 5: v = c[0]; cs = c[1:5]
    else: v = c[0] + c[1] * d / scale; cs = c[2:df]
    for n in range(len(cs) // 2): v += cs[2 * n] * math.cos((n + 1) * W * d) + cs[2 * n + 1] * math.sin((n + 1) * W * d)
    return v
n = nt = bad = 0
class SSM(ctypes.Structure):
    _fields_ = [("Z", ctypes.c_void_p), ("H", ctypes.c_float), ("T", ctypes.c_void_p), ("Q", ctypes.c_void_p), ("m", ctypes.c_int), ("structure", ctypes.c_int)]
def tol(days, c, dt): return 1e-9 * (1 + abs(c).sum()) * (1 + days.max() / 1e4) if dt == np.float64 else (2e-6 + 4e-7 * W * 3 * days.max()) * (1 + abs(c).sum()) + 1e-6 * abs(c[1]) * days.max() / 1e4
def dates(N):
    how = rng.integers(0, 4)
    if how == 0: return np.sort(rng.integers(1, 2000, N))
    if how == 1: return np.sort(rng.integers(720000, 740000, N))
    if how == 2: return 724000 + np.arange(N) * int(rng.integers(1, 40))
    return rng.integers(1, 40000, N)
def cbatch():
    out = []; cnt = 0
    for rep in range(1500 if THOROUGH else 400):
        for fn, dt, scale in (("auto_ts_predict_float", np.float32, 10000), ("auto_ts_predict", np.float64, 1), ("KF_ts_predict_conse", np.float32, 10000)):
            if not hasattr(lib, fn): continue
            N = int(rng.integers(2, 14)); x = dates(N).astype(np.int32)
            df = 6 if fn[0] == "K" else int(rng.choice([2, 4, 5, 6, 8, 3, 7])); nc = 6 if fn[0] == "K" else 8
            nb = 6 if fn[0] == "K" else 7
            co = np.round(rng.normal(0, 1, (nb, nc)) * np.array([800, 100] + [200] * (nc - 2)), 3).astype(dt)
            if scale == 1 and df != 5: co[:, 1] /= 1e4
            s = int(rng.integers(0, N)); e = int(rng.integers(s, N)); b = int(rng.integers(0, nb))
            if rng.random() < .05: e = s - 1
            y = np.full(N + 2, -7777, dt); y0 = y.copy(); c0 = co.copy(); x0 = x.copy()
            cr = rows(co); f = getattr(lib, fn); f.restype = ctypes.c_int
            if fn[0] == "K":
                inst = SSM(None, 0, None, None, 6, 11); yf = np.full(N + 2, -7777, dt)
                r = f(ctypes.byref(inst), P(x), None, cr, s, e, b, s, P(y), P(yf), False)
            else: r = f(P(x), cr, df, b, s, e, P(y))
            cnt += 1
            inp = {"routine": fn, "df": df, "coefficients": c0[b].tolist(), "dates": x0.tolist(), "start": s, "end": e, "band": b}
            m = e - s + 1
            if not (np.array_equal(co, c0) and np.array_equal(x, x0)): out.append(("the coefficients or dates were changed", inp, None, None))
            if df in (3, 7):
                if m > 0 and r == 0: out.append(("an unsupported number of coefficients is not reported", inp, "error", r))
                continue
            if r != 0: out.append(("predictor failed", inp, 0, r)); continue
            if not np.array_equal(y[max(m, 0):], y0[max(m, 0):]): out.append(("cells outside the predicted range changed", inp, None, y.tolist()))
            w = [model(c0[b].astype(float), d, df, scale) for d in x0[s:e + 1]]
            for q in range(m):
                if not abs(w[q] - float(y[q])) <= tol(x0[s:e + 1], c0[b].astype(float), dt): out.append(("prediction differs from the harmonic model", inp, w, y[:m].tolist())); break
            if len(out) > 3: return cnt, out
    return cnt, out
r = forked(cbatch, 120)
if isinstance(r, dict): violation("a predictor crashes or hangs", r)
else:
    n += r[0]; nt += r[0]
    for e in r[1][:3]: violation(*e)
py_package()
from pycold import utils
if hasattr(utils, "predict_ref"):
    for rep in range(300):
        nc = int(rng.choice([4, 6, 8])); d = int(dates(1)[0]); co = np.round(rng.normal(0, 300, nc), 3); n += 1; nt += 1
        try:
            v = utils.predict_ref(co.copy(), d, nc); v6 = utils.predict_ref(co.copy(), d) if nc == 6 else v
            m2 = utils.predict_ref(np.stack([co, 2 * co]), d, nc) if rep % 4 == 0 else None
        except Exception as e: violation("predict_ref raised", {"coefficients": co, "day": d}, None, repr(e)); break
        w = model(co, d, nc, 10000)
        if not abs(v - w) <= 1e-6 * (1 + abs(w)) or not abs(v6 - w) <= 1e-6 * (1 + abs(w)) or (m2 is not None and not np.allclose(m2, [w, 2 * w], rtol=1e-6, atol=1e-6)):
            violation("predict_ref differs from the harmonic model", {"coefficients": co.tolist(), "day": d, "num_coefficients": nc}, w, float(v)); break
stats(evaluations=n, distinct_nontrivial=nt, rule="random coefficients, dates from day 1 to 740000, every band and range, 2/4/5/6/8 and unsupported numbers of coefficients", samples=[{"routine": "auto_ts_predict_float", "df": 8}])
