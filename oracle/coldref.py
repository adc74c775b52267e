"""An independent statement of the COLD change detection of one pixel (the noise, the outlier screen,
the fit and the sort are the library's, called directly), with the change magnitudes it outputs."""
from common import *
import math
F = np.float32
SIG = {"auto_mask": ("misc.c multirobust.c", 9), "adjust_median_variogram": ("misc.c", 9), "auto_ts_fit_float": ("misc.c", 10), "auto_ts_predict_float": ("misc.c", 7), "quick_sort_2d_float": ("misc.c", 5)}
lib = clib()
for f in SIG:
    if hasattr(lib, f): getattr(lib, f).restype = ctypes.c_int
if hasattr(lib, "auto_mask"): lib.auto_mask.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int, ctypes.c_int, ctypes.c_float, ctypes.c_float, ctypes.c_float, ctypes.c_float, ctypes.c_void_p]
def same_interface():
    try:
        for f, (files, n) in SIG.items():
            ok = False
            for x in files.split():
                try: ok = ok or len(c_params(x, f)) == n
                except RuntimeError: pass
            if not ok: return False
        return all(hasattr(lib, f) for f in SIG)
    except Exception: return False
REF = same_interface()
np.seterr(all="ignore")
BL = [1, 2, 3, 4, 5]
def usable(d, B, T, qa, c2):
    """the observations that count: clear, in range, the first of each date"""
    t = np.where(T == 0, 0, T * 10 - 27320) if not c2 else np.zeros(len(d))
    ok = (qa < 2) & (B[0] > -200) & (t > -9320) & (t < 7070)
    for j in range(6): ok &= (B[j] < 10000) & ((B[j] > 0) | (j == 0))
    idx = []
    for i in np.where(ok)[0]:
        if not idx or d[idx[-1]] != d[i]: idx.append(i)
    return idx
def limit(n): return 4 if n < 18 else 6 if n < 24 else 8
def noise(x, Y):
    mr = np.zeros(7, F); dv, mx = ctypes.c_float(0), ctypes.c_float(0)
    if len(x) and lib.adjust_median_variogram(P(x), rows(Y), 7, 0, len(x) - 1, ctypes.byref(dv), ctypes.byref(mx), P(mr), 1): raise RuntimeError("noise failed")
    return mr
def fit(x, Y, lo, hi, k, bands):
    """fit of the observations lo..hi-1: coefficients, errors, differences"""
    c = np.zeros((7, 8), F); e = np.zeros(7, F); v = np.zeros((7, hi - lo + 1), F); cr, yr, vr = rows(c), rows(Y), rows(v)
    for b in bands:
        q = ctypes.c_float(0)
        if lib.auto_ts_fit_float(P(x), yr, b, b, lo, hi - 1, k, cr, ctypes.byref(q), vr): raise RuntimeError("fit failed")
        e[b] = q.value
    return c, e, v
def predict(x, c, k, b, lo, hi):
    q = np.zeros(hi - lo + 1, F); lib.auto_ts_predict_float(P(x), rows(c), k, b, lo, hi, P(q)); return q
def screen(x, Y, lo, hi, yr, mr):
    """which of lo..hi are outliers"""
    bl = np.zeros(hi - lo + 1, np.int32); rr = rows(Y)
    if lib.auto_mask(x.ctypes.data, ctypes.addressof(rr), lo, hi, yr, mr[1], mr[4], 4.42, bl.ctypes.data): raise RuntimeError("screen failed")
    return bl == 1
def angle(V):
    """mean angle between consecutive columns"""
    n = V.shape[1]
    if n < 2: return F(0)
    s = F(0)
    for i in range(n - 1):
        p, a, b = F(0), F(0), F(0)
        for j in range(len(V)): p = F(p + V[j, i] * V[j, i + 1]); a = F(a + V[j, i] * V[j, i]); b = F(b + V[j, i + 1] * V[j, i + 1])
        t = F(p / F(np.sqrt(a) * np.sqrt(b)))
        if t > 1: t = F(1)
        elif t < -1: t = F(-1)
        s = F(float(s) + float(np.arccos(t)) * 180.0 / math.pi)
    return F(s / F(n - 1))
def decay(a, hi): a = float(a); return 1.0 if a < 45 else 0.0 if a > hi else 1.0 - (a - 45) / (hi - 45)
def rnd(v): return int(math.copysign(math.floor(abs(float(v)) + .5), float(v)))
def scaled(a, mag): return min(32767, rnd(F(F(decay(a, 90.0)) * F(mag) * F(100))))
def ssq(V, j):
    s = F(0)
    for q in V[:, j]: s = F(s + q * q)
    return s
class Ties:
    def __init__(s): s.near = False; s.nan = False
    def __call__(s, v, t):
        if not math.isfinite(float(v)): s.nan = True
        elif abs(float(v) - t) <= 1e-4 * max(1.0, abs(t)): s.near = True
def cold(d, B, T, qa, c2, conse, tcg, gap, cm=None):
    """segments; cm = (starting date, interval, number of intervals) -> change magnitudes and dates; ties"""
    idx = usable(d, B, T, qa, c2); x = d[idx].astype(np.int32); th = T[idx] * 10 - 27320
    if c2: th = np.where(T[idx] == 0, 0, th)
    Y = np.array([b[idx] for b in B] + [th]).astype(F); end = len(x); tie = Ties(); out = []
    CM = CD = None
    if cm: CM = np.full(cm[2], -9999, np.int64); CD = np.full(cm[2], -9999, np.int64)
    def magnitude(date, a, m):
        if not math.isfinite(float(a)): tie.nan = True
        if tie.nan: return
        v = scaled(a, m); q = (int(date) - cm[0]) // cm[1]
        if v > CM[q]: CM[q] = v; CD[q] = int(date) - 723742
    mr = noise(x, Y); tcg = F(tcg); i = 12; st = 1; dense = 1; trained = False; skip = 0; cur = None
    def drop(ids):
        nonlocal x, Y, end
        x = np.ascontiguousarray(np.delete(x, ids)); Y = np.ascontiguousarray(np.delete(Y, ids, 1)); end = len(x)
    while i <= end - conse and len(out) < 40:
        if i - st + 1 >= 12 and float(F(float(F(x[i - 1] - x[st - 1])) / 365.25)) >= 1:
            if not trained:
                if max(int(x[q + 1] - x[q]) for q in range(st - 1, i - 1)) > gap: i += 1; st += 1; dense = st; continue
                bl = screen(x, Y, st - 1, i + conse - 1, F(float(F(x[i + conse - 1] - x[st - 1])) / 365.25), mr)
                rm = [st - 1 + q for q in range(i - st + 1) if bl[q]]; span = i - st + 1 - len(rm)
                if span < 12: i += 1; continue
                x2 = np.delete(x, rm); i2 = st + span - 1
                if F((int(x2[i2 - 1]) - int(x2[st - 1])) / 365.25) < 1: i += 1; continue
                i = i2; drop(rm)
                c, e, v = fit(x, Y, st - 1, i, 4, range(7)); s = F(0)
                for b in BL:
                    m = max(mr[b], e[b]); a = F(v[b][0] / m); z = F(v[b][i - st] / m); sl = F(F(F(c[b][1] * F(x[i - 1] - x[st - 1])) / m) / F(10000))
                    q = F(abs(float(sl)) + max(abs(float(a)), abs(float(z)))); s = F(s + q * q)
                tie(s, float(tcg))
                if s > tcg: st += 1; i += 1; continue
                trained = True; count = 0
                brk = dense if not out else int(np.argmax(x >= out[-1]["t_break"])) + 1
                w = None
                if st > brk:
                    for at in range(st - 2, brk - 2, -1):
                        n = min(conse, at - (brk - 1) + 1); D = np.zeros((7, n), F)
                        for b in range(7): D[b] = (Y[b, at - n + 1:at + 1] - predict(x, c, 4, b, at - n + 1, at))[::-1]
                        V = np.array([D[b] / max(mr[b], e[b]) for b in BL], F); mags = [ssq(V, j) for j in range(n)]; low = F(9999)
                        for q in mags: low = q if low > q else low
                        a = angle(V); w = (n, D)
                        if cm and n >= conse: magnitude(x[at + 1], a, low)
                        tie(low, float(tcg)); tie(a, 45.0); tie(mags[0], 30.8562)
                        if low > tcg and a < 45: break
                        if mags[0] > 30.8562: drop([at]); i -= 1
                        st = at + 1
                if not out and st - dense >= 6:
                    c, e, v = fit(x, Y, dense - 1, st - 1, 4, range(7)); n, D = w
                    out.append(dict(t_start=int(x[dense - 1]), t_end=int(x[st - 2]), t_break=int(x[st - 1]), num_obs=st - dense, category=14, prob=100, mag=np.array([-np.median(D[b]) for b in range(7)]), coefs=c, rmse=e))
            span = i - st + 1; skip = skip or span; k = limit(span)
            # refit
            if count == 0 or span <= 24:
                count = int(x[i - 1] - x[st - 1]); pre = i; c, e, v = fit(x, Y, st - 1, i, k, range(7))
                cur = dict(t_start=int(x[st - 1]), t_end=int(x[i - 1]), t_break=0, num_obs=span, category=k, prob=0, mag=np.zeros(7), coefs=c, rmse=e)
                D = np.array([Y[b, i:i + conse] - predict(x, c, k, b, i, i + conse - 1) for b in range(7)], F)
                V = np.array([D[b] / max(mr[b], e[b]) for b in BL], F); mags = [ssq(V, j) for j in range(conse)]; old = list(range(st - 1, i))
            else:
                if i - pre >= 1 and i - pre > int(skip * .03):
                    count = int(x[i - 1] - x[st - 1]); pre = i; skip = span; c, e, v = fit(x, Y, st - 1, i, k, range(7))
                    cur.update(coefs=c, rmse=e, num_obs=span, category=k); old = list(range(st - 1, i))
                cur["t_end"] = int(x[i - 1]); n = 3 * cur["category"]; dy = np.zeros(len(old), F)
                for m, q in enumerate(old): t = int(x[q]) - int(x[i + conse - 1]); dy[m] = abs(rnd(float(F(t)) / 365.25) * 365.25 - float(F(t)))
                v2 = np.ascontiguousarray(v[:, :len(old)].copy()); lib.quick_sort_2d_float(P(dy), rows(v2), 0, len(old) - 1, 7)
                tmp = np.zeros(7, F)
                for b in BL:
                    s = F(0)
                    for q in v2[b, :n]: s = F(s + q * q)
                    tmp[b] = F(F(np.sqrt(s)) / F(np.sqrt(F(n - cur["category"]))))
                D = np.concatenate([D[:, 1:], np.zeros((7, 1), F)], 1); V = np.concatenate([V[:, 1:], np.zeros((5, 1), F)], 1); mags = mags[1:]
                for b in range(7): D[b, -1] = Y[b, i + conse - 1] - predict(x, c, k, b, i + conse - 1, i + conse - 1)[0]
                for j, b in enumerate(BL): V[j, -1] = D[b, -1] / max(mr[b], tmp[b])
                mags.append(ssq(V, conse - 1))
            a = angle(V); low = F(9999)
            for q in mags: low = q if low > q else low
            if cm: magnitude(x[i], a, low)
            tie(low, float(tcg)); tie(a, 45.0); tie(mags[0], 30.8562)
            if low > tcg and a < 45:
                cur.update(t_break=int(x[i]), prob=100, mag=np.median(D, 1)); out.append(cur); st = i + 1; trained = False; skip = 0
            elif mags[0] > 30.8562: drop([i]); i -= 1
        i += 1
    if len(out) >= 40: pass
    elif trained:
        last = conse
        for j in range(conse - 1, -1, -1):
            a = angle(V[:, j:]); tie(mags[j], float(tcg)); tie(a, 45.0)
            if mags[j] <= tcg or a >= 45: last = j + 1; break
        cur.update(prob=int((conse - last) * 100.0 / conse), t_end=int(x[end - 1 - conse + last]))
        if conse > last: cur.update(t_break=int(x[end - conse + last]), mag=np.median(D[:, last:], 1))
        out.append(cur)
    else:
        st = 1 if not out else int(np.argmax(x >= out[-1]["t_break"])) + 1
        if end - st + 1 >= 6:
            bl = screen(x, Y, st - 1, end - 1, F(float(F(x[end - 1] - x[st - 1])) / 365.25), mr); drop([st - 1 + q for q in range(end - st + 1) if bl[q]])
        if end - st + 1 >= 6:
            c, e, v = fit(x, Y, st - 1, end, 4, range(7))
            out.append(dict(t_start=int(x[0]) if not out else out[-1]["t_break"], t_end=int(x[end - 1]), t_break=0, num_obs=end - st + 1, category=24, prob=0, mag=np.zeros(7), coefs=c, rmse=e))
    return out, CM, CD, tie
