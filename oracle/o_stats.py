"""P22 on the real code: every statistic through ctypes against numpy in double precision.
Cells outside the requested range hold 1e30, so that reading one shows in the result; every
array is compared with a copy afterwards."""
from common import *
import math
rng = np.random.default_rng(SEED)
lib = clib()
F, D, N32 = np.float32, np.float64, np.int32
POISON = 1e30
# name: type, 2-D, deviation argument (0 none, 1 value, 2 table), partial, what
T = {"rmse_from_square_root_mean": (F, 1, 1, 0, "rms"), "partial_square_root_mean": (F, 1, 2, 1, "rms"), "matlab_2d_array_norm": (D, 1, 0, 0, "norm"), "matlab_2d_array_norm_float": (F, 1, 0, 0, "norm"),
     "matlab_1d_array_norm": (F, 0, 0, 0, "norm"), "matlab_2d_array_mean": (F, 1, 0, 0, "mean"), "array_1d_mean": (F, 0, 0, 1, "mean"), "matlab_2d_partial_mean": (F, 1, 0, 1, "mean"),
     "matlab_2d_partial_square_mean": (F, 1, 0, 1, "sqmean"), "matlab_2d_float_median": (F, 1, 0, 0, "median"), "matlab_2d_double_median": (D, 1, 0, 0, "median"),
     "matlab_float_2d_partial_median": (F, 1, 0, 1, "median"), "matlab_double_2d_partial_median": (D, 1, 0, 1, "median")}
def want(what, x, o):
    x = x.astype(D)
    if what == "rms": return math.sqrt(np.mean((x - o) ** 2)), math.sqrt(np.mean((np.abs(x) + abs(o)) ** 2))
    if what == "norm": return math.sqrt(np.sum(x ** 2)), math.sqrt(np.sum(x ** 2))
    if what == "mean": return np.mean(x), np.mean(np.abs(x))
    if what == "sqmean": return np.mean(x ** 2), np.mean(x ** 2)
    return np.median(x), np.max(np.abs(x))
def values(m, kind):
    if kind == 0: return rng.normal(0, 1000, m)
    if kind == 1: return rng.integers(-5, 6, m).astype(D)
    if kind == 2: return np.full(m, float(rng.integers(-100, 100)))
    return np.round(rng.uniform(0, 10000, m))
def arr(rows_, cols, dt, fill=POISON): return np.full((rows_, cols), fill, dt)
def simple():
    out = []; cnt = 0
    for rep in range(3000 if THOROUGH else 700):
        for fn, (dt, two, dev, part, what) in T.items():
            if not hasattr(lib, fn): continue
            m = int(rng.integers(1, 5)) if rng.random() < .4 else int(rng.integers(1, 60)); R = int(rng.integers(1, 5)); b = int(rng.integers(0, R)) if two else 0
            lo = int(rng.integers(0, 6)) if part else 0
            A = arr(R if two else 1, lo + m + 3, dt); x = values(m, rep % 4).astype(dt)
            if what == "median": x = np.sort(x)
            A[b, lo:lo + m] = x; A0 = A.copy(); res = np.full(3, -7777, dt); o = 0.0
            a = [rows(A) if two else P(A[0])]
            keep = None
            if dev == 1: o = float(F(values(1, rep % 4)[0])); a.append(ctypes.c_float(o))
            if two: a.append(b)
            a += [lo, lo + m - 1] if part else [m]
            if dev == 2:
                keep = arr(R, 3, F); o = float(F(values(1, rep % 4)[0])); keep[b, 0] = o; k0 = keep.copy(); a.append(rows(keep))
            f = getattr(lib, fn); f.restype = None; f(*(a + [P(res[1:])])); cnt += 1
            inp = {"routine": fn, "values": x.tolist(), "start": lo, "row": b, "reference": o}
            if not np.array_equal(A, A0) or (dev == 2 and not np.array_equal(keep, k0)): out.append(("the input was changed", inp, None, None))
            if res[0] != -7777 or res[2] != -7777: out.append(("a cell beside the result was written", inp, None, res.tolist()))
            w, s = want(what, x, o)
            if not abs(float(res[1]) - w) <= (1e-6 * m + 1e-6 if dt == F else 1e-12 * m) * (s + 1e-9): out.append(("%s differs from its definition" % what, inp, w, float(res[1])))
            if len(out) > 3: return cnt, out
    return cnt, out
def counts():
    out = []; cnt = 0
    for rep in range(600):
        lo = int(rng.integers(0, 5)); m = int(rng.integers(0, 30)); a = np.full(lo + m + 3, 1, N32); a[lo:lo + m] = rng.integers(0, 3, m) * rng.integers(0, 2, m); a0 = a.copy(); r = np.full(3, -7777, N32)
        lib.get_ids_length(P(a), lo, lo + m - 1, P(r[1:])); cnt += 1; w = int(np.count_nonzero(a0[lo:lo + m]))
        if r[1] != w or r[0] != -7777 or r[2] != -7777 or not np.array_equal(a, a0): out.append(("the count of marked elements", {"array": a0.tolist(), "start": lo, "end": lo + m - 1}, w, r.tolist()))
        n = int(rng.integers(0, 25)); x = np.sort(rng.integers(1000, 1000 + max(1, int(n * rng.choice([.3, 1, 4]))), n)).astype(N32); y = rng.permutation(7 * (n + 2)).reshape(7, n + 2).astype(F)
        xx = np.concatenate([x, [-7777, -7777]]).astype(N32); yy = y.copy(); r[:] = -7777
        lib.matlab_unique(P(xx), rows(yy), n, P(r[1:])); cnt += 1
        u, first = np.unique(x, return_index=True); k = len(u); inp = {"routine": "matlab_unique", "dates": x.tolist(), "values": y.tolist()}
        if r[1] != k or r[0] != -7777 or r[2] != -7777: out.append(("the number of distinct dates", inp, k, r.tolist()))
        elif not np.array_equal(xx[:k], u) or not np.array_equal(yy[:, :k], y[:, first]): out.append(("the first observation of every date, in order, with its bands", inp, [u.tolist(), y[:, first].tolist()], [xx[:k].tolist(), yy[:, :k].tolist()]))
        elif not np.array_equal(xx[n:], [-7777, -7777]) or not np.array_equal(yy[:, n:], y[:, n:]): out.append(("cells beyond the series were written", inp, None, None))
        if len(out) > 3: break
    return cnt, out
def variograms():
    out = []; cnt = 0
    for rep in range(4000 if THOROUGH else 1000):
        m = int(rng.integers(2, 6)) if rng.random() < .5 else int(rng.integers(2, 60)); lo = int(rng.integers(0, 4)); hi = lo + m - 1
        nb = int(rng.integers(1, 8)); Y = arr(nb, hi + 4, F); Y[:, lo:hi + 1] = rng.integers(-2000, 12000, (nb, m)) if rep % 3 else rng.integers(0, 4, (nb, m)); Y0 = Y.copy()
        X = np.full(hi + 4, 10**8, N32); X[lo:hi + 1] = np.cumsum(rng.integers(1, 90 if rep % 2 else 9, m)) + 720000; X0 = X.copy()
        dv = np.full(3, -7777, F); mx = dv.copy(); o = np.full(nb + 2, -7777, F)
        r = lib.adjust_median_variogram(P(X), rows(Y), nb, lo, hi, P(dv[1:]), P(mx[1:]), P(o[1:]), 1); cnt += 1
        dd = np.abs(np.diff(X0[lo:hi + 1].astype(D))); db = np.median(np.abs(np.diff(Y0[:, lo:hi + 1].astype(D), axis=1)), axis=1)
        inp = {"routine": "adjust_median_variogram", "dates": X0[lo:hi + 1].tolist(), "bands": Y0[:, lo:hi + 1].tolist(), "start": lo}
        if r != 0: out.append(("the variogram fails", inp, 0, r))
        elif not np.allclose(o[1:-1], db, rtol=1e-6, atol=1e-3) or not np.isclose(dv[1], np.median(dd), rtol=1e-6) or mx[1] != dd.max(): out.append(("the median of the successive differences", inp, [db.tolist(), np.median(dd), dd.max()], [o.tolist(), dv.tolist(), mx.tolist()]))
        if not (np.array_equal(X, X0) and np.array_equal(Y, Y0)): out.append(("the series was changed", inp, None, None))
        if any(z[0] != -7777 or z[-1] != -7777 for z in (o, dv, mx)): out.append(("a cell beside the result was written", inp, None, None))
        for fn in ("singleband_variogram", "singleband_minvariogram"):
            if not hasattr(lib, fn): continue
            y = Y[0].copy(); y[lo:hi + 1] += F(.25) * rng.integers(0, 4, m); y0 = y.copy(); v = np.full(3, -7777, F)
            a = [P(y), lo, hi, P(v[1:])]
            d = np.abs(np.diff(y0[lo:hi + 1].astype(D)))
            if "minv" in fn: a.insert(0, P(X)); d = d / np.diff(X0[lo:hi + 1])
            r = getattr(lib, fn)(*a); cnt += 1; inp = {"routine": fn, "values": y0[lo:hi + 1].tolist(), "dates": X0[lo:hi + 1].tolist(), "start": lo}
            if r != 0 or not np.isclose(v[1], np.median(d), rtol=1e-5, atol=1e-5) or v[0] != -7777 or v[2] != -7777: out.append(("the variogram is the median of the successive differences", inp, np.median(d), [r] + v.tolist()))
            if not np.array_equal(y, y0): out.append(("the series was changed", inp, None, None))
        if len(out) > 3: break
    return cnt, out
def short_series():
    out = []; cnt = 0
    for rep in range(200):
        m = rep % 2; lo = int(rng.integers(0, 5)); nb = int(rng.integers(1, 8)); Y = arr(nb, lo + 4, F); Y[:, lo:lo + m] = rng.integers(-2000, 12000, (nb, m)); Y0 = Y.copy()
        X = np.full(lo + 4, 10**8, N32); X[lo:lo + m] = 730000 + rng.integers(0, 999, m); X0 = X.copy()
        dv = np.full(3, -7777, F); mx = dv.copy(); o = np.full(nb + 2, -7777, F)
        r = lib.adjust_median_variogram(P(X), rows(Y), nb, lo, lo + m - 1, P(dv[1:]), P(mx[1:]), P(o[1:]), 1); cnt += 1
        w = Y0[:, lo].tolist() if m else [0.0] * nb; inp = {"routine": "adjust_median_variogram", "dates": X0[lo:lo + m].tolist(), "bands": Y0[:, lo:lo + m].tolist(), "start": lo}
        if r != 0 or o[1:-1].tolist() != w or mx[1] != 0 or dv[1] == -7777: out.append(("every band of a series of at most one observation has its value", inp, w, [r, o.tolist(), dv.tolist(), mx.tolist()]))
        if not (np.array_equal(X, X0) and np.array_equal(Y, Y0)): out.append(("the series was changed", inp, None, None))
        if any(z[0] != -7777 or z[-1] != -7777 for z in (o, dv, mx)): out.append(("a cell beside the result was written", inp, None, None))
        if len(out) > 3: break
    return cnt, out
def angles():
    out = []; cnt = 0
    for rep in range(3000 if THOROUGH else 800):
        nb = 5; m = int(rng.integers(0, 12)); how = rep % 4
        v = rng.normal(0, 3, (7, m))
        if how == 1 and m: v = np.repeat(rng.normal(0, 3, (7, 1)), m, 1) * rng.choice([1., 1., 2., -1., .1], m)
        if how == 2: v = rng.integers(-2, 3, (7, m)) + .5
        for fn, dt, sel in (("MeanAngl", D, 0), ("MeanAngl_float", F, 0), ("MeanAngl_float_selective", F, 1)):
            if not hasattr(lib, fn): continue
            A = arr(7, m + 2, dt); A[:, :m] = v; A0 = A.copy(); f = getattr(lib, fn); f.restype = ctypes.c_double if dt == D else ctypes.c_float
            bands = rng.permutation(7)[:nb].astype(N32) if sel else np.arange(nb).astype(N32)
            r = f(rows(A), nb, m, *([P(bands)] if sel else [])); cnt += 1
            x = A0[bands][:, :m].astype(D); w = 0.0
            if m > 1:
                c = (x[:, :-1] * x[:, 1:]).sum(0) / (np.linalg.norm(x[:, :-1], axis=0) * np.linalg.norm(x[:, 1:], axis=0)); w = np.degrees(np.arccos(np.clip(c, -1, 1))).mean()
            inp = {"routine": fn, "vectors": A0[:, :m].tolist(), "bands": bands.tolist()}
            if not abs(r - w) <= (.06 if dt == F else 1e-4): out.append(("the mean angle of successive vectors", inp, w, r))
            if not np.array_equal(A, A0): out.append(("the vectors were changed", inp, None, None))
        if len(out) > 3: break
    return cnt, out
n = 0
for g in (simple, counts, variograms, short_series, angles):
    r = forked(g, 120)
    if isinstance(r, dict): violation("a statistic crashes or hangs", dict(r, group=g.__name__))
    else:
        n += r[0]
        for e in r[1][:3]: violation(*e)
stats(evaluations=n, distinct_nontrivial=n, rule="every statistic on random, constant, few-valued and integer series; sub-ranges, odd and even lengths; poison outside the range")
