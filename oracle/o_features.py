from common import *
import datetime as dt, logging
m = py_package()
from pycold import pyclassifier as pc
from pycold.common import DatasetInfo
rng = np.random.default_rng(SEED); n = 0; nt = 0; bad = False
NAMES = ["a0", "c1", "a1", "b1", "a2", "b2", "a3", "b3", "rmse"]
dtp = np.dtype([("t_start", np.int32), ("t_end", np.int32), ("t_break", np.int32), ("pos", np.int32), ("num_obs", np.int32), ("category", np.short),
                ("change_prob", np.short), ("coefs", np.float32, (7, 8)), ("rmse", np.float32, 7), ("magnitude", np.float32, 7)], align=True)
def want(seg, band, day, names, na):
    for k in range(len(seg)):
        hi = seg[k]["t_end"] if k == len(seg) - 1 else seg[k + 1]["t_start"]
        if seg[k]["t_start"] <= day < hi:
            c = seg[k]["coefs"][band]; out = []
            for f in names:
                if f == "a0": v = float(c[0]) + float(c[1]) * day / 10000
                elif f == "c1": v = float(c[1]) / 10000
                elif f == "rmse": v = float(seg[k]["rmse"][band])
                else: v = float(c[{"a1": 2, "b1": 3, "a2": 4, "b2": 5, "a3": 6, "b3": 7}[f]])
                out.append(0.0 if v != v else v)
            return out, True
    return [na] * len(names), False
def segs(ns, pos=1, t0=None):
    a = np.zeros(ns, dtp); t = int(rng.integers(724000, 733000)) if t0 is None else t0
    for k in range(ns):
        a[k]["t_start"] = t; t += int(rng.integers(1, 900)); a[k]["t_end"] = t; t += int(rng.integers(0, 300)); a[k]["t_break"] = t if k < ns - 1 else 0
        a[k]["pos"] = pos
        a[k]["coefs"] = rng.normal(0, 900, (7, 8)) + np.arange(56).reshape(7, 8) * 10000
        a[k]["rmse"] = rng.uniform(1, 90, 7)
        if rng.random() < .3: a[k]["coefs"][rng.integers(7), rng.integers(8)] = np.nan
        if rng.random() < .2: a[k]["coefs"][:, 1] = np.nan
        if rng.random() < .3: a[k]["rmse"][rng.integers(7)] = np.nan
    return a
def close(a, b): return a == b or abs(a - b) <= 1e-4 * max(1, abs(a), abs(b))
for it in range(2500 if THOROUGH else 500):
    s = segs(int(rng.integers(1, 6)))
    names = list(rng.permutation(NAMES)[:rng.integers(1, 10)]); band = int(rng.integers(7)); na = int(rng.choice([-9999, 255, -1]))
    b = np.concatenate([s["t_start"], s["t_end"], s["t_break"]]).astype(int)
    days = [int(x) for x in rng.permutation(np.concatenate([b, b - 1, b + 1, rng.integers(720000, 740000, 3)]))[:int(rng.integers(1, 12))]]
    try: got = pc.extract_features(s.copy(), band, list(days), na, feature_outputs=list(names))
    except Exception as e: got = repr(e)
    if isinstance(got, str) or len(got) != len(names): violation("extract_features", dict(t_start=s["t_start"], t_end=s["t_end"], days=days), None, got); bad = True; break
    for j, d in enumerate(days):
        w, cov = want(s, band, d, names, na); n += 1; nt += cov
        for t, f in enumerate(names):
            if not close(w[t], float(got[t][j])):
                violation("feature %s" % f, dict(t_start=s["t_start"], t_end=s["t_end"], day=d, band=band, coefs=s["coefs"], rmse=s["rmse"]), w[t], float(got[t][j])); bad = True; break
        if bad: break
    if bad: break
log = logging.getLogger("x"); log.addHandler(logging.NullHandler()); log.propagate = False
for it in range(120 if THOROUGH else 25):
    if bad: break
    nbx, nby, w, h = [int(x) for x in rng.integers(1, 4, 4)]; nr, nc = nby * h, nbx * w
    D = DatasetInfo(nr, nc, nbx, nby); B = int(rng.integers(1, nbx * nby + 1)); bx, by = (B - 1) % nbx + 1, (B - 1) // nbx + 1
    names = list(rng.permutation(NAMES)[:rng.integers(1, 5)]) if it % 2 else ["a0", "a1", "b1"]
    recs = []; per = {}
    same = segs(1)["t_start"][0]
    for i in range(h):
        for j in range(w):
            if rng.random() < .25: continue
            pos = ((by - 1) * h + i) * nc + (bx - 1) * w + j + 1
            s = segs(int(rng.integers(1, 4)), pos, same if it % 3 == 0 else None); recs.append(s); per[i * w + j] = s
    order = rng.permutation(len(recs))
    block = np.concatenate([recs[k] for k in order]) if recs else np.zeros(0, dtp)
    years = [int(y) for y in rng.permutation(np.arange(1982, 2024))[:rng.integers(1, 6)]]
    o = pc.PyClassifier(D, names, log)
    try: got = o.predict_features(B, block.copy(), list(years))
    except Exception as e: got = repr(e)
    inp = dict(n_block_x=nbx, n_block_y=nby, block_width=w, block_height=h, block=B, years=years, features=names)
    if isinstance(got, str) or got.shape != (len(years), w * h, 7 * len(names)): violation("predict_features", inp, None, got); bad = True; break
    for yi, y in enumerate(years):
        d = dt.date(y, 7, 1).toordinal()
        for x in range(w * h):
            for b in range(7):
                v, cov = want(per[x], b, d, names, -9999) if x in per else ([-9999] * len(names), False); n += 1; nt += cov
                for t in range(len(names)):
                    if not bad and not close(v[t], float(got[yi, x, b * len(names) + t])):
                        violation("feature array", dict(inp, year=y, pixel=x, band=b, feature=names[t]), v[t], float(got[yi, x, b * len(names) + t])); bad = True
stats(evaluations=n, distinct_nontrivial=int(nt), rule="random segment lists and days at, before and after every segment boundary, NaN coefficients, every feature order; random blocks; non-trivial: the day is covered",
      samples=[{"t_start": [728000, 729000], "t_end": [728900, 729500], "day": 729000}])
