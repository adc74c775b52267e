"""P23 on the real code: cold_detect and obcold_reconstruct on pixels with fewer than 24 clear
observations against an independent selection of the observations; the fit itself is the
library's, called directly on what was selected."""
from common import *
rng = np.random.default_rng(SEED)
lib = clib(); lib.auto_ts_fit_float.restype = ctypes.c_int
py_package()
CLASSES = [0, 1, 2, 3, 4, 255]
def pixel():
    kind = int(rng.integers(0, 6)); m = int(rng.integers(2, 90)) if kind else int(rng.integers(22, 60))
    p = {0: [.3, .05, .1, .4, .1, .05], 1: [.02, .01, .02, .9, .03, .02], 2: [.2, .02, .3, .02, .4, .06], 3: [.1, .02, .1, .3, .4, .08], 4: [0, 0, 0, .97, .02, .01], 5: [.05, 0, .1, .17, .66, .02]}[kind]
    qa = rng.choice(CLASSES, m, p=np.array(p) / sum(p)); clear = np.where(qa < 2)[0]
    if len(clear) >= 24: qa[clear[rng.permutation(len(clear))[int(rng.integers(0, 24)):]]] = 4
    if kind == 0 and rng.random() < .5: qa[rng.permutation(m)[:20]] = 3
    d = np.sort(728000 + rng.integers(0, 4000 if rng.random() < .7 else m, m))
    t = d * 2 * np.pi / 365.25
    B = [np.rint(base + amp * np.cos(t) + rng.normal(0, sd, m)).astype(np.int64) for base, amp, sd in ((300, 60, 40), (600, 100, 180), (500, 150, 60), (2500, 700, 200), (1500, 300, 100), (900, 200, 80))]
    if kind in (1, 4): B = [x + 5000 for x in B]
    T = np.rint(2880 + 90 * np.cos(t) + rng.normal(0, 20, m)).astype(np.int64)
    if rng.random() < .3: B[1][rng.random(m) < .4] += int(rng.choice([380, 400, 401, 900]))
    for _ in range(int(rng.integers(0, 12))): B[int(rng.integers(0, 6))][int(rng.integers(0, m))] = rng.choice([0, 1, -1, -199, -200, -201, 9999, 10000, 16000])
    for _ in range(int(rng.integers(0, 4))): T[int(rng.integers(0, m))] = rng.choice([0, 1800, 1801, 3438, 3439, 3440, 5000])
    if rng.random() < .1 and kind in (1, 4): T[rng.permutation(m)[int(rng.integers(0, 15)):]] = 0
    if rng.random() < .15 and kind in (1, 4): B[int(rng.integers(0, 6))][rng.permutation(m)[int(rng.integers(0, 15)):]] = 10000
    return d, B, T, qa, bool(rng.integers(0, 2))
def fit(x, y, band):
    x = np.array(x, np.int32); c = np.zeros((7, 8), np.float32); v = np.zeros((7, len(x) + 1), np.float32); e = ctypes.c_float(0); Y = np.zeros((7, len(x)), np.float32); Y[band] = y
    cr, yr, vr = rows(c), rows(Y), rows(v)
    if lib.auto_ts_fit_float(P(x), yr, band, band, 0, len(x) - 1, 4, cr, ctypes.byref(e), vr) != 0: raise RuntimeError("fit failed")
    return c[band].copy(), e.value
def reference(d, B, T, qa, c2):
    """None: no record; else (t_start, t_end, num_obs, category, coefficients, rmse)"""
    m = len(d); bands = [b.astype(float) for b in B] + [np.zeros(m) if c2 else (T * 10 - 27320).astype(float)]
    clear, snow = int((qa < 2).sum()), int((qa == 3).sum()); assert clear < 24
    if np.float32(np.float32(snow) / np.float32(snow + clear + .01)) > .75:
        keep = (qa == 3) | (qa < 2); idx = np.where(keep)[0]
        if len(idx) < 12: return None
        out = []
        for j in range(7):
            v = bands[j][idx]; ok = (v > 0) & (v < 10000) if j < 6 else (v > -9320) & (v < 7070)
            out.append(fit(d[idx][ok], v[ok], j) if ok.sum() >= 12 else (np.array([10000 if j < 6 else 0] + [0] * 7, np.float32), 0.0))
        return d[idx[0]], d[idx[-1]], len(idx), 54, out
    t = bands[6] if not c2 else np.zeros(m)
    t = np.where(T == 0, 0, t)
    ok = (qa < 255) & (B[0] > -200) & (t > -9320) & (t < 7070)
    for j in range(6): ok &= (B[j] < 10000) & ((B[j] > 0) | (j == 0))
    idx = [i for i in np.where(ok)[0]]; first = []
    for i in idx:
        if not first or d[first[-1]] != d[i]: first.append(i)
    if not first: return None
    med = float(np.float32(np.median(bands[1][first]))); use = [i for i in first if bands[1][i] < med + 400]
    if len(use) < 12: return None
    return d[use[0]], d[use[-1]], len(use), 44, [fit(d[use], bands[j][use], j) for j in range(7)]
n = nt = segs = snows = 0
def batch(k, tag):
    import pycold
    out = []; st = [0, 0, 0, 0]
    for _ in range(k):
        d, B, T, qa, c2 = pixel(); st[0] += 1
        if (qa == 255).all(): continue
        want = reference(d, B, T, qa, c2); st[1] += 1; st[2] += want is not None; st[3] += want is not None and want[3] == 54
        inp = {"dates": d.tolist(), "bands": [b.tolist() for b in B], "thermal": T.tolist(), "qa": qa.tolist(), "b_c2": c2, "build": tag}
        for nm in ("cold_detect", "obcold_reconstruct"):
            try:
                if nm == "cold_detect": r = pycold.cold_detect(d.copy(), *[b.copy() for b in B], T.copy(), qa.copy(), b_c2=c2)
                else: r = pycold.obcold_reconstruct(d.copy(), *[b.copy() for b in B], T.copy(), qa.copy(), np.array([int(d[len(d) // 2])]), b_c2=c2)
            except Exception as e:
                if "no change records" in str(e): r = None
                else: out.append((nm + " failed", inp, None, repr(e))); continue
            if (r is None) != (want is None): out.append((nm + ": a record exactly when twelve observations serve", inp, want and [int(x) for x in want[:4]], None if r is None else repr(r))); continue
            if r is None: continue
            if len(r) != 1: out.append((nm + ": one record", inp, 1, len(r))); continue
            r = r[0]; got = (int(r["t_start"]), int(r["t_end"]), int(r["num_obs"]), int(r["category"])); w = tuple(int(x) for x in want[:4])
            if got != w or int(r["t_break"]) or int(r["change_prob"]) or np.any(r["magnitude"]): out.append((nm + ": start, end, observations used and category of the record, no break", inp, w, (got, int(r["t_break"]), int(r["change_prob"]), r["magnitude"].tolist()))); continue
            for j in range(7):
                c, e = want[4][j]
                if not np.allclose(r["coefs"][j], c, rtol=1e-4, atol=1e-3) or not np.allclose(r["rmse"][j], e, rtol=1e-4, atol=1e-3):
                    out.append((nm + ": band %d is the fit of exactly the observations that serve" % j, inp, (c.tolist(), e), (r["coefs"][j].tolist(), float(r["rmse"][j])))); break
            if len(out) > 2: return st, out
    return st, out
for tag, flags, k in (("plain", ("-O1", "-g"), 600), ("pattern", ("-O0", "-ftrivial-auto-var-init=pattern"), 200), ("zero", ("-O0", "-ftrivial-auto-var-init=zero"), 200)):
    pk = ext_package(c_objects(flags, "few_" + tag), "few_pkg_" + tag)
    def go():
        os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
        for m in [x for x in sys.modules if x.startswith("pycold")]: del sys.modules[m]
        sys.path.insert(0, pk); return batch(k * (4 if THOROUGH else 1), tag)
    r = forked(go, 300)
    if isinstance(r, dict):
        if "error" in r: raise RuntimeError(str(r))
        violation("a pixel with few clear observations crashes or hangs the detection", {"build": tag, "seed": SEED}, None, r)
    else:
        st, out = r; n += st[0]; nt += st[1]; segs += st[2]; snows += st[3]
        for e in out[:3]: violation(*e)
stats(evaluations=n, distinct_nontrivial=nt, with_record=segs, snow_records=snows, rule="random pixels with 0 to 23 clear observations: snow, cloud, water, fill, boundary values, green outliers, repeated dates, saturated and missing thermal bands; both collections; three builds", samples=[{"clear": 11, "snow": 40}])
