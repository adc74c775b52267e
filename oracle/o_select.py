"""P12 on the real code: preprocessing against its definition through ctypes, and the whole
detection (cold_detect, obcold_reconstruct, sccd_detect, sccd_update) on pairs of pixels that
agree on every observation that counts."""
from common import *
rng = np.random.default_rng(SEED)
lib = clib()
py_package()
n = nt = 0
# ---------------------------------------------------------------- preprocessing
lib.preprocessing.restype = ctypes.c_int
EDGE = [[-201, -200, -199, 0, 1, 9999, 10000, 10001]] + [[-200, -1, 0, 1, 2, 9999, 10000, 10001]] * 5
TEDGE = [0, -1, 1, 1799, 1800, 1801, 3438, 3439, 3440, 5000]
def pre():
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    out = []; cnt = 0
    for rep in range(12000 if THOROUGH else 4000):
        m = int(rng.integers(0, 9)); c2 = bool(rng.integers(0, 2)); cnt += 1
        B = [rng.integers(1, 9999, m) for _ in range(6)]; T = rng.integers(1801, 3438, m); qa = rng.choice([0, 1, 2, 3, 4, 255], m)
        if m:
            for _ in range(int(rng.integers(0, 4))):
                j = int(rng.integers(0, 7)); q = int(rng.integers(0, m))
                if j < 6: B[j][q] = rng.choice(EDGE[j])
                else: T[q] = rng.choice(TEDGE)
            if rng.random() < .15: qa[int(rng.integers(0, m))] = rng.choice([-1, 5, 6, 7, 64, 254, 256])
        A = [np.ascontiguousarray(x, np.int64) for x in B + [T, qa]]; A0 = [x.copy() for x in A]; ids = np.full(m + 1, -7, np.int32); s = [ctypes.c_int(0) for _ in range(5)]; nn = ctypes.c_int(m)
        r = lib.preprocessing(*[P(x) for x in A], ctypes.byref(nn), P(ids), *[ctypes.byref(x) for x in s], ctypes.c_bool(c2))
        inp = {"bands": [x.tolist() for x in A0[:6]], "thermal": A0[6].tolist(), "qa": A0[7].tolist(), "b_c2": c2}
        bad = any(int(x) not in (0, 1, 2, 3, 4, 255) for x in qa)
        if bad:
            if r == 0: out.append(("an undefined QA class does not fail the pixel", inp, "failure", r))
            continue
        if r != 0: out.append(("preprocessing failed", inp, 0, r)); continue
        want = []
        for i in range(m):
            t = 0 if c2 or T[i] == 0 else int(T[i]) * 10 - 27320
            want.append(int(-200 < B[0][i] < 10000 and all(0 < B[j][i] < 10000 for j in range(1, 6)) and -9320 < t < 7070 and qa[i] != 255))
        if ids[:m].tolist() != want or ids[m] != -7: out.append(("usable exactly when every band lies in its range and the class is not fill", inp, want, ids.tolist())); continue
        cs = [int(((qa == 0) | (qa == 1)).sum()), int((qa == 1).sum()), int((qa == 2).sum()), int((qa == 3).sum()), int((qa == 4).sum())]
        if [x.value for x in s] != cs or nn.value != m: out.append(("counts of clear, water, shadow, snow and cloud", inp, cs, [x.value for x in s])); continue
        if any(not np.array_equal(x, y) for x, y in zip(A, A0)): out.append(("the given series changed", inp, None, None))
        if len(out) > 3: break
    return cnt, out
r = forked(pre, 120)
if isinstance(r, dict): violation("preprocessing crashes or hangs", r)
else:
    n += r[0]; nt += r[0]
    for e in r[1][:3]: violation(*e)
# ---------------------------------------------------------------- whole detections
def series(snow=False):
    m = int(rng.integers(90, 330)); d = np.sort(727000 + rng.choice(5200, m, replace=False)); t = d * 2 * np.pi / 365.25; brk = int(rng.integers(m // 3, m))
    B = [np.rint(b0 + a * np.cos(t - .3) + (np.arange(m) >= brk) * st + rng.normal(0, sd, m)).astype(np.int64) for b0, a, sd, st in ((300, 60, 25, 300), (600, 100, 40, 400), (500, 150, 40, 700), (2600, 700, 120, -900), (1600, 300, 80, 900), (900, 200, 60, 700))]
    B = [np.clip(x, 5, 9990) for x in B]; T = np.rint(2880 + 90 * np.cos(t) + rng.normal(0, 12, m)).astype(np.int64)
    qa = rng.choice([0, 1, 2, 3, 4, 255], m, p=[.03, .02, .02, .9, .02, .01] if snow else [.6, .04, .1, .06, .15, .05])
    if not snow:
        c = np.where(qa >= 2)[0]; need = 30 - int((qa < 2).sum())
        if need > 0: qa[c[:need]] = 0
    qa[0] = qa[-1] = 3 if snow else 0
    return d, B, T, qa
def wild(k): return rng.choice([-9999, 0, 1, 5000, 9999, 16000, 700, 2500], k)
def flat(x):
    if x is None: return None
    if isinstance(x, (list, tuple)): return tuple(flat(y) for y in x)
    if isinstance(x, np.ndarray): return (x.dtype.str, x.shape, x.tobytes()) if x.dtype.names is None else ("rec", x.shape) + tuple((f, np.ascontiguousarray(x[f]).tobytes()) for f in x.dtype.names)
    if isinstance(x, np.generic): return x.item()
    return x
def readable(x): return repr(x)[:700]
def variants(d, B, T, qa, snow):
    """(what, series) that must give the same result"""
    m = len(d); out = []
    # values of masked observations
    mask = np.isin(qa, (2, 4, 255) if snow else (2, 3, 4, 255)); B2 = [b.copy() for b in B]; T2 = T.copy()
    for b in B2: b[mask] = wild(int(mask.sum()))
    T2[mask] = rng.choice([0, 1801, 2500, 3400, 5000, -999], int(mask.sum()))
    out.append(("values of masked observations changed", (d, B, T, qa), (d, B2, T2, qa)))
    if snow: return out
    # a usable value that leaves its range is as good as no observation
    cl = [i for i in np.where(qa < 2)[0] if 0 < i < m - 1]; pick = [int(x) for x in rng.choice(cl, min(len(cl) - 26, 3), replace=False)] if len(cl) > 29 else []
    if pick:
        B3 = [b.copy() for b in B]; T3 = T.copy()
        for i in pick:
            j = int(rng.integers(0, 7))
            if j == 6: T3[i] = int(rng.choice([1800, 3439, 5000]))
            else: B3[j][i] = int(rng.choice(([-200, -201] if j == 0 else [0, -1]) + [10000, 12000]))
            if j == 6: B3[int(rng.integers(0, 6))][i] = 10000 
        k = np.ones(m, bool); k[pick] = False
        out.append(("an observation out of its range instead of none", (d[k], [b[k] for b in B], T[k], qa[k]), (d, B3, T3, qa)))
        # a second observation of a date adds nothing
        at = np.sort(np.array(pick)) + 1
        d4 = np.insert(d, at, d[at - 1]); q4 = np.insert(qa, at, 0)
        out.append(("a second clear observation of a date", (d, B, T, qa), (d4, [np.insert(b, at, np.clip(b[at - 1] + rng.integers(-400, 400, len(at)), 5, 9990)) for b in B], np.insert(T, at, T[at - 1]), q4)))
    return out
def detect(kind, s, c2, brk=None, upd=None):
    import pycold
    d, B, T, qa = s; a = [d.copy()] + [b.copy() for b in B]
    if kind == "cold": return pycold.cold_detect(*a, T.copy(), qa.copy(), b_c2=c2)
    if kind == "cold_cm": return pycold.cold_detect(*a, T.copy(), qa.copy(), b_c2=c2, b_output_cm=True, starting_date=726900, n_cm=130, cm_output_interval=45)
    if kind == "obcold": return pycold.obcold_reconstruct(*a, T.copy(), qa.copy(), brk.copy(), b_c2=c2)
    if kind == "sccd": return pycold.sccd_detect(*a, T.copy(), qa.copy(), b_c2=c2)
    if kind == "sccd_update":
        d0, B0, T0, q0 = upd; pack = pycold.sccd_detect(d0.copy(), *[b.copy() for b in B0], T0.copy(), q0.copy(), b_c2=c2)
        return pycold.sccd_update(pack, *a, T.copy(), qa.copy(), b_c2=c2)
ERR = {}
def whole():
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    out = []; cnt = same = recs = 0
    for rep in range(160 if THOROUGH else 45):
        snow = rep % 5 == 4; d, B, T, qa = series(snow); c2 = bool(rep % 2)
        for what, s1, s2 in variants(d, B, T, qa, snow):
            for kind in (["sccd"] if snow else ["cold", "cold_cm", "obcold", "sccd", "sccd_update"]):
                brk = np.sort(rng.choice(d[10:-10], 2, replace=False)) if kind == "obcold" else None; upd = None; a, b = s1, s2
                cut = d[len(d) * 2 // 3]
                part = lambda s, m: (s[0][m(s[0])], [x[m(s[0])] for x in s[1]], s[2][m(s[0])], s[3][m(s[0])])
                if kind == "sccd_update": upd = part(s1, lambda x: x <= cut); a, b = part(s1, lambda x: x > cut), part(s2, lambda x: x > cut)
                if not kind.startswith("cold") and "out of its range" in what and kind.startswith("sccd"): pass
                res = []
                for s in (a, b):
                    try: res.append(detect(kind, s, c2, brk, upd))
                    except Exception as e: ERR[kind, str(e)[:50]] = ERR.get((kind, str(e)[:50]), 0) + 1; res.append("error: " + type(e).__name__ + str(e)[:80])
                cnt += 1; f1, f2 = flat(res[0]), flat(res[1]); same += not isinstance(res[0], str); recs += 0 if isinstance(res[0], str) else 1
                if f1 != f2:
                    out.append(("%s: %s and the result differs" % (kind, what), {"dates": [a[0].tolist(), b[0].tolist()], "bands": [[x.tolist() for x in q[1]] for q in (a, b)], "thermal": [q[2].tolist() for q in (a, b)], "qa": [q[3].tolist() for q in (a, b)], "b_c2": c2, "break_dates": None if brk is None else brk.tolist(), "earlier": None if upd is None else [upd[0].tolist(), [x.tolist() for x in upd[1]], upd[3].tolist()]}, readable(res[0]), readable(res[1])))
                    if len(out) > 2: return cnt, same, out
    return cnt, same, out
pk = ext_package(c_objects(("-O1", "-g"), "o1"), "sel_pkg")
def go():
    for m in [x for x in sys.modules if x.startswith("pycold")]: del sys.modules[m]
    sys.path.insert(0, pk); return whole()
r = forked(go, 400); same = 0
if isinstance(r, dict):
    if "error" in r: raise RuntimeError(str(r))
    violation("a detection crashes or hangs", {"seed": SEED, "series": "whole()"}, None, r)
else:
    n += r[0]; nt += r[1]; same = r[1]
    for e in r[2][:3]: violation(*e)
stats(evaluations=n, distinct_nontrivial=nt, detections_compared=same, rule="preprocessing on random series with boundary values and undefined classes; whole detections on pairs of pixels that differ in masked values, in observations out of range or in second observations of a date", samples=[{"qa": [0, 4, 3], "b_c2": True}])
