"""P18 on the real code: obcold_reconstruct against an independent reconstruction (the noise, the
outlier screen and the fit are the library's, called directly) and against the statement itself."""
from common import *
rng = np.random.default_rng(SEED)
SIG = {"auto_mask": ("misc.c multirobust.c", 9), "adjust_median_variogram": ("misc.c", 9), "auto_ts_fit_float": ("misc.c", 10), "auto_ts_predict_float": ("misc.c", 7)}
lib = clib()
for f in SIG:
    if hasattr(lib, f): getattr(lib, f).restype = ctypes.c_int
py_package()
def same_interface():
    try:
        for f, (files, n) in SIG.items():
            ok = False
            for x in files.split():
                try: ok = ok or len(c_params(x, f)) == n
                except RuntimeError: pass
            if not ok: return False
        return all(hasattr(lib, f) for f in SIG)
    except Exception: return False
REF = same_interface()
def pixel(rep):
    kind = int(rng.integers(0, 7)); years = {0: 3, 1: 6, 2: 12, 3: 25, 4: 46, 5: 2, 6: 5}[kind]; per = {0: 22, 1: 14, 2: 12, 3: 9, 4: 9, 5: 40, 6: 7}[kind]
    m = int(years * per * rng.uniform(.8, 1.2)) + 4; d = np.sort(724000 + rng.choice(int(years * 365.25), min(m, years * 365), replace=False)); m = len(d)
    if rng.random() < .3: d[rng.integers(1, m, 3)] = d[rng.integers(1, m, 3) - 1]; d = np.sort(d)
    qa = rng.choice([0, 1, 2, 3, 4, 255], m, p=[.86, .03, .02, .03, .04, .02])
    if (qa < 2).sum() < 24: qa[rng.permutation(m)[:30]] = 0
    t = d * 2 * np.pi / 365.25; B = []
    for base, amp, sd in ((400, 60, 20), (600, 90, 30), (700, 150, 40), (2500, 700, 90), (1500, 300, 60), (900, 200, 50)): B.append(np.rint(base + amp * np.cos(t) + rng.normal(0, sd, m)))
    T = np.rint(2880 + 90 * np.cos(t) + rng.normal(0, 20, m))
    steps = np.sort(rng.choice(d, int(rng.integers(0, 4))))
    for s in steps:
        for j in range(6): B[j][d >= s] += rng.normal(0, 250)
    for _ in range(int(rng.integers(0, m // 8 + 2))):
        i = int(rng.integers(0, m)); a = rng.choice([150, 400, 1500, 5000])
        for j in range(6): B[j][i] += a
    for _ in range(int(rng.integers(0, 6))): B[int(rng.integers(0, 6))][int(rng.integers(0, m))] = rng.choice([0, -300, -9999, 10000, 16000])
    if rng.random() < .03: B[int(rng.integers(0, 6))][rng.permutation(m)[int(rng.integers(0, 8)):]] = -9999
    B = [np.maximum(b, -9999).astype(np.int64) for b in B]; T = T.astype(np.int64); T[rng.integers(0, m, 2)] = rng.choice([0, 100, 2880])
    if rng.random() < .1: T[:] = 0
    br = []
    for _ in range(int(rng.integers(0, 6))):
        r = rng.random()
        if r < .5: br.append(int(rng.choice(d)))
        elif r < .8: br.append(int(rng.integers(d[0] - 400, d[-1] + 400)))
        elif r < .9 and br: br.append(br[-1] + int(rng.choice([0, 1, 364, 365, 366, 367])))
        else: br.append(int(rng.choice([0, -5, 1, 366, 900000])))
    if kind == 4 and rng.random() < .7: br = [int(d[0]) + 20 + int(q * rng.choice([366, 367, 372])) for q in range(years)] if rng.random() < .3 else [int(d[0]) + 20 + 367 * q for q in range(years)]
    br += [0] * int(rng.integers(0, 4)); br = br or [0]; rng.shuffle(br)
    return d.astype(np.int64), B, T, qa.astype(np.int64), np.array(br, np.int64), bool(rng.integers(0, 2)), int(rng.choice([1, 2, 3, 4, 6, 6, 9, 11]))
def usable(d, B, T, qa, c2):
    """the observations that count: clear, in range, the first of each date"""
    t = np.where(T == 0, 0, T * 10 - 27320) if not c2 else np.zeros(len(d))
    ok = (qa < 2) & (B[0] > -200) & (t > -9320) & (t < 7070)
    for j in range(6): ok &= (B[j] < 10000) & ((B[j] > 0) | (j == 0))
    idx = []
    for i in np.where(ok)[0]:
        if not idx or d[idx[-1]] != d[i]: idx.append(i)
    return idx
def retained(br):
    out = []; last = 0
    for b in sorted(int(x) for x in br):
        if b > 0 and b - last >= 365.25: out.append(b); last = b
    return out
def nearest(x, b): return int(np.argmin(np.abs(x - b)))
def limit(n): return 4 if n < 18 else 6 if n < 24 else 8
def reference(d, B, T, qa, br, c2, conse):
    idx = usable(d, B, T, qa, c2); n = len(idx)
    if n == 0: return []
    x = d[idx].astype(np.int32); Y = np.array([b[idx] for b in B] + [T[idx] * 10 - 27320]).astype(np.float32); out = []
    mr = np.zeros(7, np.float32); dv, mx = ctypes.c_float(0), ctypes.c_float(0)
    if lib.adjust_median_variogram(P(x), rows(Y), 7, 0, n - 1, ctypes.byref(dv), ctypes.byref(mx), P(mr), 1): raise RuntimeError("noise failed")
    keep = retained(br); last = 0
    def fit(x, Y, lo, hi, k, bands):
        x = np.ascontiguousarray(x, np.int32); Y = np.ascontiguousarray(Y, np.float32)
        c = np.zeros((7, 8), np.float32); e = np.zeros(7, np.float32); v = np.zeros((7, len(x) + 1), np.float32); cr, yr, vr = rows(c), rows(Y), rows(v)
        for b in bands:
            q = ctypes.c_float(0)
            if lib.auto_ts_fit_float(P(x), yr, b, b, lo, hi - 1, k, cr, ctypes.byref(q), vr): raise RuntimeError("fit failed")
            e[b] = q.value
        return c, e
    def predict(x, c, k, b, i):
        q = ctypes.c_float(0); x = np.ascontiguousarray(x, np.int32); lib.auto_ts_predict_float(P(x), rows(c), k, b, i, i, ctypes.byref(q)); return np.float32(q.value)
    for j in range(len(keep) + 1):
        final = j == len(keep); i = len(x) if final else nearest(x, keep[j])
        if i - last < 6: continue
        if i - last >= 12 and not final:
            n = i - last; bl = np.zeros(n, np.int32); yr = np.float32(np.float32(x[i - 1] - x[last] + 1) / 365.25); lib.auto_mask.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int, ctypes.c_int, ctypes.c_float, ctypes.c_float, ctypes.c_float, ctypes.c_float, ctypes.c_void_p]
            x = np.ascontiguousarray(x, np.int32); Y = np.ascontiguousarray(Y, np.float32); rr = rows(Y)
            if lib.auto_mask(x.ctypes.data, ctypes.addressof(rr), last, i - 1, yr, mr[1], mr[4], 4.42, bl.ctypes.data): raise RuntimeError("screen failed")
            rm = [last + q for q in range(n) if bl[q] == 1]
            if n - len(rm) < 6: continue
            x2 = np.delete(x, rm); Y2 = np.delete(Y, rm, 1); i2 = i - len(rm); k = limit(i2 - last)
            c, e = fit(x2, Y2, last, i2, k, range(1, 6)); rm = []
            for q in range(last, i2):
                s = np.float32(0)
                for b in range(1, 6): v = np.float32((Y2[b, q] - predict(x2, c, k, b, q)) / max(mr[b], e[b])); s = np.float32(s + v * v)
                if s > 15.0863: rm.append(q)
            if i2 - last - len(rm) < 6: continue
            x = np.delete(x2, rm); Y = np.delete(Y2, rm, 1); i = i2 - len(rm)
        k = limit(i - last); c, e = fit(x, Y, last, i, k, range(7))
        s = dict(t_start=int(x[last]), t_end=int(x[i - 1]), num_obs=i - last, category=k, coefs=c, rmse=e, t_break=0, prob=0, mag=np.zeros(7, np.float32))
        if not final:
            q = min(conse, len(x) - i); s["t_break"] = int(x[i]); s["prob"] = 100
            s["mag"] = np.array([np.median(np.array([Y[b, i + w] - predict(x, c, k, b, i + w) for w in range(q)], np.float32)) for b in range(7)])
            last = i
        out.append(s)
    if out: out[-1].update(t_break=0, prob=0, mag=np.zeros(7, np.float32))
    return out
def stated(r, d, B, T, qa, br, c2):
    """the statement on the records themselves"""
    idx = usable(d, B, T, qa, c2); u = d[idx]; keep = retained(br); near = {int(u[nearest(u, b)]) for b in keep}; bad = []; prev = None
    if len(r) > 40: bad.append(("at most forty segments", 40, len(r)))
    for s in r:
        a, b, q, p = int(s["t_start"]), int(s["t_end"]), int(s["t_break"]), int(s["change_prob"])
        if a > b: bad.append(("a segment starts no later than it ends", None, (a, b)))
        if a not in u or b not in u: bad.append(("start and end are usable observations", None, (a, b)))
        if prev is not None and a <= prev: bad.append(("segments follow one another", None, (prev, a)))
        if s is not r[-1] and (q == 0 or p != 100): bad.append(("every segment but the last ends in a break", None, (q, p)))
        if q and (q not in near or q <= b): bad.append(("a break is the usable observation nearest to a retained break date", sorted(near), q))
        n = int(((u >= a) & (u <= b)).sum())
        if not 0 < int(s["num_obs"]) <= n: bad.append(("the number of observations is that of the segment", n, int(s["num_obs"])))
        prev = b
    if len(r) and (int(r[-1]["t_break"]) or int(r[-1]["change_prob"]) or np.any(r[-1]["magnitude"])): bad.append(("the last segment has no break", None, int(r[-1]["t_break"])))
    return bad
def batch(k, pk):
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1); sys.path.insert(0, pk)
    for m in [x for x in sys.modules if x.startswith("pycold")]: del sys.modules[m]
    import pycold; out = []; st = [0, 0, 0, 0]
    for rep in range(k):
        d, B, T, qa, br, c2, conse = pixel(rep); st[0] += 1; inp = {"dates": d.tolist(), "bands": [b.tolist() for b in B], "thermal": T.tolist(), "qa": qa.tolist(), "break_dates": br.tolist(), "b_c2": c2, "conse": conse}
        want = reference(d, B, T, qa, br, c2, conse) if REF else None; b2 = br.copy(); pos = int(rng.integers(1, 10 ** 6))
        try: r = list(pycold.obcold_reconstruct(d.copy(), *[b.copy() for b in B], T.copy(), qa.copy(), b2, pos=pos, conse=conse, b_c2=c2))
        except Exception as e:
            if "no change records" not in str(e): out.append(("it succeeds", inp, None, repr(e)))
            elif want: out.append(("segments of the retained break dates", inp, [(s["t_start"], s["t_end"], s["t_break"]) for s in want], []))
            continue
        st[1] += len(r); few = want is not None and not want   # then the pixel falls back to the procedure for few observations (P23)
        if few:
            if len(r) != 1 or int(r[0]["category"]) not in (44, 54): out.append(("without a segment the pixel gets the single fallback segment", inp, 1, len(r)))
            continue
        st[2] += len(r) > 1; st[3] = max(st[3], len(r))
        if want is None and len(r) == 1 and int(r[0]["category"]) in (44, 54): continue
        for what, w, g in stated(r, d, B, T, qa, br, c2)[:2]: out.append((what, inp, w, g))
        if any(int(s["pos"]) != pos for s in r): out.append(("every segment carries the position", inp, pos, [int(s["pos"]) for s in r]))
        if want is not None:
            a = [(s["t_start"], s["t_end"], s["t_break"], s["num_obs"], s["category"], s["prob"]) for s in want[:40]]; g = [(int(s["t_start"]), int(s["t_end"]), int(s["t_break"]), int(s["num_obs"]), int(s["category"]), int(s["change_prob"])) for s in r]
            if len(want) > 40: a, g = a[:39], g[:39]
            if a != g: out.append(("segments are those between the retained break dates (start, end, break, observations, category, probability)", inp, a, g))
            else:
                for s, w in zip(r[:len(a)], want):
                    for nm, q in (("coefs", w["coefs"]), ("rmse", w["rmse"]), ("magnitude", w["mag"])):
                        if not np.allclose(s[nm], q, rtol=1e-3, atol=.05): out.append((nm + " are those of the segment's own observations", inp, np.asarray(q).tolist(), s[nm].tolist())); break
        if len(out) > 3: break
    return st, out
pk = ext_package(c_objects(), "ob_pkg"); n = 0; tot = [0, 0, 0, 0]
for chunk in range(4 if not THOROUGH else 12):
    r = forked(lambda: batch(150, pk), 200)
    rng = np.random.default_rng(SEED * 1000 + chunk + 1)
    if isinstance(r, dict):
        if "error" in r: raise RuntimeError(str(r))
        violation("obcold_reconstruct crashes or hangs", {"seed": SEED, "chunk": chunk}, None, r); continue
    tot = [tot[0] + r[0][0], tot[1] + r[0][1], tot[2] + r[0][2], max(tot[3], r[0][3])]
    for what, *e in r[1][:3]: violation("object-based reconstruction: " + what, *e)
# every usable value out of range: nothing to segment
d = np.arange(60) * 16 + 730000
pat = ext_package(c_objects(("-O0", "-ftrivial-auto-var-init=pattern"), "pat"), "ob_pat")
def empty():
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1); sys.path.insert(0, pat)
    for m in [x for x in sys.modules if x.startswith("pycold")]: del sys.modules[m]
    import pycold; B = [np.full(60, 1000)] * 6; out = []
    for good in range(0, 7):
        b0 = np.full(60, -9999); b0[:good] = 500
        try: pycold.obcold_reconstruct(*[x.astype(np.int64).copy() for x in (d, b0, *B[1:], np.full(60, 2900), np.zeros(60))], np.array([730300, 730500, 0]))
        except Exception as e:
            if "no change records" not in str(e): out.append(repr(e))
    return out
r = forked(empty, 60)
if isinstance(r, dict):
    if "error" in r: raise RuntimeError(str(r))
    violation("obcold_reconstruct crashes or hangs without usable observations", {"clear": 60, "in range": "0 to 6", "break_dates": [730300, 730500, 0]}, "no segment", r)
stats(evaluations=tot[0] + 7, segments=tot[1], with_breaks=tot[2], most_segments=tot[3], reference=REF, rule="random pixels of 2 to 46 years with steps, outliers, invalid values and repeated dates; break dates on, between and outside observations, unsorted, repeated, zero, negative, a year apart and less")
