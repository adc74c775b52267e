"""P17 / P19 on the real code: cold_detect against an independent COLD (coldref) and against the
statements themselves, over random pixels with steps, spikes, gaps, few or many observations."""
from coldref import *
PID = sys.argv[1] if len(sys.argv) > 1 else "P17"
rng = np.random.default_rng(SEED)
py_package()
def pixel(many=False):
    kind = int(rng.integers(0, 6)); years = {0: 4, 1: 8, 2: 15, 3: 25, 4: 3, 5: 6}[kind]; per = {0: 20, 1: 14, 2: 11, 3: 9, 4: 40, 5: 9}[kind]
    if many: years, per = 70, 24
    m = int(years * per * rng.uniform(.8, 1.2)) + 4; d = np.sort((724000 if not many else 724000) + rng.choice(int(years * 365.25), min(m, years * 365), replace=False)); m = len(d)
    if not many and rng.random() < .3:
        a = d[0] + rng.integers(0, d[-1] - d[0]); d = d[(d < a) | (d > a + rng.choice([200, 400, 800]))]; m = len(d)
        if m < 30: d = np.sort(724000 + rng.choice(1500, 60, replace=False)); m = 60
    if rng.random() < .3: d[rng.integers(1, m, 3)] = d[rng.integers(1, m, 3) - 1]; d = np.sort(d)
    qa = rng.choice([0, 1, 2, 3, 4, 255], m, p=[.87, .03, .02, .02, .04, .02])
    if many: qa[:] = 0
    if (qa < 2).sum() < 24: qa[rng.permutation(m)[:30]] = 0
    t = d * 2 * np.pi / 365.25; B = []; q = rng.uniform(.3, 1.2)
    for base, amp, sd in ((400, 60, 20), (600, 90, 30), (700, 150, 40), (2500, 700, 90), (1500, 300, 60), (900, 200, 50)): B.append(np.rint(base + amp * np.cos(t) + rng.normal(0, sd * q, m)))
    T = np.rint(2880 + 90 * np.cos(t) + rng.normal(0, 20, m))
    steps = np.sort(rng.choice(d, int(rng.integers(0, 5)))) if not many else np.arange(d[0] + 440, d[-1], 440)
    sg = 1
    for s in steps:
        sg = -sg
        for j in range(6): B[j][d >= s] += abs(rng.normal(0, 300)) * (sg if j != 4 else -sg) if not many else (400 * sg if s != steps[0] else 200 * sg) * (1 if j != 3 else -1)
    for _ in range(int(rng.integers(0, m // 10 + 2)) if not many else 0):
        i = int(rng.integers(0, m)); a = rng.choice([150, 400, 1500, 5000])
        for j in range(6): B[j][i] += a
    r = rng.random()
    if not many and r < .15:                       # an unfinished change at the end
        w = int(rng.integers(1, 9))
        for j in range(6): B[j][-w:] += 1200 if j != 3 else -900
    elif not many and r < .3:                      # a different beginning
        w = int(rng.integers(4, 16))
        for j in range(6): B[j][:w] += 900 if j != 3 else -700
    for _ in range(int(rng.integers(0, 6)) if not many else 0): B[int(rng.integers(0, 6))][int(rng.integers(0, m))] = rng.choice([0, -300, -9999, 10000, 16000])
    if not many and rng.random() < .03: B[int(rng.integers(0, 6))][rng.permutation(m)[int(rng.integers(0, 8)):]] = -9999
    B = [np.maximum(b, -9999).astype(np.int64) for b in B]; T = T.astype(np.int64); T[rng.integers(0, m, 2)] = rng.choice([0, 100, 2880])
    if rng.random() < .1: T[:] = 0
    return d.astype(np.int64), B, T, qa.astype(np.int64), bool(rng.integers(0, 2)), int(rng.choice([2, 3, 4, 6, 6, 6, 8, 11])), float(rng.choice([15.0863, 15.0863, 9.236, 6.6, 40.])), float(rng.choice([365.25, 365.25, 180., 1000.]))
def stated(r, d, B, T, qa, c2):
    """P17's statement on the records"""
    u = d[usable(d, B, T, qa, c2)]; bad = []; prev = None; pb = 0
    if len(r) > 40: bad.append(("at most forty segments", 40, len(r)))
    for s in r:
        a, b, q, p, n, k = int(s["t_start"]), int(s["t_end"]), int(s["t_break"]), int(s["change_prob"]), int(s["num_obs"]), int(s["category"])
        if a > b: bad.append(("a segment starts no later than it ends", None, (a, b)))
        if a not in u or b not in u or (q and q not in u): bad.append(("start, end and break are dates of usable observations", None, (a, b, q)))
        if q and q <= b: bad.append(("a segment ends before its break", None, (b, q)))
        if prev is not None and (a <= prev or a < pb or pb == 0): bad.append(("segments follow one another, each but the last with a break", None, (prev, pb, a)))
        if not 0 <= p <= 100 or (q != 0) != (p > 0): bad.append(("a break goes with a probability of 1 to 100, none with 0", None, (q, p)))
        if not 0 < n <= len(u): bad.append(("the number of observations is positive and at most the usable ones", len(u), n))
        if k % 10 not in (4, 6, 8) or k // 10 > 2 or (k >= 10 and k % 10 != 4) or (k < 10 and k != limit(n)): bad.append(("the category is the one of the number of observations", limit(n), k))
        if np.any(s["coefs"][:, k % 10:]): bad.append(("no coefficients beyond the category's", None, s["coefs"].tolist()))
        prev, pb = b, q
    return bad
def grid(r, cm, d, B, T, qa, c2, C, D):
    """P19's statement on the magnitudes and their dates"""
    u = set(int(v) for v in d[usable(d, B, T, qa, c2)]); bad = []
    if len(C) != cm[2] or len(D) != cm[2] or C.dtype != np.int16 or D.dtype != np.int16: return [("one 16-bit entry per interval", cm[2], (len(C), len(D), str(C.dtype), str(D.dtype)))]
    for q in range(cm[2]):
        m, t = int(C[q]), int(D[q])
        if (m == -9999) != (t == -9999): bad.append(("magnitude and date are filled together", q, (m, t)))
        elif m != -9999:
            if not 0 <= m <= 32767: bad.append(("a magnitude is 0 to 32767", q, m))
            if t + 723742 not in u or not cm[0] + q * cm[1] <= t + 723742 < cm[0] + (q + 1) * cm[1]: bad.append(("the date of an entry is a usable observation inside its own interval", (q, cm), t + 723742))
    return bad
def batch(k, pk, many=0):
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1); sys.path.insert(0, pk)
    for m in [x for x in sys.modules if x.startswith("pycold")]: del sys.modules[m]
    import pycold; out = []; st = dict(n=0, seg=0, brk=0, most=0, prob=0, early=0, cells=0, skipped=0)
    for rep in range(k):
        d, B, T, qa, c2, conse, tcg, gap = pixel(rep < many); st["n"] += 1
        if rep < many: conse, tcg, gap = 3, 15.0863, 365.25
        cm = None
        if PID == "P19":
            s0 = int(d[0]) - int(rng.choice([0, 0, 0, 1, 59, 60, 61, 1000])); iv = int(rng.choice([1, 7, 30, 60, 60, 365, 100000])); cm = (s0, iv, int((d[-1] - s0) // iv) + 1)
            style = int(rng.integers(0, 3)) if iv < 100000 else 0
            if style == 1: cm = (int(d[0]), iv, 0)
            if style == 2: cm = (int(d[0]), 60, 0)
            need = -(-int(d[-1] - cm[0] + 1) // cm[1]); kw = [dict(starting_date=cm[0], n_cm=cm[2], cm_output_interval=cm[1]), dict(cm_output_interval=iv), {}][style]; kw["b_output_cm"] = True
        else: kw = {}
        pos = int(rng.integers(1, 10 ** 6)); inp = {"dates": d.tolist(), "bands": [b.tolist() for b in B], "thermal": T.tolist(), "qa": qa.tolist(), "b_c2": c2, "conse": conse, "t_cg": tcg, "gap_days": gap, "pos": pos, "options": kw}
        try: r = pycold.cold_detect(d.copy(), *[b.copy() for b in B], T.copy(), qa.copy(), t_cg=tcg, conse=conse, b_c2=c2, pos=pos, gap_days=gap, **kw)
        except Exception as e: r = e
        if isinstance(r, Exception) and "no change records" not in str(r): out.append(("it succeeds", inp, None, repr(r))); continue
        fail = isinstance(r, Exception); few = int((qa < 2).sum()) < 24
        if PID == "P19" and not fail:
            if len(r) != 3: out.append(("records, magnitudes and dates are returned", inp, 3, len(r))); continue
            r, C, D = r
            if cm[2] == 0:
                if not len(C) >= need: out.append(("the intervals cover the whole period", inp, need, len(C))); continue
                cm = (cm[0], cm[1], len(C))
            for what, w, g in grid(r, cm, d, B, T, qa, c2, C, D)[:2]: out.append((what, inp, w, g))
        if few: continue
        if PID == "P19" and fail: continue
        want = cold(d, B, T, qa, c2, conse, tcg, gap, cm) if REF else None
        if fail:
            if want and want[0] and not (want[3].near or want[3].nan): out.append(("it returns the segments", inp, len(want[0]), 0))
            continue
        st["seg"] += len(r); st["brk"] += len(r) > 1; st["most"] = max(st["most"], len(r)); st["prob"] += any(0 < int(s["change_prob"]) < 100 for s in r); st["early"] += any(int(s["category"]) == 14 for s in r)
        if PID == "P17":
            for what, w, g in stated(r, d, B, T, qa, c2)[:2]: out.append((what, inp, w, g))
            if any(int(s["pos"]) != pos for s in r): out.append(("every segment carries the position", inp, pos, [int(s["pos"]) for s in r]))
        if want and (want[3].near or want[3].nan): st["skipped"] += 1
        elif want and PID == "P17":
            a = [(s["t_start"], s["t_end"], s["t_break"], s["num_obs"], s["category"], s["prob"]) for s in want[0]]; g = [(int(s["t_start"]), int(s["t_end"]), int(s["t_break"]), int(s["num_obs"]), int(s["category"]), int(s["change_prob"])) for s in r]
            if a != g: out.append(("segments are those of the algorithm (start, end, break, observations, category, probability)", inp, a, g))
            else:
                for s, w in zip(r, want[0]):
                    for nm, q in (("coefs", w["coefs"]), ("rmse", w["rmse"]), ("magnitude", w["mag"])):
                        if not np.allclose(s[nm], q, rtol=1e-3, atol=.05): out.append((nm + " are those of the segment's own observations", inp, np.asarray(q).tolist(), s[nm].tolist())); break
        elif want:
            st["cells"] += int((want[1] != -9999).sum())
            if np.any(np.abs(C - want[1]) > 1 + 1e-4 * np.abs(want[1])): q = int(np.argmax(np.abs(C - want[1]) > 1 + 1e-4 * np.abs(want[1]))); out.append(("an entry is the largest magnitude of its interval", inp, (q, int(want[1][q])), (q, int(C[q]))))
            elif np.any((D != want[2]) & (np.abs(C - want[1]) == 0) & (want[1] < 32767)): q = int(np.argmax((D != want[2]) & (C == want[1]))); out.append(("the date is that of the largest magnitude", inp, (q, int(want[2][q])), (q, int(D[q]))))
        if len(out) > 3: break
    return st, out
pk = ext_package(c_objects(), "cold_pkg_" + PID); tot = {}
for chunk in range(4 if not THOROUGH else 14):
    r = forked(lambda: batch(110, pk, 2 if chunk == 0 and PID == "P17" else 0), 300); rng = np.random.default_rng(SEED * 1000 + chunk + 1)
    if isinstance(r, dict):
        if "error" in r: raise RuntimeError(str(r))
        violation("cold_detect crashes or hangs", {"seed": SEED, "chunk": chunk}, None, r); continue
    for q, v in r[0].items(): tot[q] = max(tot.get(q, 0), v) if q == "most" else tot.get(q, 0) + v
    for what, *e in r[1][:3]: violation(("cold detection: " if PID == "P17" else "change magnitudes: ") + what, *e)
stats(evaluations=tot.get("n", 0), reference=REF, **{{"seg": "segments", "brk": "pixels_with_breaks", "most": "most_segments", "prob": "with_probable_change", "early": "with_early_segment", "cells": "cells", "skipped": "near_ties_not_compared"}.get(q, q): v for q, v in tot.items() if q != "n"}, rule="random pixels of 3 to 62 years with steps, spikes, gaps, unfinished changes, different beginnings, invalid values and repeated dates; thresholds, consecutive counts and gaps varied")
