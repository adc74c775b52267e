"""P20 on the real code: sccd_detect on a beginning of a series and sccd_update on every kind of
split of the rest; the state is checked against the observations handed in so far."""
from common import *
py_package()
rng = np.random.default_rng(SEED)
LAUNCH = 723742
def usable(d, B, T, qa, c2):
    t = np.where(T == 0, 0, T * 10 - 27320) if not c2 else np.zeros(len(d))
    ok = (qa < 2) & (B[0] > -200) & (t > -9320) & (t < 7070)
    for j in range(6): ok &= (B[j] < 10000) & ((B[j] > 0) | (j == 0))
    return ok
def take(fed, d, B, ok):
    """the accepted ones follow those already held; of one date the first counts"""
    for i in np.where(ok)[0]:
        if not fed or fed[-1][0] != d[i]: fed.append((int(d[i]), tuple(int(b[i]) for b in B)))
def pixel(kind):
    """kind: stable, change, short (a year is never spanned), few, snow, mixed"""
    c2 = bool(rng.integers(0, 2))
    if kind == "short":
        m = int(rng.integers(250, 345)); d = np.concatenate([[730000], 730400 + np.arange(m)]); 
    elif kind == "few":
        m = int(rng.integers(3, 40)); d = np.sort(730000 + rng.choice(900, m, replace=False)); d[-1] = max(d[-1], d[0] + 370)
    else:
        years = int(rng.integers(3, 9)); per = int(rng.choice([12, 20, 35, 60])) if kind != "snow" or rng.random() < .5 else 9; m = years * per
        d = np.sort(rng.choice([727000, 735000]) + rng.choice(int(years * 365.25), m, replace=False))
    m = len(d)
    if kind in ("change", "mixed") and rng.random() < .3:
        a = d[0] + rng.integers(0, d[-1] - d[0]); d = d[(d < a) | (d > a + rng.choice([200, 400]))]; m = len(d)
    if m > 5 and rng.random() < .3: d[rng.integers(1, m, 2)] = d[rng.integers(1, m, 2) - 1]; d = np.sort(d)
    qa = rng.choice([0, 1, 2, 3, 4, 255], m, p=[.86, .04, .03, .02, .03, .02]) if kind != "snow" else rng.choice([0, 3, 4], m, p=[.1, .85, .05])
    if kind == "short": qa[:] = 0; qa[0] = 4
    if kind in ("change", "snow") and rng.random() < .15: qa[:int(np.searchsorted(d, d[0] + 366)) + 1] = 4   # nothing to begin with
    t = d * 2 * np.pi / 365.25; B = []; q = rng.uniform(.2, 1.)
    for base, amp, sd in ((400, 60, 20), (600, 90, 30), (700, 150, 40), (2500, 700, 90), (1500, 300, 60), (900, 200, 50)): B.append(np.rint(base + amp * np.cos(t) + np.clip(rng.normal(0, sd * q, m), -2.5 * sd * q, 2.5 * sd * q)))
    if kind in ("change", "mixed", "snow"):
        sg = 1
        for s in np.sort(rng.choice(d, int(rng.integers(1, 4)))):
            sg = -sg
            for j in range(6): B[j][d >= s] += abs(rng.normal(500, 300)) * (sg if j != 3 else -sg)
    if kind in ("change", "mixed"):
        for _ in range(int(rng.integers(0, m // 12 + 2))):
            i = int(rng.integers(0, m)); a = rng.choice([150, 400, 1500, 5000])
            for j in range(6): B[j][i] += a
    if kind == "mixed":
        for _ in range(int(rng.integers(0, 6))): B[int(rng.integers(0, 6))][int(rng.integers(0, m))] = rng.choice([0, -300, -9999, 10000, 16000])
    B = [np.maximum(b, -9999 if kind == "mixed" else 1).astype(np.int64) for b in B]; T = np.full(m, 2880, dtype=np.int64)
    return d.astype(np.int64), B, T, qa.astype(np.int64), c2
def rec(a): return [tuple(np.asarray(a[f][i]).tobytes() for f in a.dtype.names) for i in range(len(a))] if len(a) else []
def freeze(s): return (s.position, rec(s.rec_cg), bytes(np.asarray(s.min_rmse)), int(s.nrt_mode), rec(s.nrt_model), rec(s.nrt_queue))
NEXT = {0: (0, 1, 12, 3, 4), 1: (1, 5), 12: (12, 1), 5: (5, 12), 3: (3,), 4: (4, 3), 11: (11, 1, 12), 2: (2, 1, 5)}
def judge(old, s, fed, new, conse, kind):
    """what the state must be, given the state before and everything accepted so far"""
    bad = []; m = int(s.nrt_mode); om = int(old.nrt_mode) if old is not None else 0; M, Q = s.nrt_model, s.nrt_queue
    if m not in NEXT[om]: bad.append(("a mode that can follow %d" % om, NEXT[om], m)); return bad
    if (len(Q) > 0) != (m in (2, 12, 5, 4)): bad.append(("a queue exactly in the modes that need one", m, len(Q)))
    if len(M) != (1 if m in (1, 11, 3, 5) else 0): bad.append(("a model exactly in the modes that need one", m, len(M)))
    if bad: return bad
    was = rec(old.rec_cg) if old is not None else []; now = rec(s.rec_cg)
    if now[:len(was)] != was: bad.append(("closed segments stay as they are", [int(x) for x in old.rec_cg["t_break"]], [int(x) for x in s.rec_cg["t_break"]] if len(now) else []))
    if old is not None and om and bytes(np.asarray(old.min_rmse)) != bytes(np.asarray(s.min_rmse)): bad.append(("the pixel's noise stays", list(old.min_rmse), list(s.min_rmse)))
    dates = [x[0] for x in fed]; ds = set(dates); at = dict(fed); tb = [int(x) for x in s.rec_cg["t_break"]] if len(now) else []
    if any(b <= a for a, b in zip(tb, tb[1:])) or any(x not in ds for x in tb) or any(int(a) >= int(b) for a, b in zip(s.rec_cg["t_start"] if len(now) else [], tb)): bad.append(("segments close at observed dates, one after another", None, tb))
    if new == 0 and old is not None and m == om and om not in (3, 0) and freeze(s)[1:] != freeze(old)[1:]: bad.append(("without a new observation the state stays", om, m))
    if len(Q):
        qd = [int(x) + LAUNCH for x in Q["clrx_since1982"]]
        if len(qd) > 240: bad.append(("at most 240 queued observations", 240, len(qd)))
        if any(b <= a for a, b in zip(qd, qd[1:])): bad.append(("the queue is in chronological order", None, qd[:20]))
        for i, x in enumerate(qd):
            if x not in at or tuple(int(v) for v in Q["clry"][i]) != at[x]: bad.append(("queued observations are accepted observations", at.get(x), (x, Q["clry"][i].tolist()))); break
        w = min(len(qd), conse if m != 4 else len(dates))
        if qd[len(qd) - w:] != dates[len(dates) - w:]: bad.append(("the newest observations are queued", dates[-w:], qd[-w:]))
        if (m == 4 or kind in ("short", "few") and not tb and len(fed) < 19 or kind == "short" and m == 12) and qd != dates[-240:]: bad.append(("all unconsumed observations are queued, the newest 240", (len(dates), dates[-3:]), (len(qd), qd[:2], qd[-3:])))
    if m in (1, 11, 3, 5):
        r = M[0]; td = [int(x) + LAUNCH for x in r["obs_date_since1982"]]; k = 8 if m == 3 else conse
        tail = fed[-k:] if m != 5 else [(x, at.get(x)) for x in td[:k]]
        if m == 5 and (not tb or td[0] != tb[-1] or any(b <= a for a, b in zip(td[:k], td[1:k])) or any(x not in ds for x in td[:k])): bad.append(("the model carries the observations of the change", tb[-1:], td[:k]))
        elif td[:k] != [x[0] for x in tail] or any(tuple(int(v) for v in r["obs"][:, i]) != tail[i][1] for i in range(k)): bad.append(("the model carries the newest observations", [x[0] for x in tail], td[:k]))
        if any(x != LAUNCH for x in td[k:]) or np.any(r["obs"][:, k:]): bad.append(("nothing else is carried", None, td[k:]))
        if int(r["num_obs"]) <= 0 or int(r["t_start_since1982"]) + LAUNCH not in ds or int(r["t_start_since1982"]) + LAUNCH > td[0]: bad.append(("the model begins at an observed date", None, (int(r["num_obs"]), int(r["t_start_since1982"]) + LAUNCH)))
        if m in (1, 11):
            a = [x for x in dates if int(r["t_start_since1982"]) + LAUNCH <= x < td[0]]; nb = int(r["num_obs"])
            if nb > len(a) or kind == "stable" and m == 1 and nb < .75 * len(a) - 2: bad.append(("a model counts the observations of its segment", len(a), nb))
            if om == m and len(now) == len(was) and not int(old.nrt_model["num_obs"][0]) <= nb <= int(old.nrt_model["num_obs"][0]) + new: bad.append(("a model counts the new observations", (int(old.nrt_model["num_obs"][0]), new), nb))
        if m == 5 and tb:
            c = s.rec_cg[-1]
            if (int(c["t_start"]), int(c["num_obs"])) != (int(r["t_start_since1982"]) + LAUNCH, int(r["num_obs"])) or not np.array_equal(c["coefs"], r["nrt_coefs"]) or int(r["conse_last"]) != conse: bad.append(("after a change the model is that of the closed segment", None, (int(r["num_obs"]), int(r["conse_last"]))))
    if len(now) > len(was) and len(Q) and not int(Q["clrx_since1982"][0]) + LAUNCH >= tb[-1]: bad.append(("after a change the queue starts at it or later", tb[-1], int(Q["clrx_since1982"][0]) + LAUNCH))
    if om == 1 and m != (5 if len(now) > len(was) else 1): bad.append(("a change found while monitoring leads to the change mode", 5 if len(now) > len(was) else 1, m))
    if om == 5 and new and len(now) == len(was) and len(dates) >= conse:
        soon = dates[-conse] - (int(old.nrt_model["obs_date_since1982"][0][0]) + LAUNCH) < 15
        if m != (5 if soon else 12): bad.append(("the change mode ends after the delay", 5 if soon else 12, m))
    return bad
def parts(m, lo):
    """cut points after the first lo observations"""
    how = int(rng.integers(0, 4)); rest = m - lo
    if rest <= 0: return [lo]
    if how == 0: return [lo, m]
    if how == 1: return list(range(lo, m + 1)) if rest < 60 else list(range(lo, lo + 50)) + [m]
    if how == 2: return [lo] + sorted(set(int(x) for x in rng.integers(lo + 1, m + 1, int(rng.integers(1, 6))))) + [m]
    return list(range(lo, m, int(rng.integers(2, 9)))) + [m]
def batch(reps, pkg):
    sys.path.insert(0, pkg)
    for q in [x for x in sys.modules if x.split(".")[0] == "pycold"]: del sys.modules[q]
    import pycold
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    out = []; st = {"n": 0, "modes": {}, "updates": 0, "full": 0, "same": 0}
    for rep in range(reps):
        kind = ["stable", "change", "short", "few", "snow", "mixed", "stable", "change"][rep % 8]; d, B, T, qa, c2 = pixel(kind); conse = int(rng.choice([6, 6, 8, 3, 4, 5, 7]))
        lo = int(np.searchsorted(d, d[0] + 366)); m = len(d)
        if d[-1] - d[0] < 366: continue
        lo = min(m, max(lo + 1, int(rng.integers(lo + 1, m + 1))) if kind != "few" and (kind not in ("snow", "change") or rng.random() < .5) else lo + 1); tcg = float(rng.choice([15.0863, 15.0863, 9.236, 30.]))
        if kind == "short": lo = m - int(rng.integers(0, 6)) if rng.random() < .5 else int(rng.integers(2, m)); lo = max(lo, 2)
        cuts = parts(m, lo); inp = {"dates": d, "bands": B, "thermal": T, "qa": qa, "conse": conse, "t_cg": tcg, "b_c2": c2, "cuts": cuts}
        def run(cuts):
            s, fed = None, []
            for a, b in zip([0] + cuts, cuts):
                if a == b: continue
                A = [x[a:b].copy() for x in (d, *B, T, qa)]; old = s; before = freeze(s) if s is not None else None; pos = 7 + rep
                try: s = pycold.sccd_detect(*A, conse=conse, t_cg=tcg, b_c2=c2, pos=pos) if s is None else pycold.sccd_update(s, *A, conse=conse, t_cg=tcg, b_c2=c2, pos=pos)
                except Exception as e: out.append(("it returns a state", dict(inp, to=b), None, repr(e)[:200])); return None, fed
                st["updates"] += 1; md = int(s.nrt_mode); st["modes"][md] = st["modes"].get(md, 0) + 1; st["full"] += len(s.nrt_queue) == 240
                if old is not None and freeze(old) != before: out.append(("the given state is left alone", dict(inp, to=b)))
                q0 = len(fed); ok = usable(d[a:b], [x[a:b] for x in B], T[a:b], qa[a:b], c2) if md not in (3, 4) else (qa[a:b] < 2) | (qa[a:b] == 3)
                if old is not None and old.nrt_mode == 0: fed = []; q0 = 0
                take(fed, d[a:b], [x[a:b] for x in B], ok)
                if int(s.position) != pos: out.append(("the position", inp, pos, int(s.position)))
                for what, w, g in judge(old, s, fed, len(fed) - q0, conse, kind)[:2]: out.append((what, dict(inp, to=b, kind=kind, before=None if old is None else int(old.nrt_mode)), w, g))
                if len(out) > 3: break
            return s, fed
        s, fed = run(cuts); st["n"] += 1
        if kind in ("change", "mixed", "stable"):          # pinpoints: the same state, and records of accepted observations only
            A = [x[:lo].copy() for x in (d, *B, T, qa)]; r = pycold.sccd_detect(*A, conse=conse, t_cg=tcg, b_c2=c2, pos=7, b_pinpoint=True, gate_tcg=min(tcg, 9.236)); r0 = pycold.sccd_detect(*A, conse=conse, t_cg=tcg, b_c2=c2, pos=7, gate_tcg=min(tcg, 9.236))
            if freeze(r[0]) != freeze(r0): out.append(("pinpoints do not change the state", inp, int(r0.nrt_mode), int(r[0].nrt_mode)))
            acc = []; take(acc, d[:lo], [x[:lo] for x in B], usable(d[:lo], [x[:lo] for x in B], T[:lo], qa[:lo], c2)); at = dict(acc)
            for q in r[1].rec_cg_pinpoint:
                st["pinpoints"] = st.get("pinpoints", 0) + 1; pd = [int(x) + LAUNCH for x in q["obs_date_since1982"]]; w = 8
                while w > 1 and pd[w - 1] == LAUNCH and not np.any(q["obs"][:, w - 1]): w -= 1
                if w < conse or pd[0] != int(q["t_break"]) or any(b <= a for a, b in zip(pd[:w], pd[1:w])) or any(x not in at or tuple(int(v) for v in q["obs"][:, i]) != at[x] for i, x in enumerate(pd[:w])): out.append(("a pinpoint record holds accepted observations from its date on", inp, [x for x in at if x >= int(q["t_break"])][:8], pd)); break
        if len(out) > 3: break
        if s is not None and len(cuts) > 2:            # one update or many: the same model
            one, _ = run([cuts[0], m]); first, _ = run([cuts[0]])
            if one is not None and int(one.nrt_mode) == int(s.nrt_mode) == int(first.nrt_mode) == 1 and len(one.rec_cg) == len(s.rec_cg) == len(first.rec_cg):
                st["same"] += 1; x, y = one.nrt_model[0], s.nrt_model[0]; t = int(d[-1]); w = 2 * np.pi / 365.25
                pv = lambda r: r["nrt_coefs"][:, 0].astype(float) + r["nrt_coefs"][:, 1].astype(float) * t / 10000 + r["nrt_coefs"][:, 2] * np.cos(w * t) + r["nrt_coefs"][:, 3] * np.sin(w * t) + r["nrt_coefs"][:, 4] * np.cos(2 * w * t) + r["nrt_coefs"][:, 5] * np.sin(2 * w * t)
                if int(x["num_obs"]) == int(y["num_obs"]):
                    if not np.allclose(pv(x), pv(y), rtol=.01, atol=5): out.append(("a split does not change the model", inp, pv(x).tolist(), pv(y).tolist()))
                    elif not np.allclose(x["rmse_sum"].astype(float), y["rmse_sum"].astype(float), rtol=.02, atol=200): out.append(("a split does not change the model's noise", inp, x["rmse_sum"].tolist(), y["rmse_sum"].tolist()))
                elif abs(int(x["num_obs"]) - int(y["num_obs"])) > 1: out.append(("a split does not change what is consumed", inp, int(x["num_obs"]), int(y["num_obs"])))
        if len(out) > 3: break
    return st, out
def short_first(pkg):
    """a first segment of a few observations before a change, every consecutive count"""
    sys.path.insert(0, pkg)
    for q in [x for x in sys.modules if x.split(".")[0] == "pycold"]: del sys.modules[q]
    import pycold
    for conse in range(3, 9):
        for f in range(4, 12):
            d = np.arange(735000, 735000 + 16 * 90, 16); m = len(d); B = [v + rng.normal(0, 15, m) for v in (300, 500, 600, 2500, 1500, 900)]
            for j in (2, 3, 5): B[j][:f] += 1500 if j != 3 else -1200
            A = [d.astype(np.int64)] + [x.astype(np.int64) for x in B] + [np.zeros(m, np.int64)] * 2
            print("CASE conse %d, change after %d observations" % (conse, f), file=sys.stderr, flush=True); pycold.sccd_detect(*A, conse=conse, pos=5)
def full(pkg):
    """more segments, or more years with pinpoints, than there are records for"""
    sys.path.insert(0, pkg)
    for q in [x for x in sys.modules if x.split(".")[0] == "pycold"]: del sys.modules[q]
    import pycold
    bad = []
    for case in ("pinpoints", "segments"):
        if case == "pinpoints":
            d = np.arange(724000, 724000 + 16 * 23 * 43, 16); t = d * 2 * np.pi / 365.25; m = len(d)
            B = [b + a * np.cos(t) + np.clip(rng.normal(0, s, m), -2 * s, 2 * s) for b, a, s in ((400, 60, 15), (600, 90, 20), (700, 150, 25), (2500, 700, 50), (1500, 300, 40), (900, 200, 30))]
            for y in range(1, 43):
                for j in range(6): B[j][y * 23 + 5:y * 23 + 9] += 900 if j != 3 else -900
            kw = dict(conse=6); cuts = [m]
        else:
            d = np.arange(724000, 756000, 4); m = len(d); B = [b + np.clip(rng.normal(0, s, m), -2 * s, 2 * s) for b, s in ((400, 15), (600, 20), (700, 25), (2500, 50), (1500, 40), (900, 30))]
            for j in range(6): B[j] += ((d - 724000) // 400 % 2) * (1500 if j != 3 else -1500)
            kw = dict(conse=4); cuts = [m - 900, m - 400, m]
        A = [d.astype(np.int64)] + [np.rint(x).astype(np.int64) for x in B] + [np.full(m, 2880, np.int64), np.zeros(m, np.int64)]; s = None; was = []; dates = set(d.tolist())
        print("CASE more %s than records" % case, file=sys.stderr, flush=True)
        if case == "pinpoints":
            r = pycold.sccd_detect(*A, pos=3, b_pinpoint=True, **kw); q = r[1].rec_cg_pinpoint; tb = [int(x) for x in q["t_break"]]
            if not 30 <= len(q) <= 40 or any(y <= x for x, y in zip(tb, tb[1:])) or any(x not in dates for x in tb) or any(int(a[0]) + LAUNCH != b for a, b in zip(q["obs_date_since1982"], tb)): bad.append(("at most forty pinpoint records, each with its observations", {"dates": "724000, every 16 days", "years": 43}, 40, tb))
        for a, b in zip([0] + cuts, cuts) if case == "segments" else []:
            W = [x[a:b] for x in A]; s = pycold.sccd_detect(*W, pos=3, **kw) if s is None else pycold.sccd_update(s, *W, pos=3, **kw); now = rec(s.rec_cg); tb = [int(x) for x in s.rec_cg["t_break"]]
            if len(now) > 40 or now[:len(was)] != was or any(y <= x for x, y in zip(tb, tb[1:])) or any(x not in dates for x in tb) or int(s.nrt_mode) not in NEXT[0] + (5, 12, 2): bad.append(("at most forty segments, closed ones stay", {"dates": "724000 to 756000, every 4 days", "to": b}, 40, (len(now), tb)))
            was = now
        if case == "segments" and len(was) < 40: bad.append(("a segment for every change, up to forty", {"dates": "724000 to 756000, every 4 days"}, 40, len(was)))
    return bad
def memory():
    """the same runs with every access of the C code checked"""
    flags = ("-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"); pkg = ext_package(c_objects(flags, "asan"), "state_asan")
    lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
    env = dict(os.environ, LD_PRELOAD=lib, ASAN_OPTIONS="detect_leaks=0:detect_odr_violation=0:allocator_may_return_null=1")
    r = subprocess.run([sys.executable, os.path.abspath(__file__), "MEMORY", pkg], env=env, capture_output=True, text=True, timeout=400)
    if "ERROR: AddressSanitizer" in r.stderr:
        at = r.stderr.index("ERROR: AddressSanitizer"); case = [x for x in r.stderr[:at].splitlines() if x.startswith("CASE")][-1:]
        violation("S-CCD state: the C code reaches outside its arrays", {"seed": SEED, "case": case, "run": "o_state.py MEMORY"}, None, [x.strip()[:120] for x in r.stderr[at:].splitlines() if x.strip()][:8])
        return 0
    return r.returncode == 0
if len(sys.argv) > 1 and sys.argv[1] == "MEMORY":
    short_first(sys.argv[2]); full(sys.argv[2]); print("CASE random pixels", file=sys.stderr, flush=True); batch(64, sys.argv[2]); os._exit(0)
pk = ext_package(c_objects(), "state_pkg"); tot = {}
r = forked(lambda: full(pk), 120)
if isinstance(r, dict): violation("S-CCD crashes or hangs", {"case": "more than forty segments or pinpoints"}, None, r)
else:
    for x in r: violation("S-CCD state: " + x[0], *x[1:])
for chunk in range(3 if not THOROUGH else 14):
    r = forked(lambda: batch(160, pk), 280); rng = np.random.default_rng(SEED * 1000 + chunk + 1)
    if isinstance(r, dict):
        if "error" in r: raise RuntimeError(str(r))
        violation("S-CCD crashes or hangs", {"seed": SEED, "chunk": chunk}, None, r); continue
    for q, v in r[0].items():
        if q == "modes":
            for a, b in v.items(): tot.setdefault("modes", {}); tot["modes"][a] = tot["modes"].get(a, 0) + b
        else: tot[q] = tot.get(q, 0) + v
    for what, *e in r[1][:3]: violation("S-CCD state: " + what, *e)
mem = memory()
stats(memory_checked=bool(mem), evaluations=tot.get("updates", 0), pixels=tot.get("n", 0), states_by_mode=tot.get("modes"), full_queues=tot.get("full"), splits_compared=tot.get("same"), rule="random pixels (stable, changing, short, few observations, snow, mixed with invalid values), an initial run and updates of every kind of split, consecutive counts 3-8")
