"""P08 on the real binding layer: the C entry points are replaced by recorders generated from
their definitions in /repo; every argument received is compared with the one given.  Then the
real algorithm: bands must come out in their own rows."""
from common import *
rnd = random.Random(SEED)
PART = sys.argv[1] if len(sys.argv) > 1 else "main"
if PART == "real":
    sys.path.insert(0, ext_package(c_objects(), "realpkg"))
else:
    FN = {"cold": "cold.c", "obcold_reconstruction_procedure": "cold.c", "sccd": "s_ccd.c"}
    src = '#include <stdio.h>\n#include <stdbool.h>\n#include <string.h>\n#include "output.h"\nstatic char B[1<<20]; static int L;\nint vp_mode=0, vp_nfc=2, vp_nq=3, vp_np=0, vp_ret=0;\nchar *vp_last(void){return B;}\nvoid vp_reset(void){L=0;B[0]=0;}\n'
    for f, rel in FN.items():
        ps = c_params(rel, f); nm = [a for a, _ in ps]
        src += "int %s(%s){\n int i; L+=sprintf(B+L,\"fn=%s\\n\");\n" % (f, ", ".join(t + " " + n for n, t in ps), f)
        for n, t in ps:
            l = n.lower()
            if "long" in t and "*" in t:
                src += ' L+=sprintf(B+L,"%s="); for(i=0;i<%s;i++) L+=sprintf(B+L,"%%ld,",%s[i]); L+=sprintf(B+L,"\\n");\n' % (n, "break_date_len" if "break" in n else "valid_num_scenes", n)
                src += ' %s[0] = -77777;\n' % n
            elif t.endswith("double"): src += ' L+=sprintf(B+L,"%s=%%.17g\\n",%s);\n' % (n, n)
            elif "*" not in t: src += ' L+=sprintf(B+L,"%s=%%d\\n",(int)%s);\n' % (n, n)
        N = {n.lower(): n for n in nm}
        if f == "sccd":
            src += ' L+=sprintf(B+L,"in_mode=%%d\\nin_nfc=%%d\\nin_nq=%%d\\n",*%s,*%s,*%s);\n' % (N["nrt_mode"], N["num_fc"], N["num_obs_queue"])
            src += ' L+=sprintf(B+L,"in_rec="); for(i=0;i<*%s;i++) L+=sprintf(B+L,"%%d,",%s[i].t_start); L+=sprintf(B+L,"\\n");\n' % (N["num_fc"], N["rec_cg"])
            src += ' L+=sprintf(B+L,"in_queue="); for(i=0;i<*%s;i++) L+=sprintf(B+L,"%%d,",%s[i].clrx_since1982); L+=sprintf(B+L,"\\n");\n' % (N["num_obs_queue"], N["obs_queue"])
            src += ' L+=sprintf(B+L,"in_rmse="); for(i=0;i<6;i++) L+=sprintf(B+L,"%%d,",%s[i]); L+=sprintf(B+L,"\\n");\n' % N["min_rmse"]
            src += ' L+=sprintf(B+L,"in_model=%%d\\n", %s->t_start_since1982);\n' % N["nrt_model"]
            src += ' for(i=0;i<6;i++) %s[i]=1000+i; %s->t_start_since1982=4321; *%s=vp_mode; *%s=vp_nq; *%s=vp_np;\n' % (N["min_rmse"], N["nrt_model"], N["nrt_mode"], N["num_obs_queue"], N["num_fc_pinpoint"])
            src += ' for(i=0;i<vp_nfc;i++) %s[i].t_start=500+i; for(i=0;i<vp_nq;i++) %s[i].clrx_since1982=600+i;\n' % (N["rec_cg"], N["obs_queue"])
        else:
            src += ' for(i=0;i<vp_nfc;i++) {%s[i].t_start=500+i; %s[i].t_end=900+i;}\n' % (N["rec_cg"], N["rec_cg"])
            if f == "cold": src += ' %s[0]=11; %s[0]=12;\n' % (N["cm_outputs"], N["cm_outputs_date"])
        src += ' *%s=vp_nfc; return vp_ret;\n}\n' % N["num_fc"]
    os.makedirs(SCRATCH, exist_ok=True)
    open(os.path.join(SCRATCH, "stub.c"), "w").write(src)
    r = subprocess.run(["gcc", "-O0", "-fPIC", "-w", "-I" + os.path.join(REPO, "src/cxx"), "-c", "stub.c", "-o", "stub.o"], cwd=SCRATCH, capture_output=True, text=True)
    if r.returncode: raise RuntimeError(r.stderr[-500:])
    sys.path.insert(0, ext_package([os.path.join(SCRATCH, "stub.o")], "stubpkg"))
stub_modules()
import pycold
from pycold import colds as cd
import pycold._colds_cython as X
SER = "dates ts_b ts_g ts_r ts_n ts_s1 ts_s2 ts_t qas".split()
bad = 0
def report(*a, **k):
    global bad
    bad += 1
    if bad <= 5: violation(*a, **k)

def main():
    lib = ctypes.CDLL(X.__file__); lib.vp_last.restype = ctypes.c_char_p
    def setg(**k):
        for n, v in k.items(): ctypes.c_int.in_dll(lib, n).value = v
    def last():
        out = lib.vp_last().decode(); lib.vp_reset(); r = []
        for l in out.splitlines():
            a, b = l.split("=", 1)
            if a == "fn": r.append({"fn": b}); continue
            a = a.lower()
            if b.endswith(",") or (b == "" ): r[-1][a] = [int(x) for x in b.split(",") if x]
            else: r[-1][a] = float(b)
        return r
    ROLE = {"ts_b": "buf_b", "ts_g": "buf_g", "ts_r": "buf_r", "ts_n": "buf_n", "ts_s1": "buf_s1", "ts_s2": "buf_s2", "ts_t": "buf_t", "qas": "fmask_buf", "dates": "valid_date_array"}
    PAR = {"t_cg": "tcg", "pos": "pos", "conse": "conse", "b_output_cm": "b_outputcm", "starting_date": "starting_date", "cm_output_interval": "cm_output_interval",
           "b_c2": "b_c2", "gap_days": "gap_days", "b_pinpoint": "b_pinpoint", "gate_tcg": "gate_tcg", "predictability_tcg": "predictability_tcg"}
    ENTRY = {"cold_detect": ["t_cg", "pos", "conse", "b_output_cm", "starting_date", "n_cm", "cm_output_interval", "b_c2", "gap_days"],
             "obcold_reconstruct": ["pos", "conse", "b_c2"], "sccd_detect": ["t_cg", "pos", "conse", "b_c2", "b_pinpoint", "gate_tcg"],
             "sccd_update": ["t_cg", "pos", "conse", "b_c2", "gate_tcg", "predictability_tcg"]}
    DEF = {"t_cg": 15.0863, "pos": 1, "conse": 6, "b_output_cm": False, "starting_date": 0, "n_cm": 0, "cm_output_interval": 0, "b_c2": False, "gap_days": 365.25,
           "b_pinpoint": False, "gate_tcg": 9.236, "predictability_tcg": 9.236}
    def rv(k):
        return {"t_cg": lambda: round(rnd.uniform(0.1, 40), 4), "pos": lambda: rnd.randrange(1, 10**7), "conse": lambda: rnd.randrange(1, 9), "b_output_cm": lambda: rnd.random() < .6,
                "starting_date": lambda: rnd.choice([0, 723000, 724001]), "n_cm": lambda: rnd.choice([0, 400]), "cm_output_interval": lambda: rnd.choice([0, 32, 60, 47, 365]),
                "b_c2": lambda: rnd.random() < .5, "gap_days": lambda: rnd.choice([0.0, 200.5, 1500.0, 365.25]), "b_pinpoint": lambda: rnd.random() < .5,
                "gate_tcg": lambda: round(rnd.uniform(.1, 20), 4), "predictability_tcg": lambda: round(rnd.uniform(.1, 20), 4)}[k]()
    n = nt = 0; samples = []
    from pycold.common import sccd_dt, nrtqueue_dt, nrtmodel_dt
    for it in range(160 if not THOROUGH else 1500):
        for e, pars in ENTRY.items():
            N = rnd.randrange(2, 40)
            dt = rnd.choice([np.int64, np.int64, np.int32, np.int16 if False else np.int64])
            S = {k: np.array([rnd.randrange(-3000, 9000) for _ in range(N)], dtype=dt) for k in SER}
            d0 = 724001 + rnd.randrange(0, 300); S["dates"] = np.array(sorted(rnd.sample(range(d0, d0 + 6000), N)), dtype=dt)
            S["dates"][-1] = S["dates"][0] + max(380, int(S["dates"][-1] - S["dates"][0]))
            S["qas"] = np.array([rnd.choice([0, 1, 2, 3, 4, 255]) for _ in range(N)], dtype=dt)
            if rnd.random() < .3: S = {k: np.repeat(v, 2)[::2] for k, v in S.items()}
            before = {k: v.copy() for k, v in S.items()}
            kw = {}
            style = rnd.choice(["kw", "kw", "pos", "def"])
            if style == "kw": kw = {k: rv(k) for k in pars if rnd.random() < .7}
            args = [S[k] for k in SER]; brk = pack = None
            if e == "obcold_reconstruct":
                brk = np.array([rnd.randrange(0, 740000) for _ in range(rnd.randrange(1, 45))], dtype=np.int64); args.append(brk); bb = brk.copy()
            mode_in = None
            if e == "sccd_update":
                mode_in = rnd.choice([0, 1, 2, 3, 4, 5, 11])
                rec = np.zeros(rnd.randrange(0, 5), dtype=sccd_dt); rec["t_start"] = 10 + np.arange(len(rec))
                q = np.zeros(rnd.randrange(0, 30), dtype=nrtqueue_dt); q["clrx_since1982"] = 100 + np.arange(len(q))
                md = np.zeros(1, dtype=nrtmodel_dt); md["t_start_since1982"] = 1234
                mr = np.arange(6).astype(np.short) + 50
                has_m, has_q = mode_in in (1, 3, 5, 11), mode_in in (2, 4, 5)
                pack = X.SccdOutput(7, rec if len(rec) else np.array([]), mr, mode_in, md if has_m else np.array([]), q if has_q else np.array([]))
                bp = [rec.copy(), q.copy(), md.copy(), mr.copy()]
                args = [pack] + args
            pv = {k: kw.get(k, DEF[k]) for k in pars}
            if style == "pos":
                pv = {k: rv(k) for k in pars}; args += [pv[k] for k in pars]
            mode_out = rnd.choice([0, 1, 2, 3, 4, 5, 11, 12, 15]); nq = rnd.choice([0, 3, 240]); nfc = rnd.choice([1, 2, 40])
            setg(vp_mode=mode_out, vp_nq=nq, vp_nfc=nfc, vp_np=rnd.choice([0, 3]) if e == "sccd_detect" else 0, vp_ret=0)
            inp = {"entry": e, "style": style, "params": pv, "n": N, "dates": before["dates"][:5].tolist()}
            lib.vp_reset()
            try: ret = getattr(cd, e)(*args, **kw)
            except Exception as x:
                report("a valid call raises", inp, "runs", repr(x)); continue
            rec_ = last(); n += 1; nt += 1
            if len(rec_) != 1: report("the C algorithm is not called exactly once", inp, 1, len(rec_)); continue
            g = rec_[0]
            for k, cn in ROLE.items():
                if g.get(cn) != before[k].tolist(): report("series does not arrive in its own slot", dict(inp, series=k), before[k].tolist()[:8], (g.get(cn) or [])[:8])
                if not np.array_equal(S[k], before[k]): report("the caller's array is modified", dict(inp, series=k), before[k].tolist()[:5], S[k].tolist()[:5])
            if brk is not None:
                if g["break_dates"] != bb.tolist(): report("break dates do not arrive", inp, bb.tolist()[:8], g["break_dates"][:8])
                if not np.array_equal(brk, bb): report("the caller's break dates are modified", inp, bb.tolist()[:5], brk.tolist()[:5])
            if g["valid_num_scenes"] != N: report("wrong number of observations", inp, N, g["valid_num_scenes"])
            for k, v in pv.items():
                if k == "n_cm" or PAR[k] not in g: continue
                w = v
                if k in ("starting_date", "cm_output_interval") and not pv.get("b_output_cm"): continue
                if k == "starting_date" and v == 0: w = int(before["dates"][0])
                if k == "cm_output_interval" and v == 0: w = 60
                if float(w) != g[PAR[k]]: report("parameter does not keep its role", dict(inp, parameter=k), w, g[PAR[k]])
            if e == "sccd_detect" and g["predictability_tcg"] != 9.236: report("predictability threshold is not its documented default", inp, 9.236, g["predictability_tcg"])
            if e.startswith("sccd"):
                out = ret
                if isinstance(ret, list):
                    out = ret[0]
                    if not hasattr(ret[1], "rec_cg_pinpoint") or ret[1].position != pv["pos"]: report("pinpoint output malformed", inp, "SccdReccgPinpoint at the position given", repr(ret[1])[:80])
                has_m, has_q = mode_out in (1, 3, 5, 11, 15), mode_out in (2, 4, 5, 12, 15)
                exp = (pv["pos"], mode_out, list(range(500, 500 + nfc)) if mode_out else [], has_m, nq if has_q else 0, [1000 + i for i in range(6)])
                gotm = (out.position, out.nrt_mode, [int(x) for x in (out.rec_cg["t_start"] if len(out.rec_cg) else [])], len(out.nrt_model) == 1 and int(out.nrt_model["t_start_since1982"][0]) == 4321, len(out.nrt_queue), out.min_rmse.tolist())
                if exp != gotm: report("the returned state is not the algorithm's", inp, exp, gotm)
                if has_q and nq and [int(x) for x in out.nrt_queue["clrx_since1982"]] != list(range(600, 600 + nq)): report("the returned queue is not the algorithm's", inp, None, None)
                if e == "sccd_update":
                    hm, hq = mode_in in (1, 3, 5, 11), mode_in in (2, 4, 5)
                    exp = (mode_in, len(bp[0]), len(bp[1]) if hq else 0, bp[0]["t_start"].tolist(), bp[1]["clrx_since1982"].tolist() if hq else [], bp[3].tolist())
                    gi = (g["in_mode"], g["in_nfc"], g["in_nq"], g["in_rec"], g["in_queue"], g["in_rmse"])
                    if exp != tuple(gi): report("the stored state does not reach the algorithm", inp, exp, gi)
                    if hm and g["in_model"] != 1234: report("the stored model does not reach the algorithm", inp, 1234, g["in_model"])
                    for a, b, nme in ((rec, bp[0], "segments"), (q, bp[1], "queue"), (md, bp[2], "model"), (mr, bp[3], "minimum noise")):
                        if not (np.array_equal(a, b) if a.dtype.names is None else all(np.array_equal(a[f], b[f]) for f in a.dtype.names)): report("the caller's state is modified", dict(inp, part=nme), "unchanged", "changed")
            else:
                r0 = ret[0] if isinstance(ret, list) else ret
                if len(r0) != nfc or [int(x) for x in r0["t_end"]] != list(range(900, 900 + nfc)): report("the returned segments are not the algorithm's", inp, nfc, len(r0))
                if e == "cold_detect":
                    if isinstance(ret, list) != bool(pv["b_output_cm"]): report("change-magnitude outputs returned wrongly", inp, pv["b_output_cm"], isinstance(ret, list))
                    if isinstance(ret, list) and (ret[1][0] != 11 or ret[2][0] != 12): report("change-magnitude outputs in wrong slots", inp, [11, 12], [int(ret[1][0]), int(ret[2][0])])
            if len(samples) < 2: samples.append(inp)
    # failure codes
    for e in ENTRY:
        a = [np.arange(400, dtype=np.int64)] * 9
        if e == "sccd_update": continue
        if e == "obcold_reconstruct": a = a + [np.array([1])]
        setg(vp_ret=1, vp_nfc=1, vp_mode=1)
        try: getattr(cd, e)(*a); report("a failed run returns a result", {"entry": e}, "an error", "a result")
        except Exception: pass
        n += 1
    stats(evaluations=n, distinct_nontrivial=nt, rule="calls with random series and parameters, all arguments distinct", samples=samples)
    # the real algorithm in its own process (the extension cannot be imported twice)
    r = subprocess.run([sys.executable, os.path.abspath(__file__), "real"], capture_output=True, text=True, env=os.environ, timeout=250)
    sys.stdout.write(r.stdout)
    if r.returncode: raise RuntimeError("real part: " + r.stderr[-400:])

def real():
    n = 0
    g = np.random.RandomState(SEED)
    for it in range(10 if not THOROUGH else 60):
        N = 200; d = 724000 + np.cumsum(g.randint(8, 20, N)); lv = g.permutation([500, 1100, 1700, 2300, 2900, 3500])
        if it % 5 == 4: lv = g.permutation([400, 600, 800, 1000, 1200, 1400])
        b = [(lv[k] + g.randint(-30, 31, N)).astype(np.int64) for k in range(6)]
        th = (2950 + g.randint(-5, 6, N)).astype(np.int64); tl = [2950 * 10 - 27320] * 1
        qa = np.zeros(N, dtype=np.int64); pos = int(g.randint(1, 10**6))
        keep = [x.copy() for x in [d] + b + [th, qa]]
        inp = {"levels": lv.tolist(), "n": N, "seed": SEED, "case": it}
        for e in ("cold_detect", "obcold_reconstruct", "sccd_detect"):
            extra = [np.array([0], dtype=np.int64)] if e == "obcold_reconstruct" else []
            try: r = getattr(cd, e)(d, b[0], b[1], b[2], b[3], b[4], b[5], th, qa, *extra, pos=pos, b_c2=bool(it % 2))
            except Exception as x:
                report("a stable series gives no result", dict(inp, entry=e), "segments", repr(x)); continue
            n += 1
            for a, k in zip([d] + b + [th, qa], keep):
                if not np.array_equal(a, k): report("the caller's array is modified", dict(inp, entry=e), None, None)
            if e == "sccd_detect":
                if r.position != pos: report("the position is not the one given", dict(inp, entry=e), pos, r.position)
                if len(r.nrt_model): m = r.nrt_model["nrt_coefs"][0]; day = int(r.nrt_model["obs_date_since1982"][0][-1]) + 723742
                else: continue
            else:
                if r["pos"][0] != pos: report("the position is not the one given", dict(inp, entry=e), pos, int(r["pos"][0]))
                if len(r) != 1: report("a stable series is broken", dict(inp, entry=e), 1, len(r)); continue
                m = r["coefs"][0]; day = int(d[N // 2])
            for k in range(6):
                v = m[k][0] + m[k][1] * day / 10000
                if abs(v - lv[k]) > 120: report("a band's level does not come out in the band's own row", dict(inp, entry=e, band=k), int(lv[k]), float(v))
            if e != "sccd_detect" and not it % 2:
                v = m[6][0] + m[6][1] * day / 10000
                if abs(v - (2950 * 10 - 27320) / 1) > 120: report("the thermal level does not come out in its own row", dict(inp, entry=e), 2180, float(v))
    # conse and threshold keep their roles: a step change is reported only when it lasts conse observations and exceeds the threshold
    for it in range(6 if not THOROUGH else 30):
        N = 240; d = 724000 + 16 * np.arange(N); qa = np.zeros(N, dtype=np.int64)
        base = 2000 + g.randint(-30, 31, (7, N)); base[6] = 2950
        s = 150; base[0:6, s:] += 1500
        r = cd.cold_detect(d, *[base[k].astype(np.int64) for k in range(7)], qa, conse=6); n += 1
        if not (r["t_break"] == d[s]).any() or r["change_prob"][0] != 100: report("a lasting step is not reported at its date", {"step": int(d[s]), "case": it}, int(d[s]), r["t_break"].tolist())
        r = cd.cold_detect(d, *[base[k].astype(np.int64) for k in range(7)], qa, t_cg=1e9); n += 1
        if (r["t_break"] != 0).any(): report("a change below the threshold is reported", {"t_cg": 1e9, "case": it}, 0, r["t_break"].tolist())
        b2 = base.copy(); b2[0:6, s:] -= 1500; b2[0:6, s:s + 4] += 1500
        for cs, expb in ((3, True), (8, False)):
            r = cd.cold_detect(d, *[b2[k].astype(np.int64) for k in range(7)], qa, conse=cs); n += 1
            has = bool((r["t_break"] == d[s]).any())
            if has != expb: report("consecutive count does not keep its role", {"conse": cs, "anomalous observations": 4, "case": it}, expb, has)
    stats(evaluations=n, distinct_nontrivial=n)
main() if PART == "main" else real()
