"""Discharge obligations with z3 (several tactics/seeds) and cvc5, in worker processes."""
import time, os, multiprocessing as mp, z3

def smt2(asm, goal):
    s = z3.Solver()
    for a in asm: s.add(a)
    s.add(z3.Not(goal))
    return s.to_smt2()

QC = {}
def has_quant(t):
    k = t.get_id()
    if k in QC and QC[k][0].eq(t): return QC[k][1]
    r = z3.is_quantifier(t) or any(has_quant(c) for c in t.children())
    QC[k] = (t, r)
    return r

def _z3(txt, ms, opts):
    ctx = z3.Context()
    s = z3.Solver(ctx=ctx)
    s.set("timeout", ms)
    for k, v in opts.items(): s.set(k, v)
    s.from_string(txt)
    r = s.check()
    if r == z3.unsat: return "unsat", None
    if r == z3.sat:
        m = s.model()
        return "sat", {str(d): str(m[d])[:200] for d in m.decls() if d.arity() == 0}
    return "unknown", s.reason_unknown()

def _cvc5(txt, ms):
    import subprocess, tempfile
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + txt + "\n"); p = f.name
    try:
        r = subprocess.run(["cvc5", "--tlimit=%d" % ms, p], capture_output=True, text=True, timeout=ms / 1000 + 5)
        o = r.stdout.strip().split("\n")[0] if r.stdout.strip() else "unknown"
        return (o if o in ("sat", "unsat") else "unknown"), r.stdout[:300]
    except Exception as e:
        return "unknown", str(e)
    finally:
        os.unlink(p)

NFAIL = mp.Value("i", 0)     # obligations not discharged so far: later ones get a short limit
DEADLINE = [None]            # wall-clock end of the deductive part

def job(a):
    r = job_(a)
    if r[1] != "unsat":
        with NFAIL.get_lock(): NFAIL.value += 1
    return r
def job_(a):
    idx, txt, ms, ground = a
    t = time.time()
    if DEADLINE[0] and t > DEADLINE[0]: return idx, "unknown", "none", 0.0, "time budget used up"
    if NFAIL.value >= 6 and not os.environ.get("VC_NOSHORT"): ms = min(ms, 2500)
    last = None
    if ground is not None:
        # fewer assumptions first: the quantified ones are often not needed
        try:
            r, info = _z3(ground, min(ms, 4000), {})
            if r == "unsat": return idx, r, "z3", time.time() - t, None
        except Exception: pass
    for be, opts, frac in (("z3", {}, 0.1), ("cvc5", None, 0.2), ("z3-seed7", {"random_seed": 7, "smt.arith.solver": 2}, 0.2), ("z3", {}, 0.5), ("cvc5", None, 1.0), ("z3-seed7", {"random_seed": 7, "smt.arith.solver": 2}, 1.0)):
        try:
            r, info = _cvc5(txt, int(ms * frac)) if be == "cvc5" else _z3(txt, int(ms * frac), opts)
        except Exception as e:
            r, info = "unknown", "%s: %s" % (be, e)
        if r == "unsat" or (r == "sat" and be != "cvc5"): return idx, r, be, time.time() - t, info
        if r == "sat": last = (idx, "sat", be, time.time() - t, {}); break
    if last: return last
    return idx, "unknown", "all", time.time() - t, info

def discharge(obls, ms=20000, procs=None):
    """obls: list of (name, assumptions, goal, info, kind). -> list of dicts"""
    tasks = []
    for i, o in enumerate(obls):
        g = [a for a in o[1] if not has_quant(a)]
        tasks.append((i, smt2(o[1], o[2]), ms, smt2(g, o[2]) if len(g) < len(o[1]) else None))
    res = [None] * len(obls)
    procs = procs or min(8, max(1, len(tasks)))
    if not tasks: return []
    if len(tasks) == 1:
        out = [job(tasks[0])]
    else:
        with mp.get_context("fork").Pool(procs) as pool:
            out = list(pool.imap_unordered(job, tasks, chunksize=1 if len(tasks) < 200 else 4))
    for idx, r, be, dt, info in out:
        res[idx] = {"name": obls[idx][0], "result": r, "backend": be, "time": dt, "info": info, "meta": obls[idx][3], "kind": obls[idx][4]}
    return res
