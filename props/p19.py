"""P19: change-magnitude outputs.  stand_procedure entire with the outputs on (p17.stand, cm): every
write lies inside the arrays, every entry is unfilled or holds a magnitude of 0..32767 and a date
inside its own interval.  The interval of a day is integer division by the interval: what the proof
uses of it are the lemmas here.  angle_decaying and MeanAngl_float under contract; the size and fill
of the arrays through cold_detect and the binding; the size and dates of a tile's maps."""
import z3
from vc import ceng as ce, pysym as ps, pyx
from vc.pysym import SNum, SBool, Explorer, Module, Unsupported, _z
from vc.ceng import Proof, zi, zr
from props import p12, p17, binding as bd
from props.p12 import FLOAT, R

def lemmas(c):
    x, y, q, r, q2, r2, d, n, k = z3.Ints("x y q r q2 r2 interval n k")
    div = lambda a, b, e: [d >= 1, a == b * d + e, 0 <= e, e < d]
    out = [("lemma: the interval of a day is not negative", div(x, q, r) + [x >= 0], q >= 0, None, "lemma"),
           ("lemma: a later day is not in an earlier interval", div(x, q, r) + div(y, q2, r2) + [x <= y, q > q2], z3.BoolVal(False), None, "lemma"),
           ("lemma: a day is inside its interval", div(x, q, r), z3.And(q * d <= x, x < (q + 1) * d), None, "lemma"),
           ("lemma: intervals that cover the last day have an entry for it", div(x, q, r) + [n * d > x, q >= n], z3.BoolVal(False), None, "lemma")]
    # products with the interval: the one instance each needs
    hint = {1: z3.Implies(z3.And(q >= q2 + 1, d >= 1), q * d >= (q2 + 1) * d), 3: z3.Implies(z3.And(q >= n, d >= 1), q * d >= n * d)}
    for i, h in hint.items(): out.append(("lemma: product order %d" % i, [d >= 1, q >= (q2 + 1 if i == 1 else n)], h.arg(1), None, "lemma"))
    out = [(o[0], o[1] + ([hint[i]] if i in hint else []), o[2], o[3], o[4]) for i, o in enumerate(out)]
    c.defer(out, "interval lemmas")

def decaying(c, u):
    p = Proof(c, [u], "angle_decaying"); names = [x for x, _ in p.params]
    x, lo, hi = [p.real(q) for q in names]; p.pre(lo < hi); p.snap(); r = zr(p.run())
    p.post("a weight between 0 and 1", z3.And(r >= 0, r <= 1)); p.post("1 below the range", z3.Implies(x <= lo, r == 1)); p.post("0 above the range", z3.Implies(x >= hi, r == 0))
    p.done()

def angle(c, u):
    for m in range(1, 12):
        p = Proof(c, [u], "MeanAngl_float", "MeanAngl_float, %d differences" % m, houdini=False); e = p.e; names = [x for x, _ in p.params]
        p.array(names[0], FLOAT, [(0, 5), (0, m)], 2); p.set(names[1], 5); p.set(names[2], m)
        def hook(e_, st, op, x, y, t):
            if isinstance(x, ce.Ptr) or isinstance(y, ce.Ptr) or op not in ("*", "/") or t[0] != "flt": return None
            x, y = ce.num(x), ce.num(y)
            if ce.lit(x) or ce.lit(y): return None
            x, y = z3.simplify(zr(x)), z3.simplify(zr(y))
            if z3.is_rational_value(y) or op == "*" and z3.is_rational_value(x): return None
            return e_.fresh("product", R)
        e.op_hook = hook
        def acos(e_, st, A):
            x = zr(A[0]); e_.oblige(st, "the cosine is between -1 and 1", z3.And(x >= -1, x <= 1), "pre"); v = e_.fresh("acos", R); e_.fact(st, z3.And(v >= 0, v <= z3.Q(31415927, 10000000))); return v
        e.contracts.update({"acosf": acos, "acos": acos, "sqrtf": lambda e_, st, A: e_.fresh("root", R), "sqrt": lambda e_, st, A: e_.fresh("root", R)})
        p.snap(); r = zr(p.run())
        p.post("a mean angle of 0 to 180 degrees", z3.And(r >= 0, r <= z3.Q(180001, 1000)))
        p.post("the differences stay", p.out(names[0]) == p.out(names[0], True)); p.done()

def sizes(c):
    st = {}
    def load(): st["b"] = bd.Bind(c)
    c.guard("colds.py, _colds_cython.pyx", load)
    def f():
        b = st["b"]; rel, cfn, pars = bd.ENTRY["cold_detect"]; n = z3.Int("n"); v = z3.Function("v_dates", z3.IntSort(), z3.IntSort()); P = {k: z3.Int("p_" + k) for k in pars if bd.KINDS[k] == "int"}
        pre = [n >= 1] + [z3.Int("len_" + k) == n for k in bd.SERIES] + [z3.Not(z3.Bool("nan_" + k)) for k in bd.KINDS if bd.KINDS[k] == "real"]
        pre += [P["pos"] >= 1, P["conse"] >= 1, P["conse"] <= 11, P["starting_date"] >= 0, P["n_cm"] >= 0, P["cm_output_interval"] >= 0, z3.Real("p_t_cg") > 0, z3.Real("p_gap_days") >= 0, v(0) >= 1, v(n - 1) >= v(0), P["starting_date"] <= v(0), v(n - 1) < 756500]
        ex = Explorer("cold_detect", pre, branch_timeout=2000)
        def body(p):
            pv = b.params(pars); b.calls.clear()
            try: b.m.fn("cold_detect")(*[b.arrays()[k] for k in bd.SERIES], **pv)
            except (RuntimeError, Exception) as e:
                if not isinstance(e, (RuntimeError, ValueError)) and type(e) is not Exception: raise
            if not b.calls: p.oblige("the algorithm is called", z3.BoolVal(False), kind="post"); return
            got = b.calls[-1][1]; on = ps.tob(pv["b_output_cm"]); it = _z(got["cm_output_interval"]); sd = _z(got["starting_date"])
            for nm in ("cm_outputs", "cm_outputs_date"):
                a = got[nm]; ok = isinstance(a, pyx.Addr) and a.i == 0 and isinstance(a.arr, bd.CArr) and isinstance(a.arr.src, tuple) and a.arr.src[0] == "full" and not a.arr.log
                p.oblige("%s is a new array, filled" % nm, z3.BoolVal(ok), kind="post")
                if not ok: continue
                p.oblige("%s holds the fill value" % nm, _z(a.arr.src[1]) == -9999, kind="post"); L = _z(a.arr.n)
                p.oblige("%s has the number of entries asked for" % nm, z3.Implies(z3.And(on, P["n_cm"] > 0), L == P["n_cm"]), kind="post")
                # ceil(t / it): it * (L - 1) >= t
                w = z3.Int("whole"); p.oblige("%s covers the days from the starting date to the last observation" % nm, z3.Implies(z3.And(on, P["n_cm"] == 0, w == L), w * it > v(n - 1) - sd), kind="post")
            p.oblige("the interval is positive", z3.Implies(on, it >= 1), kind="post")
            p.oblige("the two outputs have the same number of entries", _z(got["cm_outputs"].arr.n) == _z(got["cm_outputs_date"].arr.n), kind="post")
        c.explore(ex, body, "cold_detect, change-magnitude arrays (colds.py + _colds_cython.pyx)")
    c.guard("cold_detect arrays", f)
    def tile():
        m = Module(c.repo, "pycold/imagetool/tile_processing.py", cache={}); c.track("tile_processing.py", m.hash_of("reading_start_dates_nmaps")); s0, e0, it = z3.Ints("first last interval")
        class Line:
            def __init__(s, v): s.v = v
            def rstrip(s, *a): return s
            strip = lstrip = rstrip
        class File:
            def __init__(s): s.q = [s0, e0]
            def readline(s): return Line(s.q.pop(0))
            def readlines(s): r = [Line(q) for q in s.q]; s.q = []; return r
            def close(s): pass
            def __enter__(s): return s
            def __exit__(s, *a): pass
        m.ns["open"] = lambda *a, **k: File(); m.ns["join"] = lambda *a: "path"; b_int = ps.BUILTINS["int"]; m.ns["int"] = lambda x=0, *a: SNum(x.v) if isinstance(x, Line) else b_int(x, *a)
        ex = Explorer("reading_start_dates_nmaps", [s0 >= 1, e0 >= s0, it >= 1, e0 < 756500])
        def body(p):
            sd, nn = m.fn("reading_start_dates_nmaps")("stack", SNum(it)); w = _z(nn)
            p.oblige("the starting date is the first of the dataset", _z(sd) == s0, kind="post"); p.oblige("the maps cover the days up to the last of the dataset", w * it > e0 - s0, kind="post"); p.oblige("there is at least one map", w >= 1, kind="post")
        c.explore(ex, body, "reading_start_dates_nmaps (tile_processing.py)")
        u = Module(c.repo, "pycold/utils.py", facades={"numpy": ps.NP()}, cache={}); c.track("utils.py", u.hash_of("get_anchor_days")); nn = z3.Int("maps"); i = z3.Int("i")
        ex2 = Explorer("get_anchor_days", [s0 >= 1, nn >= 1, it >= 1])
        def body2(p):
            A = u.fn("get_anchor_days")(SNum(s0), SNum(nn), SNum(it)); p.oblige("map i begins i intervals after the starting date", z3.Implies(z3.And(0 <= i, i < nn), _z(A.at(SNum(i))) == s0 + i * it), kind="post"); p.oblige("one date per map", _z(A.shape[0]) == nn, kind="post")
        c.explore(ex2, body2, "get_anchor_days (utils.py)")
    c.guard("tile maps", tile)

def run(c):
    m = {}
    c.guard("clang", lambda: m.update(cold=ce.unit(c.repo, "cold.c"), ut=ce.unit(c.repo, "utilities.c"), misc=ce.unit(c.repo, "misc.c")))
    c.guard("lemmas", lambda: lemmas(c))
    c.guard("angle_decaying", lambda: decaying(c, m["ut"]))
    c.guard("MeanAngl_float", lambda: angle(c, m["misc"]))
    c.guard("stand_procedure", lambda: p17.stand(c, m["cold"], [m["ut"], m["misc"]], True))
    sizes(c)
    c.flush()
    c.assumptions += p17.ASSUME + ["the interval of a day is abstracted to the facts of the interval lemmas", "divisions of days by the interval in Python are exact (days below 2^20)", "the mean of the chosen magnitudes (which window, which bands) is checked by the independent reimplementation (o_cold), not proved"]
    c.oracle("o_cold.py", args=("P19",))
