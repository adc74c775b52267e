"""P10: break categories in exported maps follow the documented spectral rule."""
import z3
from vc import pysym as ps
from vc.pysym import SNum, SRecArr, Explorer, Module, Unsupported, _z
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
POS, TB = z3.Function("pos", I, I), z3.Function("t_break", I, I)
MG, MN = z3.Function("magnitude", I, I, R), z3.Function("magnitude_nan", I, I, B)
CO, CN = z3.Function("coefs", I, I, I, R), z3.Function("coefs_nan", I, I, I, B)
FIELDS = {"t_start": (), "t_end": (), "pos": (), "coefs": (7, 8), "rmse": (7,), "t_break": (), "num_obs": (), "category": (), "change_prob": (), "magnitude": (7,)}
def get(i, name, *idx):
    i = _z(i)
    if name == "pos": return SNum(POS(i))
    if name == "t_break": return SNum(TB(i))
    if name == "magnitude": return SNum(MG(i, _z(idx[0])), MN(i, _z(idx[0])))
    if name == "coefs": return SNum(CO(i, *[_z(x) for x in idx]), CN(i, *[_z(x) for x in idx]))
    raise Unsupported("field " + name)
def gt(i, b, v): return z3.And(z3.Not(MN(i, b)), MG(i, b) > v)
def lt(i, b, v): return z3.And(z3.Not(MN(i, b)), MG(i, b) < v)
def greening(k, t): return z3.And(gt(k, 3, -t), lt(k, 2, t), lt(k, 4, t))
ab = lambda t: z3.If(t >= 0, t, -t)
def affor(k, n):
    up = lambda b: z3.And(z3.Not(CN(k + 1, b, 1)), z3.Not(CN(k, b, 1)), CO(k + 1, b, 1) > ab(CO(k, b, 1)))
    dn = lambda b: z3.And(z3.Not(CN(k + 1, b, 1)), z3.Not(CN(k, b, 1)), CO(k + 1, b, 1) < -ab(CO(k, b, 1)))
    return z3.And(k + 1 < n, POS(k + 1) == POS(k), up(3), dn(2), dn(4))
def repeat(k, last):
    fl = z3.Sum([z3.If(z3.And(z3.Not(MN(k, b)), z3.Not(MN(k - 1, b)), MG(k, b) * MG(k - 1, b) < 0), 1, 0) for b in range(1, 6)])
    return z3.And(k > 0, last == 1, z3.ToReal(TB(k) - TB(k - 1)) <= z3.RealVal("1826.25"), fl >= 4)

def run(c):
    m = {}
    def load():
        m['m'] = Module(c.repo, "pycold/imagetool/export_change_map.py"); c.track("export_change_map.py", m['m'].hash_of("getcategory_cold", "getcategory_obcold", "getcategory_sccd", "main"))
    c.guard("export_change_map.py", load)
    n, k, last = z3.Ints("n k last_dist_type")
    pre = [n >= 1, 0 <= k, k < n]
    def cat(name, want, args):
        def f():
            fn = m['m'].fn(name); ex = Explorer(name, pre, branch_timeout=2000)
            def body(p):
                r = fn(SRecArr(SNum(n), get, FIELDS), SNum(k), *args)
                if r is None: p.oblige("a category is returned", z3.BoolVal(False), kind="post"); return
                for code, t in want.items():
                    p.oblige("%s exactly when the rule says so" % code, (_z(r) == {"disturbance": 1, "regrowth": 2, "afforestation": 3, "repeated disturbance": 4}[code]) == t, kind="post")
            c.explore(ex, body, "%s (export_change_map.py), any record array" % name)
        c.guard(name, f)
    g = greening(k, 200); a = affor(k, n)
    cat("getcategory_cold", {"regrowth": z3.And(g, z3.Not(a)), "afforestation": z3.And(g, a), "disturbance": z3.Not(g)}, [])
    cat("getcategory_sccd", {"regrowth": g, "disturbance": z3.Not(g)}, [])
    g = greening(k, 250); rp = repeat(k, last)
    cat("getcategory_obcold", {"regrowth": z3.And(g, z3.Not(a)), "afforestation": z3.And(g, a), "disturbance": z3.And(z3.Not(g), z3.Not(rp)), "repeated disturbance": z3.And(z3.Not(g), rp)}, [SNum(last)])
    c.assumptions += ["record fields as reals with NaN flags (float32 products do not underflow)", "thresholds: 200 for COLD and S-CCD, 250 for object-based results, as in the code's own constants"]
    c.bounded += ["driver loop of export_change_map (previous category of the pixel, placement, year split): concrete oracle"]
    c.oracle("o_category.py", timeout=250)
