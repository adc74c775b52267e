"""P07: detector parameters are accepted exactly in their documented ranges."""
import z3
from vc import pysym as ps
from vc.pysym import SNum, SBool, Explorer, _z
from props import binding as bd
R = z3.RealVal
def valid(k, v):
    """documented range of a parameter (None: not restricted)"""
    t = _z(v) if not isinstance(v, SBool) else None
    nn = z3.Not(v.nan) if isinstance(v, SNum) and v.nan is not None else z3.BoolVal(True)
    if k in ("t_cg", "gate_tcg", "predictability_tcg", "t_cg_scale100"): return z3.And(nn, t > 0)
    if k == "gap_days": return z3.And(nn, t >= 0)
    if k == "t_cg_singleband_scale1000": return nn
    isint = z3.is_int(t) if t is not None else False
    if k in ("pos", "starting_date", "n_cm", "cm_output_interval", "conse", "dist_conse", "t_angle_scale100") and not isint: return z3.BoolVal(False)
    if k == "pos": return t > 0
    if k in ("starting_date", "n_cm", "cm_output_interval"): return t >= 0
    if k == "conse": return z3.And(t > 0, t < 12)
    if k == "dist_conse": return z3.And(t > 0, t <= 6)
    if k == "t_angle_scale100": return z3.And(t > 0, t < 18000)
    if k in ("b_output_cm", "b_pinpoint", "transform_mode"): return z3.BoolVal(isinstance(v, SBool) or isint)
    return z3.BoolVal(True)

class Reached(BaseException): pass

def run(c):
    st = {}
    def load():
        st['b'] = b = bd.Bind(c)
        for n in ("_sccd_update", "_sccd_detect", "_obcold_reconstruct", "_cold_detect"):
            def core(*a, **k): raise Reached()
            b.m.ns[n] = core
    c.guard("colds.py", load)
    def entry(name, kinds=None, tag=""):
        def f():
            b = st['b']; pars = bd.ENTRY[name][2] if name in bd.ENTRY else ["dist_conse", "t_cg_scale100", "t_cg_singleband_scale1000", "t_angle_scale100", "transform_mode"]
            pre = []
            for k in bd.SERIES + ["break_dates"]: pre += [z3.Int("len_" + k) >= 0, z3.Int("ndim_" + k) >= 1]
            ex = Explorer(name, pre, branch_timeout=2000)
            def body(p):
                ar = b.arrays(breaks=(name == "obcold_reconstruct"), nd=True)
                pv = b.params(pars, kinds)
                ok = {k: valid(k, v) for k, v in pv.items()}
                L = [_z(ar[k].shape[0]) for k in bd.SERIES]
                same = z3.And(*[L[0] == x for x in L[1:]])
                oned = {k: _z(ar[k].ndim) == 1 for k in ar}
                err = None; reached = False
                try:
                    if name == "sccd_identify":
                        class Pk:
                            @property
                            def nrt_mode(self): raise Reached()
                        b.m.fn(name)(Pk(), **pv)
                    else:
                        pos = [ar[k] for k in bd.SERIES] + ([ar["break_dates"]] if name == "obcold_reconstruct" else [])
                        if name == "sccd_update": pos = [b.pack()] + pos
                        b.m.fn(name)(*pos, **pv)
                except Reached: reached = True
                except ValueError as e: err = str(e)
                allok = z3.And(*ok.values()) if ok else z3.BoolVal(True)
                arrs = z3.BoolVal(True) if name == "sccd_identify" else z3.And(same, *oned.values())
                if reached:
                    for k in ok: p.oblige("detection runs only with %s in its range" % k, ok[k], kind="post")
                    if name != "sccd_identify":
                        p.oblige("detection runs only on series of one length", same, kind="post")
                        for k in oned: p.oblige("detection runs only on one-dimensional %s" % k, oned[k], kind="post")
                elif err is not None:
                    p.oblige("a call with valid arguments is accepted", z3.Not(z3.And(allok, arrs)), kind="post")
                    for k in ok:
                        if repr(k) in err or "parameter " + k in err: 
                            p.oblige("the error names a parameter that is out of range: %s" % k, z3.Not(ok[k]), kind="post"); break
                    else:
                        # no parameter is named: all parameters are valid, the arrays are not
                        p.oblige("an error that names no parameter is about the series", allok, kind="post")
                else: p.oblige("the entry point either runs the detector or raises", z3.BoolVal(False), kind="post")
            c.explore(ex, body, "%s: validation%s (colds.py, _param_validation.py)" % (name, tag))
        c.guard(name + tag, f)
    for n in list(bd.ENTRY) + ["sccd_identify"]:
        entry(n)
        pars = bd.ENTRY[n][2] if n in bd.ENTRY else ["dist_conse", "t_angle_scale100", "t_cg_scale100"]
        # the other number type for every numeric parameter: floats for integer parameters, integers for real ones
        for k in pars:
            kd = bd.KINDS[k]
            if kd == "int": entry(n, {k: "real"}, ", %s a float" % k)
            if kd == "real": entry(n, {k: "int"}, ", %s an integer" % k)
        if n == "cold_detect": entry(n, {"b_output_cm": "real"}, ", b_output_cm a float"); 
    def interval():
        """Interval.__contains__ for every bound and closure"""
        pm = ps.Module(c.repo, "pycold/_param_validation.py"); Iv = pm.fn("Interval")
        import numbers
        for closed in ("left", "right", "both", "neither"):
            for lo, hi in ((True, True), (True, False), (False, True), (False, False)):
                l, r, v, nanv = z3.Reals("l r v")[0], z3.Real("r"), z3.Real("v"), z3.Bool("v_nan")
                ex = Explorer("Interval", [l < r], branch_timeout=2000)
                def body(p, closed=closed, lo=lo, hi=hi):
                    o = object.__new__(Iv); o.type = numbers.Real; o.left = SNum(l) if lo else None; o.right = SNum(r) if hi else None; o.closed = closed; o.hidden = False
                    got = o.is_satisfied_by(SNum(v, nanv))
                    t = ps.tob(got) if not isinstance(got, bool) else z3.BoolVal(got)
                    inl = (v >= l if closed in ("left", "both") else v > l) if lo else z3.BoolVal(True)
                    inr = (v <= r if closed in ("right", "both") else v < r) if hi else z3.BoolVal(True)
                    p.oblige("value accepted exactly inside the %s interval" % closed, t == z3.And(z3.Not(nanv), inl, inr), kind="post")
                c.explore(ex, body, "Interval closed=%s %s%s (_param_validation.py)" % (closed, "[" if lo else "-inf", "]" if hi else "+inf"))
    c.guard("Interval", interval)
    c.assumptions += ["symbolic numbers are finite or NaN; infinities, strings, None and numpy scalar types are exercised by the concrete oracle",
                      "numpy.unique over lengths returns one entry per distinct value; isinstance of a number follows the numeric tower"]
    c.oracle("o_params.py", timeout=200)
