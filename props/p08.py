"""P08: detector arguments reach the algorithm in their own roles."""
import z3
from vc import pysym as ps, pyx
from vc.pysym import SNum, SBool, Explorer, _z
from props import binding as bd

def eq(a, b):
    if isinstance(a, SBool) or isinstance(b, SBool) or isinstance(a, bool): return ps.tob(a) == ps.tob(b)
    r = _z(a) == _z(b) if not (z3.is_real(_z(a)) ^ z3.is_real(_z(b))) else ps.real(_z(a)) == ps.real(_z(b))
    return r

def run(c):
    st = {}
    def load(): st['b'] = bd.Bind(c)
    c.guard("colds.py, _colds_cython.pyx", load)
    # documented ranges; the callee of each entry point is the C function, by parameter name
    def entry(name, given):
        """given: None = every argument by keyword; 'default' = all optional arguments left out; 'positional'"""
        def f():
            b = st['b']; rel, cfn, pars = bd.ENTRY[name]
            n = z3.Int("n"); pre = [n >= 1, z3.Int("len_break_dates") >= 1]
            pre += [z3.Int("len_" + k) == n for k in bd.SERIES]
            pre += [z3.Not(z3.Bool("nan_" + k)) for k in bd.KINDS if bd.KINDS[k] == "real"]
            P = {k: z3.Int("p_" + k) for k in bd.KINDS if bd.KINDS[k] == "int"}
            pre += [P["pos"] >= 1, P["conse"] >= 1, P["conse"] <= 11, P["starting_date"] >= 0, P["n_cm"] >= 0, P["cm_output_interval"] >= 0]
            pre += [z3.Real("p_" + k) > 0 for k in ("t_cg", "gate_tcg", "predictability_tcg")] + [z3.Real("p_gap_days") >= 0]
            # a state as the detector returns it
            pre += [z3.Int("pk_nrec") >= 0, z3.Int("pk_nrec") <= 40, z3.Int("pk_nqueue") >= 0, z3.Int("pk_nqueue") <= 240,
                    z3.Int("pk_nmodel") == 1, z3.Int("pk_mode") >= 0, z3.Int("pk_mode") <= 15]
            ex = Explorer(name, pre, branch_timeout=2000)
            def body(p):
                ar = b.arrays(breaks=(name == "obcold_reconstruct"))
                pv = b.params(pars) if given != "default" else {}
                want = {k: pv.get(k, bd.DEFAULT[k]) for k in pars}
                pack = b.pack()
                pos = [ar[k] for k in bd.SERIES] + ([ar["break_dates"]] if name == "obcold_reconstruct" else [])
                if name == "sccd_update": pos = [pack] + pos
                if given == "positional": pos += [pv[k] for k in pars]; kw = {}
                else: kw = pv
                b.calls.clear(); err = None; ret = None
                try: ret = b.m.fn(name)(*pos, **kw)
                except (RuntimeError, Exception) as e:
                    if not isinstance(e, (RuntimeError, ValueError)) and type(e) is not Exception: raise
                    err = e
                if not b.calls:
                    if name.startswith("sccd"):
                        # refused before any computation: too long a window, too short a series, or no usable state
                        dv = ar["dates"].f if hasattr(ar["dates"], "f") else None
                        v = z3.Function("v_dates", z3.IntSort(), z3.IntSort())
                        short = z3.ToReal(v(n - 1) - v(0)) < z3.RealVal("365.25")
                        bad = _z(want["conse"]) > 8
                        if name == "sccd_detect": p.oblige("only too short a series or too long a window is refused", z3.Or(short, bad), kind="post")
                        else:
                            md = z3.Int("pk_mode"); okm = z3.Or(md == 0, md % 10 == 1, md % 10 == 2, md == 3, md == 4, md == 5)
                            p.oblige("only an unknown state mode or too long a window is refused", z3.Or(z3.Not(okm), bad), kind="post")
                    else: p.oblige("the algorithm is called", z3.BoolVal(False), kind="post")
                    return
                fn, got = b.calls[-1]
                p.oblige("the algorithm is called once", z3.BoolVal(len(b.calls) == 1 and fn == cfn), kind="post")
                for k in ar:
                    a = got.get(k); ok = isinstance(a, pyx.Addr) and a.i == 0 and isinstance(a.arr, bd.SArr) and a.arr.role == k
                    p.oblige("%s arrives as %s" % (k, k), z3.BoolVal(ok), kind="post")
                    if ok:
                        fresh = a.arr.copy_of is not None and not a.arr.maybe_alias
                        p.oblige("%s is handed on as a copy, the caller's array cannot be modified" % k, z3.BoolVal(fresh), kind="post")
                        i = z3.Int("i")
                        p.oblige("%s arrives with the caller's values" % k, z3.Implies(z3.And(0 <= i, i < _z(ar[k].shape[0])), _z(a.arr.at(SNum(i))) == _z(ar[k].at(SNum(i)))), kind="post")
                p.oblige("the number of observations is the series' length", _z(got["#n"]) == n, kind="post")
                if "#nb" in got: p.oblige("the number of break dates is their length", _z(got["#nb"]) == z3.Int("len_break_dates"), kind="post")
                for k in pars:
                    if k in ("n_cm",): continue
                    w = want[k]
                    if k == "cm_output_interval":
                        ob = ps.tob(want["b_output_cm"]) if not isinstance(want["b_output_cm"], bool) else z3.BoolVal(want["b_output_cm"])
                        p.oblige("the output interval is the given one, or 60 days when left out", z3.Implies(ob, _z(got[k]) == z3.If(_z(w) == 0, 60, _z(w))), kind="post"); continue
                    if k == "starting_date":
                        v = z3.Function("v_dates", z3.IntSort(), z3.IntSort())
                        ob = ps.tob(want["b_output_cm"]) if not isinstance(want["b_output_cm"], bool) else z3.BoolVal(want["b_output_cm"])
                        p.oblige("the starting date is the given one, or the first date when left out", z3.Implies(ob, _z(got[k]) == z3.If(_z(w) == 0, v(0), _z(w))), kind="post"); continue
                    if k == "b_c2" or bd.KINDS[k] == "bool":
                        if k in got: p.oblige("%s keeps its role" % k, eq(got[k], w), kind="post")
                        continue
                    if k not in got and name.startswith("sccd") and k == "pos": continue   # only in the returned state
                    p.oblige("%s keeps its role" % k, eq(got[k], w), kind="post")
                if name == "sccd_detect": p.oblige("the predictability threshold left out is the documented default", eq(got["predictability_tcg"], 9.236), kind="post")
                if name == "sccd_update":
                    p.oblige("a state update never records pinpoint breaks", z3.Not(ps.tob(got["b_pinpoint"])) if not isinstance(got["b_pinpoint"], bool) else z3.BoolVal(not got["b_pinpoint"]), kind="post")
                    for k, fld in (("rec_cg", "rec_cg"), ("nrt_queue", "nrt_queue"), ("nrt_model", "nrt_model"), ("min_rmse", "min_rmse")):
                        a = got[k].arr
                        p.oblige("the algorithm never writes into the caller's %s" % fld, z3.BoolVal(isinstance(a, bd.CArr) and a.owner != "caller"), kind="post")
                    sl = lambda a, fld: any(isinstance(v, tuple) and v[0] == "slice" and v[1] is getattr(pack, fld) for _, v in a.log)
                    for k, cnt in (("rec_cg", "pk_nrec"), ("nrt_queue", "pk_nqueue")):
                        a = got[k].arr
                        p.oblige("stored %s are handed on" % k, z3.Implies(z3.Int(cnt) > 0, z3.BoolVal(sl(a, k))), kind="post")
                    p.oblige("the number of stored segments is handed on", _z(got["num_fc"].val) == z3.Int("pk_nrec"), kind="post")
                    p.oblige("the number of queued observations is handed on", _z(got["num_nrt_queue"].val) == z3.Int("pk_nqueue"), kind="post")
                    p.oblige("the state's mode is handed on", _z(got["nrt_mode"].val) == z3.Int("pk_mode"), kind="post")
                    a = got["min_rmse"].arr
                    p.oblige("the state's minimum noise is handed on", z3.BoolVal(a.src is not None and a.src[0] == "copy" and a.src[1] is pack.min_rmse), kind="post")
                    a = got["nrt_model"].arr; md = z3.Int("pk_mode")
                    p.oblige("the state's model is handed on in the modes that have one",
                             z3.Implies(z3.Or(md % 10 == 1, md == 3, md % 10 == 5), z3.BoolVal(a.src is not None and a.src[0] == "copy" and a.src[1] is pack.nrt_model)), kind="post")
                # what comes back
                if err is not None:
                    p.oblige("an error is raised only when the algorithm reports failure, no segment, or an unknown mode",
                             z3.Or(_z(b.result) != 0, _z(b.outs["num_fc"]) <= 0, z3.BoolVal("nrt_mode" in b.outs)), kind="post")
                elif ret is not None:
                    p.oblige("a failed run never returns a result", _z(b.result) == 0, kind="post")
                    out = ret
                    if name == "cold_detect" and isinstance(ret, list):
                        p.oblige("change-magnitude outputs come back in their own slots", z3.BoolVal(len(ret) == 3 and ret[1] is got["cm_outputs"].arr and ret[2] is got["cm_outputs_date"].arr), kind="post"); out = ret[0]
                    if name in ("cold_detect", "obcold_reconstruct"):
                        ok = isinstance(out, tuple) and out[0] == "slice" and out[1] is got["rec_cg"].arr
                        p.oblige("the algorithm's own segments are returned", z3.BoolVal(ok), kind="post")
                        if ok: p.oblige("exactly the reported number of segments is returned", z3.And(_z(out[2]) == 0, _z(out[3]) == _z(b.outs["num_fc"])), kind="post")
                    else:
                        if isinstance(ret, list): out = ret[0]
                        p.oblige("the position returned is the one given", eq(out.position, want["pos"]), kind="post")
                        p.oblige("the mode returned is the algorithm's", _z(out.nrt_mode) == _z(b.outs["nrt_mode"]), kind="post")
                        p.oblige("the minimum noise returned is the algorithm's", z3.BoolVal(out.min_rmse is got["min_rmse"].arr), kind="post")
            c.explore(ex, body, "%s, %s (colds.py + _colds_cython.pyx)" % (name, {None: "keyword arguments", "default": "defaults", "positional": "positional arguments"}[given]))
        c.guard("%s %s" % (name, given), f)
    for nme in bd.ENTRY:
        for g in (None, "default", "positional"): entry(nme, g)
    c.assumptions += ["Cython's declared conversions: typed parameters receive the value given (double, int, bint), memory views address the array's first element",
                      "the role of a C parameter is the one its name in the C definition documents; inside the C algorithm roles are followed by P12 and by the concrete oracle",
                      "ndarray.astype copies unless copy=False"]
    c.oracle("o_roles.py", timeout=400)
