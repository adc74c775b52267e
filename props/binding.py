"""Shared by P07 and P08: the detector entry points executed symbolically, through the parameter
validation and the binding layer, down to the call of the C function."""
import z3
from vc import pysym as ps, pyx
from vc.pysym import SNum, SBool, PArr, Explorer, Module, Unsupported, _z

SERIES = ["dates", "ts_b", "ts_g", "ts_r", "ts_n", "ts_s1", "ts_s2", "ts_t", "qas"]
# role of each C parameter, by name (cold.c, s_ccd.c)
ROLE = {"buf_b": "ts_b", "buf_g": "ts_g", "buf_r": "ts_r", "buf_n": "ts_n", "buf_s1": "ts_s1", "buf_s2": "ts_s2", "buf_t": "ts_t",
        "fmask_buf": "qas", "valid_date_array": "dates", "valid_num_scenes": "#n", "pos": "pos", "tcg": "t_cg", "conse": "conse",
        "b_outputcm": "b_output_cm", "starting_date": "starting_date", "b_c2": "b_c2", "rec_cg": "rec_cg", "num_fc": "num_fc",
        "cm_output_interval": "cm_output_interval", "cm_outputs": "cm_outputs", "cm_outputs_date": "cm_outputs_date", "gap_days": "gap_days",
        "break_dates": "break_dates", "break_date_len": "#nb", "nrt_mode": "nrt_mode", "nrt_model": "nrt_model", "num_obs_queue": "num_nrt_queue",
        "obs_queue": "nrt_queue", "min_rmse": "min_rmse", "b_pinpoint": "b_pinpoint", "rec_cg_pinpoint": "rec_cg_pinpoint",
        "num_fc_pinpoint": "num_fc_pinpoint", "gate_tcg": "gate_tcg", "predictability_tcg": "predictability_tcg"}
KINDS = {"t_cg": "real", "pos": "int", "conse": "int", "b_output_cm": "bool", "starting_date": "int", "n_cm": "int", "cm_output_interval": "int",
         "b_c2": "bool", "gap_days": "real", "b_pinpoint": "bool", "gate_tcg": "real", "predictability_tcg": "real", "b_monitor_init": "bool",
         "dist_conse": "int", "t_cg_scale100": "real", "t_cg_singleband_scale1000": "real", "t_angle_scale100": "int", "transform_mode": "bool"}
ENTRY = {"cold_detect": ("cold.c", "cold", ["t_cg", "pos", "conse", "b_output_cm", "starting_date", "n_cm", "cm_output_interval", "b_c2", "gap_days"]),
         "obcold_reconstruct": ("cold.c", "obcold_reconstruction_procedure", ["pos", "conse", "b_c2"]),
         "sccd_detect": ("s_ccd.c", "sccd", ["t_cg", "pos", "conse", "b_c2", "b_pinpoint", "gate_tcg"]),
         "sccd_update": ("s_ccd.c", "sccd", ["t_cg", "pos", "conse", "b_c2", "gate_tcg", "predictability_tcg"])}
DEFAULT = {"t_cg": 15.0863, "pos": 1, "conse": 6, "b_output_cm": False, "starting_date": 0, "n_cm": 0, "cm_output_interval": 0, "b_c2": False,
           "gap_days": 365.25, "b_pinpoint": False, "gate_tcg": 9.236, "predictability_tcg": 9.236, "dist_conse": 6, "t_cg_scale100": 1508.6,
           "t_cg_singleband_scale1000": -200, "t_angle_scale100": 4500, "transform_mode": True}

class SArr(PArr):
    """a caller's observation array: symbolic length, symbolic number of dimensions"""
    def __init__(self, role, n, f, nd=None, copy_of=None):
        PArr.__init__(self, (n,), f); self.role = role; self.nd = nd; self.copy_of = copy_of; self.dt = None
    @property
    def ndim(self): return self.nd if self.nd is not None else 1
    def astype(self, *a, dtype=None, order="K", copy=True, **k):
        r = SArr(self.role, self.shape[0], self.snap(), self.nd, copy_of=self); r.dt = dtype if dtype is not None else (a[0] if a else None); r.order = order
        r.maybe_alias = not copy
        return r
    def copy(self): return self.astype()

class CArr:
    """a record array whose contents are not interpreted: identity, length, and where it came from"""
    def __init__(self, name, n, owner="fresh", src=None): self.name = name; self.n = n; self.owner = owner; self.src = src; self.log = []; self.shape = (n,)
    def __symlen__(self): return self.n
    def copy(self): return CArr(self.name, self.n, "fresh", src=("copy", self))
    def __getitem__(self, k):
        if isinstance(k, slice): return ("slice", self, k.start or 0, k.stop)
        return ("item", self, k)
    def __setitem__(self, k, v): self.log.append((k, v))

class NPX(ps.NP):
    """numpy of the binding layer: allocation only"""
    def zeros(self, n, dtype=None, **k): return CArr(str(dtype), n, src=("zeros", dtype))
    def empty(self, n, dtype=None, **k): return CArr(str(dtype), n, src=("empty", dtype))
    def full(self, n, v, dtype=None, **k): return CArr("full", n, src=("full", v, dtype))
    def array(self, x, **k): return CArr("empty", 0, src=("array", x))

def uniq(xs):
    """distinct values: only whether there is more than one matters to the caller"""
    if not xs: return []
    alleq = z3.And(*[_z(xs[0]) == _z(x) for x in xs[1:]]) if len(xs) > 1 else z3.BoolVal(True)
    return [xs[0]] if ps.CUR.branch(alleq) else [xs[0], SNum(ps.CUR.fresh_int("other_length"))]

class Bind:
    def __init__(self, c):
        self.c = c
        cache = {}
        x = pyx.PyxModule(c.repo, cache=cache, facades={"numpy": NPX(), "pycold.common.reccg_dt": "reccg_dt", "pycold.common.sccd_dt": "sccd_dt",
              "pycold.common.nrtqueue_dt": "nrtqueue_dt", "pycold.common.nrtmodel_dt": "nrtmodel_dt", "pycold.common.pinpoint_dt": "pinpoint_dt"},
              ns={"sizeof": lambda t: 1, "PyMem_Malloc": lambda n: CArr("malloc", n), "PyMem_Free": lambda p: None, "t4": 0})
        self.x = x
        class NPV(ps.NP): bool_ = type("bool_", (), {"__module__": "numpy"})
        f = {"numpy": NPV({"unique": uniq})}
        for n in ("_sccd_update", "_sccd_detect", "_obcold_reconstruct", "_cold_detect"): f["pycold._colds_cython." + n] = x.fn(n)
        self.m = Module(c.repo, "pycold/colds.py", facades=f, cache={})
        self.calls = []
        for fn in ("cold", "obcold_reconstruction_procedure", "sccd"):
            x.ns[fn] = self.stub(fn)
        c.track("colds.py", self.m.hash_all())
        import hashlib
        c.track("_colds_cython.pyx", hashlib.sha256(x.src.encode()).hexdigest()[:16])
        c.track("_param_validation.py", Module(c.repo, "pycold/_param_validation.py").hash_all())
    def stub(self, fn):
        rel = "s_ccd.c" if fn == "sccd" else "cold.c"
        def call(*args):
            par = pyx.c_params(self.c.repo, rel, fn)
            if len(par) != len(args): raise Unsupported("argument count of %s" % fn)
            got = {}
            for (nm, ty), a in zip(par, args):
                role = ROLE.get(nm.lower())
                if role is None: raise Unsupported("unknown C parameter %s of %s" % (nm, fn))
                got[role] = a
            self.calls.append((fn, got))
            p = ps.CUR
            outs = [SNum(p.fresh_int("result"))]
            self.outs = {}
            for a in args:
                if isinstance(a, pyx.Ref):
                    v = SNum(p.fresh_int(a.name)); outs.append(v); self.outs[a.name] = v
            self.result = outs[0]
            return tuple(outs)
        return call
    def arrays(self, breaks=False, nd=False):
        a = {}
        for k in SERIES + (["break_dates"] if breaks else []):
            f = z3.Function("v_" + k, z3.IntSort(), z3.IntSort())
            n = SNum(z3.Int("len_" + k))
            a[k] = SArr(k, n, lambda i, f=f: SNum(f(_z(i))), SNum(z3.Int("ndim_" + k)) if nd else None)
        return a
    def params(self, names, kinds=None):
        r = {}
        for k in names:
            kd = (kinds or {}).get(k, KINDS[k])
            if kd == "int": r[k] = SNum(z3.Int("p_" + k))
            elif kd == "real": r[k] = SNum(z3.Real("p_" + k), z3.Bool("nan_" + k))
            else: r[k] = SBool(z3.Bool("p_" + k))
        return r
    def pack(self):
        import collections
        S = self.x.ns["SccdOutput"]
        return S(SNum(z3.Int("pk_pos")), CArr("pk_rec", SNum(z3.Int("pk_nrec")), "caller"), CArr("pk_rmse", 6, "caller"), SNum(z3.Int("pk_mode")),
                 CArr("pk_model", SNum(z3.Int("pk_nmodel")), "caller"), CArr("pk_queue", SNum(z3.Int("pk_nqueue")), "caller"))
