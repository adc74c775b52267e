"""P09: a saved S-CCD state is restored unchanged.
Contracts: unindex_sccdpack and index_sccdpack (utils.py) and the export tool's copy of
index_sccdpack, for states of any mode and any number of segments, models and queued
observations.  numpy's tolist/asarray are used by contract: a structured array turned into
a list of tuples and read back with the same dtype is the same array, field by field."""
import z3, collections
from vc import pysym as ps
from vc.pysym import SNum, SBool, Explorer, Module, Unsupported, _z

class Dt:
    """np.dtype of a field list; compared structurally"""
    def __init__(self, spec, align=False):
        self.spec = self.norm(spec); self.align = bool(align)
    @staticmethod
    def norm(spec):
        if isinstance(spec, Dt): return spec.spec
        if isinstance(spec, (list, tuple)):
            out = []
            for f in spec:
                sh = f[2] if len(f) > 2 else ()
                out.append((f[0], str(f[1]), tuple(sh) if isinstance(sh, (list, tuple)) else (sh,)))
            return tuple(out)
        return str(spec)
    def __eq__(self, o): return isinstance(o, Dt) and self.spec == o.spec
    def __hash__(self): return hash(self.spec)
    @property
    def names(self): return tuple(f[0] for f in self.spec)

class Rec:
    """a record array: contents `key`, dtype, symbolic length"""
    def __init__(self, key, dt, n): self.key = key; self.dtype = dt; self.n = n
    def __symlen__(self): return self.n
    @property
    def size(self): return self.n
    @property
    def shape(self): return (self.n,)
    def tolist(self): return Lst(self.key, self.dtype, self.n)
    def copy(self): return Rec(self.key, self.dtype, self.n)
    def __bool__(self): raise Unsupported("truth of an array")
class Lst:
    def __init__(self, key, dt, n): self.key = key; self.dtype = dt; self.n = n
    def __symlen__(self): return self.n
    def __bool__(self): return bool(self.n != 0)

class NPX(ps.NP):
    int8, int16, int32, int64, uint8, uint16, uint32, uint64 = ["%s" % t for t in "int8 int16 int32 int64 uint8 uint16 uint32 uint64".split()]
    short, ubyte, byte, ushort, float32, float64, double, single = "int16 uint8 int8 uint16 float32 float64 float64 float32".split()
    def dtype(self, spec, align=False, **k): return Dt(spec, align)
    def asarray(self, x, dtype=None, **k):
        if isinstance(x, (Rec, Lst)):
            d = Dt(dtype) if dtype is not None and not isinstance(dtype, Dt) else dtype
            if d is None: d = x.dtype if isinstance(x, Rec) else Dt("list")
            return Rec(x.key if d == x.dtype else ("read as another type", x.key, d.spec), d, x.n)
        raise Unsupported("asarray of %r" % type(x))
    def array(self, x, dtype=None, **k):
        if isinstance(x, list) and not x: return Rec("empty", Dt(dtype or "float64"), SNum(z3.IntVal(0)))
        return self.asarray(x, dtype)

FIELDS = ["position", "rec_cg", "min_rmse", "nrt_mode", "nrt_model", "nrt_queue"]
def run(c):
    m = {}
    def load():
        m['u'] = Module(c.repo, "pycold/utils.py", facades={"numpy": NPX()}); c.track("utils.py", m['u'].hash_of("unindex_sccdpack", "index_sccdpack"))
        m['e'] = Module(c.repo, "pycold/imagetool/export_change_map.py", facades={"numpy": NPX()}); c.track("export_change_map.py", m['e'].hash_of("index_sccdpack"))
        m['c'] = Module(c.repo, "pycold/common.py", facades={"numpy": NPX()}); c.track("common.py", m['c'].hash_all())
    c.guard("modules", load)
    nr, nm, nq = z3.Ints("n_segments n_model n_queue"); pos, mode = z3.Ints("position nrt_mode")
    PRE = [nr >= 0, z3.Or(nm == 0, nm == 1), nq >= 0]
    def state():
        D = m['c'].ns
        T = D["SccdOutput"]
        if list(T._fields) != FIELDS: raise Unsupported("fields of SccdOutput")
        mr = Rec("min_rmse", Dt("int16"), SNum(z3.IntVal(6)))
        # an empty part of a state is np.array([]); a non-empty one has its own record type
        return T(SNum(pos), Rec("rec_cg", D["sccd_dt"], SNum(nr)), mr, SNum(mode), Rec("nrt_model", D["nrtmodel_dt"], SNum(nm)), Rec("nrt_queue", D["nrtqueue_dt"], SNum(nq)))
    def same_part(p, name, n, a, b):
        if not isinstance(b, Rec):
            p.oblige("%s is restored as an array" % name, z3.BoolVal(False), kind="post"); return
        p.oblige("%s keeps its length" % name, _z(b.n) == n, kind="post")
        p.oblige("%s is restored field by field" % name, z3.Or(n == 0, z3.BoolVal(b.key == a.key and b.dtype == a.dtype)), kind="post")
    for tag, mod in (("utils.index_sccdpack", "u"), ("export_change_map.index_sccdpack", "e")):
        def prove(tag=tag, mod=mod):
            un, ix = m['u'].fn("unindex_sccdpack"), m[mod].fn("index_sccdpack")
            ex = Explorer(tag, PRE)
            def body(p):
                st = state()
                flat = un(st)
                if not isinstance(flat, list): p.oblige("the state is flattened to a list", z3.BoolVal(False), kind="post"); return
                p.oblige("the flat state has every part", z3.BoolVal(len(flat) == len(FIELDS)), kind="post")
                for nme, n in (("rec_cg", nr), ("nrt_model", nm), ("nrt_queue", nq)):
                    v = flat[FIELDS.index(nme)]
                    p.oblige("%s is stored as a plain list when it has entries" % nme, z3.Or(n == 0, z3.BoolVal(isinstance(v, Lst))), kind="post")
                back = ix(flat)
                p.oblige("a named state is returned", z3.BoolVal(list(getattr(back, "_fields", [])) == FIELDS), kind="post")
                for nme, n in (("rec_cg", nr), ("nrt_model", nm), ("nrt_queue", nq)): same_part(p, nme, n, getattr(st, nme), getattr(back, nme))
                p.oblige("position is unchanged", _z(back.position) == pos, kind="post")
                p.oblige("mode is unchanged", _z(back.nrt_mode) == mode, kind="post")
                p.oblige("minimum noise is unchanged", z3.BoolVal(isinstance(back.min_rmse, (Rec, Lst)) and back.min_rmse.key == "min_rmse"), kind="post")
            c.explore(ex, body, "unindex_sccdpack ; " + tag)
        c.guard(tag, prove)
        def refuse(tag=tag, mod=mod):
            ix = m[mod].fn("index_sccdpack")
            for k in [0, 1, 2, 3, 4, 5, 7, 8, 9]:
                ex = Explorer("%s (%d parts)" % (tag, k), PRE); ok = []
                def body(p):
                    try: ix([SNum(z3.Int("x%d" % i)) for i in range(k)])
                    except Exception as e: ok.append(1); p.oblige("a list of %d parts is refused" % k, z3.BoolVal(True), kind="post"); return
                    p.oblige("a list of %d parts is refused" % k, z3.BoolVal(False), kind="post")
                c.explore(ex, body, "%s, %d parts" % (tag, k))
        c.guard(tag + " refusal", refuse)
    def types():
        D = m['c'].ns; E = m['e'].ns
        import collections as C
        obl = []
        for nme in ("sccd_dt", "nrtqueue_dt", "nrtmodel_dt"):
            a, b = D.get(nme), E.get(nme)
            if b is None or not isinstance(b, Dt): continue
            obl.append(("the export tool's %s has the fields the states are saved with" % nme, [], z3.BoolVal(a == b), None, "post"))
        if obl: c.discharge(obl, "export_change_map record types")
    c.guard("record types", types)
    c.assumptions += ["np.ndarray.tolist / np.asarray(list, dtype): a structured array written as a list of tuples and read with the same dtype is the same array (numpy contract; exercised by the oracle on extreme values)",
                      "pickle.dump / pickle.load of plain lists (tile_processing) is lossless", "list lengths other than 6 are enumerated up to 9; the guard compares len(), so longer lists take the same path"]
    c.oracle("o_pack.py")
