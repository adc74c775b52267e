"""P05: classification features come from the segment that covers the requested date."""
import z3
from vc import pysym as ps
from vc.pysym import SNum, SBool, PArr, SymList, SRecArr, Explorer, Module, Unsupported, _z, real

NAMES = ["a0", "c1", "a1", "b1", "a2", "b2", "a3", "b3", "rmse"]
FIELDS = {"t_start": (), "t_end": (), "pos": (), "coefs": (7, 8), "rmse": (7,), "t_break": (), "num_obs": (), "category": (), "change_prob": (), "magnitude": (7,)}
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
TS, TE, POS = [z3.Function(x, I, I) for x in ("t_start", "t_end", "pos")]
CO, CON = z3.Function("coefs", I, I, I, R), z3.Function("coefs_nan", I, I, I, B)
RM, RMN = z3.Function("rmse", I, I, R), z3.Function("rmse_nan", I, I, B)
def getrec(off=None):
    def get(i, name, *idx):
        i = _z(i) if off is None else _z(i) + off
        if name == "t_start": return SNum(TS(i))
        if name == "t_end": return SNum(TE(i))
        if name == "pos": return SNum(POS(i))
        if name == "coefs": return SNum(CO(i, *[_z(x) for x in idx]), CON(i, *[_z(x) for x in idx]))
        if name == "rmse": return SNum(RM(i, _z(idx[0])), RMN(i, _z(idx[0])))
        raise Unsupported("field " + name)
    return get

def want(name, k, band, day):
    c = lambda j: z3.If(CON(k, band, j), 0, CO(k, band, j))
    if name == "a0": return z3.If(z3.Or(CON(k, band, 0), CON(k, band, 1)), 0, CO(k, band, 0) + CO(k, band, 1) * z3.ToReal(day) / 10000)
    if name == "c1": return c(1) / 10000
    if name == "rmse": return z3.If(RMN(k, band), 0, RM(k, band))
    return c({"a1": 2, "b1": 3, "a2": 4, "b2": 5, "a3": 6, "b3": 7}[name])

def run(c):
    m = {}
    def load():
        m['m'] = Module(c.repo, "pycold/pyclassifier.py"); c.track("pyclassifier.py", m['m'].hash_all())
    c.guard("pyclassifier.py", load)
    n, nd, band, D, k, nv = [z3.Int(x) for x in "n nd band D k nan_val".split()]
    DAY = z3.Function("day", I, I)
    a_, b_ = z3.Ints("a_ b_")
    cov = lambda q, d, n=n: z3.And(0 <= q, q < n, TS(q) <= d, d < z3.If(q == n - 1, TE(q), TS(q + 1)))
    pre = [n >= 0, nd >= 0, 0 <= band, band < 7, 0 <= D, D < nd, 0 <= k, k < n,
           z3.ForAll([a_, b_], z3.Implies(z3.And(0 <= a_, a_ < b_, b_ < n), TS(a_) <= TS(b_)), patterns=[z3.MultiPattern(TS(a_), TS(b_))])]
    for feats in [[x] for x in NAMES] + [["a0", "a1", "b1"], ["rmse", "b3", "a0"], ["c1", "a3", "b2"], ["a2", "c1"]]:
        nm = "extract_features(%s)" % ",".join(feats)
        def prove(feats=feats, nm=nm):
            f = m['m'].fn("extract_features")
            ex = Explorer(nm, pre)
            def inv(loop, i, loc):
                L = loc['*']; fs = L.get("features")
                if not isinstance(fs, list) or not all(isinstance(x, PArr) for x in fs): return []
                out = []
                depth = sum(1 for x in ps.CUR.loops if x[0] != loop.lid)
                inner = depth > 0
                for t, name in enumerate(feats):
                    v = fs[t].at(SNum(D)); vv = real(_z(v)); vn = ps._nan(v); ok = z3.BoolVal(True) if vn is None else z3.Not(vn)
                    fin = z3.And(ok, z3.Implies(cov(k, DAY(D)), vv == want(name, k, band, DAY(D))), z3.Implies(NOCOV, vv == z3.ToReal(nv)))
                    na = z3.And(ok, vv == z3.ToReal(nv))
                    if not inner:
                        out.append(("day %s: done days hold their feature, later ones the NA value" % name, z3.And(z3.Implies(D < _z(i), fin), z3.Implies(D >= _z(i), na))))
                    else:
                        cur = outer_index()
                        out.append(("%s: no covering segment met yet, other days untouched" % name,
                                    z3.And(z3.Implies(D == cur, z3.And(na, z3.Implies(k < _z(i), z3.Not(cov(k, DAY(D)))))),
                                           z3.Implies(D < cur, fin), z3.Implies(D > cur, na))))
                if not inner: cur_idx.clear()
                return out
            cur_idx = []
            def outer_index():
                # the iteration variable of the enclosing day loop
                return outer[-1].i.t
            outer = []
            real_enter = ps.Loop.enter
            def enter(self, loc):
                r = real_enter(self, loc)
                if r:
                    while outer and len(outer) >= len(ps.CUR.loops): outer.pop()
                    outer.append(self)
                return r
            def hook_inv(loop, i, loc):
                while outer and (len(outer) > len(ps.CUR.loops)): outer.pop()
                return inv(loop, i, loc)
            ex.loopinv = hook_inv
            q_ = z3.Int("q_")
            NOCOV = z3.ForAll([q_], z3.Not(cov(q_, DAY(D))), patterns=[TS(q_)])
            ps.Loop.enter = enter
            try:
                def body(p):
                    days = SymList(SNum(nd), lambda i: SNum(DAY(_z(i))))
                    recs = SRecArr(SNum(n), getrec(), FIELDS)
                    out = f(recs, SNum(band), days, SNum(nv), list(feats))
                    if len(out) != len(feats): p.oblige("one array per feature", z3.BoolVal(False)); return
                    for t, name in enumerate(feats):
                        v = out[t].at(SNum(D)); vn = ps._nan(v); vv = real(_z(v))
                        p.oblige("%s has one entry per day" % name, _z(out[t].shape[0]) == nd, kind="post")
                        p.oblige("%s of a covered day comes from the covering segment" % name, z3.Implies(cov(k, DAY(D)), vv == want(name, k, band, DAY(D))), kind="post")
                        p.oblige("%s of a day no segment covers is the NA value" % name, z3.Implies(NOCOV, vv == z3.ToReal(nv)), kind="post")
                        if vn is not None: p.oblige("%s is never NaN" % name, z3.Not(vn), kind="post")
                c.explore(ex, body, nm + " (any number of segments and days)")
            finally: ps.Loop.enter = real_enter
        c.guard(nm, prove)
    predict(c, m)
    c.assumptions += ["np.diff/argwhere/split cut the records where the position changes", "records of one pixel are contiguous and every pixel lies in the block", "segments of a pixel are sorted by start day (P17)", "machine floats treated as reals with a NaN flag"]
    c.oracle("o_features.py", timeout=250)

class _Date:
    def __init__(self, y, m, d): self.v = ORD(_z(y), _z(m), _z(d))
    def toordinal(self): return SNum(self.v)
class _DT:
    date = datetime = staticmethod(lambda y, m, d: _Date(y, m, d))
ORD = z3.Function("ordinal", I, I, I, I)
class Cuts:
    def __init__(self, mask, off): self.mask = mask; self.off = off
    def __getitem__(self, k): return self
    def __add__(self, o): return Cuts(self.mask, self.off + o)
    def ravel(self): return self
    flatten = ravel
class NPG(ps.NP):
    """np.diff / argwhere / flatnonzero / split on the position column, by contract"""
    def diff(self, a):
        g = a.snap(); return PArr((a.shape[0] - 1,), lambda i: g(i + 1) - g(i))
    def argwhere(self, m): return Cuts(m, 0)
    def flatnonzero(self, m): return Cuts(m, 0)
    def where(self, c, *ab):
        if not ab: return (Cuts(c, 0),)
        return ps.NP.where(self, c, *ab)
    def split(self, a, cuts, axis=0):
        if not isinstance(cuts, Cuts): return ps.NP.split(self, a, cuts, axis)
        p = ps.CUR; msk = cuts.mask.snap()
        S, g_, G = p.ex.S, z3.Int("g_"), p.ex.G
        p.assume(z3.And(G >= 1, S(0) == 0, S(G) == _z(a.n)))
        # group g starts at S(g): each cut is one past a marked difference
        if _z(cuts.off).as_long() != 1: p.oblige("groups are cut right where the position changes", z3.BoolVal(False))
        i = SNum(z3.Int("cut_i"))
        p.oblige("cuts are exactly the changes of position", ps.tob(msk(i)) == (POS(_z(i) + 1) != POS(_z(i))))
        def get(g):
            r = SRecArr(SNum(S(_z(g) + 1) - S(_z(g))), getrec(S(_z(g))), FIELDS); r.group = _z(g); return r
        return SymList(SNum(G), get)

def predict(c, m):
    S = z3.Function("group_start", I, I); G = z3.Int("n_groups")
    COL, ROW = z3.Function("col", I, I), z3.Function("row", I, I)
    FEAT = z3.Function("feature", I, I, I, I, R)
    YEAR = z3.Function("year", I, I)
    n, ny, w, h, Y, g0, x0 = [z3.Int(v) for v in "n ny w h Y g0 x0".split()]
    g_ = z3.Int("g_")
    idx = lambda g: ROW(POS(S(g))) * w + COL(POS(S(g)))
    def lemma():
        c.discharge(ps.euclid_lemma(), "lemma: row * width + column is injective (Euclidean uniqueness)")
    c.guard("lemma", lemma)
    pre = [n >= 0, ny >= 1, w >= 1, h >= 1, 0 <= Y, Y < ny, 0 <= g0, g0 < G, 0 <= x0, x0 < w * h, G >= 1,
           z3.ForAll([g_], z3.Implies(z3.And(0 <= g_, g_ < G), z3.And(S(g_) < S(g_ + 1), S(g_) >= 0, S(g_ + 1) <= n, COL(POS(S(g_))) >= 0, COL(POS(S(g_))) < w, ROW(POS(S(g_))) >= 0, ROW(POS(S(g_))) < h,
                     idx(g_) >= 0, idx(g_) < w * h)), patterns=[POS(S(g_))]),
           z3.ForAll([g_], z3.Implies(z3.And(0 <= g_, g_ < G, g_ != g0), idx(g_) != idx(g0)), patterns=[POS(S(g_))])]
    for feats, bands in ((["a0", "a1", "b1"], 7), (["rmse", "c1"], 3)):
        nm = "predict_features(%d features, %d bands)" % (len(feats), bands)
        def prove(feats=feats, bands=bands, nm=nm):
            mod = Module(c.repo, "pycold/pyclassifier.py", facades={"numpy": NPG(), "datetime": _DT()})
            C = mod.fn("PyClassifier")
            def stub(rec, band, days, nan_val, feature_outputs=["a0", "a1", "b1"]):
                p = ps.CUR; g = getattr(rec, "group", None)
                if g is None: raise Unsupported("features of something else than a pixel's records")
                b = ps.conc(band)
                if list(feature_outputs) != feats: p.oblige("the configured features are requested", z3.BoolVal(False), kind="post")
                p.oblige("NA value is -9999", _z(nan_val) == -9999, kind="post")
                p.oblige("one day per year", _z(ps.b_len(days)) == ny, kind="post")
                p.oblige("the requested day is 1 July of the year", _z(days[SNum(Y)]) == ORD(YEAR(Y), 7, 1), kind="post")
                return [PArr((SNum(ny),), lambda y, t=t: SNum(FEAT(g, b, t, _z(y)))) for t in range(len(feats))]
            mod.ns["extract_features"] = stub
            def gi(uf):
                def f(pos, *a): return SNum(uf(_z(pos)))
                return f
            mod.ns["get_col_index"] = gi(COL); mod.ns["get_row_index"] = gi(ROW)
            mod.ns["get_block_x"] = lambda *a: SNum(z3.Int("bx")); mod.ns["get_block_y"] = lambda *a: SNum(z3.Int("by"))
            NF = len(feats) * bands
            ex = Explorer(nm, pre); ex.S = S; ex.G = G
            NONE = z3.ForAll([g_], z3.Implies(z3.And(0 <= g_, g_ < G), idx(g_) != x0), patterns=[POS(S(g_))])
            def facts(bf, i):
                out = []
                for b in range(bands):
                    for t in range(len(feats)):
                        v = bf.at(SNum(Y), SNum(idx(g0)), b * len(feats) + t); q = bf.at(SNum(Y), SNum(x0), b * len(feats) + t)
                        nn = [z3.Not(ps._nan(x)) for x in (v, q) if ps._nan(x) is not None]
                        out.append(("band %d feature %s" % (b, feats[t]), z3.And(*(nn + [z3.Implies(g0 < i, real(_z(v)) == FEAT(g0, b, t, Y)), z3.Implies(g0 >= i, real(_z(v)) == -9999),
                                   z3.Implies(NONE, real(_z(q)) == -9999)]))))
                return out
            def inv(loop, i, loc):
                bf = loc['*'].get("block_features")
                return facts(bf, _z(i)) if isinstance(bf, PArr) else []
            ex.loopinv = inv
            class Log:
                def __getattr__(self, a): return lambda *x, **k: None
            def body(p):
                D = type("DI", (), dict(block_width=SNum(w), block_height=SNum(h), n_cols=SNum(z3.Int("n_cols")), n_rows=SNum(z3.Int("n_rows")), n_block_x=SNum(z3.Int("nbx")), n_block_y=SNum(z3.Int("nby"))))()
                o = C(D, list(feats), Log(), bands)
                recs = SRecArr(SNum(n), getrec(), FIELDS)
                out = o.predict_features(SNum(z3.Int("block_id")), recs, SymList(SNum(ny), lambda i: SNum(YEAR(_z(i)))))
                empty = n == 0
                for name, t in facts(out, G):
                    p.oblige(name + " of the pixel's own segments in the pixel's own slot, NA elsewhere", z3.Implies(z3.Not(empty), t), kind="post")
                p.oblige("no records: all NA", z3.Implies(empty, real(_z(out.at(SNum(Y), SNum(x0), 0))) == -9999), kind="post")
            c.explore(ex, body, nm + " (any block, any number of records)")
        c.guard(nm, prove)
