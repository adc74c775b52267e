"""P04: an object is change exactly when its scaled magnitude exceeds its threshold."""
import z3
from vc import pysym as ps, facades as fc
from vc.pysym import SNum, SBool, PArr, SymList, Explorer, Module, Unsupported, _z

LOG = ps.uf("log10")
def scaled(mean, slope, size):
    s = LOG(z3.ToReal(size)) * slope + _z(0.95)
    return mean * z3.If(s < 2, s, z3.RealVal(2))

def params():
    d = {}
    for k in ["default"] + ["C%d" % i for i in range(1, 9)]:
        for w in ("threshold", "sizeslope"): d["%s_%s" % (k, w)] = SNum(z3.Real("%s_%s" % (k, w)))
    return d

def spec(mean, mode, size, thematic, uni):
    R = z3.Real
    if thematic and uni is not None: return scaled(mean, uni[1], size) > uni[0]
    dft = scaled(mean, R("default_sizeslope"), size) > R("default_threshold")
    if not thematic: return dft
    r = dft
    for i in range(1, 9): r = z3.If(mode == i, scaled(mean, R("C%d_sizeslope" % i), size) > R("C%d_threshold" % i), r)
    return r

class NPX(ps.NP):
    """np.unique(a, return_inverse, return_counts) of a label map, by contract"""
    def __init__(self, size): ps.NP.__init__(self); self.size = size
    def unique(self, a, return_inverse=False, return_counts=False, **k):
        p = ps.CUR
        n = SNum(p.fresh_int("nlabels")); p.assume(n.t >= 1)
        U = z3.Function("unq!%d" % p.nfresh, z3.IntSort(), z3.IntSort())
        out = [PArr((n,), lambda i: SNum(U(_z(i))))]
        if return_inverse: out.append(PArr((a.size,), lambda i: SNum(z3.Int("ids"))))
        if return_counts: out.append(PArr((n,), lambda i: SNum(self.size(U(_z(i))))))
        return out[0] if len(out) == 1 else tuple(out)

def run(c):
    m = {}
    size_of = z3.Function("patch_size", z3.IntSort(), z3.IntSort())     # pixels per patch label
    npx = NPX(size_of)
    def load():
        ps.BUILTINS["dict"] = fc.b_dict
        m['m'] = Module(c.repo, "pycold/ob_analyst.py", facades={"numpy": npx})
        c.track("ob_analyst.py", m['m'].hash_all())
    c.guard("ob_analyst.py", load)

    # ---- the rule itself
    mean, mode, size = z3.Real("mean"), z3.Int("mode"), z3.Int("size")
    ut, us = z3.Real("uniform_threshold"), z3.Real("uniform_sizeslope")
    pre = [size >= 1, z3.Or(mode == 255, z3.And(mode >= 1, mode <= 8))]
    row = {"label": SNum(z3.Int("label")), "mean_intensity": SNum(mean), "mode": SNum(mode), "npixels": SNum(size)}
    for thematic in (False, True):
        for uni in ((None, None), (ut, us), (ut, None), (None, us)):
            nm = "is_change_object(%s map, uniform threshold %s, slope %s)" % ("thematic" if thematic else "no", uni[0] is not None, uni[1] is not None)
            def prove(thematic=thematic, uni=uni, nm=nm):
                f = m['m'].fn("is_change_object")
                ex = Explorer(nm, pre)
                def body(p):
                    r = f(row, SNum(uni[0]) if uni[0] is not None else None, SNum(uni[1]) if uni[1] is not None else None,
                          "mean_intensity", PArr((SNum(z3.Int("R")), SNum(z3.Int("C"))), lambda i, j: SNum(z3.Int("cls"))) if thematic else None, params())
                    if not isinstance(r, (bool, SBool)): p.oblige("a verdict is returned", z3.BoolVal(False), kind="post"); return
                    want = spec(mean, mode, size, thematic, uni if uni[0] is not None and uni[1] is not None else None)
                    p.oblige("change exactly when the scaled magnitude strictly exceeds the threshold", ps.tob(r) == want, kind="post")
                c.explore(ex, body, nm)
            c.guard(nm, prove)
    def dflt():
        f = m['m'].fn("is_change_object"); d = ps.load_defaults(c.repo)["OBCOLD"]
        ex = Explorer("is_change_object(defaults)", pre)
        def body(p):
            r = f(row, None, None, "mean_intensity", None)
            p.oblige("without parameters the packaged defaults are used", ps.tob(r) ==
                     (scaled(mean, _z(SNum(_z(d["default_sizeslope"])) + 0.0), size) > ps.real(_z(d["default_threshold"]))), kind="post")
        c.explore(ex, body, "is_change_object(packaged defaults)")
    c.guard("is_change_object defaults", dflt)

    # ---- the map: for an arbitrary pixel (r, q) of a label map
    R, C, r, q, kL, nl = [z3.Int(x) for x in "R C r q kL nl".split()]
    S1 = z3.Function("superpixel", z3.IntSort(), z3.IntSort(), z3.IntSort())
    S2 = z3.Function("patch", z3.IntSort(), z3.IntSort(), z3.IntSort())
    LAB = z3.Function("label_of_row", z3.IntSort(), z3.IntSort())
    MEAN = z3.Function("mean_of_row", z3.IntSort(), z3.RealSort())
    MODE = z3.Function("majority_class_of_row", z3.IntSort(), z3.IntSort())
    SIZE = z3.Function("size_of_row", z3.IntSort(), z3.IntSort())
    i_, j_ = z3.Ints("i_ j_")
    base = [R >= 1, C >= 1, 0 <= r, r < R, 0 <= q, q < C, nl >= 1, kL >= 0, kL < nl, LAB(kL) == S1(r, q),
            z3.ForAll([i_, j_], z3.Implies(z3.And(0 <= i_, i_ < nl, 0 <= j_, j_ < nl, i_ != j_), LAB(i_) != LAB(j_)), patterns=[z3.MultiPattern(LAB(i_), LAB(j_))]),
            z3.ForAll([i_], SIZE(i_) >= 1, patterns=[SIZE(i_)]),
            z3.ForAll([i_], z3.Or(MODE(i_) == 255, z3.And(MODE(i_) >= 1, MODE(i_) <= 8)), patterns=[MODE(i_)])]
    for thematic in (False, True):
        for uniform in (False, True):
            nm = "object_analysis(%s map, %s)" % ("thematic" if thematic else "no", "uniform pair" if uniform else "class table")
            def prove(thematic=thematic, uniform=uniform, nm=nm):
                f = m['m'].fn("object_analysis")
                def stub_mode(a, idx):
                    # contract of modeby: one value per label, ascending, the mode of `a` over that label.
                    # the two uses are told apart by what they aggregate
                    probe = a.at(SNum(z3.IntVal(0)))
                    s = str(z3.simplify(_z(probe)))
                    if "lcmap" in s: return SymList(SNum(nl), lambda k: SNum(MODE(_z(k))))
                    if "patch_size" in s: return SymList(SNum(nl), lambda k: SNum(SIZE(_z(k))))
                    raise Unsupported("modeby of an unrecognised array")
                m['m'].ns["modeby"] = stub_mode
                ex = Explorer(nm, base, branch_timeout=1500)
                LC = z3.Function("lcmap", z3.IntSort(), z3.IntSort(), z3.IntSort())
                sp = lambda k: spec(MEAN(k), MODE(k) if thematic else z3.IntVal(255), SIZE(k), thematic, (ut, us) if uniform else None)
                def inv(loop, i, loc):
                    g = loc['*'].get("change_group")
                    if not isinstance(g, ps.GList): return []
                    return [("collected exactly the change labels seen so far", g.member(SNum(S1(r, q))) == z3.And(kL < _z(i), sp(kL)))]
                ex.loopinv = inv
                def body(p):
                    s1 = PArr((SNum(R), SNum(C)), lambda i, j: SNum(S1(_z(i), _z(j))))
                    s2 = PArr((SNum(R), SNum(C)), lambda i, j: SNum(S2(_z(i), _z(j))))
                    info = fc.STable(SNum(nl), {"label": lambda k: SNum(LAB(_z(k))), "mean_intensity": lambda k: SNum(MEAN(_z(k)))}, ("label",))
                    cm = PArr((SNum(R), SNum(C)), lambda i, j: SNum(LC(_z(i), _z(j)))) if thematic else None
                    out = f(s1, s2, info, cm, SNum(ut) if uniform else None, SNum(us) if uniform else None, params())
                    p.oblige("map has the shape of the label map", z3.And(_z(out.shape[0]) == R, _z(out.shape[1]) == C), kind="post")
                    p.oblige("pixel is 1 exactly when its object is change", _z(out.at(SNum(r), SNum(q))) == z3.If(sp(kL), 1, 0), kind="post")
                c.explore(ex, body, nm + " (any map, any number of objects)")
            c.guard(nm, prove)
    c.assumptions += ["np.unique returns every label once with its pixel count; modeby returns the mode per label in ascending label order (checked on concrete maps by the oracle, bounded)",
                      "np.log10 is one function of the size; machine floats treated as reals", "the superpixel table holds one row per label of the map (what the segmentation functions build)"]
    c.bounded += ["modeby (argsort + split + scipy mode): concrete maps only"]
    c.oracle("o_objects.py", timeout=250)
