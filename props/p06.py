"""P06: training sample quotas follow the class proportions within their bounds."""
import z3
from vc import pysym as ps, facades as fc
from vc.pysym import SNum, SBool, PArr, Explorer, Module, Unsupported, Masked, _z, real

I = z3.IntSort()
class NPU(ps.NP):
    """np.unique(masked map, return_counts=True), by contract: ascending distinct values that occur, with their counts"""
    def __init__(self, K): ps.NP.__init__(self); self.K = K
    def unique(self, a, return_counts=False, **k):
        p = ps.CUR
        if isinstance(a, PArr): sel = lambda v: z3.BoolVal(True)
        elif isinstance(a, Masked):
            msk = a.m.snap()
            # the selection is a pointwise test of the label: evaluate it at a pixel holding v
            sel = lambda v: ps.tob(msk(*[SNum(AT(v))] * a.a.ndim))
        else: raise Unsupported("unique")
        m = SNum(p.fresh_int("m")); p.assume(m.t >= 0)
        U = z3.Function("uniq!%d" % p.nfresh, I, I); POSN = z3.Function("pos!%d" % p.nfresh, I, I)
        i_, j_ = z3.Ints("i_ j_")
        p.assume(z3.ForAll([i_, j_], z3.Implies(z3.And(0 <= i_, i_ < j_, j_ < m.t), U(i_) < U(j_)), patterns=[z3.MultiPattern(U(i_), U(j_))]))
        # listed values occur and are selected
        p.assume(z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < m.t), z3.And(CNT(U(i_)) >= 1, sel(U(i_)), POSN(U(i_)) == i_)), patterns=[U(i_)]))
        # every value of the classes that occurs and is selected is listed
        for v in list(range(0, self.K + 2)):
            vv = z3.IntVal(v)
            p.assume(z3.If(z3.And(CNT(vv) >= 1, sel(vv)), z3.And(0 <= POSN(vv), POSN(vv) < m.t, U(POSN(vv)) == vv), z3.BoolVal(True)))
        p.ex.uniq = (U, POSN, m)
        out = [PArr((m,), lambda i: SNum(U(_z(i))))]
        if return_counts: out.append(PArr((m,), lambda i: SNum(CNT(U(_z(i))))))
        return out[0] if len(out) == 1 else tuple(out)
AT = z3.Function("pixel_with_label", I, I)      # a pixel index holding label v (when v occurs)
CNT = z3.Function("count", I, I)                # number of pixels with label v
LAB = z3.Function("label_at", I, I, I)

def run(c):
    d = ps.load_defaults(c.repo)["CLASSIFIER"]
    K = d["total_landcover_category"]
    N, R_, C_ = z3.Ints("N R C")
    mx, mn, tot = z3.Ints("max_samples min_samples total_samples")
    v_ = z3.Int("v_")
    pre = [R_ >= 1, C_ >= 1, mx >= 1, mn >= 0, mn <= mx, tot >= 0,
           z3.ForAll([v_], CNT(v_) >= 0, patterns=[CNT(v_)]),
           z3.ForAll([v_], LAB(AT(v_), AT(v_)) == v_, patterns=[AT(v_)]),
           z3.ForAll([v_], z3.Implies(CNT(v_) >= 1, v_ >= 0), patterns=[CNT(v_)]),
           z3.Sum([CNT(z3.IntVal(k)) for k in range(1, K + 1)]) >= 1]
    def prove():
        m = Module(c.repo, "pycold/pyclassifier.py", facades={"numpy": NPU(K)}); c.track("pyclassifier.py", m.hash_all())
        f = m.fn("generate_sample_num")
        ex = Explorer("generate_sample_num", pre)
        def inv(loop, i, loc):
            a = loc['*'].get("counts_category")
            if not isinstance(a, PArr): return []
            U, P, mm = ex.uniq; out = []
            for k in range(1, K + 1):
                kk = z3.IntVal(k)
                seen = z3.And(0 <= P(kk), P(kk) < _z(i), U(P(kk)) == kk)
                out.append(("count of class %d so far" % k, _z(a.at(k - 1)) == z3.If(seen, CNT(kk), 0)))
                out.append(("count of class %d at the end" % k, z3.Implies(_z(i) == mm.t, _z(a.at(k - 1)) == CNT(kk))))
            return out
        ex.loopinv = inv
        def body(p):
            lab = PArr((SNum(R_), SNum(C_)), lambda i, j: SNum(LAB(_z(i), _z(j))))
            out = f(lab, dict(total_landcover_category=K, total_samples=SNum(tot), max_category_samples=SNum(mx), min_category_samples=SNum(mn)))
            p.oblige("one quota per class", _z(out.shape[0]) == K, kind="post")
            S = z3.Sum([CNT(z3.IntVal(k)) for k in range(1, K + 1)])
            for k in range(1, K + 1):
                ck = CNT(z3.IntVal(k)); got = real(_z(out.at(k - 1)))
                p.oblige("class %d: never more samples than pixels" % k, got <= z3.ToReal(ck), kind="post")
                share = z3.ToReal(ck) * z3.ToReal(tot) / z3.ToReal(S)
                rnd = ps.round_half_even(share)
                cut = z3.If(rnd > mx, mx, z3.If(rnd < mn, mn, rnd))
                p.oblige("class %d: rounded share within its bounds" % k, got == z3.ToReal(z3.If(cut < ck, cut, ck)), kind="post")
        c.explore(ex, body, "generate_sample_num (any map, any quota bounds, %d classes)" % K, ms=60000)
    c.guard("generate_sample_num", prove)
    c.assumptions += ["np.unique returns the distinct values in ascending order with their counts", "labels are non-negative", "the number of classes is the packaged one (%d); the minimum does not exceed the maximum" % K, "floating-point rounding of the share is exact"]
    c.oracle("o_quota.py", timeout=200)
