"""P01: QA words decode to the highest-precedence class of the product's bit layout."""
import z3
from vc import pysym as ps
from vc.pysym import SNum, PArr, Explorer, Module, Unsupported

LAYOUT = {
 "qabitval_array":     dict(cloud=[5], shadow=[3], snow=[4], water=[2], clear=[1], hls=False),
 "qabitval_array_c2":  dict(cloud=[1, 3], shadow=[4], snow=[5], water=[7], clear=[6], hls=False),
 "qabitval_array_HLS": dict(cloud=[1, 2], shadow=[3], snow=[4], water=[5], clear=[], hls=True),
}

def spec(w, L):
    bit = lambda k: (w / (1 << k)) % 2 == 1
    any_ = lambda ks: z3.Or(*[bit(k) for k in ks]) if ks else z3.BoolVal(False)
    v = lambda x: z3.IntVal(x)
    base = v(0) if L["hls"] else z3.If(any_(L["clear"]), v(0), v(255))
    r = z3.If(any_(L["cloud"]), v(4), z3.If(any_(L["shadow"]), v(2), z3.If(any_(L["snow"]), v(3), z3.If(any_(L["water"]), v(1), base))))
    return z3.If(w == 255, v(255), r) if L["hls"] else r

def run(c):
    m = {}
    def load(): m['m'] = Module(c.repo, "pycold/imagetool/prepare_ard.py")
    c.guard("prepare_ard.py", load)
    for fn, L in LAYOUT.items():
        for nd in (1, 2):
            def prove(fn=fn, L=L, nd=nd):
                mod = m['m']; f = mod.fn(fn)
                c.track("prepare_ard.py", mod.hash_all())
                sizes = [z3.Int("n%d" % i) for i in range(nd)]
                W = z3.Function("word", *([z3.IntSort()] * nd), z3.IntSort())
                ix = [z3.Int("i%d" % i) for i in range(nd)]
                pre = [s >= 1 for s in sizes] + [z3.And(i >= 0, i < s) for i, s in zip(ix, sizes)] + [W(*ix) >= 0]
                ex = Explorer("%s[%d-d]" % (fn, nd), pre)
                def body(p):
                    a = PArr([SNum(s) for s in sizes], lambda *i: SNum(W(*[ps._z(x) for x in i])))
                    before = a.at(*[SNum(i) for i in ix])
                    out = f(a)
                    if not isinstance(out, PArr): raise Unsupported("result is not an array")
                    p.oblige("result has the shape of the input", z3.And(*[ps._z(x) == y for x, y in zip(out.shape, sizes)]) if out.ndim == nd else z3.BoolVal(False), kind="post")
                    got = out.at(*[SNum(i) for i in ix])
                    p.oblige("class is the highest flagged one", ps._z(got) == spec(W(*ix), L), kind="post")
                    p.oblige("input array unchanged", ps._z(a.at(*[SNum(i) for i in ix])) == W(*ix), kind="post")
                c.explore(ex, body, "%s (prepare_ard.py, %d-d array of any size)" % (fn, nd))
            c.guard(fn, prove)
    c.assumptions += ["numpy elementwise operations act pointwise and without overflow on the QA dtype (uint8/uint16/int)",
                      "the QA word is non-negative"]
    c.oracle("o_qa.py", timeout=200)
