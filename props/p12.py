"""P12: which observations count.
Under contract: preprocessing (utilities.c) - the range flag of every observation and the class
counts; the selection of observations in stand_procedure, obcold_reconstruction_procedure
(cold.c) and sccd (s_ccd.c) - executed from the entry to the first statistic (cold) or entirely
(sccd), callees by contract; the choice of procedure in cold().  The selection is specified by
recursion over the given observations: usable(i), the rank CNT(i) of the next one kept, the
last date kept.  Everything after the selection uses the selected series only (checked on the
syntax tree)."""
import z3
from vc import ceng as ce
from vc.ceng import Proof, Unsupported, FA, zi, zr, zb

I, R = z3.IntSort(), z3.RealSort()
INT, LONG, FLOAT, DOUBLE, SHORT = ("int", 32, True), ("int", 64, True), ("flt", 4), ("flt", 8), ("int", 16, True)
k, a, b = z3.Ints("k a b")
real = z3.ToReal

def in_range(B, F, c2, i):
    t = z3.If(z3.Or(B[6][i] == 0, c2), 0, B[6][i] * 10 - 27320)
    return z3.And(B[0][i] > -200, *[B[j][i] > 0 for j in range(1, 6)], *[B[j][i] < 10000 for j in range(6)], t > -9320, t < 7070, F[i] < 255)
KNOWN = (0, 1, 2, 3, 4, 255)
def known(x): return z3.Or(*[x == q for q in KNOWN])
CLASSES = [("clear_sum", (0, 1)), ("water_sum", (1,)), ("shadow_sum", (2,)), ("snow_sum", (3,)), ("cloud_sum", (4,))]

def preprocessing(c, u):
    p = Proof(c, [u], "preprocessing"); e = p.e; names = [x for x, _ in p.params]
    bufs, F, N, IDR = names[:7], names[7], names[8], names[9]; sums, C2 = names[10:15], names[15]
    n = z3.Int("n"); p.pre(n >= 0)
    for x in bufs + [F]: p.array(x, LONG, [(0, n)])
    p.array(IDR, INT, [(0, n)]); p.scalar_out(N, INT)
    for x in sums: p.scalar_out(x, INT)
    c2 = z3.Int(C2); p.set(C2, c2); p.pre(z3.Or(c2 == 0, c2 == 1))
    p.snap(); p.pre(zi(p.cell(N, old=True)) == n)
    B = [p.out(x, True) for x in bufs]; FM = p.out(F, True); C = z3.Function("count_of_class", I, I, I)
    for j, (_, qs) in enumerate(CLASSES):
        e.facts += [C(j, 0) == 0, FA([k], z3.Implies(k >= 0, C(j, k + 1) == C(j, k) + z3.If(z3.Or(*[FM[k] == q for q in qs]), 1, 0)), FM[k])]
    flag = lambda i: z3.If(in_range(B, FM, c2 != 0, i), 1, 0)
    old = [zi(p.cell(x, old=True)) for x in sums]
    def inv(L):
        i = L["i"]; ID = L.arr(IDR); out = [("counter in range", z3.And(i >= 0, i <= n)), ("length stays", zi(L.cell(N)) == n),
            ("flags so far", FA([k], z3.Implies(z3.And(0 <= k, k < i), ID[k] == flag(k)), ID[k])), ("classes so far are known", FA([k], z3.Implies(z3.And(0 <= k, k < i), known(FM[k])), FM[k])),
            ("flags not reached stay", FA([k], z3.Implies(z3.Or(k < 0, k >= i), ID[k] == p.out(IDR, True)[k]), ID[k]))]
        return out + [("%s so far" % CLASSES[j][0], zi(L.cell(x)) == old[j] + C(j, i)) for j, x in enumerate(sums)]
    e.inv[("preprocessing", 0)] = inv
    r = zi(p.run()); ok = r == 0; ID = p.out(IDR)
    p.post("it succeeds or fails", z3.Or(r == 0, r == 1, r == -1))
    for j in range(1): pass
    p.post("an observation is usable exactly when in its physical range", z3.Implies(ok, FA([k], z3.Implies(z3.And(0 <= k, k < n), ID[k] == flag(k)), ID[k])))
    p.post("success: every class is known", z3.Implies(ok, FA([k], z3.Implies(z3.And(0 <= k, k < n), known(FM[k])), FM[k])))
    w = z3.Int("unknown_at")
    p.post("an unknown class fails the pixel", z3.Implies(z3.And(0 <= w, w < n, z3.Not(known(FM[w]))), z3.Not(ok)))
    for j, x in enumerate(sums): p.post("%s is the exact count of its classes" % CLASSES[j][0], z3.Implies(ok, zi(p.cell(x)) == old[j] + C(j, n)))
    for x in bufs + [F]: p.post("%s stays" % x, p.out(x) == p.out(x, True))
    p.done()


def walk(n):
    yield n
    for y in n.get("inner", []) or []: yield from walk(y)
def refs(n): return {x["referencedDecl"]["name"] for x in walk(n) if x.get("kind") == "DeclRefExpr"}

def selecting_loops(u, fn):
    """ordinals of the outermost loops of fn that read both the QA series and write the rank"""
    f = u.funcs[fn]; out = []; n = [0]
    fm = [x.get("name") for x in f["inner"] if x["kind"] == "ParmVarDecl" and "fmask" in x.get("name", "")]
    def go(x, inside):
        if not isinstance(x, dict): return
        if x.get("kind") in ("ForStmt", "WhileStmt", "DoStmt"):
            r = refs(x); me = n[0]; n[0] += 1
            if not inside and fm and fm[0] in r and "n_clr" in r: out.append(me); inside = True
        for y in x.get("inner", []) or []: go(y, inside)
    go([x for x in f["inner"] if x["kind"] == "CompoundStmt"][0], False)
    return out

def alloc2d(e, st, a):
    r = ce.Region("rows", FLOAT, 2, (a[0], a[1]), kind="heap"); e.reg_of[r.id] = r
    return ce.Ptr(r, "", (0,), ("ptr", FLOAT), e.fresh("allocation_fails", z3.BoolSort()) if e.allocfail else False)

class Sel:
    """the recursive specification of a selection over the given series"""
    def __init__(s, e, keep, D, n, c0=0, last0=None, tag=""):
        s.CNT = z3.Function("kept_before" + tag, I, I); s.LAST = z3.Function("last_date_kept" + tag, I, I); s.D, s.n, s.c0 = D, n, c0
        s.sel = lambda i: z3.And(keep(i), z3.Not(z3.And(s.CNT(i) > 0, D[i] == s.LAST(i))))
        e.facts += [s.CNT(0) == c0, FA([k], z3.Implies(k >= 0, z3.And(s.CNT(k + 1) == s.CNT(k) + z3.If(s.sel(k), 1, 0), s.LAST(k + 1) == z3.If(s.sel(k), D[k], s.LAST(k)))), D[k], s.CNT(k))]
        if last0 is not None: e.facts.append(z3.Implies(zi(c0) > 0, s.LAST(0) == last0))
    def kept(s, X, Y, bands, top):
        out = [("the date of a kept observation is at its rank", FA([k], z3.Implies(z3.And(0 <= k, k < top, s.sel(k)), X[s.CNT(k)] == s.D[k]), s.D[k]))]
        return out + [("band %d of a kept observation is at its rank" % j, FA([k], z3.Implies(z3.And(0 <= k, k < top, s.sel(k)), Y[j][s.CNT(k)] == v(k)), s.D[k])) for j, v in enumerate(bands)]
    def inv(s, i, w, X, Y, bands):
        return [("the rank is the number kept", z3.And(i >= 0, i <= s.n, w == s.CNT(i), w >= s.c0, w <= s.c0 + i)),
                ("the last date kept", z3.Implies(w > 0, X[w - 1] == s.LAST(i))),
                ("ranks of kept observations lie below", FA([k], z3.Implies(z3.And(0 <= k, k < i, s.sel(k)), z3.And(s.CNT(k) < s.CNT(i), s.CNT(k) >= s.c0)), s.D[k]))] + s.kept(X, Y, bands, i)

def bands_of(B, thermal): return [(lambda j: lambda i: real(B[j][i]))(j) for j in range(6)] + ([lambda i: thermal(B[6][i])] if thermal else [])
def kill(st): st.dead = True; st.pc.append(z3.BoolVal(False))

def pre_contract(p, bufs, F, n, c2, usable, sums):
    """preprocessing by the contract proved above"""
    def pre(e_, st, a):
        for j, x in enumerate(bufs + [F]): e_.oblige(st, "preprocessing is given the series", a[j].reg is p.vals[x].reg and a[j].idx == (0,), "pre")
        idr = a[9]; A = e_.fresh("flags", z3.ArraySort(I, I)); st.mem[(idr.reg.id, "")] = A; e_.note(idr.reg, "")
        e_.oblige(st, "preprocessing is given the collection", zi(a[15]) == c2, "pre")
        e_.oblige(st, "preprocessing is given the length", zi(e_.load(st, None, a[8])) == n, "pre")
        for j in range(5): e_.oblige(st, "the counts start at zero", zi(e_.load(st, None, a[10 + j])) == 0, "pre")
        r = e_.fresh("status", I)
        e_.fact(st, z3.Implies(r == 0, FA([k], z3.Implies(z3.And(0 <= k, k < n), A[k] == z3.If(usable(k), 1, 0)), A[k])))
        for j in range(5):
            v = e_.fresh(CLASSES[j][0], I); e_.fact(st, v >= 0); e_.store(st, a[10 + j], v); sums[j] = v
        sums["status"] = r
        return r
    return pre

def head(c, u, fn):
    """stand_procedure and obcold_reconstruction_procedure: from the entry to the first statistic"""
    p = Proof(c, [u], fn); e = p.e; names = [x for x, _ in p.params]; reached = []; e.allocfail = False
    ob = fn.startswith("obcold")
    order = {x: x for x in names}
    if ob: bufs, F, DT, N = names[:7], names[7], names[8], names[9]
    else: N, DT, bufs, F = names[0], names[1], names[2:9], names[9]
    n = p.int(N, 1 if not ob else 0)
    for x in bufs + [F, DT]: p.array(x, LONG, [(0, n)])
    c2 = z3.Int([x for x, t in p.params if x.endswith("c2")][0]); p.set(str(c2), c2); p.pre(z3.Or(c2 == 0, c2 == 1))
    if not ob: ID = names[10]; p.array(ID, INT, [(0, n)])
    p.snap(); B = [p.out(x, True) for x in bufs]; FM = p.out(F, True); D = p.out(DT, True); sums = {}
    if ob:
        usable = lambda i: in_range(B, FM, c2 != 0, i)
        e.contracts["preprocessing"] = pre_contract(p, bufs, F, n, c2, usable, sums)
        def ineff(e_, st, a):
            want = [n, DT] + bufs + [F]
            e_.oblige(st, "few clear observations: fewer than 24", zi(sums[0]) < 24, "post")
            e_.oblige(st, "the few-observation procedure is given the series", z3.And(zi(a[0]) == n, *[zb(a[j].reg is p.vals[x].reg) for j, x in enumerate([DT] + bufs + [F], 1)]), "post")
            kill(st); return 0
        e.contracts["inefficientobs_procedure"] = ineff
    else: usable = lambda i: p.out(ID, True)[i] == 1
    S = Sel(e, lambda i: z3.And(FM[i] < 2, usable(i)), D, n)
    th = (lambda t: z3.If(z3.And(c2 != 0, t == 0), z3.RealVal(0), real(t * 10 - 27320))) if not ob else (lambda t: real(t * 10 - 27320))
    bands = bands_of(B, th)
    def inv(L):
        return S.inv(L["i"], L["n_clr"], L.arr("clrx"), L.arr("clry"), bands)
    for o in selecting_loops(u, fn): e.inv[(fn, o)] = inv
    def first(e_, st, a):
        X, Y = e_.arrv(st, a[0]), e_.arrv(st, a[1]); reached.append(1)
        e_.oblige(st, "exactly the kept observations enter", zi(a[4]) == S.CNT(n) - 1, "post")
        e_.oblige(st, "from the first one on", zi(a[3]) == 0, "post")
        if ob: e_.oblige(st, "enough clear observations", zi(sums[0]) >= 24, "post")
        for nm, g in S.kept(X, Y, bands, n): e_.oblige(st, nm, g, "post")
        kill(st); return 0
    e.contracts.update({"adjust_median_variogram": first, "allocate_2d_array": alloc2d, "free_2d_array": lambda e_, st, a: 0})
    p.run()
    if not reached: raise Unsupported("the first statistic is not reached")
    seen = []; used = set()
    def go(x):
        if x.get("kind") == "CallExpr":
            nm = x["inner"][0]
            while nm["kind"] in ("ImplicitCastExpr", "ParenExpr"): nm = nm["inner"][0]
            nm = nm.get("referencedDecl", {}).get("name")
            if nm == "adjust_median_variogram": seen.append(1)
            if nm in ("inefficientobs_procedure", "free"): return   # P23; release of the block
        if seen and x.get("kind") == "DeclRefExpr" and x["referencedDecl"]["name"] in bufs + [F, DT] + ([] if ob else [ID]): used.add(x["referencedDecl"]["name"])
        for y in x.get("inner", []) or []: go(y)
    go(u.funcs[fn])
    if used: raise Unsupported("%s uses the given series after the selection: %s" % (fn, ", ".join(sorted(used))))
    p.st = p.old.copy(); p.done()

def choice(c, u):
    """cold: order of dates, the flags and counts, and which procedure gets the pixel"""
    p = Proof(c, [u], "cold"); e = p.e; names = [x for x, _ in p.params]; e.allocfail = False
    bufs, F, DT, N, POS, TCG, CONSE, OUTCM, START, C2, REC, NFC, STEP, CM, CMD, GAP = names[:7], *names[7:22]
    n = p.int(N, 0); ty = dict(p.params)
    for x in bufs + [F, DT]: p.array(x, LONG, [(0, n)])
    c2 = p.int(C2, 0, 1); p.array(REC, ty[REC][1], [None]); p.scalar_out(NFC, INT); nfc = z3.Int("segments"); p.array(CM, SHORT, [None]); p.array(CMD, SHORT, [None])
    p.snap(); p.pre(zi(p.cell(NFC, old=True)) == 0); B = [p.out(x, True) for x in bufs]; FM = p.out(F, True); D = p.out(DT, True); sums = {}; seen = []
    usable = lambda i: in_range(B, FM, c2 != 0, i)
    sorted_ = lambda top: FA([k], z3.Implies(z3.And(0 <= k, k < top), D[k] <= D[k + 1]), D[k])
    e.contracts["preprocessing"] = pre_contract(p, bufs, F, n, c2, usable, sums)
    def given(e_, st, a, idx, what):
        for q, nm in idx:
            v = p.vals[nm]
            e_.oblige(st, "%s is given %s" % (what, nm), a[q].reg is v.reg and a[q].idx in ((0,), ()) if isinstance(v, ce.Ptr) else (zr(a[q]) == zr(v)) if ce.isreal(v) else zi(ce.num(a[q])) == zi(v), "post")
    def flags(e_, st, P, what):
        A = e_.arrv(st, P); e_.oblige(st, what + ": the flags are those of the range rule", FA([k], z3.Implies(z3.And(0 <= k, k < n), A[k] == z3.If(usable(k), 1, 0)), A[k]), "post")
        e_.oblige(st, what + ": dates are in order", sorted_(n - 1), "post")
    def ineff(e_, st, a):
        seen.append("few"); given(e_, st, a, [(0, N), (1, DT)] + [(2 + j, x) for j, x in enumerate(bufs)] + [(9, F), (12, REC), (13, NFC), (14, C2)], "few observations"); flags(e_, st, a[10], "few observations")
        e_.oblige(st, "few observations: fewer than 24 clear ones", zi(sums[0]) < 24, "post")
        e_.oblige(st, "few observations: the share of snow", zr(a[11]) == real(sums[3]) / (real(sums[3] + sums[0]) + z3.RealVal("1/100")), "post")
        e_.fact(st, nfc >= 0); e_.store(st, p.vals[NFC], nfc); r = e_.fresh("few", I); sums["few"] = r; return r
    def std(e_, st, a):
        seen.append("std"); given(e_, st, a, [(0, N), (1, DT)] + [(2 + j, x) for j, x in enumerate(bufs)] + [(9, F), (11, TCG), (12, CONSE), (13, OUTCM), (14, START), (15, REC), (16, NFC), (17, STEP), (18, CM), (19, CMD), (20, C2), (21, GAP)], "detection"); flags(e_, st, a[10], "detection")
        e_.oblige(st, "detection: at least 24 clear observations", zi(sums[0]) >= 24, "post")
        e_.fact(st, nfc >= 0); e_.store(st, p.vals[NFC], nfc); r = e_.fresh("std", I); sums["std"] = r; return r
    e.contracts.update({"inefficientobs_procedure": ineff, "stand_procedure": std})
    e.inv[("cold", 0)] = lambda L: [("in order so far", z3.And(L["i"] >= 0, z3.Implies(n >= 1, L["i"] <= n - 1), sorted_(L["i"])))]
    def stamped(L):
        i = L["i"]; ps = e.leaf(L.st, p.vals[REC].reg, "pos"); return [("segments stamped so far", z3.And(i >= 0, i <= nfc, zi(L.cell(NFC)) == nfc, FA([k], z3.Implies(z3.And(0 <= k, k < i), ps[k] == p.vals[POS]), ps[k])))]
    p.set(POS, z3.Int("pos")); e.inv[("cold", 1)] = stamped
    r = zi(p.run())
    if set(seen) != {"few", "std"}: raise Unsupported("a procedure is not reached")
    ps = e.leaf(p.st, p.vals[REC].reg, "pos"); w = z3.Int("where")
    p.post("no observation: success without a segment", z3.Implies(n == 0, z3.And(r == 0, zi(p.cell(NFC)) == 0)))
    p.post("dates out of order are an error", z3.Implies(z3.And(0 <= w, w < n - 1, D[w] > D[w + 1]), r != 0))
    p.post("an undefined class is an error", z3.Implies(z3.And(n > 0, sums["status"] != 0), r != 0))
    p.post("success is that of the procedure", z3.Implies(z3.And(n > 0, r == 0), z3.If(sums[0] < 24, sums["few"] == 0, sums["std"] == 0)))
    p.post("every segment carries the pixel's position", z3.Implies(r == 0, FA([k], z3.Implies(z3.And(0 <= k, k < zi(p.cell(NFC))), ps[k] == p.vals[POS]), ps[k])))
    for x in bufs + [F, DT]: p.post("%s stays" % x, p.out(x) == p.out(x, True))
    p.done()

def lemmas(c):
    """two series that agree on what is kept have the same ranks and last dates (induction step; both start equal)"""
    A = lambda nm, s=I: z3.Function(nm, I, s); C1, C2, L1, L2, D = A("rank1"), A("rank2"), A("last1"), A("last2"), A("date"); K1, K2 = A("keep1", z3.BoolSort()), A("keep2", z3.BoolSort()); i = z3.Int("i")
    st = lambda C, L, K: [C(i + 1) == C(i) + z3.If(z3.And(K(i), z3.Not(z3.And(C(i) > 0, D(i) == L(i)))), 1, 0), L(i + 1) == z3.If(z3.And(K(i), z3.Not(z3.And(C(i) > 0, D(i) == L(i)))), D(i), L(i))]
    hyp = st(C1, L1, K1) + st(C2, L2, K2) + [K1(i) == K2(i), C1(i) == C2(i), z3.Or(C1(i) == 0, L1(i) == L2(i))]
    R_ = [z3.Ints("x%d y%d" % (j, j)) for j in range(7)]; f, = z3.Ints("qa"),
    B1 = [{0: x} for x, y in R_]; B2 = [{0: y} for x, y in R_]
    keep = lambda Bv: z3.And(f[0] < 2, in_range(Bv, {0: f[0]}, z3.BoolVal(False), 0))
    out = [("lemma: equal decisions give equal ranks", hyp, C1(i + 1) == C2(i + 1), None, "lemma"), ("lemma: equal decisions give equal last dates", hyp, z3.Or(C1(i + 1) == 0, L1(i + 1) == L2(i + 1)), None, "lemma"),
           ("lemma: values of a masked observation decide nothing", [f[0] >= 2], keep(B1) == keep(B2), None, "lemma"),
           ("lemma: zero thermal counts as absent", [], in_range([{0: z3.IntVal(5)}] * 6 + [{0: z3.IntVal(0)}], {0: z3.IntVal(0)}, z3.BoolVal(False), 0), None, "lemma")]
    c.defer(out, "non-interference lemmas")

LAUNCH = 723742
def sccd(c, u):
    p = Proof(c, [u], "sccd"); e = p.e; names = [x for x, _ in p.params]; e.allocfail = False
    bufs, F, DT, N = names[:7], names[7], names[8], names[9]
    TCG, NFC, MODE, REC, MODEL, NQ, QUEUE, MINR, CONSE, C2, PIN, RECP, NFCP, GATE, PRED = names[10:25]
    n = p.int(N, 0)
    for x in bufs + [F, DT]: p.array(x, LONG, [(0, n)])
    c2 = p.int(C2, 0, 1)
    for x in (NFC, MODE, NQ, NFCP): p.scalar_out(x, INT)
    ty = dict(p.params); p.array(REC, ty[REC][1], [None]); p.array(QUEUE, ty[QUEUE][1], [(0, 240)]); p.array(MODEL, ty[MODEL][1], [(0, 1)]); p.array(RECP, ty[RECP][1], [None]); p.array(MINR, SHORT, [(0, 6)])
    p.snap(); old = lambda x: zi(p.cell(x, old=True)); mode, nq, nfc = old(MODE), old(NQ), old(NFC)
    p.pre(nq >= 0, nq <= 240, mode >= 0)
    B = [p.out(x, True) for x in bufs]; FM = p.out(F, True); D = p.out(DT, True); sums = {}; seen = []
    lf = lambda nm, f: e.leaf(p.old, p.vals[nm].reg, f)
    qd, qy, md, my = lf(QUEUE, "clrx_since1982"), lf(QUEUE, "clry"), lf(MODEL, "obs_date_since1982"), lf(MODEL, "obs")
    for g in ((QUEUE, "clrx_since1982"), (QUEUE, "clry"), (MODEL, "obs_date_since1982"), (MODEL, "obs")): p.st.mem.setdefault((p.vals[g[0]].reg.id, g[1]), lf(*g))
    usable = lambda i: in_range(B, FM, c2 != 0, i)
    is_queue = z3.Or(mode == 4, mode % 10 == 2, mode % 10 == 5); is_mon = z3.Or(mode == 3, mode % 10 == 1)
    held = z3.IntVal(8)                                # the model's observations: up to the first entry that is not later
    for j in range(7, 0, -1): held = z3.If(md[0][j] <= md[0][j - 1], j, held)
    c0 = z3.If(is_queue, nq, z3.If(is_mon, held, 0))
    PX = lambda j: z3.If(is_queue, qd[j], md[0][j]) + LAUNCH
    PY = lambda b_, j: real(z3.If(is_queue, qy[j][b_], my[0][b_][j]))
    e.contracts["preprocessing"] = pre_contract(p, bufs, F, n, c2, usable, sums)
    bands = bands_of(B, None)
    SA = Sel(e, lambda i: z3.And(FM[i] < 2, usable(i)), D, n, c0, PX(c0 - 1), "")
    SB = Sel(e, lambda i: z3.Or(FM[i] == 3, FM[i] < 2), D, n, c0, PX(c0 - 1), "_snow")
    def prefix(X, Y, top):
        return [("earlier observations come first", FA([k], z3.Implies(z3.And(0 <= k, k < top), X[k] == PX(k)), X[k]))] + \
               [("band %d of earlier observations" % j, FA([k], z3.Implies(z3.And(0 <= k, k < top), Y[j][k] == PY(j, k)), Y[j][k])) for j in range(6)]
    def inv(S): return lambda L: S.inv(L["i"], L["n_clr"], L.arr("clrx"), L.arr("clry"), bands) + prefix(L.arr("clrx"), L.arr("clry"), c0)
    loops = selecting_loops(u, "sccd")
    if len(loops) != 2: raise Unsupported("two selecting loops expected")
    e.inv[("sccd", loops[0])] = inv(SA); e.inv[("sccd", loops[1])] = inv(SB)
    def queue(L):
        i = L["i"]; return [("queued so far", z3.And(i >= 0, i <= nq, L["n_clr"] == i))] + prefix(L.arr("clrx"), L.arr("clry"), i)
    ql = queue_loop(u, "sccd", QUEUE)
    e.inv[("sccd", ql)] = queue
    is_snow = lambda: z3.If(mode == 0, real(sums[3]) >= z3.RealVal("3/4") * (real(sums[3] + sums[0]) + z3.RealVal("1/100")), z3.Or(mode == 3, mode == 4))
    def entry(S, e_, st, X, Y, what):
        X, Y = e_.arrv(st, X), e_.arrv(st, Y)
        for nm, g in prefix(X, Y, c0) + S.kept(X, Y, bands, n): e_.oblige(st, what + ": " + nm, g, "post")
    def adj(e_, st, a):
        seen.append("adj"); e_.oblige(st, "noise of new pixels only", z3.And(mode == 0, nfc == 0), "post")
        e_.oblige(st, "the noise of all kept observations", z3.And(zi(a[2]) == 6, zi(a[3]) == 0, zi(a[4]) == SA.CNT(n) - 1, zi(a[8]) == 1), "post"); entry(SA, e_, st, a[0], a[1], "noise")
        for q in (5, 6): e_.store(st, a[q], e_.fresh("stat", R))
        st.mem[(a[7].reg.id, "")] = e_.fresh("noise", z3.ArraySort(I, R)); e_.note(a[7].reg, "")
        return e_.fresh("status", I)
    def same(e_, st, a, idx, what):
        for q, nm in idx:
            v = p.vals[nm]
            e_.oblige(st, "%s is given %s" % (what, nm), a[q].reg is v.reg and a[q].idx in ((0,), ()) if isinstance(v, ce.Ptr) else (zr(a[q]) == zr(v)) if ce.isreal(v) else zi(a[q]) == zi(v), "post")
    def std(e_, st, a):
        seen.append("std"); entry(SA, e_, st, a[0], a[1], "detection"); e_.oblige(st, "detection: exactly the kept observations enter, and some are new", z3.And(zi(a[2]) == SA.CNT(n), SA.CNT(n) > c0), "post")
        e_.oblige(st, "detection: pixels that are not snow", z3.Not(is_snow()), "post")
        same(e_, st, a, [(3, TCG), (4, REC), (5, NFC), (6, MODE), (7, MODEL), (8, NQ), (9, QUEUE), (10, MINR), (11, CONSE), (12, PIN), (13, RECP), (14, NFCP), (15, GATE), (16, PRED)], "detection")
        e_.oblige(st, "detection: the state is the given one", z3.And(zi(p.e.cellv(st, p.vals[MODE], ())) == mode, zi(p.e.cellv(st, p.vals[NQ], ())) == nq, zi(p.e.cellv(st, p.vals[NFC], ())) == nfc), "post")
        r = e_.fresh("detected", I); seen.append(r); return r
    def snw(e_, st, a):
        seen.append("snow"); entry(SB, e_, st, a[0], a[1], "snow"); e_.oblige(st, "snow: exactly the snow and clear observations enter", zi(a[2]) == SB.CNT(n), "post")
        e_.oblige(st, "snow: snow pixels", is_snow(), "post"); same(e_, st, a, [(3, MODE), (4, MODEL), (5, NQ), (6, QUEUE)], "snow")
        return e_.fresh("snow", I)
    e.contracts.update({"adjust_median_variogram": adj, "allocate_2d_array": alloc2d, "free_2d_array": lambda e_, st, a: 0, "sccd_standard": std, "sccd_snow": snw})
    r = zi(p.run())
    if {"adj", "std", "snow"} - set(x for x in seen if isinstance(x, str)): raise Unsupported("a branch is not reached")
    valid = z3.Or(*[mode == q for q in (0, 1, 2, 3, 4, 5, 11, 12)])
    p.post("an unknown mode is an error", z3.Implies(z3.Not(valid), r != 0))
    p.post("a pixel with an undefined class is an error", z3.Implies(sums["status"] != 0, r != 0))
    for x in bufs + [F, DT]: p.post("%s stays" % x, p.out(x) == p.out(x, True))
    p.done()

def queue_loop(u, fn, Q):
    f = u.funcs[fn]; out = []; n = [0]
    def go(x):
        if not isinstance(x, dict): return
        if x.get("kind") in ("ForStmt", "WhileStmt", "DoStmt"):
            if Q in refs(x): out.append(n[0])
            n[0] += 1
        for y in x.get("inner", []) or []: go(y)
    go([x for x in f["inner"] if x["kind"] == "CompoundStmt"][0])
    if not out: raise Unsupported("no loop over the queue")
    return out[0]

def run(c):
    m = {}
    c.guard("clang", lambda: m.update(ut=ce.unit(c.repo, "utilities.c"), cold=ce.unit(c.repo, "cold.c"), sccd=ce.unit(c.repo, "s_ccd.c"), misc=ce.unit(c.repo, "misc.c")))
    c.guard("preprocessing", lambda: preprocessing(c, m["ut"]))
    c.guard("stand_procedure", lambda: head(c, m["cold"], "stand_procedure"))
    c.guard("obcold_reconstruction_procedure", lambda: head(c, m["cold"], "obcold_reconstruction_procedure"))
    c.guard("sccd", lambda: sccd(c, m["sccd"]))
    c.guard("cold", lambda: choice(c, m["cold"]))
    c.guard("lemmas", lambda: lemmas(c))
    c.flush()
    c.assumptions += ["integers as mathematical integers", "memory allocation succeeds after the selection's blocks are checked", "callees of cold and sccd by contract (preprocessing proved here; stand_procedure, inefficientobs_procedure, sccd_standard, sccd_snow only as receivers of the selected series)",
                      "after the selection the procedures use the selected series only: a check of variable references on the syntax tree of /repo's source, not a proof obligation"]
    c.oracle("o_select.py")
