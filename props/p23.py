"""P23: pixels with few clear observations (inefficientobs_procedure, cold.c).
The whole procedure under contract, its callees by contract: matlab_unique (P22), quick_sort_float
(P13), the fit as the receiver of a series - what it is given is the obligation.  Levels: the
selection of the given observations (recursion as in P12), the first of every date, the green
threshold, the compaction of one band."""
import z3
from vc import ceng as ce
from vc.solve import has_quant
from vc.ceng import Proof, Unsupported, FA, zi, zr, zb
from props.p12 import Sel, alloc2d, walk, refs, bands_of, LONG, INT, FLOAT, I, R, k, a, b, real, kill

def loops_by(u, fn):
    out = []
    def go(x):
        if not isinstance(x, dict): return
        if x.get("kind") in ("ForStmt", "WhileStmt", "DoStmt"): out.append(refs(x))
        for y in x.get("inner", []) or []: go(y)
    go([x for x in u.funcs[fn]["inner"] if x["kind"] == "CompoundStmt"][0]); return out

class Compact:
    """rank of the positions that pass, in a series of m positions"""
    def __init__(s, e, tag, ok, pat):
        s.V = z3.Function("rank_" + tag, I, I); s.ok, s.pat = ok, pat
        e.facts += [s.V(0) == 0, FA([k], z3.Implies(k >= 0, s.V(k + 1) == s.V(k) + z3.If(ok(k), 1, 0)), s.V(k), pat(k))]
    def inv(s, i, w, m):
        return [("rank is the number that pass", z3.And(i >= 0, i <= m, w == s.V(i), w >= 0, w <= i)), ("ranks grow", FA([k], z3.Implies(z3.And(0 <= k, k < i), z3.And(s.V(k) >= 0, s.V(k) <= k, s.V(k) + z3.If(s.ok(k), 1, 0) <= s.V(i))), s.V(k), s.pat(k)))]
    def moved(s, what, A, A0, top):
        return (what + " of what passes is at its rank", FA([k], z3.Implies(z3.And(0 <= k, k < top, s.ok(k)), A[s.V(k)] == A0(k)), s.pat(k)))

def few(c, u, misc):
    fn = "inefficientobs_procedure"
    p = Proof(c, [u, misc], fn); e = p.e; names = [x for x, _ in p.params]; e.allocfail = False; e.push = True; ty = dict(p.params)
    N, DT, bufs, F, ID, SN, REC, NFC, C2 = names[0], names[1], names[2:9], names[9], names[10], names[11], names[12], names[13], names[14]
    n = p.int(N, 0)
    for x in bufs + [F, DT]: p.array(x, LONG, [(0, n)])
    p.array(ID, INT, [(0, n)]); c2 = p.int(C2, 0, 1); sn = p.real(SN); p.array(REC, ty[REC][1], [(0, 40)]); p.scalar_out(NFC, INT).init[""] = 0
    p.snap()
    B = [p.out(x, True) for x in bufs]; FM = p.out(F, True); D = p.out(DT, True); IDA = p.out(ID, True)
    e.facts.append(FA([a, b], z3.Implies(z3.And(0 <= a, a <= b, b < n), D[a] <= D[b]), (D[a], D[b])))
    bands = bands_of(B, lambda t: z3.If(c2 != 0, z3.RealVal(0), real(t * 10 - 27320)))
    FIT = z3.Function("fitted", I, I, I, R); RM = z3.Function("fit_rmse", I, I, R); seen = {}   # branch, band, coefficient
    ls = loops_by(u, fn); find = lambda f: [q for q, r in enumerate(ls) if f(r)]
    l_snow = [q for q in find(lambda r: F in r)][0]; l_clear = [q for q in find(lambda r: ID in r and F not in r)][0]
    outer = [q for q in find(lambda r: "clrx_span" in r)]      # the band loop and its two inner compactions
    l_opt, l_th = outer[1], outer[2]; l_green = find(lambda r: "band2_median" in r)[0]; l_copy = find(lambda r: "temp_v_dif" in r and "clrx_span" not in r and "fit_cft" not in r)[0]
    for o in range(1): pass
    # ------------------------------------------------ levels
    class NoDup(Sel):
        def __init__(s, keep, tag, K):
            s.CNT = z3.Function("kept_before" + tag, I, I); s.D, s.n, s.c0, s.sel, s.K = D, n, 0, keep, K
            e.facts += [s.CNT(0) == 0, FA([k], z3.Implies(k >= 0, s.CNT(k + 1) == s.CNT(k) + z3.If(keep(k), 1, 0)), D[k], K[k])]
        def kept(s, X, Y, bands, top):
            out = [("the date of a kept observation is at its rank", FA([k], z3.Implies(z3.And(0 <= k, k < top, s.sel(k)), X[s.CNT(k)] == s.D[k]), s.D[k], s.K[k]))]
            return out + [("band %d of a kept observation is at its rank" % j, FA([k], z3.Implies(z3.And(0 <= k, k < top, s.sel(k)), Y[j][s.CNT(k)] == v(k)), s.D[k], s.K[k])) for j, v in enumerate(bands)]
        def inv(s, i, w, X, Y):
            return [("the rank is the number kept", z3.And(i >= 0, i <= n, w == s.CNT(i), w >= 0, w <= i)), ("ranks of kept observations lie below", FA([k], z3.Implies(z3.And(0 <= k, k < i, s.sel(k)), z3.And(s.CNT(k) < s.CNT(i), s.CNT(k) >= 0)), D[k], s.K[k])),
                    ("dates kept are in order", FA([a, b], z3.Implies(z3.And(0 <= a, a <= b, b < w), X[a] <= X[b]), (X[a], X[b]))), ("the last date kept is not later than the next", z3.Implies(w > 0, z3.And(i >= 1, X[w - 1] <= D[i - 1])))] + s.kept(X, Y, bands, i)
    SS = NoDup(lambda i: z3.Or(FM[i] == 3, FM[i] < 2), "_snow", FM); SC = NoDup(lambda i: IDA[i] == 1, "_usable", IDA)
    gh = {}      # the selected series, as the arrays the selection leaves
    XF, YF = z3.Const("dates_first", z3.ArraySort(I, I)), z3.Const("bands_first", z3.ArraySort(I, z3.ArraySort(I, R)))     # ghosts: first of every date
    e.inv[(fn, l_snow)] = lambda L: SS.inv(L["i"], L["n_sn"], L.arr("clrx"), L.arr("clry"))
    e.inv[(fn, l_clear)] = lambda L: SC.inv(L["i"], L["n_clr"], L.arr("clrx"), L.arr("clry"))
    ns, nc = SS.CNT(n), SC.CNT(n)
    VB = []
    def after_snow(L):
        XS, YS = gh["XS"], gh["YS"] = L.arr("clrx"), L.arr("clry")
        VB[:] = [Compact(e, "band%d" % j, (lambda j: lambda q: z3.And(YS[j][q] > 0, YS[j][q] < 10000) if j < 6 else z3.And(YS[j][q] > -9320, YS[j][q] < 7070))(j), (lambda j: lambda q: YS[j][q])(j)) for j in range(7)]
        return []
    e.after[(fn, l_snow)] = after_snow
    def compaction(L):
        XS, YS = gh["XS"], gh["YS"]; j = L["k"]; j = j.as_long() if isinstance(j, z3.ExprRef) else j
        if not isinstance(j, int): raise Unsupported("band of the compaction")
        C = VB[j]; i, w, Y, XP = L["i"], L["i_span"], L.arr("clry"), L.arr("clrx_span")
        rest = [("row %d stays" % q, FA([k], z3.Implies(z3.And(0 <= k, k < ns), Y[q][k] == YS[q][k]), YS[q][k])) for q in range(j + 1, 7)]
        return C.inv(i, w, ns) + [("values not reached stay", FA([k], z3.Implies(z3.And(i <= k, k < ns), Y[j][k] == YS[j][k]), YS[j][k])), C.moved("the value", Y[j], lambda q: YS[j][q], i), C.moved("the date", XP, lambda q: XS[q], i)] + rest
    e.inv[(fn, l_opt)] = compaction; e.inv[(fn, l_th)] = compaction
    # the first of every date, by the contract of matlab_unique (P22)
    U = z3.Function("distinct_up_to", I, I); nu = z3.If(nc >= 1, U(nc - 1), 0)
    first = lambda q: z3.Or(q == 0, gh["XU"][q] != gh["XU"][q - 1])
    def after_clear(L):
        XU, YU = gh["XU"], gh["YU"] = L.arr("clrx"), L.arr("clry")
        e.facts += [U(0) == 1, FA([k], z3.Implies(k >= 1, U(k) == U(k - 1) + z3.If(XU[k] != XU[k - 1], 1, 0)), XU[k])]
        return []
    e.after[(fn, l_clear)] = after_clear
    def unique(e_, st, A):
        XU, YU = gh["XU"], gh["YU"]; X, Y, m, E = A; seen["unique"] = 1
        e_.oblige(st, "de-duplication of the usable observations", z3.And(zi(m) == nc, e_.arrv(st, X) == XU, e_.arrv(st, Y) == YU), "pre")
        for reg, g in ((X.reg, XF), (Y.reg, YF)): st.mem[(reg.id, "")] = g; e_.note(reg, "")
        e_.store(st, E, nu)
        e_.fact(st, FA([k], z3.Implies(z3.And(0 <= k, k < nc, first(k)), z3.And(U(k) >= 1, U(k) <= nu, XF[U(k) - 1] == XU[k], *[YF[j][U(k) - 1] == YU[j][k] for j in range(7)])), XU[k]))
        e_.fact(st, z3.And(nu >= 0, nu <= nc, nu <= n))
        return None
    # the green threshold
    ORD = z3.Function("green_order", I, R); h = z3.Int("half"); e.facts += [h >= 0, z3.Or(nu == 2 * h, nu == 2 * h + 1)]
    med = z3.If(nu == 2 * h, (ORD(h - 1) + ORD(h)) / 2, ORD(h)); G = Compact(e, "green", lambda q: YF[1][q] < med + 400, lambda q: YF[1][q])
    def sort(e_, st, A):
        P, l, r = A; l, r = zi(l), zi(r); seen["sort"] = 1
        e_.oblige(st, "sorting: the range is not empty", z3.And(0 <= l, l <= r), "pre")
        full = e_.leaf(st, P.reg, P.path); row = zi(P.idx[0]); A0 = full[row]; A1 = e_.fresh("sorted", A0.sort()); st.mem[(P.reg.id, P.path)] = z3.Store(full, row, A1); e_.note(P.reg, P.path)
        s = e_.fresh("at", I)
        e_.fact(st, z3.Implies(z3.And(l == 0, r == nu - 1, z3.Implies(z3.And(0 <= s, s < nu), A0[s] == YF[1][s])), FA([k], z3.Implies(z3.And(0 <= k, k < nu), A1[k] == ORD(k)), A1[k])))
        return None
    def copied(L): 
        T, i = L.arr("temp_v_dif"), L["i"]; return [("copied so far", z3.And(i >= 0, i <= nu, zi(L["end"]) == nu, FA([k], z3.Implies(z3.And(0 <= k, k < i), T[1][k] == YF[1][k]), T[1][k])))]
    e.inv[(fn, l_copy)] = copied
    def green(L):
        i, w, X, Y = L["i"], L["n_clr"], L.arr("clrx"), L.arr("clry")
        return G.inv(i, w, nu) + [("dates not reached stay", FA([k], z3.Implies(z3.And(i <= k, k < nu), X[k] == XF[k]), XF[k])), G.moved("the date", X, lambda q: XF[q], i)] + \
            [("band %d not reached stays" % j, FA([k], z3.Implies(z3.And(i <= k, k < nu), Y[j][k] == YF[j][k]), YF[j][k])) for j in range(7)] + [G.moved("band %d" % j, Y[j], (lambda j: lambda q: YF[j][q])(j), i) for j in range(7)]
    e.inv[(fn, l_green)] = green
    nv = G.V(nu)
    # the fit receives a series
    def fit(e_, st, A):
        X, Y, b0, b1, lo, hi, df, FC, RMSE, TMP = A; j = ce.conc(zi(b0)); j = j.as_long() if isinstance(j, z3.ExprRef) else j
        if not isinstance(j, int): raise Unsupported("band of the fit")
        XS, YS = gh.get("XS"), gh.get("YS"); Xa, Ya = e_.arrv(st, X), e_.arrv(st, Y); snowy = e_.quick([f for f in st.pc] + [], sn > z3.RealVal("3/4"))
        br = 0 if snowy else 1; seen[("fit", br, j)] = 1; what = ("snow" if snowy else "clear") + ", band %d: " % j
        e_.oblige(st, what + "fitted alone, from the first value on, with four coefficients", z3.And(zi(b1) == j, zi(lo) == 0, zi(df) == 4), "post")
        if snowy:
            C = VB[j]; e_.oblige(st, what + "exactly its unsaturated values, twelve at least", z3.And(zi(hi) == C.V(ns) - 1, C.V(ns) >= 12), "post")
            for nm, g in (C.moved("the value", Ya[j], lambda q: YS[j][q], ns), C.moved("the date", Xa, lambda q: XS[q], ns)): e_.oblige(st, what + nm, g, "post")
        else:
            e_.oblige(st, what + "exactly the first values of every date below the green threshold, twelve at least", z3.And(zi(hi) == nv - 1, nv >= 12), "post")
            for nm, g in (G.moved("the value", Ya[j], lambda q: YF[j][q], nu), G.moved("the date", Xa, lambda q: XF[q], nu)): e_.oblige(st, what + nm, g, "post")
        fc = e_.leaf(st, FC.reg, FC.path); row = e_.fresh("row", fc.sort().range()); st.mem[(FC.reg.id, FC.path)] = z3.Store(fc, j, row); e_.note(FC.reg, FC.path)
        e_.fact(st, z3.And(*[row[q] == FIT(br, j, q) for q in range(8)])); e_.store(st, RMSE, RM(br, j))
        st.mem[(TMP.reg.id, "")] = e_.fresh("residuals", e_.leaf(st, TMP.reg, "").sort()); e_.note(TMP.reg, "")
        e_.oblige(st, what + "its error goes to its own cell", zi(RMSE.idx[-1]) == j, "post")
        return 0
    def realloc(e_, st, A):
        e_.oblige(st, "the caller's record buffer is never reallocated", False, "safety"); kill(st); return ce.NULL
    e.contracts.update({"allocate_2d_array": alloc2d, "free_2d_array": lambda e_, st, A: 0, "matlab_unique": unique, "quick_sort_float": sort, "auto_ts_fit_float": fit, "realloc": realloc})
    r = zi(p.run())
    missing = ({"unique", "sort"} | {("fit", q, j) for q in (0, 1) for j in range(7)}) - set(seen)
    if missing: raise Unsupported("not reached: %s" % sorted(map(str, missing)))
    rec = lambda f: e.leaf(p.st, p.vals[REC].reg, f); old = lambda f: e.leaf(p.old, p.vals[REC].reg, f); nf = zi(p.cell(NFC)); snow = sn > z3.RealVal("3/4"); ok = z3.And(r == 0)
    P = lambda nm, g: p.post(nm, z3.Implies(ok, g))
    p.post("it succeeds", r == 0)
    P("snow: one segment from twelve observations on, none below", z3.Implies(snow, nf == z3.If(ns >= 12, 1, 0)))
    P("clear: one segment from twelve observations on, none below", z3.Implies(z3.Not(snow), nf == z3.If(nv >= 12, 1, 0)))
    one = nf == 1; w = z3.Int("where")
    P("snow: the number of observations", z3.Implies(z3.And(one, snow), rec("num_obs")[0] == ns)); P("clear: the number of observations", z3.Implies(z3.And(one, z3.Not(snow)), rec("num_obs")[0] == nv))
    P("snow: starts at the first date used", z3.Implies(z3.And(one, snow, 0 <= w, w < n, SS.sel(w), SS.CNT(w) == 0), rec("t_start")[0] == D[w]))
    P("snow: ends at the last date used", z3.Implies(z3.And(one, snow, 0 <= w, w < n, SS.sel(w), SS.CNT(w) == ns - 1), rec("t_end")[0] == D[w]))
    P("clear: starts at the first date used", z3.Implies(z3.And(one, z3.Not(snow), 0 <= w, w < nu, G.ok(w), G.V(w) == 0), rec("t_start")[0] == XF[w]))
    P("clear: ends at the last date used", z3.Implies(z3.And(one, z3.Not(snow), 0 <= w, w < nu, G.ok(w), G.V(w) == nv - 1), rec("t_end")[0] == XF[w]))
    P("no break", z3.Implies(one, z3.And(rec("t_break")[0] == 0, rec("change_prob")[0] == 0, *[rec("magnitude")[0][j] == 0 for j in range(7)])))
    P("the category names the procedure and the model", z3.Implies(one, rec("category")[0] == z3.If(snow, 54, 44)))
    for j in range(7):
        sat = VB[j].V(ns) < 12
        P("snow, band %d: coefficients" % j, z3.Implies(z3.And(one, snow), z3.And(*[rec("coefs")[0][j][q] == z3.If(sat, z3.RealVal(10000 if q == 0 and j < 6 else 0), FIT(0, j, q)) for q in range(8)])))
        P("snow, band %d: error" % j, z3.Implies(z3.And(one, snow), rec("rmse")[0][j] == z3.If(sat, 0, RM(0, j))))
        P("clear, band %d: coefficients" % j, z3.Implies(z3.And(one, z3.Not(snow)), z3.And(*[rec("coefs")[0][j][q] == FIT(1, j, q) for q in range(8)])))
        P("clear, band %d: error" % j, z3.Implies(z3.And(one, z3.Not(snow)), rec("rmse")[0][j] == RM(1, j)))
    for f in ("t_start", "t_end", "num_obs", "coefs", "rmse", "category"): p.post("other records stay: %s" % f, z3.Implies(w >= 1, rec(f)[w] == old(f)[w]))
    for x in bufs + [F, DT, ID]: p.post("%s stays" % x, p.out(x) == p.out(x, True))
    later = {str(d) for d in [U.name(), ORD.name(), G.V.name()] + [v.V.name() for v in VB]}
    e.obls[:] = [prune(o, later | {(SC if "loop %d:" % l_snow in o[0] else SS).CNT.name()}) if "loop %d:" % l_snow in o[0] or "loop %d:" % l_clear in o[0] else o for o in e.obls]
    p.done()

def syms(t, seen):
    if t.get_id() in seen: return set()
    seen.add(t.get_id()); r = set()
    if z3.is_quantifier(t): return syms(t.body(), seen)
    if z3.is_app(t):
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED: r.add(t.decl().name())
        for x in t.children(): r |= syms(x, seen)
    return r
def prune(o, names):
    """the same obligation without the quantified assumptions about later stages (fewer assumptions: still sound)"""
    two = "of a kept observation" in o[0]      # the order of dates plays no part there
    return (o[0], [f for f in o[1] if not (has_quant(f) and (syms(f, set()) & names or two and pairs(f)))]) + tuple(o[2:])
def pairs(f): return z3.is_quantifier(f) and f.num_vars() > 1 or any(pairs(x) for x in f.children())

def run(c):
    m = {}
    c.guard("clang", lambda: m.update(cold=ce.unit(c.repo, "cold.c"), misc=ce.unit(c.repo, "misc.c")))
    c.guard("inefficientobs_procedure", lambda: few(c, m["cold"], m["misc"]))
    c.flush()
    c.assumptions += ["floats as reals", "memory allocation succeeds", "matlab_unique, quick_sort_float by the contracts proved under P22 and P13; uniqueness of order statistics", "auto_ts_fit_float as an arbitrary function of the series it is given, which succeeds"]
    c.oracle("o_few.py")
