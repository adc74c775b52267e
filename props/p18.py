"""P18: object-based reconstruction honours the supplied break dates.
Under contract: find_index_clrx (utilities.c) - the nearest observation, the first of equally near
ones; obcold_reconstruction_procedure (cold.c), entire, with its callees by contract (preprocessing
P12, quick_sort_long / quick_sort_float P13, update_cft and auto_ts_fit_float P14, medians P22,
inefficientobs_procedure P23; auto_mask as any mask).  The retained break dates are specified by
recursion over the sorted list; the segments by an invariant over the records written so far."""
import z3
from vc import ceng as ce
from vc.ceng import Proof, Unsupported, FA, zi, zr, zb
from props.p12 import alloc2d, refs, in_range, pre_contract, selecting_loops, LONG, INT, FLOAT, I, R, k, a, b, real
from props.p23 import loops_by
MAXDATE = 5000000
def dist(x, d): return z3.If(x >= d, x - d, d - x)

def nearest(c, u):
    p = Proof(c, [u], "find_index_clrx"); e = p.e; names = [x for x, _ in p.params]
    if len(names) != 3: raise Unsupported("parameters of find_index_clrx")
    X, E, Dt = names; n = p.int(E, 0); d = p.int(Dt, -MAXDATE, MAXDATE); p.array(X, INT, [(0, n)]); p.snap(); A = p.out(X, True)
    e.facts.append(FA([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(A[k] >= 0, A[k] <= MAXDATE - 1)), A[k])); w = z3.Int("where"); p.pre(z3.Implies(z3.And(0 <= w, w < n), z3.And(A[w] >= 0, A[w] < MAXDATE)))
    def inv(L):
        i = L["i"]; m, at = best(L)
        return [("i in range", z3.And(i >= 0, i <= n)), ("nearest so far", z3.Implies(i > 0, z3.And(at >= 0, at < i, m == dist(A[at], d)))), ("none nearer so far", FA([k], z3.Implies(z3.And(0 <= k, k < i), z3.And(dist(A[k], d) >= m, A[k] != d, z3.Implies(k < at, dist(A[k], d) > m))), A[k])),
                ("nothing yet", z3.Implies(i == 0, z3.And(m > 2 * MAXDATE - 2, at == 0))), ("not found yet", zi(L["find_success"]) == 0)]
    def best(L): return L["min_abs_diff"], L["minabsdiff_i_record"]
    e.inv[("find_index_clrx", 0)] = inv
    r = zi(p.run())
    p.post("the index is one of the observations", z3.Implies(n > 0, z3.And(r >= 0, r < n)))
    p.post("nothing to choose from: index 0", z3.Implies(n == 0, r == 0))
    p.post("no observation is nearer", z3.Implies(z3.And(0 <= w, w < n), dist(A[w], d) >= dist(A[r], d)))
    p.post("of equally near observations it is the first", z3.Implies(z3.And(0 <= w, w < r), dist(A[w], d) > dist(A[r], d)))
    p.post("the dates stay", p.out(X) == A); p.done()

def rebuild(c, u, others):
    fn = "obcold_reconstruction_procedure"
    p = Proof(c, [u] + others, fn, houdini=False); e = p.e; names = [x for x, _ in p.params]; ty = dict(p.params); e.allocfail = False; e.push = True
    if len(names) != 17: raise Unsupported("parameters of " + fn)
    bufs, F, DT, N, BD, NBD, POS, C2, CONSE, REC, NFC = names[:7], *names[7:17]
    n = p.int(N, 0); nb = p.int(NBD, 1); conse = p.int(CONSE, 1); pos = p.int(POS); c2 = p.int(C2, 0, 1)
    for x in bufs + [F, DT]: p.array(x, LONG, [(0, n)])
    p.array(BD, LONG, [(0, nb)]); p.array(REC, ty[REC][1], [(0, 40)]); p.scalar_out(NFC, INT).init[""] = 0
    gh = ce.Region("break_date_of", INT, 1); e.reg_of[gh.id] = gh; fb = ce.Region("fell_back", INT, 0); fb.init[""] = 0; e.reg_of[fb.id] = fb
    p.st.mem[(fb.id, "")] = 0
    lk = ce.Region("looked_up_for", INT, 0); lk.init[""] = 0; e.reg_of[lk.id] = lk; p.st.mem[(lk.id, "")] = 0
    lr = ce.Region("observations_from_it_on", INT, 0); lr.init[""] = 0; e.reg_of[lr.id] = lr; p.st.mem[(lr.id, "")] = 0
    ld = ce.Region("its_date", INT, 0); ld.init[""] = 0; e.reg_of[ld.id] = ld; p.st.mem[(ld.id, "")] = 0
    p.snap(); B = [p.out(x, True) for x in bufs]; FM = p.out(F, True); D = p.out(DT, True); sums = {}; e.leaf(p.st, gh, "")
    usable = lambda i: in_range(B, FM, c2 != 0, i)
    e.facts.append(FA([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(D[k] >= 1, D[k] < MAXDATE)), D[k]))
    USED = z3.Function("clear_usable_date", I, z3.BoolSort()); e.facts.append(FA([k], z3.Implies(z3.And(0 <= k, k < n, FM[k] < 2, usable(k)), USED(D[k])), D[k]))
    RET = z3.Function("retained", I, z3.BoolSort())
    e.contracts["preprocessing"] = pre_contract(p, bufs, F, n, c2, usable, sums)
    ls = loops_by(u, fn); sel = selecting_loops(u, fn)
    if len(sel) != 1: raise Unsupported("one selecting loop expected")
    find = lambda f: [q for q, r in enumerate(ls) if f(r)]
    def one(what, f):
        q = find(f)
        if len(q) != 1: raise Unsupported("loop: " + what)
        return q[0]
    g = {}
    # dates are checked to be in order
    l_order = [q for q in find(lambda r: DT in r and F not in r)][0]
    adj = lambda A, top, lo=0: FA([k], z3.Implies(z3.And(lo <= k, k < top), A[k] <= A[k + 1]), A[k])
    e.inv[(fn, l_order)] = lambda L: [("in order so far", z3.And(L["i"] >= 0, z3.Implies(n >= 1, L["i"] <= n - 1), adj(D, L["i"])))]
    # the selected series
    def series(X, top, what=""):
        return [(what + "dates ascend", FA([a, b], z3.Implies(z3.And(0 <= a, a < b, b < top), X[a] < X[b]), (X[a], X[b]))), (what + "dates are those of clear usable observations", FA([k], z3.Implies(z3.And(0 <= k, k < top), z3.And(USED(X[k]), X[k] >= 1, X[k] < MAXDATE)), X[k]))]
    def selection(L):
        i, w, X = L["i"], L["n_clr"], L.arr("clrx")
        return [("counter", z3.And(i >= 0, i <= n, w >= 0, w <= i)), ("the last date is not later", z3.Implies(w > 0, z3.And(i >= 1, X[w - 1] <= D[i - 1])))] + series(X, w)
    e.inv[(fn, sel[0])] = selection
    def selected(L): g["X0"], g["n0"] = L.arr("clrx"), L["n_clr"]; return []
    e.after[(fn, sel[0])] = selected
    def havoc(e_, st, P, what):
        A = e_.fresh(what, e_.leaf(st, P.reg, P.path).sort()); st.mem[(P.reg.id, P.path)] = A; e_.note(P.reg, P.path); return A
    def row(e_, st, P, j, what):
        A = e_.leaf(st, P.reg, P.path); v = e_.fresh(what, A.sort().range()); st.mem[(P.reg.id, P.path)] = z3.Store(A, zi(j), v); e_.note(P.reg, P.path); return v
    def noise(e_, st, A):
        e_.oblige(st, "the noise of all selected observations", z3.And(zi(A[2]) == 7, zi(A[3]) == 0, zi(A[4]) == zi(g["n0"]) - 1, zi(A[8]) == 1), "post")
        for q in (5, 6): e_.store(st, A[q], e_.fresh("stat", R))
        havoc(e_, st, A[7], "noise"); return e_.fresh("status", I)
    # the retained break dates
    SUP = z3.Function("supplied", I, z3.BoolSort()); BD0 = p.out(BD, True); e.facts.append(FA([k], z3.Implies(z3.And(0 <= k, k < nb), z3.And(SUP(BD0[k]), BD0[k] > -MAXDATE, BD0[k] < MAXDATE)), BD0[k]))
    def sort_breaks(e_, st, A):
        P, l, r = A; e_.oblige(st, "all break dates are sorted", z3.And(zb(P.reg is p.vals[BD].reg), zi(l) == 0, zi(r) == nb - 1), "post")
        S = havoc(e_, st, P, "sorted_breaks"); g["S"] = S
        e_.fact(st, FA([k], z3.Implies(z3.And(0 <= k, k < nb), z3.And(SUP(S[k]), S[k] > -MAXDATE, S[k] < MAXDATE, z3.Implies(k + 1 < nb, S[k] <= S[k + 1]))), S[k]))
        e_.facts += [NB(0) == 0, LASTB(0) == 0, FA([k], z3.Implies(k >= 0, z3.And(NB(k + 1) == NB(k) + z3.If(keepb(k), 1, 0), LASTB(k + 1) == z3.If(keepb(k), S[k], LASTB(k)))), S[k]), FA([k], z3.Implies(z3.And(0 <= k, k < nb, keepb(k)), RET(S[k])), S[k])]
        return None
    NB, LASTB = z3.Function("breaks_before", I, I), z3.Function("last_break_before", I, I); keepb = lambda q: z3.And(g["S"][q] > 0, 4 * (g["S"][q] - LASTB(q)) >= 1461)
    l_ret = one("retained breaks", lambda r: BD in r)
    def retained(L):
        i, m, BL = L["i"], L["break_num"], L.arr("break_list")
        return [("counter", z3.And(i >= 0, i <= nb, m == NB(i), m >= 0, m <= i, L["last_break_record"] == LASTB(i), LASTB(i) < MAXDATE, LASTB(i) > -MAXDATE)), ("the last retained one", z3.If(m > 0, BL[m - 1] == LASTB(i), LASTB(i) == 0)),
                ("a retained date is at its rank", FA([k], z3.Implies(z3.And(0 <= k, k < i, keepb(k)), z3.And(NB(k) >= 0, NB(k) < m, BL[NB(k)] == g["S"][k])), g["S"][k])),
                ("every one listed is retained", FA([k], z3.Implies(z3.And(0 <= k, k < m), z3.And(RET(BL[k]), SUP(BL[k]), BL[k] > 0, BL[k] < MAXDATE, z3.Implies(k + 1 < m, BL[k] + 366 <= BL[k + 1]))), BL[k]))]
    e.inv[(fn, l_ret)] = retained
    def breaks_done(L): g["BL"], g["nbreak"] = L.arr("break_list"), L["break_num"]; return []
    e.after[(fn, l_ret)] = breaks_done
    # callees of the segmentation
    def index(e_, st, A):
        P, m, d = A; X = e_.arrv(st, P); m, d = zi(m), zi(d); r = e_.fresh("nearest", I)
        e_.oblige(st, "a break date is looked up among the observations", z3.And(m >= 0, m <= zi(g["n0"]), d > -MAXDATE, d < MAXDATE, RET(d)), "pre")
        e_.fact(st, z3.If(m <= 0, r == 0, z3.And(r >= 0, r < m))); e_.fact(st, FA([k], z3.Implies(z3.And(0 <= k, k < m), z3.And(dist(X[k], d) >= dist(X[r], d), z3.Implies(k < r, dist(X[k], d) > dist(X[r], d)))), X[k]))
        L = ce.View(e_, st, e_.frames[-1])
        if L.has("j"):
            # looked up a second time, after the removal of outliers: the same observation
            j = zi(L["j"]); t = e_.leaf(st, lk, ""); h = z3.Implies(zi(t) == j + 1, z3.And(m - r == zi(e_.leaf(st, lr, "")), X[r] == zi(e_.leaf(st, ld, ""))))
            s = st.mem[(P.reg.id, "")]; cs = []
            while z3.is_app_of(s, z3.Z3_OP_ITE): cs.append(s.arg(0)); s = s.arg(2)
            for cse in [[q] + [z3.Not(x) for x in cs[:i]] for i, q in enumerate(cs)] + [[z3.Not(x) for x in cs]]:
                q = st.copy(); q.pc += cse; X2 = st.mem[(P.reg.id, "")]; i2 = 0
                while z3.is_app_of(X2, z3.Z3_OP_ITE): X2 = X2.arg(1) if any(y.eq(X2.arg(0)) for y in cse) else X2.arg(2)
                e_.oblige(q, "after the removal of outliers the break is at the same observation", h, "lemma")
            e_.fact(st, h)
            X0, n0 = g["X0"], zi(g["n0"]); h = z3.Implies(z3.And(zi(t) != j + 1, r > zi(L["i_last_break"]), m > 0), FA([k], z3.Implies(z3.And(0 <= k, k < n0), dist(X0[k], d) >= dist(X[r], d)), X0[k]))
            last = zi(L["i_last_break"]); first = z3.And(zi(t) != j + 1, r > last, m > 0); y = e_.fresh("any", I); y2 = y - n0 + m
            for nm, q in [("the last break is nearer than earlier observations", z3.Implies(z3.And(0 <= y, y2 < last), X0[y] < X[last])), ("the first one found comes after the last break", dist(X[last], d) > dist(X[r], d)), ("the same observation in both series", z3.Implies(z3.And(last <= y2, y2 < m), X[y2] == X0[y])), ("no nearer in the rest", z3.Implies(z3.And(last <= y2, y2 < m), dist(X[y2], d) >= dist(X[r], d)))]:
                q = z3.Implies(first, q); e_.oblige(st, nm, q, "lemma"); e_.fact(st, q)
            e_.oblige(st, "none of all usable observations is nearer than the first one found", z3.Implies(z3.And(first, 0 <= y, y < n0), dist(X0[y], d) >= dist(X[r], d)), "lemma"); e_.fact(st, h)
            st.mem[(ld.id, "")] = z3.If(zi(t) == j + 1, zi(e_.leaf(st, ld, "")), X[r]); e_.note(ld, "")
            st.mem[(lk.id, "")] = j + 1; e_.note(lk, ""); st.mem[(lr.id, "")] = m - r; e_.note(lr, "")
        G = e_.leaf(st, gh, ""); st.mem[(gh.id, "")] = z3.Store(G, zi(p.e.cellv(st, p.vals[NFC], ())), d); e_.note(gh, ""); return r
    def mask(e_, st, A):
        X, Y, lo, hi, yr, t1, t2, tc, ids = A; m = zi(hi) - zi(lo) + 1
        e_.oblige(st, "outliers are screened among the observations, twelve at least", z3.And(zi(lo) >= 0, zi(hi) < zi(g["n0"]), m >= 12), "pre")
        e_.oblige(st, "the time span of the screen is positive", zr(yr) > 0, "pre")
        W = havoc(e_, st, ids, "mask"); e_.fact(st, FA([k], z3.Implies(z3.And(0 <= k, k < m), z3.Or(W[k] == 0, W[k] == 1)), W[k])); return e_.fresh("status", I)
    rule = lambda q: z3.If(q < 18, 4, z3.If(q < 24, 6, 8))
    def cft(e_, st, A):
        e_.oblige(st, "the number of coefficients by the package's rule", z3.And(zi(A[1]) == 3, zi(A[2]) == 4, zi(A[3]) == 6, zi(A[4]) == 8, zi(A[5]) == 8), "post")
        e_.store(st, A[6], rule(zi(A[0]))); return None
    def fit(e_, st, A):
        X, Y, b0, b1, lo, hi, df, FC, RM, VD = A; lo, hi, df = zi(lo), zi(hi), zi(df); m = hi - lo + 1
        e_.oblige(st, "the fit is given a range of observations", z3.And(lo >= 0, hi < zi(g["n0"]), zi(b0) == zi(b1), zi(b0) >= 0, zi(b0) < 7), "pre")
        e_.oblige(st, "the fit is given more observations than coefficients", z3.And(z3.Or(df == 4, df == 6, df == 8), m > df, df == rule(m)), "pre")
        v = row(e_, st, FC, b1, "coefficients"); e_.fact(st, z3.And(*[z3.Implies(df <= q, v[q] == 0) for q in (4, 5, 6, 7)]))
        e_.store(st, RM, e_.fresh("error", R)); row(e_, st, VD, b1, "residuals"); return e_.fresh("status", I)
    def predict(e_, st, A):
        X, FC, df, bb, lo, hi, out = A
        e_.oblige(st, "a prediction is at an observation", z3.And(zi(lo) == zi(hi), zi(lo) >= 0, zi(lo) < zi(g["n0"])), "pre"); e_.store(st, out, e_.fresh("predicted", R)); return 0
    def sort_mag(e_, st, A):
        P, l, r = A; e_.oblige(st, "sorting: the range is not empty", z3.And(0 <= zi(l), zi(l) <= zi(r)), "pre"); row(e_, st, P, P.idx[0], "sorted"); return None
    def median(e_, st, A):
        e_.oblige(st, "a median of at least one value", zi(A[2]) >= 1, "pre"); e_.store(st, A[3], e_.fresh("median", R)); return None
    def few(e_, st, A):
        e_.oblige(st, "the fallback is for pixels without a segment", zi(e_.load(st, None, A[13])) == 0, "post")
        for lp in e_.leaves(p.vals[REC].reg.ty):
            L0 = e_.leaf(st, p.vals[REC].reg, lp); st.mem[(p.vals[REC].reg.id, lp)] = z3.Store(L0, 0, e_.fresh("fallback", L0.sort().range())); e_.note(p.vals[REC].reg, lp)
        v = e_.fresh("fallback_segments", I); e_.fact(st, z3.And(v >= 0, v <= 1)); e_.store(st, A[13], v); st.mem[(fb.id, "")] = 1; e_.note(fb, ""); return e_.fresh("status", I)
    e.contracts.update({"adjust_median_variogram": noise, "quick_sort_long": sort_breaks, "find_index_clrx": index, "auto_mask": mask, "update_cft": cft, "auto_ts_fit_float": fit, "auto_ts_predict_float": predict,
        "quick_sort_float": sort_mag, "matlab_2d_float_median": median, "inefficientobs_procedure": few, "allocate_2d_array": alloc2d, "free_2d_array": lambda e_, st, A: 0})
    # the segments
    l_seg = [q for q in find(lambda r: "break_list" in r and BD not in r)][0]
    fld = lambda L, f: e.leaf(L.st, p.vals[REC].reg, f)
    def records(L, nf, m):
        """of the first nf records; m: those that end in a break"""
        ts, te, tb, no, cp, ct = [fld(L, f) for f in ("t_start", "t_end", "t_break", "num_obs", "change_prob", "category")]; G = e.leaf(L.st, gh, ""); X0, n0 = g["X0"], zi(g["n0"]); co = fld(L, "coefs")
        al = lambda top, body, pat: FA([k], z3.Implies(z3.And(0 <= k, k < top), body), pat)
        return [("a segment starts no later than it ends", al(nf, ts[k] <= te[k], ts[k])), ("start and end are dates of clear usable observations", al(nf, z3.And(USED(ts[k]), USED(te[k])), ts[k])), ("the number of observations is positive and not above that of the usable ones", al(nf, z3.And(no[k] >= 6, no[k] <= n0), no[k])),
                ("the model has the coefficients of the number of observations", al(nf, ct[k] == rule(no[k]), ct[k])),
                ("coefficients beyond those are zero", al(nf, z3.And(*[z3.Implies(ct[k] <= q, co[k][j][q] == 0) for j in range(7) for q in (4, 5, 6, 7)]), ct[k])),
                ("a break is at a usable observation, after its segment, with probability 100", al(m, z3.And(USED(tb[k]), te[k] < tb[k], cp[k] == 100), tb[k])), ("a break belongs to a retained break date", al(m, RET(G[k]), G[k])),
                ("no usable observation is nearer to the break date than the break", FA([a, b], z3.Implies(z3.And(0 <= a, a < m, 0 <= b, b < n0), dist(X0[b], G[a]) >= dist(tb[a], G[a])), (G[a], X0[b]))),
                ("segments follow one another", al(nf - 1, tb[k] <= ts[k + 1], tb[k]))]
    def segments(L):
        j, last, end, X = L["j"], L["i_last_break"], L["end"], L.arr("clrx"); X0, n0, nbk = g["X0"], zi(g["n0"]), zi(g["nbreak"]); nf = zi(L.cell(NFC)); tb = fld(L, "t_break")
        fin = z3.If(j <= nbk, nf, nf - 1)
        return [("looked up for earlier breaks only", zi(e.leaf(L.st, lk, "")) <= j), ("counters", z3.And(j >= 0, j <= nbk + 1, nf >= 0, nf <= 40, nf <= j, last >= 0, last <= end, end <= n0, z3.Implies(end > 0, last < end), z3.Implies(n0 > 0, end > 0))),
                ("from the last break on nothing is removed yet", FA([k], z3.Implies(z3.And(last <= k, k < end), X[k] == X0[k + n0 - end]), X[k])),
                ("the last break comes before what is left", z3.Implies(z3.And(nf > 0, j <= nbk), tb[nf - 1] <= X[last]))] + series(X, end) + records(L, nf, fin)
    e.inv[(fn, l_seg)] = segments
    # removal of outliers: which ones, then the compaction
    def chosen(rl, A, m, lo, i): return [("removed positions ascend inside the segment", z3.And(m >= 0, m <= i - lo, FA([a, b], z3.Implies(z3.And(0 <= a, a < b, b < m), A[a] + (b - a) <= A[b]), (A[a], A[b])), FA([k], z3.Implies(z3.And(0 <= k, k < m), z3.And(A[k] >= lo, A[k] + (m - k) <= i)), A[k])))]
    def choosing(L):
        i, lo, top = L["k"], L["i_last_break"], L["i_break_tmp"]
        return [("counter", z3.And(i >= lo, i <= top))] + chosen(None, L.arr("rm_ids"), L["rm_ids_len"], lo, i)
    l_rm = [q for q in find(lambda r: "rm_ids_len" in r and ("bl_ids" in r or "v_dif_norm" in r) and "break_list" not in r)]
    if len(l_rm) < 2: raise Unsupported("loops that choose what is removed")
    for q in l_rm: e.inv[(fn, q)] = choosing
    def compacting(src, dst):
        def inv(L):
            i, w, m, A, ml, end, lo, top = L["k"], L["k_new"], L["m"], L.arr("rm_ids"), L["rm_ids_len"], L["end"], L["i_last_break"], L["i_break_tmp"]; X, Y = L.arr(src), L.arr(dst)
            return [("counter", z3.And(i >= 0, i <= end, m >= 0, m <= ml, w == i - m, z3.Implies(m < ml, A[m] >= i), z3.Implies(m > 0, A[m - 1] < i), z3.Implies(i >= top, m == ml), z3.Implies(i <= lo, m == 0), m <= z3.If(i >= lo, i - lo, 0), z3.Implies(i <= top, m <= z3.If(i >= lo, i - lo, 0)))),
                    ("before the segment nothing moves", FA([k], z3.Implies(z3.And(0 <= k, k < lo, k < i), Y[k] == X[k]), Y[k])),
                    ("after the segment all move together", FA([k], z3.Implies(z3.And(top - ml <= k, k < w), Y[k] == X[k + ml]), Y[k])),
                    ("nothing of the segment comes before its first observation", FA([k], z3.Implies(z3.And(lo <= k, k < w), Y[k] >= X[lo]), Y[k])),
                    ("the segment stays before the break", FA([k], z3.Implies(z3.And(0 <= k, k < w, k < top - ml), Y[k] <= X[top - 1]), Y[k])),
                    ("dates come before those to come", z3.And(*[FA([k], z3.Implies(z3.And(0 <= k, k < w), z3.Implies(i < end, Y[k] < X[i])), Y[k])]))] + series(Y, w, "kept ")
        return inv
    l_c = [q for q in find(lambda r: "k_new" in r and "break_list" not in r)]
    l_c = [q for q in l_c if "clrx" in ls[q] or "clrx_tmp" in ls[q]]
    if len(l_c) != 2: raise Unsupported("two compactions expected")
    e.inv[(fn, l_c[0])] = compacting("clrx", "clrx_tmp"); e.inv[(fn, l_c[1])] = compacting("clrx_tmp", "clrx")
    def near(dst):
        def after(L):
            A, top, d = L.arr(dst), L["k_new"], L.arr("break_list")[L["j"]]; q = top - zi(e.leaf(L.st, lr, "")); v = zi(e.leaf(L.st, ld, ""))
            return [("the observation of the break is still there", z3.And(q >= 0, q < top, A[q] == v)), ("earlier ones are further from the break date", FA([k], z3.Implies(z3.And(0 <= k, k < q), dist(A[k], d) > dist(v, d)), A[k])), ("later ones are no nearer", FA([k], z3.Implies(z3.And(q <= k, k < top), dist(A[k], d) >= dist(v, d)), A[k]))]
        return after
    e.after[(fn, l_c[0])] = near("clrx_tmp"); e.after[(fn, l_c[1])] = near("clrx")
    g["loops"] = (l_seg, l_rm, l_c)
    for q in find(lambda r: "v_dif_mag" in r and "adj_conse" in r and "break_list" not in r and "lasso_blist" not in r): e.inv.setdefault((fn, q), lambda L: [("counter", z3.And(L["k"] >= 0, L["k"] <= L["adj_conse"]))]) if q != find(lambda r: "v_dif_mag" in r and "adj_conse" in r and "break_list" not in r)[0] else None
    def stamped(L):
        i = L["i"]; ps = fld(L, "pos"); return [("segments stamped so far", z3.And(i >= 0, i <= zi(L.cell(NFC)), FA([k], z3.Implies(z3.And(0 <= k, k < i), ps[k] == pos), ps[k])))]
    e.inv[(fn, one("stamping", lambda r: POS in r))] = stamped
    r = zi(p.run()); nf = zi(p.cell(NFC)); ok = z3.And(r == 0, p.st.mem[(fb.id, "")] == 0, n > 0); L = ce.View(e, p.st, p.fr)
    p.post("at most forty segments", z3.Implies(r == 0, z3.And(nf >= 0, nf <= 40)))
    w, v = z3.Ints("where later")
    for nm, q in records(L, nf, nf - 1): p.post(nm, z3.Implies(ok, q))
    tb, cp, mg, ps = [fld(L, f) for f in ("t_break", "change_prob", "magnitude", "pos")]
    p.post("the last segment has no break", z3.Implies(z3.And(r == 0, nf > 0), z3.And(tb[nf - 1] == 0, cp[nf - 1] == 0, *[mg[nf - 1][j] == 0 for j in range(7)])))
    p.post("every segment carries the pixel's position", z3.Implies(z3.And(r == 0, 0 <= w, w < nf), ps[w] == pos))
    S = g["S"]
    p.post("retained break dates are supplied, positive and a year apart", z3.Implies(ok, FA([k], z3.Implies(z3.And(0 <= k, k < zi(g["nbreak"])), z3.And(SUP(g["BL"][k]), g["BL"][k] > 0, z3.Implies(k + 1 < zi(g["nbreak"]), g["BL"][k] + 366 <= g["BL"][k + 1]))), g["BL"][k])))
    p.post("no observation: no segment", z3.Implies(n == 0, z3.And(r == 0, nf == 0)))
    for x in bufs + [F, DT]: p.post("%s stays" % x, p.out(x) == p.out(x, True))
    p.done()

def run(c):
    m = {}
    c.guard("clang", lambda: m.update(cold=ce.unit(c.repo, "cold.c"), ut=ce.unit(c.repo, "utilities.c")))
    c.guard("find_index_clrx", lambda: nearest(c, m["ut"]))
    c.guard("obcold_reconstruction_procedure", lambda: rebuild(c, m["cold"], [m["ut"]]))
    c.flush()
    c.assumptions += ["integers as mathematical integers, floats as reals", "memory allocation succeeds", "dates and break dates within five million days", "initialised globals that no function of the unit writes keep their values", "auto_mask as any function that marks observations of its range; other callees by the contracts proved under P12, P13, P14, P22, P23"]
    c.oracle("o_rebuild.py")
