"""P17 / P19: COLD returns well-formed segments; its change magnitudes stay inside their grid.
Under contract: cold and stand_procedure (cold.c), entire.  Callees by contract: preprocessing (P12),
the fits and update_cft (P14), sorts (P13), medians and noise (P22), inefficientobs_procedure (P23);
auto_mask, the predictions and the angles as any values.  The segments are an invariant of the main
loop over the records written so far: those closed, and the one being monitored."""
import z3
from vc import ceng as ce
from vc.ceng import Proof, Unsupported, FA, zi, zr, zb
from props.p12 import choice, alloc2d, refs, in_range, pre_contract, selecting_loops, LONG, INT, FLOAT, I, R, k, a, b, real
from props.p23 import loops_by
MAXDATE = 756500                       # dates fit the 16-bit day number
LAUNCH = 723742
rule = lambda q: z3.If(q < 18, 4, z3.If(q < 24, 6, 8))

def records(co, ts, te, tb, no, cp, ct, USED, n0, nf, which):
    """the statements about closed segments 0..nf-1"""
    al = lambda top, body, pat: FA([k], z3.Implies(z3.And(0 <= k, k < top), body), pat)
    out = [("a closed segment starts no later than it ends, and ends before its break", al(nf, z3.And(1 <= ts[k], ts[k] <= te[k], te[k] < tb[k]), ts[k])),
           ("start, end and break of a closed segment are dates of usable observations", al(nf, z3.And(USED(ts[k]), USED(te[k]), USED(tb[k])), ts[k])),
           ("a closed segment has probability 100", al(nf, cp[k] == 100, cp[k])),
           ("a closed segment has a number of observations and the coefficients of that number", al(nf, z3.And(no[k] >= 6, no[k] <= n0, z3.If(z3.And(k == 0, ct[k] == 14), True, z3.And(no[k] >= 12, ct[k] == rule(no[k])))), no[k])),
           ("coefficients of a closed segment beyond those are zero", al(nf, z3.And(*[z3.Implies(z3.Or(ct[k] == 14, ct[k] <= q), co[k][j][q] == 0) for j in range(7) for q in (4, 5, 6, 7)]), ct[k])),
           ("segments follow one another", al(nf - 1, tb[k] <= ts[k + 1], tb[k]))]
    return out

def stand(c, u, others, cm):
    fn = "stand_procedure"
    p = Proof(c, [u] + others, fn, houdini=False); e = p.e; names = [x for x, _ in p.params]; ty = dict(p.params); e.allocfail = False; e.push = True; e.counting = True; e.cases = ("loop 3: an entry is unfilled", "loop 3: magnitudes are not")
    if len(names) != 22: raise Unsupported("parameters of " + fn)
    N, DT, bufs, F, ID, TCG, CONSE, OCM, SD, REC, NFC, CI, CM, CMD, C2, GAP = names[0], names[1], names[2:9], *names[9:22]
    n = p.int(N, 1); conse = p.int(CONSE, 1, 11); c2 = p.int(C2, 0, 1); p.real(TCG); p.real(GAP)
    if cm: ocm = p.int(OCM, 1, 1); sd = p.int(SD); iv = p.int(CI, 1); ncm = z3.Int("intervals"); p.pre(ncm >= 1)
    else: p.set(OCM, 0); sd = p.int(SD); iv = p.int(CI); ncm = z3.IntVal(1)
    for x in bufs + [F, DT]: p.array(x, LONG, [(0, n)])
    p.array(ID, INT, [(0, n)]); p.array(REC, ty[REC][1], [(0, 40)]); p.scalar_out(NFC, INT).init[""] = 0
    SHORT = ("int", 16, True)
    for x in (CM, CMD): p.array(x, SHORT, [(0, ncm)])
    p.snap(); B = [p.out(x, True) for x in bufs]; FM = p.out(F, True); D = p.out(DT, True); IDA = p.out(ID, True)
    e.facts.append(FA([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(D[k] >= LAUNCH - 30000 if cm else D[k] >= 1, D[k] < MAXDATE)), D[k]))
    e.facts.append(FA([a, b], z3.Implies(z3.And(0 <= a, a <= b, b < n), D[a] <= D[b]), (D[a], D[b])))
    USED = z3.Function("clear_usable_date", I, z3.BoolSort()); e.facts.append(FA([k], z3.Implies(z3.And(0 <= k, k < n, FM[k] < 2, IDA[k] == 1), USED(D[k])), D[k]))
    CELL = z3.Function("interval_of_day", I, I)
    if cm:
        last = z3.Int("last_day")
        e.facts += [sd <= D[0], last == D[n - 1] - sd, CELL(last) < ncm, CELL(last) >= 0]
        C0, CD0 = p.out(CM, True), p.out(CMD, True); e.facts.append(FA([k], z3.Implies(z3.And(0 <= k, k < ncm), z3.And(C0[k] == -9999, CD0[k] == -9999)), C0[k]))
    def hook(e_, st, op, x, y, t):
        if isinstance(x, ce.Ptr) or isinstance(y, ce.Ptr) or op not in ("*", "/"): return None
        x, y = ce.num(x), ce.num(y)
        if op == "/" and t[0] == "int" and cm and ce.isz(y) and y.eq(iv):
            x = z3.simplify(zi(x)); e_.oblige(st, "the day of an interval is not before the start and not after the last observation", z3.And(x >= 0, x <= last), "pre")
            v = CELL(x); e_.facts.append(z3.Implies(z3.And(0 <= x, x <= last), z3.And(v >= 0, v <= CELL(last)))); return v
        if ce.lit(x) or ce.lit(y) or t[0] != "flt": return None
        x, y = z3.simplify(zr(x)), z3.simplify(zr(y))
        if op == "/":
            if y.eq(z3.simplify(zr(conse))):
                r = x / 11
                for q in range(10, 0, -1): r = z3.If(conse == q, x / q, r)
                return r
            return e_.fresh("quotient", R)
        if z3.is_rational_value(x) or z3.is_rational_value(y): return None
        v = e_.fresh("product", R); e_.fact(st, v >= 0 if x.eq(y) else z3.Implies(z3.And(x >= 0, y >= 0), v >= 0)); return v
    e.op_hook = hook
    ls = loops_by(u, fn); find = lambda f: [q for q, r in enumerate(ls) if f(r)]
    def one(what, f, m=1):
        q = find(f)
        if len(q) != m: raise Unsupported("loop: " + what)
        return q if m > 1 else q[0]
    sel = selecting_loops(u, fn)
    if len(sel) != 1: raise Unsupported("one selecting loop expected")
    def series(X, top, what="", D1=None):
        return [(what + "dates ascend", FA([a, b], z3.Implies(z3.And(0 <= a, a < b, b < top), X[a] < X[b]), (X[a], X[b]))), (what + "dates are those of clear usable observations", FA([k], z3.Implies(z3.And(0 <= k, k < top), z3.And(USED(X[k]), X[k] >= D[0], X[k] <= D[n - 1])), X[k]))]
    def selection(L):
        i, w, X = L["i"], L["n_clr"], L.arr("clrx")
        return [("counter", z3.And(i >= 0, i <= n, w >= 0, w <= i)), ("the last date is not later", z3.Implies(w > 0, z3.And(i >= 1, X[w - 1] <= D[i - 1])))] + series(X, w)
    e.inv[(fn, sel[0])] = selection
    g = {}
    def selected(L): g["n0"] = L["n_clr"]; g["X0"] = L.arr("clrx"); return []
    e.after[(fn, sel[0])] = selected
    fld = lambda L, f: e.leaf(L.st, p.vals[REC].reg, f)
    # callees
    def havoc(e_, st, P, what):
        A = e_.fresh(what, e_.leaf(st, P.reg, P.path).sort()); st.mem[(P.reg.id, P.path)] = A; e_.note(P.reg, P.path); return A
    def row(e_, st, P, j, what):
        A = e_.leaf(st, P.reg, P.path); v = e_.fresh(what, A.sort().range()); st.mem[(P.reg.id, P.path)] = z3.Store(A, zi(j), v); e_.note(P.reg, P.path); return v
    def noise(e_, st, A):
        e_.oblige(st, "the noise of all selected observations", z3.And(zi(A[2]) == 7, zi(A[3]) == 0, zi(A[4]) == zi(g["n0"]) - 1, zi(A[8]) == 1), "post")
        for q in (5, 6): e_.store(st, A[q], e_.fresh("stat", R))
        havoc(e_, st, A[7], "noise"); return e_.fresh("status", I)
    def mask(e_, st, A):
        X, Y, lo, hi, yr, t1, t2, tc, ids = A; m = zi(hi) - zi(lo) + 1
        e_.oblige(st, "outliers are screened among the observations", z3.And(zi(lo) >= 0, zi(hi) < zi(L_(e_, st)["end"]), m >= 6), "pre")
        e_.oblige(st, "the time span of the screen is positive", zr(yr) > 0, "pre")
        havoc(e_, st, ids, "mask"); return e_.fresh("status", I)
    def L_(e_, st): return ce.View(e_, st, e_.frames[-1])
    def cft(e_, st, A):
        e_.oblige(st, "the number of coefficients by the package's rule", z3.And(zi(A[1]) == 3, zi(A[2]) == 4, zi(A[3]) == 6, zi(A[4]) == 8, zi(A[5]) == 8), "post")
        e_.store(st, A[6], rule(zi(A[0]))); return None
    def fit(e_, st, A):
        X, Y, b0, b1, lo, hi, df, FC, RM, VD = A; lo, hi, df = zi(lo), zi(hi), zi(df); m = hi - lo + 1
        e_.oblige(st, "the fit is given a range of observations", z3.And(lo >= 0, hi < zi(L_(e_, st)["end"]), zi(b0) == zi(b1), zi(b0) >= 0, zi(b0) < 7), "pre")
        e_.oblige(st, "the fit is given more observations than coefficients", z3.And(z3.Or(df == 4, df == 6, df == 8), m > df), "pre")
        v = row(e_, st, FC, b1, "coefficients"); e_.fact(st, z3.And(*[z3.Implies(df <= q, v[q] == 0) for q in (4, 5, 6, 7)]))
        e_.store(st, RM, e_.fresh("error", R)); row(e_, st, VD, b1, "residuals"); return e_.fresh("status", I)
    def predict(e_, st, A):
        X, FC, df, bb, lo, hi, out = A
        e_.oblige(st, "a prediction is at an observation", z3.And(zi(lo) == zi(hi), zi(lo) >= 0, zi(lo) < zi(L_(e_, st)["end"])), "pre"); e_.store(st, out, e_.fresh("predicted", R)); return 0
    def sort_mag(e_, st, A):
        P, l, r = A; e_.oblige(st, "sorting: the range is not empty", z3.And(0 <= zi(l), zi(l) <= zi(r), zi(r) < conse), "pre"); row(e_, st, P, P.idx[0], "sorted"); return None
    def sort_2d(e_, st, A):
        e_.oblige(st, "sorting: the range is not empty", z3.And(zi(A[2]) == 0, zi(A[3]) >= 0, zi(A[3]) < zi(g["n0"]), zi(A[4]) == 7), "pre"); havoc(e_, st, A[0], "sorted_keys"); havoc(e_, st, A[1], "sorted"); return None
    def median(e_, st, A):
        e_.oblige(st, "a median of at least one value", z3.And(zi(A[2]) >= 1, zi(A[2]) <= conse), "pre"); e_.store(st, A[3], e_.fresh("median", R)); return None
    def pmedian(e_, st, A):
        e_.oblige(st, "a median of at least one value", z3.And(zi(A[2]) >= 0, zi(A[2]) <= zi(A[3]), zi(A[3]) < conse), "pre"); e_.store(st, A[4], e_.fresh("median", R)); return None
    def norm(e_, st, A):
        e_.oblige(st, "a norm of stored differences", z3.And(zi(A[2]) >= 1, zi(A[2]) <= zi(L_(e_, st)["ids_old_len"])), "pre"); e_.store(st, A[3], e_.fresh("norm", R)); return None
    def angle(e_, st, A): e_.oblige(st, "an angle of at least one difference of the five bands", z3.And(zi(A[1]) == 5, zi(A[2]) >= 1, zi(A[2]) <= conse), "pre"); return e_.fresh("angle", R)
    def decay(e_, st, A): v = e_.fresh("weight", R); e_.fact(st, z3.And(v >= 0, v <= 1)); return v
    def rounding(e_, st, A): v = e_.fresh("rounded", R); x = zr(A[0]); e_.fact(st, z3.And(z3.Implies(x >= 0, v >= 0), v <= x + z3.Q(1, 2), v >= x - z3.Q(1, 2))); return v
    e.contracts.update({"adjust_median_variogram": noise, "auto_mask": mask, "update_cft": cft, "auto_ts_fit_float": fit, "auto_ts_predict_float": predict, "quick_sort_float": sort_mag, "quick_sort_2d_float": sort_2d,
        "matlab_2d_float_median": median, "matlab_float_2d_partial_median": pmedian, "matlab_2d_array_norm_float": norm, "MeanAngl_float": angle, "angle_decaying": decay, "allocate_2d_array": alloc2d, "free_2d_array": lambda e_, st, A: 0,
        **({"round": rounding} if cm else {}), "sqrtf": lambda e_, st, A: e_.fresh("root", R), "sqrt": lambda e_, st, A: e_.fresh("root", R)})
    # ------------------------------------------------ the change magnitudes
    def cells(L):
        if not cm: return []
        C, T = L.arr(CM), L.arr(CMD)
        return [("an entry is unfilled, or holds a magnitude and a date of its own interval", FA([k], z3.Implies(z3.And(0 <= k, k < ncm), z3.Or(z3.And(C[k] == -9999, T[k] == -9999), z3.And(C[k] >= 0, C[k] <= 32767, CELL(T[k] + LAUNCH - sd) == k, USED(T[k] + LAUNCH)))), C[k]))]
    def positive(L, when):
        V = L.arr("vec_mag"); return [("magnitudes are not negative", FA([k], z3.Implies(z3.And(when, 0 <= k, k < conse), V[k] >= 0), V[k]))] if cm else []
    # ------------------------------------------------ the main loop
    def closed(L, nf):
        ts, te, tb, no, cp, ct = [fld(L, f) for f in ("t_start", "t_end", "t_break", "num_obs", "change_prob", "category")]
        return records(fld(L, "coefs"), ts, te, tb, no, cp, ct, USED, zi(g["n0"]), nf, "")
    def opened(L, nf, X, st):
        ts, te, tb, no, cp, ct = [fld(L, f)[nf] for f in ("t_start", "t_end", "t_break", "num_obs", "change_prob", "category")]; co = fld(L, "coefs"); pb = fld(L, "t_break")
        return z3.And(USED(ts), USED(te), ts == X[st - 1], ts >= 1, ts <= te, tb == 0, cp == 0, no >= 12, no <= zi(g["n0"]), ct == rule(no), z3.Implies(nf > 0, pb[nf - 1] <= ts), *[z3.Implies(ct <= q, co[nf][j][q] == 0) for j in range(7) for q in (4, 5, 6, 7)])
    def base(L):
        """what holds of the counters and the series at any point of the main loop"""
        i, st, dn, end, nf = L["i"], L["i_start"], L["i_dense"], L["end"], zi(L.cell(NFC)); X = L.arr("clrx"); tb = fld(L, "t_break"); n0 = zi(g["n0"])
        return [("counters", z3.And(dn >= 1, st >= 1, z3.Implies(nf == 0, dn <= st), end >= 0, end <= n0, nf >= 0, nf <= 40)), ("observations from the break on are left", z3.Implies(nf > 0, z3.And(st <= end, X[st - 1] >= tb[nf - 1])))] + series(X, end) + closed(L, nf) + cells(L)
    def mainloop(L):
        i, st, end, nf, bt, ic, ol = L["i"], L["i_start"], L["end"], zi(L.cell(NFC)), L["bl_train"], L["i_count"], L["ids_old_len"]; X = L.arr("clrx"); no = fld(L, "num_obs"); OL = L.arr("ids_old"); n0 = zi(g["n0"])
        return base(L) + [("position", z3.And(st <= i, z3.Or(bt == 0, bt == 1), z3.Or(i <= end - conse + 1, z3.And(i == 12, st == 1, bt == 0, nf == 0)))), ("while a segment is monitored it has twelve observations", z3.Implies(bt == 1, z3.And(i >= st + 11, nf <= 39, ic > 0, ol >= 12, ol <= n0, ol == no[nf]))),
            ("the observations of the last fit are known", FA([k], z3.Implies(z3.And(bt == 1, 0 <= k, k < ol), z3.And(OL[k] >= 0, OL[k] < n0)), OL[k])), ("the monitored segment", z3.Implies(bt == 1, opened(L, nf, X, st)))] + positive(L, bt == 1)
    l_main = find(lambda r: "bl_train" in r)
    if len(l_main) != 1: raise Unsupported("one main loop expected")
    l_main = l_main[0]; e.inv[(fn, l_main)] = mainloop
    # removal of outliers: which ones, then the compaction
    l_fill = find(lambda r: r <= {"ids", "k", "i_start", "i", "end", "ids_len"} and {"ids", "k", "i_start"} <= r)
    for q in l_fill:
        r = ls[q]; top = "end" if "end" in r else "i"
        def inv(L, top=top, r=r):
            q_, st, A = L["k"], L["i_start"], L.arr("ids")
            return [("counter", z3.And(q_ >= st - 1, z3.Or(q_ <= L[top], q_ == st - 1)))] + ([("positions counted", L["ids_len"] == q_ - st + 1)] if "ids_len" in r else []) + [("positions so far", FA([k], z3.Implies(z3.And(0 <= k, k < q_ - st + 1), A[k] == k + st - 1), A[k]))]
        e.inv[(fn, q)] = inv
    for q in find(lambda r: {"bl_ids", "rm_ids", "i_span"} <= r and "bl_train" not in r):
        def inv(L):
            q_, m, A, st, sp = L["k"], L["m"], L.arr("rm_ids"), L["i_start"], L["i_span"]
            return [("counter", z3.And(q_ >= 0, m >= 0, sp >= 0, m + sp == q_)), ("removed positions ascend inside the segment", z3.And(FA([a, b], z3.Implies(z3.And(0 <= a, a < b, b < m), A[a] + (b - a) <= A[b]), (A[a], A[b])), FA([k], z3.Implies(z3.And(0 <= k, k < m), z3.And(A[k] >= st - 1 + k, A[k] + (m - k) <= q_ + st - 1)), A[k])))]
        e.inv[(fn, q)] = (lambda L, inv=inv, r=ls[q]: inv(L) + [("within the range", z3.Or(L["k"] == 0, L["k"] <= (L["end"] if "end" in r else L["i"]) - L["i_start"] + 1))])
    def compacting(dst, inplace):
        def inv(L):
            i, w, m, A, ml, end, st = L["k"], L["k_new"], L["m"], L.arr("rm_ids"), L["rm_ids_len"], L["end"], L["i_start"]; X = L.x["entry"].arr("clrx"); Y = L.arr(dst)
            out = [("counter", z3.And(i >= 0, i <= end, m >= 0, m <= ml, w == i - m, z3.Implies(m < ml, A[m] >= i), z3.Implies(m > 0, A[m - 1] < i), z3.Implies(i < st, m == 0))),
                   ("before the segment nothing moves", FA([k], z3.Implies(z3.And(0 <= k, k < st - 1, k < i), Y[k] == X[k]), Y[k])),
                   ("nothing of the segment comes before its first observation", FA([k], z3.Implies(z3.And(st - 1 <= k, k < w), Y[k] >= X[st - 1]), Y[k])),
                   ("what is kept is at or before where it was", FA([k], z3.Implies(z3.And(0 <= k, k < w), z3.And(Y[k] >= X[k], z3.Implies(i < end, Y[k] < X[i]))), Y[k]))] + series(Y, w, "kept ")
            if inplace: out.append(("what is to come has not moved", FA([k], z3.Implies(z3.And(i <= k, k < end), Y[k] == X[k]), Y[k])))
            return out
        return inv
    for q in find(lambda r: {"k_new", "rm_ids", "clrx"} <= r and "bl_train" not in r): e.inv[(fn, q)] = compacting("cpx" if "cpx" in ls[q] else "clrx", "cpx" not in ls[q])
    for q in find(lambda r: {"cpx", "clrx", "cpy"} <= r and "rm_ids" not in r and "bl_train" not in r):
        e.inv[(fn, q)] = lambda L: [("counter", z3.And(L["k"] >= 0, z3.Or(L["k"] == 0, L["k"] <= L["end"]))), ("copied so far", FA([k], z3.Implies(z3.And(0 <= k, k < L["k"]), L.arr("clrx")[k] == L.arr("cpx")[k]), L.arr("clrx")[k]))]
    # the previous break is looked up
    for q in find(lambda r: "rec_cg" in r and "clrx" in r and not r & {"bl_train", "fit_cft"}):
        def inv(L, r=ls[q]):
            X = L.arr("clrx"); nf = zi(L.cell(NFC)); tb = fld(L, "t_break")[nf - 1]
            return [("counter", z3.And(L["k"] >= 0, L["k"] <= (L["end"] if "end" in r else zi(g["n0"])))), ("none so far", FA([k], z3.Implies(z3.And(0 <= k, k < L["k"]), X[k] < tb), X[k]))]
        e.inv[(fn, q)] = inv
    # one observation removed
    for q in find(lambda r: {"clrx", "clry", "end"} <= r and r <= {"b", "clrx", "clry", "end", "i_ini", "i", "k", "m"} and ("i" in r or "i_ini" in r)):
        v = "k" if "k" in ls[q] else "m"; at = "i_ini" if "i_ini" in ls[q] else "i"
        def inv(L, v=v, at=at):
            X0, X, q_ = L.x["entry"].arr("clrx"), L.arr("clrx"), L[v]
            return [("counter", z3.And(q_ >= L[at], z3.Or(q_ == L[at], q_ <= L["end"] - 1))), ("earlier ones stay", FA([k], z3.Implies(z3.And(0 <= k, k < L[at]), X[k] == X0[k]), X[k])), ("later ones moved", FA([k], z3.Implies(z3.And(L[at] <= k, k < q_), X[k] == X0[k + 1]), X[k])), ("the rest stays", FA([k], z3.Implies(k >= q_, X[k] == X0[k]), X[k]))]
        e.inv[(fn, q)] = inv
    # backwards from the start of the model
    l_ini = [q for q in find(lambda r: "i_ini" in r and "bl_train" not in r and "vec_magg" in r and "i_break" in r)]
    if len(l_ini) != 1: raise Unsupported("one backward loop expected")
    def backward(L):
        i, st, dn, end, nf, ini, bk = L["i"], L["i_start"], L["i_dense"], L["end"], zi(L.cell(NFC)), L["i_ini"], L["i_break"]; X = L.arr("clrx"); E = L.x["entry"]; tb = fld(L, "t_break")
        out = base(L) + [("position", z3.And(ini == st - 2, st >= bk, bk >= 1, st <= E["i_start"], i - end == E["i"] - E["end"], i >= st + 11, i <= end - conse, end <= E["end"], nf == zi(E.cell(NFC)))), ("the break stays before", z3.Implies(nf > 0, X[bk - 1] >= tb[nf - 1]))]
        return out + [("number of differences", z3.Implies(st < E["i_start"], z3.And(L["ini_conse"] >= 1, L["ini_conse"] <= conse)))]
    e.inv[(fn, l_ini[0])] = backward
    for q in find(lambda r: "vec_magg_min" in r and "clrx" in r and not r & {"i_break", "bl_train"} and "i_conse" in r and "ini_conse" in r):
        def inv(L): return [("counter", z3.And(L["i_conse"] >= 1, L["i_conse"] <= L["ini_conse"] + 1))] + ([("the smallest magnitude so far", z3.And(L["vec_magg_min"] >= 0, L["vec_magg_min"] <= 9999))] if cm else [])
        e.inv[(fn, q)] = inv
    for q in find(lambda r: "ids_old" in r and "ids" in r and r <= {"ids", "ids_len", "ids_old", "k"}):
        e.inv[(fn, q)] = lambda L: [("counter", z3.And(L["k"] >= 0, z3.Or(L["k"] == 0, L["k"] <= L["ids_len"]))), ("copied so far", FA([k], z3.Implies(z3.And(0 <= k, k < L["k"]), L.arr("ids_old")[k] == L.arr("ids")[k]), L.arr("ids_old")[k]))]
    if cm:
        for q in find(lambda r: "vec_mag" in r and not r & {"bl_train", "i_b"} and "v_diff" in r and "id_last" not in r):   # zeroed, shifted
            def inv(L):
                V, E, m = L.arr("vec_mag"), L.x["entry"].arr("vec_mag"), L["m"]
                return [("counter", z3.And(m >= 0, m <= conse)), ("magnitudes are not negative or not reached", FA([k], z3.Implies(z3.And(0 <= k, k < conse), z3.Or(V[k] >= 0, z3.And(k >= m, V[k] == E[k]))), V[k]))]
            e.inv[(fn, q)] = inv
        for q in find(lambda r: {"vec_mag", "i_conse", "clry"} <= r and not r & {"bl_train", "i_break"}):      # filled
            def inv(L):
                V, E, m = L.arr("vec_mag"), L.x["entry"].arr("vec_mag"), L["i_conse"]
                return [("counter", z3.And(m >= 1, m <= conse + 1)), ("magnitudes are not negative or not reached", FA([k], z3.Implies(z3.And(0 <= k, k < conse), z3.Or(V[k] >= 0, z3.And(k >= m - 1, V[k] == E[k]))), V[k]))]
            e.inv[(fn, q)] = inv
        for q in find(lambda r: {"vec_mag", "break_mag"} <= r and "bl_train" not in r): e.inv[(fn, q)] = lambda L: [("counter", z3.And(L["m"] >= 0, L["m"] <= conse)), ("the smallest magnitude so far", z3.And(L["break_mag"] >= 0, L["break_mag"] <= 9999))]
    l_end = find(lambda r: "id_last" in r and "v_diff_tmp" in r)
    if len(l_end) != 1: raise Unsupported("loop over the last observations")
    e.inv[(fn, l_end[0])] = lambda L: [("counter", z3.And(L["i_conse"] >= -1, L["i_conse"] < conse)), ("none stable so far", L["id_last"] == conse)]
    r = zi(p.run()); nf = zi(p.cell(NFC)); ok = r == 0; L = ce.View(e, p.st, p.fr); n0 = zi(g["n0"])
    ts, te, tb, no, cp, ct = [fld(L, f) for f in ("t_start", "t_end", "t_break", "num_obs", "change_prob", "category")]; co = fld(L, "coefs")
    if not cm:
        p.post("at most forty segments", z3.Implies(ok, z3.And(nf >= 0, nf <= 40)))
        for nm, q in closed(L, nf - 1): p.post(nm, z3.Implies(ok, q))
        z = nf - 1; lastseg = z3.And(ok, nf > 0)
        p.post("the last segment starts no later than it ends", z3.Implies(lastseg, ts[z] <= te[z]))
        p.post("the last segment starts no earlier than the break before it", z3.Implies(z3.And(lastseg, nf > 1), tb[z - 1] <= ts[z]))
        p.post("start and end of the last segment are dates of usable observations", z3.Implies(lastseg, z3.And(USED(ts[z]), USED(te[z]))))
        for q in range(1, 12): p.post("the last segment's probability is 0 to 100, above 0 exactly with a break (consecutive count %d)" % q, z3.Implies(z3.And(lastseg, conse == q), z3.And(cp[z] >= 0, cp[z] <= 100, (cp[z] > 0) == (tb[z] != 0))))
        p.post("a break of the last segment is a usable observation after its end", z3.Implies(z3.And(lastseg, tb[z] != 0), z3.And(USED(tb[z]), te[z] < tb[z])))
        p.post("the last segment has a number of observations and the coefficients of that number", z3.Implies(lastseg, z3.And(no[z] >= 6, no[z] <= n0, z3.Or(ct[z] == 24, z3.And(z == 0, ct[z] == 14), z3.And(no[z] >= 12, ct[z] == rule(no[z]))))))
        p.post("coefficients of the last segment beyond those are zero", z3.Implies(lastseg, z3.And(*[z3.Implies(z3.Or(ct[z] == 14, ct[z] == 24, ct[z] <= q), co[z][j][q] == 0) for j in range(7) for q in (4, 5, 6, 7)])))
    else:
        for nm, q in cells(L): p.post(nm, z3.Implies(ok, q))
    for x in bufs + [F, DT, ID]: p.post("%s stays" % x, p.out(x) == p.out(x, True))
    p.done()

ASSUME = ["integers as mathematical integers (64-bit dates below 756500), floats as reals, products and quotients of floats as any values with the sign facts used", "memory allocation succeeds", "initialised globals that no function of the units writes keep their values", "auto_mask as any function that marks observations of its range; predictions, medians and angles as any values", "consecutive counts 1 to 11 (the documented range)", "callees by the contracts proved under P12, P13, P14, P22, P23"]

def run(c):
    m = {}
    c.guard("clang", lambda: m.update(cold=ce.unit(c.repo, "cold.c"), ut=ce.unit(c.repo, "utilities.c"), misc=ce.unit(c.repo, "misc.c")))
    c.guard("stand_procedure", lambda: stand(c, m["cold"], [m["ut"], m["misc"]], False))
    c.guard("cold", lambda: choice(c, m["cold"]))
    c.flush()
    c.assumptions += ASSUME
    c.oracle("o_cold.py", args=("P17",))
