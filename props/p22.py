"""P22: noise statistics equal their mathematical definition.
Under contract (misc.c): the medians, means, norms and root mean squares, get_ids_length,
matlab_unique, adjust_median_variogram (option 1, the one in use), singleband_variogram,
singleband_minvariogram, and the mean angle between successive change vectors.  Sums are given
by their recursion (S(lo) = 0, S(i+1) = S(i) + term(i)); order statistics by the contract of
quick_sort_float (P13): a sorted arrangement of a range has the values ORD of that range."""
import z3
from fractions import Fraction
from vc import ceng as ce
from vc.ceng import Proof, Unsupported, FA, zi, zr, PI, arith, uf

I, R = z3.IntSort(), z3.RealSort()
INT, FLOAT, DOUBLE = ("int", 32, True), ("flt", 4), ("flt", 8)
k, a, b = z3.Ints("k a b")
def real(x): return z3.ToReal(x)
def sq(x): return x * x
def sqrt(x): return uf("sqrt", R, R)(x)

def recursion(p, S, lo, term, pat):
    p.e.facts.append(S(lo) == 0)
    p.e.facts.append(FA([k], z3.Implies(k >= lo, S(k + 1) == S(k) + term(k)), pat(k)))

def summed(c, u, fn, ty, dims, term, final, partial, extra=None):
    """a loop that adds term(A[..][i]) over the range, then final(sum, count)"""
    p = Proof(c, [u], fn); n = [x for x, _ in p.params]; e = p.e
    A = n.pop(0); out = n.pop()
    bnd = None
    if dims == 2:
        bn = [x for x in n if x.startswith("dim1")][0]; n.remove(bn); bnd = p.int(bn, 0)
    cft = None
    ints = [x for x, t in p.params if x in n and t[0] == "int"]; other = [x for x in n if x not in ints]
    if partial: lo, last = p.int(ints[0], 0), p.int(ints[1]); hi = last + 1
    else: lo, hi = z3.IntVal(0), p.int(ints[0])
    p.pre(hi > lo) if fn.find("norm") < 0 else p.pre(hi >= lo)
    lens = [(lo, hi)]
    p.array(A, ty, ([(bnd, bnd + 1)] if dims == 2 else []) + lens, nd=dims); p.scalar_out(out, ty)
    off = z3.RealVal(0)
    if other:
        t = dict(p.params)[other[0]]
        if t[0] == "flt": off = p.real(other[0])
        else: p.array(other[0], FLOAT, [(bnd, bnd + 1), (0, 1)], nd=2)
    p.snap(); A0 = p.out(A, True); o = off
    if other and dict(p.params)[other[0]][0] == "ptr": o = p.out(other[0], True)[bnd][0]
    x = (lambda i: A0[bnd][i]) if dims == 2 else (lambda i: A0[i])
    S = z3.Function("sum", I, R); recursion(p, S, lo, lambda i: term(x(i), o), x)
    def inv(L):
        i = L["i"]; return [("the running sum is that of the elements so far", z3.And(i >= lo, i <= hi, zr(L["sum"]) == S(i)))]
    e.inv[(fn, 0)] = inv
    p.run()
    p.post("the result is its definition over exactly the range", zr(p.cell(out)) == final(S(hi), real(hi - lo)))
    p.post("the input stays", p.out(A) == p.out(A, True))
    p.done()

def median(c, u, fn, ty, partial):
    p = Proof(c, [u], fn); A, B, *rest = [x for x, _ in p.params]; out = rest.pop(); bnd = p.int(B, 0)
    if partial: lo, last = p.int(rest[0], 0), p.int(rest[1]); n = last - lo + 1
    else: lo, n = z3.IntVal(0), p.int(rest[0])
    p.pre(n >= 1); p.array(A, ty, [(bnd, bnd + 1), (lo, lo + n)], nd=2); p.scalar_out(out, ty)
    p.run(); x = lambda i: p.out(A, True)[bnd][i]; h = z3.Int("half"); p.pre(h >= 0)
    p.post("odd length: the middle element", z3.Implies(n == 2 * h + 1, zr(p.cell(out)) == x(lo + h)))
    p.post("even length: the mean of the two middle elements", z3.Implies(z3.And(n == 2 * h, h >= 1), zr(p.cell(out)) == (x(lo + h - 1) + x(lo + h)) / 2))
    p.post("the input stays", p.out(A) == p.out(A, True)); p.done()

def ids(c, u):
    p = Proof(c, [u], "get_ids_length"); A, S_, E_, O = [x for x, _ in p.params]; lo, last = p.int(S_, 0), p.int(E_); hi = last + 1; p.pre(hi >= lo)
    p.array(A, INT, [(lo, hi)]); p.scalar_out(O, INT); C = z3.Function("count", I, I)
    p.snap(); A0 = p.out(A, True); p.e.facts.append(C(lo) == 0); p.e.facts.append(FA([k], z3.Implies(k >= lo, C(k + 1) == C(k) + z3.If(A0[k] != 0, 1, 0)), A0[k]))
    def inv(L):
        return [("counted so far", z3.And(L["i"] >= lo, L["i"] <= hi, L["length"] == C(L["i"])))]
    p.e.inv[("get_ids_length", 0)] = inv; p.run()
    p.post("exactly the marked elements of the range are counted", zi(p.cell(O)) == C(hi)); p.post("the input stays", p.out(A) == p.out(A, True)); p.done()

def unique(c, u, nb):
    """dates are in order (P13): the first observation of every date is kept, in order"""
    p = Proof(c, [u], "matlab_unique"); X, Y, N, O = [x for x, _ in p.params]; n = p.int(N, 0)
    p.array(X, INT, [(0, n)]); p.array(Y, FLOAT, [(0, nb), (0, n)], nd=2); p.scalar_out(O, INT); e = p.e
    C = z3.Function("distinct_up_to", I, I); p.snap(); X0 = p.out(X, True)
    e.facts += [C(0) == 1, FA([k], z3.Implies(k >= 1, C(k) == C(k - 1) + z3.If(X0[k] != X0[k - 1], 1, 0)), X0[k])]
    def first(X0, j): return z3.Or(j == 0, X0[j] != X0[j - 1])
    def kept(Xn, Yn, X0, Y0, top):
        out = [("the date of a first observation is kept at its rank", FA([k], z3.Implies(z3.And(0 <= k, k < top, first(X0, k)), z3.And(C(k) >= 1, Xn[C(k) - 1] == X0[k])), X0[k]))]
        for j in range(nb): out.append(("row %d of a first observation is kept at its rank" % j, FA([k], z3.Implies(z3.And(0 <= k, k < top, first(X0, k)), Yn[j][C(k) - 1] == Y0[j][k]), Y0[j][k])))
        return out
    def inv(L):
        X0, Y0 = p.out(X, True), p.out(Y, True); Xn, Yn = L.arr(X), e.leaf(L.st, p.vals[Y].reg, ""); i, w = L["k"], L["k_new"]
        out = [("the write index is the number of distinct dates", z3.And(i >= 1, z3.Or(i <= n, i == 1), w >= 1, w <= i, w == C(i - 1))),
               ("ranks grow with position", FA([a], z3.Implies(z3.And(0 <= a, a < i), z3.And(C(a) >= 1, C(a) <= w, C(a) <= a + 1)), C(a), X0[a])),
               ("observations not reached stay", FA([k], z3.Implies(k >= w, Xn[k] == X0[k]), Xn[k])),
               ("the last date compared is the given one", Xn[i - 1] == X0[i - 1])]
        for j in range(nb): out.append(("row %d not reached stays" % j, FA([k], z3.Implies(k >= w, Yn[j][k] == Y0[j][k]), Yn[j][k])))
        out.append(("a later first observation has a later rank", FA([a, b], z3.Implies(z3.And(0 <= a, a < b, b < i, first(X0, b)), C(a) < C(b)), (C(a), C(b)))))
        return out + kept(Xn, Yn, X0, Y0, i)
    e.inv[("matlab_unique", 0)] = inv
    p.run()
    X0, Y0 = p.out(X, True), p.out(Y, True); Xn, Yn = p.out(X), p.out(Y)
    p.post("the number kept is the number of distinct dates", zi(p.cell(O)) == z3.If(n >= 1, C(n - 1), 0))
    for nm, g in kept(Xn, Yn, X0, Y0, n): p.post(nm, g)
    p.done()

def sorted_as(specs):
    """quick_sort_float by its contract (P13): the range becomes non-decreasing and is a permutation of itself; the values
    of a sorted arrangement of specification range D are ORD_D, so if the range holds D before, it holds ORD_D after"""
    def f(e, st, args):
        P, l, r = args; l, r = zi(l), zi(r)
        if P.idx[-1] != 0: raise Unsupported("offset of the sorted range")
        e.oblige(st, "call of quick_sort_float: range is not empty and not reversed", z3.And(0 <= l, l <= r), "pre")
        e.check(st, ce.Ptr(P.reg, P.path, (l,), P.ty), True); e.check(st, ce.Ptr(P.reg, P.path, (r,), P.ty), True)
        A0 = e.leaf(st, P.reg, P.path); A1 = e.fresh("sorted", A0.sort()); st.mem[(P.reg.id, P.path)] = A1; e.note(P.reg, P.path)
        e.fact(st, FA([k], z3.Implies(z3.Not(z3.And(l <= k, k <= r)), A1[k] == A0[k]), A1[k]))
        e.fact(st, FA([a, b], z3.Implies(z3.And(l <= a, a <= b, b <= r), A1[a] <= A1[b]), (A1[a], A1[b])))
        for D, ORD, n in specs(e, st):
            s = e.fresh("at", I)
            e.fact(st, z3.Implies(z3.And(l == 0, r == n - 1, z3.Implies(z3.And(0 <= s, s < n), A0[s] == D(s))), FA([k], z3.Implies(z3.And(0 <= k, k < n), A1[k] == ORD(k)), A1[k])))
        return None
    return f

def med(ORD, n, h): return z3.If(n == 2 * h, (ORD(h - 1) + ORD(h)) / 2, ORD(h))
def absv(x): return z3.If(x >= 0, x, -x)

def single(c, u, fn, minv):
    p = Proof(c, [u], fn); e = p.e; names = [x for x, _ in p.params]
    if minv: X = names.pop(0)
    A, S_, E_, O = names; lo, hi = p.int(S_, 0), p.int(E_); n = hi - lo; p.pre(n >= 1)
    p.array(A, FLOAT, [(lo, hi + 1)]); p.scalar_out(O, FLOAT)
    if minv: p.array(X, INT, [(lo, hi + 1)])
    ORD = z3.Function("order_statistic", I, R); e.allocfail = False
    def D(j):
        A0 = p.out(A, True); d = absv(A0[lo + j + 1] - A0[lo + j])
        return d / real(p.out(X, True)[lo + j + 1] - p.out(X, True)[lo + j]) if minv else d
    e.contracts["quick_sort_float"] = sorted_as(lambda e_, st: [(D, ORD, n)])
    def inv(L):
        V = L.arr("var"); j = L["j"]; return [("differences so far", z3.And(j >= lo, j <= hi)), ("each is the difference of its pair", FA([k], z3.Implies(z3.And(0 <= k, k < j - lo), V[k] == D(k)), V[k]))]
    e.inv[(fn, 0)] = inv
    r = zi(p.run()); h = z3.Int("half"); p.pre(h >= 0, z3.Or(n == 2 * h, n == 2 * h + 1))
    p.post("success", r == 0)
    p.post("the variogram is the median of the successive differences", zr(p.cell(O)) == med(ORD, n, h))
    p.post("the series stays", p.out(A) == p.out(A, True)); p.done()

def adjust(c, u):
    p = Proof(c, [u], "adjust_median_variogram", houdini=False); e = p.e; X, Y, NB, S_, E_, DV, MX, OUT, OPT = [x for x, _ in p.params]; e.allocfail = False
    nb, lo, hi = p.int(NB, 0), p.int(S_, 0), p.int(E_); n = hi - lo; p.pre(n >= 1); p.set(OPT, 1)
    p.array(X, INT, [(lo, hi + 1)]); p.array(Y, FLOAT, [(0, nb), (lo, hi + 1)], nd=2); p.scalar_out(DV, FLOAT); p.scalar_out(MX, FLOAT); p.array(OUT, FLOAT, [(0, nb)])
    Z = z3.Function("integer_observation", I, I, I); OD, OB = z3.Function("date_order", I, R), z3.Function("band_order", I, I, R); 
    p.snap(); Y0 = p.out(Y, True); e.facts.append(FA([a, k], Y0[a][k] == real(Z(a, k)), Y0[a][k]))
    def DD(j): X0 = p.out(X, True); return real(absv(X0[lo + j + 1] - X0[lo + j]))
    def DB(i): return lambda j: absv(p.out(Y, True)[i][lo + j + 1] - p.out(Y, True)[i][lo + j])
    def specs(e_, s):
        L = ce.View(e_, s, e_.frames[-1]); out = [(DD, OD, n)]
        if L.has("i"):
            try: i = L["i"]; out.append((DB(i), lambda q: OB(i, q), n))
            except Exception: pass
        return out
    e.contracts["quick_sort_float"] = sorted_as(specs); h = z3.Int("half"); p.pre(h >= 0, z3.Or(n == 2 * h, n == 2 * h + 1))
    fn = "adjust_median_variogram"
    # loops in source order: two for short ranges, the dates, the bands, the differences of one band
    def dates(L):
        V = L.arr("var"); j = L["j"]; return [("dates so far", z3.And(j >= 0, j <= n)), ("each is the difference of its dates", FA([k], z3.Implies(z3.And(0 <= k, k < j), V[k] == DD(k)), V[k]))]
    def bands(L):
        o = e.leaf(L.st, p.vals[OUT].reg, ""); i = L["i"]
        return [("bands so far", z3.And(i >= 0, i <= nb)), ("each band done has its median difference", FA([k], z3.Implies(z3.And(0 <= k, k < i), o[k] == med(lambda q: OB(k, q), n, h)), o[k])),
                ("date statistics stay", z3.And(zr(L.cell(DV)) == med(OD, n, h), zr(L.cell(MX)) == OD(n - 1))), ("other outputs stay", FA([k], z3.Implies(z3.Or(k < 0, k >= i), o[k] == p.out(OUT, True)[k]), o[k]))]
    def diffs(L):
        V = L.arr("var"); j, i = L["j"], L["i"]; d = Y0[i][j + 1] - Y0[i][j]; z = Z(i, j + 1) - Z(i, j)
        # the integer series at this pair: differences of integers are integers
        e.facts += [Y0[i][j] == real(Z(i, j)), Y0[i][j + 1] == real(Z(i, j + 1)), z3.ToInt(d) == z, z3.ToInt(-d) == -z, d == real(z)]
        return [("differences so far", z3.And(j >= lo, j <= hi)), ("each is the difference of its pair", FA([k], z3.Implies(z3.And(0 <= k, k < j - lo), V[k] == DB(i)(k)), V[k]))]
    e.inv.update({(fn, 2): dates, (fn, 3): bands, (fn, 4): diffs})
    r = zi(p.run()); o = p.out(OUT)
    p.post("success", r == 0)
    p.post("the date spacing is the median of the successive differences", zr(p.cell(DV)) == med(OD, n, h))
    p.post("the largest spacing is the largest difference", zr(p.cell(MX)) == OD(n - 1))
    p.post("every band's noise is the median of its successive differences", FA([k], z3.Implies(z3.And(0 <= k, k < nb), o[k] == med(lambda q: OB(k, q), n, h)), o[k]))
    p.post("the series stays", z3.And(p.out(X) == p.out(X, True), p.out(Y) == p.out(Y, True))); p.done()

def short(c, u, m):
    """a series of at most one observation: its value (0 when there is none) stands for the noise of every band"""
    fn = "adjust_median_variogram"; p = Proof(c, [u], fn, "adjust_median_variogram of %d" % m); e = p.e; X, Y, NB, S_, E_, DV, MX, OUT, OPT = [x for x, _ in p.params]
    nb, lo = p.int(NB, 0), p.int(S_, 0); hi = lo + m - 1; p.set(E_, hi); p.set(OPT, 1)
    e.contracts["quick_sort_float"] = sorted_as(lambda e_, st: [])
    p.array(X, INT, [(lo, hi + 1)]); p.array(Y, FLOAT, [(0, nb), (lo, hi + 1)], nd=2); p.scalar_out(DV, FLOAT); p.scalar_out(MX, FLOAT); p.array(OUT, FLOAT, [(0, nb)])
    p.snap(); Y0 = p.out(Y, True); w = (lambda q: Y0[q][lo]) if m else (lambda q: z3.RealVal(0))
    def inv(L):
        o = e.leaf(L.st, p.vals[OUT].reg, ""); i = L["i"]
        return [("bands so far", z3.And(i >= 0, i <= nb)), ("each band done has its value", FA([k], z3.Implies(z3.And(0 <= k, k < i), o[k] == w(k)), o[k]))]
    e.inv[(fn, 0 if m == 0 else 1)] = inv
    r = zi(p.run()); o = p.out(OUT)
    p.post("success", r == 0); p.post("every band has its value", FA([k], z3.Implies(z3.And(0 <= k, k < nb), o[k] == w(k)), o[k])); p.post("the largest spacing is 0", zr(p.cell(MX)) == 0)
    p.post("the series stays", z3.And(p.out(X) == p.out(X, True), p.out(Y) == p.out(Y, True))); p.done()

def clamp(x): return z3.If(x > 1, z3.RealVal(1), z3.If(x < -1, z3.RealVal(-1), x))
def angle(c, u, fn, ty, nb, sel):
    p = Proof(c, [u], fn); e = p.e; names = [x for x, _ in p.params]; V, NB, N = names[:3]; n = p.int(N); p.pre(n >= 0); p.set(NB, nb)
    rows = 7 if sel else nb
    p.array(V, ty, [(0, rows), (0, n)], nd=2)
    if sel: p.array(names[3], INT, [(0, nb)])
    S = z3.Function("angle_sum", I, R); acos = uf("acos", R, R); p.snap(); V0 = p.out(V, True)
    if sel: p.pre(*[z3.And(0 <= p.out(names[3], True)[j], p.out(names[3], True)[j] < rows) for j in range(nb)])
    row = (lambda j: p.out(names[3], True)[j]) if sel else (lambda j: j)
    pr = lambda i: z3.Sum(*[V0[row(j)][i] * V0[row(j)][i + 1] for j in range(nb)])
    nn = lambda i: z3.Sum(*[V0[row(j)][i] * V0[row(j)][i] for j in range(nb)])
    q = lambda i: clamp(pr(i) / (sqrt(nn(i)) * sqrt(nn(i + 1))))
    e.facts.append(S(0) == 0)
    def inv(L):
        i = L["i"]
        e.facts.append(z3.Implies(i >= 0, S(i + 1) == S(i) + acos(q(i)) * 180 / zr(PI)))
        return [("the running sum is that of the angles so far", z3.And(i >= 0, i <= z3.If(n >= 1, n - 1, 0), zr(L["angl_sum"]) == S(i)))]
    e.inv[(fn, 0)] = inv
    r = zr(p.run())
    p.post("the mean angle of successive vectors", z3.If(n > 1, r == S(n - 1) / real(n - 1), r == 0))
    p.post("the vectors stay", p.out(V) == p.out(V, True)); p.done()

def lemmas(c):
    A, B = z3.Reals("a0 a1 a2 a3 a4"), z3.Reals("b0 b1 b2 b3 b4"); S = lambda t: z3.Sum(*t)
    g = S([sq(A[i]) for i in range(5)]) * S([sq(B[i]) for i in range(5)]) - sq(S([A[i] * B[i] for i in range(5)]))
    w = S([sq(A[i] * B[j] - A[j] * B[i]) for i in range(5) for j in range(i)]); q, n1, n2, x = z3.Reals("product norm1 norm2 root")
    c.defer([("lemma: Lagrange's identity in five bands", [], z3.simplify(g - w, som=True) == 0, None, "lemma"),
             ("lemma: squares are not negative", [], sq(x) >= 0, None, "lemma"),
             ("lemma: the cosine of two vectors is within -1 and 1", [n1 > 0, n2 > 0, q * q <= n1 * n1 * n2 * n2, x * (n1 * n2) == q], z3.And(x <= 1, x >= -1), None, "lemma")], "angle lemmas")

def run(c):
    m = {}
    c.guard("clang", lambda: m.update(u=ce.unit(c.repo, "misc.c")))
    u = m["u"]
    one = lambda x, o: x; two = lambda x, o: x * x; dev = lambda x, o: (x - o) * (x - o)
    mean = lambda s, n: s / n; norm = lambda s, n: sqrt(s); rms = lambda s, n: sqrt(s / n)
    for fn, ty, dims, term, fin, part in (("rmse_from_square_root_mean", FLOAT, 2, dev, rms, False), ("partial_square_root_mean", FLOAT, 2, dev, rms, True), ("matlab_2d_array_norm", DOUBLE, 2, two, norm, False),
            ("matlab_2d_array_norm_float", FLOAT, 2, two, norm, False), ("matlab_1d_array_norm", FLOAT, 1, two, norm, False), ("matlab_2d_array_mean", FLOAT, 2, one, mean, False), ("array_1d_mean", FLOAT, 1, one, mean, True),
            ("matlab_2d_partial_mean", FLOAT, 2, one, mean, True), ("matlab_2d_partial_square_mean", FLOAT, 2, two, mean, True)):
        c.guard(fn, lambda: summed(c, u, fn, ty, dims, term, fin, part))
    for fn, ty, part in (("matlab_2d_float_median", FLOAT, False), ("matlab_2d_double_median", DOUBLE, False), ("matlab_float_2d_partial_median", FLOAT, True), ("matlab_double_2d_partial_median", DOUBLE, True)):
        c.guard(fn, lambda: median(c, u, fn, ty, part))
    c.guard("get_ids_length", lambda: ids(c, u))
    c.guard("matlab_unique", lambda: unique(c, u, 7))
    c.guard("singleband_variogram", lambda: single(c, u, "singleband_variogram", False))
    c.guard("singleband_minvariogram", lambda: single(c, u, "singleband_minvariogram", True))
    c.guard("adjust_median_variogram", lambda: adjust(c, u))
    for m_ in (0, 1): c.guard("adjust_median_variogram of %d" % m_, lambda: short(c, u, m_))
    for fn, ty, sel in (("MeanAngl", DOUBLE, False), ("MeanAngl_float", FLOAT, False), ("MeanAngl_float_selective", FLOAT, True)): c.guard(fn, lambda: angle(c, u, fn, ty, 5, sel))
    c.guard("lemmas", lambda: lemmas(c))
    c.flush()
    c.assumptions += ["floats as reals", "integer-valued observations for adjust_median_variogram (its abs truncates fractions)", "memory allocation succeeds in the variograms",
                      "quick_sort_float by the contract proved under P13; sorted arrangements of the same values are equal (uniqueness of order statistics)",
                      "five spectral bands (NUM_LASSO_BANDS) in the mean angle; acos uninterpreted, the cosine is clamped to -1..1 (lemma: a no-op over the reals)", "single-band variograms of two or more observations",
                      "medians take an already ordered range, as their callers provide"]
    c.oracle("o_stats.py")
