"""P13: sorting orders the keys and moves every attached value with its key.
Every partition_* and quick_sort_* of utilities.c and misc.c is put under contract:
  partition: returns i with left < i <= right+1 (i <= right when left < right), keys left of i
             are <= every key from i on, the range is a permutation of itself and attached
             values are permuted alike, nothing outside [left, right] is read or written;
  quick_sort: the keys of [left, right] are non-decreasing, same permutation and frame facts;
             recursive calls are on strictly smaller ranges (termination).
The permutation is the provenance of each key (ghost tags kept by the engine)."""
import z3
from vc import ceng as ce
from vc.ceng import Proof, Unsupported, FA, zi, arith

I = z3.IntSort()
INT, SHORT, FLOAT, DOUBLE, LONG, CHAR = ("int", 32, True), ("int", 16, True), ("flt", 4), ("flt", 8), ("int", 64, True), ("int", 8, True)
k, a, b = z3.Ints("k a b")

def payloads(p, names):
    return names

def ret_range(l, r, i): return z3.And(i > l, i <= r + 1, z3.Implies(l < r, i <= r))

class Spec:
    """key parameter, payload parameters (name, 1 or 2 dimensions, rows)"""
    def __init__(self, file, part, sort, key, pay): self.file = file; self.part = part; self.sort = sort; self.key = key; self.pay = pay

def nrows(sp, nb):
    return [(n, d, nb) for n, d in sp.pay]

def perm_facts(A0, A1, pays, q, l, r, nb):
    """A1/pays are the range of A0 permuted by q"""
    inr = lambda x: z3.And(l <= x, x <= r)
    f = [FA([k], z3.Implies(inr(k), z3.And(l <= q(k), q(k) <= r, A1[k] == A0[q(k)])), A1[k], q(k)),
         FA([a, b], z3.Implies(z3.And(inr(a), inr(b), q(a) == q(b)), a == b), (q(a), q(b))),
         FA([k], z3.Implies(z3.Not(inr(k)), A1[k] == A0[k]), A1[k])]
    for d, B0, B1 in pays:
        if d == 1:
            f.append(FA([k], B1[k] == z3.If(inr(k), B0[q(k)], B0[k]), B1[k]))
        elif d == 3:
            f.append(FA([k, a], B1[k][a] == z3.If(inr(k), B0[q(k)][a], B0[k][a]), B1[k][a]))
        else:
            for j in range(nb): f.append(FA([k], B1[j][k] == z3.If(inr(k), B0[j][q(k)], B0[j][k]), B1[j][k]))
    return f

def callee(sp, kind, nbv, self_name=None, measure=None):
    """contract of partition / quick_sort for use at a call"""
    def f(e, st, args):
        u, fn = e.find(sp.part if kind == "part" else sp.sort)
        pn = [x.get("name") for x in fn["inner"] if x["kind"] == "ParmVarDecl"]
        v = dict(zip(pn, args))
        key = v[sp.kname[kind]]; l, r = zi(v["left"]), zi(v["right"])
        if key.idx != (0,) : raise Unsupported("key pointer offset")
        e.oblige(st, "call of %s: range is not empty and not reversed" % fn["name"], z3.And(0 <= l, l <= r), "pre")
        if measure is not None: e.oblige(st, "call of %s: the range is smaller (termination)" % fn["name"], z3.And(r - l < measure[1] - measure[0], l >= measure[0], r <= measure[1]), "term")
        nb = nbv
        if "band_num" in v and v["band_num"] != nb: e.oblige(st, "call of %s: the number of bands is passed on" % fn["name"], zi(v["band_num"]) == nb, "pre")
        A0 = e.leaf(st, key.reg, ""); e.regtag(st, key.reg); T0 = st.mem[(key.reg.id, "#T")]
        A1 = e.fresh(key.reg.name, A0.sort()); T1 = e.fresh("tag", T0.sort()); q = z3.Function("q!%d" % e.nf, I, I)
        pays = []
        st.mem[(key.reg.id, "")] = A1; st.mem[(key.reg.id, "#T")] = T1; e.note(key.reg, ""); e.note(key.reg, "#T")
        for n, d in sp.pay:
            P = v[sp.pname[kind][n]]
            if any(x != 0 for x in P.idx): raise Unsupported("payload pointer offset")
            B0 = e.leaf(st, P.reg, ""); B1 = e.fresh(P.reg.name, B0.sort()); st.mem[(P.reg.id, "")] = B1; e.note(P.reg, "")
            pays.append((d, B0, B1))
        for f_ in perm_facts(A0, A1, pays, q, l, r, nb): e.fact(st, f_)
        e.fact(st, FA([k], T1[k] == z3.If(z3.And(l <= k, k <= r), T0[q(k)], T0[k]), T1[k]))
        if kind == "part":
            i = e.fresh("index", I); e.fact(st, ret_range(l, r, i))
            e.fact(st, FA([a, b], z3.Implies(z3.And(l <= a, a < i, i <= b, b <= r), A1[a] <= A1[b]), (A1[a], A1[b])))
            e.regtag(st, key.reg); return i
        e.fact(st, FA([a, b], z3.Implies(z3.And(l <= a, a <= b, b <= r), A1[a] <= A1[b]), (A1[a], A1[b])))
        e.regtag(st, key.reg); return None
    return f

SPECS = [Spec("utilities.c", "partition_buf", "quick_sort_buf", "arr", [("buf", 2), ("fmask_buf", 1)]),
         Spec("utilities.c", "partition_buf_sensor", "quick_sort_buf_sensor", "arr", [("buf", 2), ("fmask_buf", 1), ("sensor", 1)]),
         Spec("utilities.c", "partition_index", "quick_sort_index", "arr", [("index", 1)]),
         Spec("utilities.c", "partition_float", "quick_sort_float", "arr", []),
         Spec("utilities.c", "partition_double", "quick_sort_double", "arr", []),
         Spec("utilities.c", "partition_long", "quick_sort_long", "arr", []),
         Spec("misc.c", "partition_int", "quick_sort_int", "arr", []),
         Spec("misc.c", "partition_2d_float", "quick_sort_2d_float", "arr", [("brr", 2)]),
         Spec("misc.c", "partition_2d_double", "quick_sort_2d_double", "arr", [("brr", 2)]),
         Spec("utilities.c", "partition", "quick_sort", "arr", [("brr", 3), ("crr", 1)])]

def setup(sp, p, kind, nb):
    l, r = p.int("left", 0), p.int("right")
    p.pre(l <= r)
    lens = [(l, r + 1)]
    ptrs = [(n, t) for n, t in p.params if t[0] == "ptr"]
    # the key is the first pointer parameter; payloads follow in order
    if len(ptrs) != 1 + len(sp.pay): raise Unsupported("parameters of " + p.fn)
    sp.kname[kind] = ptrs[0][0]; sp.pname.setdefault(kind, {})
    key = p.array(ptrs[0][0], ptrs[0][1][1], lens); p.e.tagged.add(key.id)
    for (n, d), (pn, pt) in zip(sp.pay, ptrs[1:]):
        sp.pname[kind][n] = pn
        if d == 1: p.array(pn, pt[1], lens)
        else: p.array(pn, pt[1][1], [(0, nb), (l, r + 1)], nd=2) if d == 2 else p.array(pn, pt[1][1], [(l, r + 1), None], nd=2)
    if any(n == "band_num" for n, _ in p.params): p.set("band_num", nb)
    # tags start as the identity
    p.e.frames.append(ce.Frame("<spec>", p.u)); p.e.regtag(p.st, key); p.e.frames.pop()
    T = p.st.mem[(key.id, "#T")]
    p.e.facts.append(FA([k], T[k] == k, T[k]))
    return l, r

def value_facts(sp, kind, now, old, l, r, nb, T):
    """values sit where their tag says; tags are a permutation of the range (goals and invariants)"""
    inr = lambda x: z3.And(l <= x, x <= r)
    A, A0 = now(sp.kname[kind]), old(sp.kname[kind])
    out = [("the keys are the given keys", FA([k], z3.Implies(inr(k), z3.And(l <= T[k], T[k] <= r, A[k] == A0[T[k]])), T[k], A[k])),
           ("no key is used twice", FA([a, b], z3.Implies(z3.And(inr(a), inr(b), T[a] == T[b]), a == b), (T[a], T[b]))),
           ("keys outside the range stay", FA([k], z3.Implies(z3.Not(inr(k)), z3.And(T[k] == k, A[k] == A0[k])), A[k], T[k]))]
    for n, d in sp.pay:
        B, B0 = now(sp.pname[kind][n]), old(sp.pname[kind][n])
        if d == 2:
            for j in range(nb):
                out.append(("row %d of %s moves with its key" % (j, n), FA([k], B[j][k] == z3.If(inr(k), B0[j][T[k]], B0[j][k]), B[j][k])))
        elif d == 3:
            out.append(("%s moves with its key" % n, FA([k, a], B[k][a] == z3.If(inr(k), B0[T[k]][a], B0[k][a]), B[k][a])))
        else:
            out.append(("%s moves with its key" % n, FA([k], B[k] == z3.If(inr(k), B0[T[k]], B0[k]), B[k])))
    return out

def b_strcpy(e, st, args):
    """contents of one string become the contents of the other (as strings)"""
    d, s = args
    sv = e.arrv(st, s); e.note(d.reg, d.path)
    old = e.leaf(st, d.reg, d.path); full = e
    if len(d.idx) == 1: st.mem[(d.reg.id, d.path)] = sv
    else:
        e.check(st, ce.Ptr(d.reg, d.path, d.idx[:-1], d.ty), True)
        st.mem[(d.reg.id, d.path)] = z3.Store(old, zi(d.idx[0]), sv)
    return d

def whole(e, st, ptr): return e.leaf(st, ptr.reg, ptr.path)

def prove_partition(c, sp, u, nb):
    nm = sp.part + (" (%d bands)" % nb if any(x.get("name") == "band_num" for x in u.funcs[sp.part]["inner"]) else "")
    con = {"strcpy": b_strcpy}
    p = Proof(c, [u], sp.part, nm, contracts=con, houdini=False)
    l, r = setup(sp, p, "part", nb)
    e = p.e
    K = sp.kname["part"]
    def parts(L):
        A = L.arr(K); i, j, pv = L["i"], L["j"], L["pivot"]; return A, i, j, pv
    mid = ce.zi(ce.cdiv(l + r, 2))
    def perm(L):
        f = L.x["fn"]
        now = lambda n: whole(e, L.st, L.ptr(n)); old = lambda n: whole(e, f.st, p.vals[n])
        return value_facts(sp, "part", now, old, l, r, nb, L.tags(K))
    def sides(A, i, j, pv):
        return [("keys before i are at most the pivot", FA([k], z3.Implies(z3.And(l <= k, k < i), A[k] <= pv), A[k])),
                ("keys after j are at least the pivot", FA([k], z3.Implies(z3.And(j < k, k <= r), A[k] >= pv), A[k]))]
    def outer(L):
        A, i, j, pv = parts(L)
        return [("i and j stay in the range", z3.And(l <= i, i <= r + 1, l - 1 <= j, j <= r)),
                ("the pivot or a swapped pair bounds the scans", z3.Or(z3.And(i == l, j == r, A[mid] == pv), z3.And(i > l, j < r, z3.Implies(l < r, i <= r)))),
                ("i and j cross by at most one element", z3.Implies(i > j, i >= j + 1))] + sides(A, i, j, pv) + perm(L)
    def scan_i(L):
        A, i, j, pv = parts(L); E = L.x["entry"]; ei, ej = E["i"], E["j"]
        return [("i only advances within the range", z3.And(i >= ei, i <= r, z3.Implies(ej == r, i <= mid), z3.Implies(ej < r, z3.Or(i <= ej + 1))))] + sides(A, i, j, pv)[:1]
    def scan_j(L):
        A, i, j, pv = parts(L); E = L.x["entry"]; ei, ej = E["i"], E["j"]
        return [("j only retreats within the range", z3.And(j <= ej, j >= l, z3.Implies(ej == r, j >= mid)))] + sides(A, i, j, pv)[1:]
    e.inv = {(sp.part, 0): outer, (sp.part, 1): scan_i, (sp.part, 2): scan_j}
    # the midpoint lies in the range
    e.facts.append(z3.And(l <= mid, mid <= r)) if False else None
    p.pre(z3.BoolVal(True))
    i = zi(p.run())
    A = whole(e, p.st, p.vals[K])
    p.post("the returned split lies in the range", ret_range(l, r, i))
    p.post("keys before the split are at most those after it", FA([a, b], z3.Implies(z3.And(l <= a, a < i, i <= b, b <= r), A[a] <= A[b]), (A[a], A[b])))
    old = lambda n: whole(e, p.old, p.vals[n]); now = lambda n: whole(e, p.st, p.vals[n])
    e.regtag(p.st, p.vals[K].reg)
    for n, g in value_facts(sp, "part", now, old, l, r, nb, p.st.mem[(p.vals[K].reg.id, "#T")]): p.post(n, g)
    p.done(ms=20000)

def prove_sort(c, sp, u, nb):
    nm = sp.sort + (" (%d bands)" % nb if any(x.get("name") == "band_num" for x in u.funcs[sp.sort]["inner"]) else "")
    p = Proof(c, [u], sp.sort, nm, houdini=False)
    l, r = setup(sp, p, "sort", nb)
    # partition's own parameter names
    fn = u.funcs[sp.part]; ptrs = [x["name"] for x in fn["inner"] if x["kind"] == "ParmVarDecl" and u.type(x)[0] in ("ptr", "arr")]
    sp.kname["part"] = ptrs[0]; sp.pname["part"] = {n: q for (n, _), q in zip(sp.pay, ptrs[1:])}
    p.e.contracts[sp.part] = callee(sp, "part", nb)
    p.e.contracts[sp.sort] = callee(sp, "sort", nb, measure=(l, r))
    p.run(); e = p.e; K = sp.kname["sort"]
    A = whole(e, p.st, p.vals[K])
    p.post("the keys are in non-decreasing order", FA([a, b], z3.Implies(z3.And(l <= a, a <= b, b <= r), A[a] <= A[b]), (A[a], A[b])))
    old = lambda n: whole(e, p.old, p.vals[n]); now = lambda n: whole(e, p.st, p.vals[n])
    for n, g in value_facts(sp, "sort", now, old, l, r, nb, p.st.mem[(p.vals[K].reg.id, "#T")]): p.post(n, g)
    p.done(ms=20000)

def run(c):
    m = {}
    def load():
        m["utilities.c"] = ce.unit(c.repo, "utilities.c"); m["misc.c"] = ce.unit(c.repo, "misc.c")
    c.guard("clang", load)
    for sp in SPECS:
        sp.kname = {}; sp.pname = {}
        u = m.get(sp.file)
        if u is None: continue
        has_nb = sp.part in u.funcs and any(x.get("name") == "band_num" for x in u.funcs[sp.part]["inner"])
        nbs = range(0, 8) if has_nb else [7]
        if has_nb and c.tier == "quick": nbs = [0, 1, 7]
        for nb in nbs:
            c.guard("%s, %d bands" % (sp.part, nb), lambda: prove_partition(c, sp, u, nb))
            c.guard("%s, %d bands" % (sp.sort, nb), lambda: prove_sort(c, sp, u, nb))
    c.flush()
    c.assumptions += ["keys compared as mathematical integers / reals (no NaN keys)", "strcpy copies the whole string (buffers of MAX_STR_LEN do not overlap)",
                      "number of band rows enumerated: %s of 0..7 (TOTAL_IMAGE_BANDS), every value proved separately" % ("0, 1, 7" if c.tier == "quick" else "all")]
    c.oracle("o_sort.py")
