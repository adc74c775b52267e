"""P21: two-dimensional work arrays (2d_array.c), on a flat byte memory with exact machine
arithmetic (vc/flat.py)."""
import z3
from vc import ceng as ce, flat
from vc.ceng import parse_type, Unsupported, zi, FA
from vc.flat import Flat, Val, Pt, Blk, S
INT, SZ = ("int", 32, True), ("int", 64, False)
k = z3.Int("k")
LIMIT = (1 << 63) - 1
def hash_of(c, u, fn): c.track("2d_array.c:" + fn, u.hash_of(fn))
def machine(u, fn):
    f = Flat(u, fn)
    t = [parse_type(x["type"]["qualType"], u.td) for x in ce_walk(u.funcs[fn]) if x.get("kind") == "VarDecl" and x["type"]["qualType"].endswith("*")]
    t = [x for x in t if x[0] == "ptr" and x[1][0] == "rec"]
    if not t: raise Unsupported("no structure behind the array")
    f.rec = t[0][1]; f.memory_block = f.offset(f.rec, f.fields(f.rec)[-1][0]); f.memory_block = f.memory_block[0]
    return f
def ce_walk(n):
    yield n
    for y in n.get("inner", []) or []: yield from ce_walk(y)
def body(u, fn): return [x for x in u.funcs[fn]["inner"] if x["kind"] == "CompoundStmt"][0]
def params(u, fn): return [x["name"] for x in u.funcs[fn]["inner"] if x["kind"] == "ParmVarDecl"]

def allocate(c, u):
    fn = "allocate_2d_array"; f = machine(u, fn); R, C, M = params(u, fn); st = S(); r, co, m = z3.Ints("rows columns member_size")
    st.env = {R: Val(r, INT), C: Val(co, INT), M: Val(m, SZ)}
    lo, hi = flat.rng(INT); st.pc = [z3.And(r >= lo, r <= hi), z3.And(co >= lo, co <= hi), z3.And(m >= 1, m < 1 << 64)]
    K = co * m; base = f.memory_block
    total = r * K
    # arithmetic lemmas, proved on their own and used as facts
    x, y, z_ = z3.Ints("x y z"); L = []
    g = {}
    def inv(f_, s):
        """row pointers so far; the counter, running pointers and running offsets move in step"""
        g = s.env["#g"]; e = g["entry"]; q = s.env[g["cnt"]].v; blk = g["blk"]; D = g["data"]; out = [("counter in range", z3.And(q >= 0, z3.Implies(r >= 0, q <= r), z3.Implies(r < 0, q == 0)))]
        out.append(("row pointers so far", FA([k], z3.Implies(z3.And(0 <= k, k < q), s.words[blk][g["tab"] + 8 * k] == D + k * K), s.words[blk][g["tab"] + 8 * k])))
        for nm, v in e.items():
            if nm == g["cnt"]: continue
            stride = 8 if isinstance(v, Pt) and f.size(v.t[1]) == 8 else K
            a, b = (v.off, s.env[nm].off) if isinstance(v, Pt) else (v.v, s.env[nm].v)
            out.append(("%s moves row by row" % nm, zi(b) == zi(a) + q * stride))
        return out
    def loopinv(f_, s):
        if "#g" not in s.env:
            g = s.env["#g"] = {}
            loops = [x for x in ce_walk(u.funcs[fn]) if x.get("kind") in ("ForStmt", "WhileStmt", "DoStmt")]
            if len(loops) != 1: raise Unsupported("one loop expected")
            w = flat.written(loops[0]); g["entry"] = {q: s.env[q] for q in w if q in s.env}
            cnt = [q for q, v in g["entry"].items() if isinstance(v, Val) and isinstance(v.v, int) and v.v == 0 and v.t == INT] or [q for q, v in g["entry"].items() if isinstance(v, Val) and isinstance(v.v, int) and v.v == 0]
            if not cnt: raise Unsupported("no counter from zero")
            g["cnt"] = cnt[0]; blk = list(s.words)[0]; g["blk"] = blk
            h = lambda o: s.hdr.get((blk, o))
            offs = {n: f.offset(f.rec, n)[0] for n, _ in f.fields(f.rec)}
            g["tab"] = base; ptrs = [v for (b, o), v in s.hdr.items() if isinstance(v, Pt) and not z3.eq(z3.simplify(zi(v.off)), z3.IntVal(base))]
            cand = ptrs or [v for v in g["entry"].values() if isinstance(v, Pt)]
            if not cand: raise Unsupported("no data pointer")
            g["data"] = zi(cand[0].off); g["S"] = cand[0].blk.size
        # at the entry the entry values are those of the state
        return inv(f_, s)
    f.inv = loopinv
    # products that occur: each an instance of a lemma
    lem = [("lemma: a product of two ints stays below 2^62", [z3.And(x >= 0, x < 1 << 31, y >= 0, y < 1 << 31)], z3.And(x * y >= 0, x * y < 1 << 62)),
           ("lemma: a row inside leaves room for one more", [z3.And(0 <= x, x < y, z_ >= 0)], z3.And(x * z_ >= 0, x * z_ + z_ <= y * z_)),
           ("lemma: a quotient bounds the product", [z3.And(y > 0, x >= 0, z_ >= 0, z_ <= x / y)], z3.And(y * z_ <= x, y * z_ >= 0)),
           ("lemma: and is necessary", [z3.And(y > 0, x >= 0, z_ > x / y)], y * z_ > x)]
    outs = f.seq(st, body(u, fn)["inner"])
    n_ok = n_null = 0
    for s, o in outs:
        if o is None: raise Unsupported("no return")
        v = o[1]
        if not isinstance(v, Pt): raise Unsupported("no pointer returned")
        if v.blk is None:
            n_null += 1; mal = s.env.get("#malloc")
            if mal is None: f.oblige(s, "null without asking for memory: only a negative number or a total beyond the address space", z3.Or(r < 0, co < 0, z3.If(r > 0, total, K) > LIMIT // 4))
            else: f.oblige(s, "null: the memory was refused", not mal[0])
            f.oblige(s, "null: nothing is left allocated", not [b for b in s.words if b not in s.freed]); continue
        n_ok += 1; b = v.blk; W = s.words[b.name]; q, q2, j = z3.Ints("q q2 j"); row = lambda i: W[zi(v.off) + 8 * i]; Sz = zi(b.size); D = s.env["#g"]["data"]
        P = lambda nm, goal: f.oblige(s, nm, goal)
        P("an array is returned only for a possible request", z3.And(r >= 0, co >= 0))
        P("the table of rows follows the header", zi(v.off) == base)
        inr = z3.And(0 <= q, q < r)
        P("rows are one after another", z3.Implies(inr, row(q) == D + q * K))
        P("the data lies behind the table of rows", D >= base + 8 * r)
        P("all rows lie inside the block", z3.Implies(inr, z3.And(row(q) >= base + 8 * r, row(q) + K <= Sz)))
        P("rows do not overlap", z3.Implies(z3.And(0 <= q, q < q2, q2 < r), row(q) + K <= row(q2)))
        P("the first row is aligned for every element type", D % 16 == 0)
        for a in (1, 2, 4, 8): P("rows of %d-byte elements are aligned" % a, z3.Implies(z3.And(inr, m == a), row(q) % a == 0))
        P("the block is not freed", b.name not in s.freed)
        offs = {n: f.offset(f.rec, n)[0] for n, _ in f.fields(f.rec)}
        for nm, w in (("rows", r), ("columns", co)):
            hv = s.hdr.get((b.name, offs.get(nm)))
            if hv is not None: P("the recorded %s are the requested ones" % nm, zi(hv.v) == w)
        sg = s.hdr.get((b.name, offs.get("signature"))); P("the block is signed", sg is not None)
        if sg is not None: g["sig"] = sg.v
    if not n_ok or not n_null: raise Unsupported("a result is not reached")
    # lemma instances for the terms at hand
    facts = []
    cl = z3.Int("lim")
    c.cover_ok = True
    obls = []
    for nm, asm, goal, info, kind in f.obls:
        cnt = {str(t): t for t in sub_ints([*asm, goal])}
        inst = []
        for t in cnt.values():
            if t.eq(r) or t.eq(co) or t.eq(m) : continue
            inst += [z3.Implies(z3.And(0 <= t, t < r, K >= 0), z3.And(t * K >= 0, t * K + K <= r * K)), z3.Implies(z3.And(0 <= t, t < r, co >= 0), z3.And(t * co >= 0, t * co + co <= r * co))]
        qs = [z3.Int("q"), z3.Int("q2")]
        inst += [z3.Implies(z3.And(0 <= qs[0], qs[0] < qs[1], K >= 0), qs[0] * K + K <= qs[1] * K)]
        inst += [z3.Implies(z3.And(r >= 0, co >= 0, r < 1 << 31, co < 1 << 31), z3.And(r * co >= 0, r * co < 1 << 62)), z3.Implies(z3.And(co >= 0, m >= 0), K >= 0), z3.Implies(z3.And(r >= 0, K >= 0), z3.And(r * K >= 0, z3.Implies(r >= 1, K <= r * K)))]
        for d in divs([*asm, goal]):
            num, den = d.arg(0), d.arg(1)
            for z0 in (co, m, r, K):
                if den.eq(z0): continue
                inst += [z3.Implies(z3.And(den > 0, num >= 0, z0 >= 0, z0 <= d), den * z0 <= num), z3.Implies(z3.And(den > 0, num >= 0, z0 > d), den * z0 > num)]
        obls.append((nm, asm + inst, goal, info, kind))
    c.defer([("allocate_2d_array: " + n_, a, g_, None, "lemma") for n_, a, g_ in lem] + obls, "allocate_2d_array (2d_array.c)"); c.covers += n_ok + n_null; hash_of(c, u, fn)
    return g.get("sig")

def sub_ints(ts):
    out, seen = [], set()
    def go(t):
        if t.get_id() in seen: return
        seen.add(t.get_id())
        if z3.is_quantifier(t): go(t.body()); return
        if z3.is_const(t) and z3.is_int(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(t)
        for x in t.children(): go(x)
    for t in ts: go(t)
    return out
def divs(ts):
    out, seen = [], set()
    def go(t):
        if t.get_id() in seen or z3.is_quantifier(t): return
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_IDIV: out.append(t)
        for x in t.children(): go(x)
    for t in ts: go(t)
    return out

def release(c, u, sig):
    fn = "free_2d_array"; A, = params(u, fn); n = 0
    for case in ("array", "null", "other"):
        f = machine(u, fn); f.fn = fn + " (%s)" % {"array": "a pointer allocate_2d_array returned", "null": "null", "other": "a block that is none"}[case]; st = S()
        b = Blk("block1", z3.Int("size")); st.pc = [b.size >= f.size(f.rec)]
        st.env[A] = Pt(None, 0, ("ptr", ("ptr", ("void",)))) if case == "null" else Pt(b, f.memory_block, ("ptr", ("ptr", ("void",))))
        st.words[b.name] = z3.Const("words", z3.ArraySort(z3.IntSort(), z3.IntSort()))
        for nm, t in f.fields(f.rec):
            o = f.offset(f.rec, nm)[0]
            if t[0] == "int": st.hdr[(b.name, o)] = Val(z3.Int("h_" + nm), t); lo, hi = flat.rng(t); st.pc.append(z3.And(st.hdr[(b.name, o)].v >= lo, st.hdr[(b.name, o)].v <= hi))
        sg = st.hdr[(b.name, f.offset(f.rec, "signature")[0])].v; st.pc.append(sg == sig if case == "array" else sg != sig)
        for s, o in f.seq(st, body(u, fn)["inner"]):
            n += 1; v = zi(o[1].v); P = lambda nm, g: f.oblige(s, nm, g)
            if case == "array": P("the whole block is released", b.name in s.freed); P("success", v == 0)
            else: P("nothing is released", b.name not in s.freed); P("success" if case == "null" else "it is reported", v == 0 if case == "null" else v != 0)
        c.defer(f.obls, f.fn); c.covers += 1
    hash_of(c, u, fn)

def run(c):
    m = {}
    c.guard("clang", lambda: m.update(u=ce.unit(c.repo, "2d_array.c")))
    c.guard("allocate_2d_array", lambda: m.update(sig=allocate(c, m["u"])))
    c.guard("free_2d_array", lambda: release(c, m["u"], m["sig"]))
    c.flush()
    c.assumptions += ["x86-64 layout; malloc returns null or a fresh block of the requested size aligned to 16 bytes; its pointers are aligned blocks that only this code writes"]
    c.oracle("o_array.py")
