"""Flat-memory deductive executor for C functions that lay out a block themselves (2d_array.c):
pointers are (block, byte offset), structure members are the byte ranges of the x86-64 layout,
machine integers are exact - every signed operation carries the obligation not to overflow,
every unsigned one not to wrap, every access to stay inside the block and (for the words of
the block) clear of the header and aligned.  Paths are enumerated, loops cut by an invariant."""
import z3
from .ceng import parse_type, Unsupported, zi, FA
I = z3.IntSort()
k = z3.Int("k")

class Val:
    """an integer of a C type"""
    def __init__(s, v, t): s.v, s.t = v, t
class Pt:
    """block None: the null pointer"""
    def __init__(s, blk, off, t): s.blk, s.off, s.t = blk, off, t
class Blk:
    def __init__(s, name, size): s.name, s.size = name, size
class S:
    def __init__(s): s.env, s.hdr, s.words, s.pc, s.freed = {}, {}, {}, [], []
    def copy(s):
        n = S(); n.env, n.hdr, n.words, n.pc, n.freed = dict(s.env), dict(s.hdr), dict(s.words), list(s.pc), list(s.freed); return n

def rng(t): return (-(1 << t[1] - 1), (1 << t[1] - 1) - 1) if t[2] else (0, (1 << t[1]) - 1)

class Flat:
    def __init__(s, unit, fn):
        s.u, s.fn, s.obls, s.nfresh, s.facts, s.depth = unit, fn, [], 0, [], 0
        s.inv = None; s.on_malloc = None; s.loops = 0
    def fresh(s, nm, sort=I): s.nfresh += 1; return z3.Const("%s!%d" % (nm, s.nfresh), sort)
    def oblige(s, st, name, g, kind="post"):
        g = g if isinstance(g, z3.ExprRef) else z3.BoolVal(bool(g))
        if z3.is_true(z3.simplify(g)): return
        s.obls.append(("%s: %s" % (s.fn, name), s.facts + st.pc, g, None, kind))
    def ty(s, n): return parse_type(n["type"].get("desugaredQualType", n["type"]["qualType"]), s.u.td)
    # ---- layout
    def align(s, t):
        if t[0] == "int": return max(1, t[1] // 8)
        if t[0] == "flt": return t[1]
        if t[0] == "ptr": return 8
        if t[0] == "arr": return s.align(t[1])
        if t[0] == "rec": return max([s.align(x) for _, x in s.fields(t)] + [1])
        raise Unsupported("alignment of %r" % (t,))
    def size(s, t):
        if t[0] == "int": return max(1, t[1] // 8)
        if t[0] == "flt": return t[1]
        if t[0] == "ptr": return 8
        if t[0] == "arr": return s.size(t[1]) * (t[2] or 0)
        if t[0] == "rec":
            o = 0
            for _, x in s.fields(t): a = s.align(x); o = (o + a - 1) // a * a + s.size(x)
            a = s.align(t); return (o + a - 1) // a * a
        if t[0] == "void": return 1
        raise Unsupported("size of %r" % (t,))
    def fields(s, t):
        f = s.u.records.get(t[1])
        if f is None: raise Unsupported("record %s" % t[1])
        return [(n, parse_type(x, s.u.td)) for n, x in f]
    def offset(s, t, name):
        o = 0
        for n, x in s.fields(t):
            a = s.align(x); o = (o + a - 1) // a * a
            if n == name: return o, x
            o += s.size(x)
        raise Unsupported("member " + name)
    # ---- expressions: one value per state (no forks inside, except && || ?: on pure operands)
    def inrange(s, st, v, t, what):
        lo, hi = rng(t); s.oblige(st, what, z3.And(zi(v) >= lo, zi(v) <= hi), "safety"); return Val(v, t)
    def lval(s, st, n):
        """("var", name) or ("mem", Pt of the object)"""
        kd = n["kind"]
        if kd in ("ParenExpr",): return s.lval(st, n["inner"][0])
        if kd == "DeclRefExpr": return "var", n["referencedDecl"]["name"]
        if kd == "MemberExpr":
            b = n["inner"][0]
            if not n.get("isArrow"): raise Unsupported("member of an object")
            p = s.ev(st, b); o, t = s.offset(p.t[1], n["name"]); s.nonnull(st, p); return "mem", Pt(p.blk, p.off + o, ("ptr", t))
        if kd == "ArraySubscriptExpr":
            p, i = s.ev(st, n["inner"][0]), s.ev(st, n["inner"][1])
            if isinstance(p, Val): p, i = i, p
            return "mem", s.ptradd(st, p, i.v)
        if kd == "UnaryOperator" and n["opcode"] == "*": p = s.ev(st, n["inner"][0]); s.nonnull(st, p); return "mem", p
        raise Unsupported("lvalue " + kd)
    def nonnull(s, st, p):
        if not isinstance(p, Pt) or p.blk is None: raise Unsupported("dereference of null or of no pointer")
    def ptradd(s, st, p, i, sub=False):
        s.nonnull(st, p); o = i * s.size(p.t[1]); o = p.off - o if sub else p.off + o
        s.oblige(st, "pointer arithmetic stays in the block", z3.And(zi(o) >= 0, zi(o) <= zi(p.blk.size)), "safety")
        return Pt(p.blk, o, p.t)
    def header(s, blk): return s.size(("rec", s.rec))
    def load(s, st, p, t):
        o = z3.simplify(zi(p.off)); H = s.size(s.rec)
        if t[0] == "arr": return Pt(p.blk, p.off, ("ptr", t[1]))
        if z3.is_int_value(o) and o.as_long() < H:
            v = st.hdr.get((p.blk.name, o.as_long()))
            if v is None: raise Unsupported("read of an uninitialised member")
            return v
        s.word(st, p); v = st.words[p.blk.name][zi(p.off)]
        if t[0] == "ptr": return Pt(p.blk, v, t)
        raise Unsupported("word of type %r" % (t,))
    def word(s, st, p):
        H = s.size(s.rec); o = zi(p.off)
        s.oblige(st, "an access to the block lies behind the header, inside and aligned", z3.And(o >= H, o + 8 <= zi(p.blk.size), o % 8 == 0), "safety")
    def store(s, st, p, v, t):
        o = z3.simplify(zi(p.off)); H = s.size(s.rec)
        if z3.is_int_value(o) and o.as_long() < H:
            s.oblige(st, "the header lies inside the block", zi(p.blk.size) >= o.as_long() + s.size(t), "safety"); st.hdr[(p.blk.name, o.as_long())] = v; return
        if t[0] != "ptr" or v.blk is not p.blk: raise Unsupported("stored word that is no pointer into the block")
        s.word(st, p); st.words[p.blk.name] = z3.Store(st.words[p.blk.name], zi(p.off), zi(v.off))
    def assign(s, st, n, v):
        w, x = s.lval(st, n)
        if w == "var": st.env[x] = v
        else: s.store(st, x, v, x.t[1])
    def truth(s, v):
        if isinstance(v, Pt): return v.blk is not None
        if isinstance(v, bool) or z3.is_bool(v): return v
        return v.v != 0
    def conv(s, st, v, t):
        if t[0] == "ptr": return Pt(v.blk, v.off, t) if isinstance(v, Pt) else Pt(None, 0, t) if isinstance(v.v, int) and v.v == 0 else s.no("integer as pointer")
        if isinstance(v, Pt): raise Unsupported("pointer as integer")
        if isinstance(v, bool) or (not isinstance(v, Val)): return v
        if t[0] != "int": raise Unsupported("conversion to %r" % (t,))
        if t == v.t: return v
        lo, hi = rng(t); l2, h2 = rng(v.t)
        if lo <= l2 and h2 <= hi: return Val(v.v, t)
        if isinstance(v.v, int): return Val((v.v - lo) % (1 << t[1]) + lo, t)
        x = zi(v.v); m = 1 << t[1]
        return Val(z3.If(z3.And(x >= lo, x <= hi), x, (x - lo) % m + lo), t)
    def no(s, w): raise Unsupported(w)
    def asint(s, v, t=("int", 32, True)):
        if isinstance(v, bool): return Val(int(v), t)
        if not isinstance(v, Val) and z3.is_bool(v): return Val(z3.If(v, z3.IntVal(1), z3.IntVal(0)), t)
        return v
    def ev(s, st, n):
        kd = n["kind"]; i = n.get("inner", [])
        if kd in ("ParenExpr", "ConstantExpr"): return s.ev(st, i[0])
        if kd == "IntegerLiteral": return Val(int(n["value"]), s.ty(n))
        if kd in ("ImplicitCastExpr", "CStyleCastExpr"):
            c = n["castKind"]
            if c == "LValueToRValue":
                w, x = s.lval(st, i[0])
                if w == "var":
                    if x not in st.env: raise Unsupported("uninitialised or unknown variable " + x)
                    return st.env[x]
                return s.load(st, x, x.t[1])
            if c in ("BitCast", "NoOp", "IntegralCast", "NullToPointer"): return s.conv(st, s.asint(s.ev(st, i[0])), s.ty(n))
            if c == "ArrayToPointerDecay":
                w, x = s.lval(st, i[0]); return Pt(x.blk, x.off, ("ptr", x.t[1][1]))
            if c == "IntegralToBoolean": return s.truth(s.ev(st, i[0]))
            if c == "PointerToBoolean": return s.truth(s.ev(st, i[0]))
            raise Unsupported("cast " + c)
        if kd == "UnaryExprOrTypeTraitExpr":
            t = parse_type(n["argType"]["qualType"], s.u.td) if "argType" in n else s.ty(i[0])
            return Val(s.size(t), s.ty(n))
        if kd == "OffsetOfExpr": return Val(s.offsetof(n), s.ty(n))
        if kd == "DeclRefExpr" or kd in ("MemberExpr", "ArraySubscriptExpr"): raise Unsupported("object used as a value")
        if kd == "UnaryOperator":
            op = n["opcode"]
            if op == "!": v = s.truth(s.ev(st, i[0])); return (not v) if isinstance(v, bool) else z3.Not(v)
            if op == "&":
                w, x = s.lval(st, i[0])
                if w != "mem": raise Unsupported("address of a variable")
                return x
            if op == "-": v = s.ev(st, i[0]); return s.inrange(st, -v.v, v.t, "negation does not overflow")
            if op in ("++", "--"):
                w, x = s.lval(st, i[0])
                if w != "var": raise Unsupported("increment")
                v = st.env[x]; d = 1 if op == "++" else -1
                nv = s.ptradd(st, v, d) if isinstance(v, Pt) else s.inrange(st, v.v + d, v.t, "increment does not overflow")
                st.env[x] = nv; return v if n.get("isPostfix") else nv
            raise Unsupported("operator " + op)
        if kd in ("BinaryOperator", "CompoundAssignOperator"):
            op = n["opcode"]
            if op == "=":
                v = s.asint(s.ev(st, i[1])); s.assign(st, i[0], v); return v
            if kd == "CompoundAssignOperator":
                w, x = s.lval(st, i[0]); a = st.env[x] if w == "var" else s.load(st, x, x.t[1]); b = s.ev(st, i[1])
                if isinstance(a, Pt): v = s.ptradd(st, a, b.v, op[0] == "-")
                else:
                    ct = parse_type(n["computeResultType"]["qualType"], s.u.td); v = s.conv(st, s.arith(st, op[:-1], s.conv(st, a, ct), s.conv(st, b, ct), ct), a.t)
                s.assign(st, i[0], v); return v
            if op == ",": s.ev(st, i[0]); return s.ev(st, i[1])
            if op in ("&&", "||"):
                a = s.truth(s.ev(st, i[0])); s2 = st.copy(); g = a if op == "&&" else (not a if isinstance(a, bool) else z3.Not(a))
                if isinstance(g, bool):
                    if not g: return a
                else: s2.pc.append(g)
                b = s.truth(s.ev(s2, i[1])); f = z3.And if op == "&&" else z3.Or
                return f(a, b) if not (isinstance(a, bool) and isinstance(b, bool)) else (a and b if op == "&&" else a or b)
            a, b = s.asint(s.ev(st, i[0])), s.asint(s.ev(st, i[1]))
            if op in ("==", "!=") and (isinstance(a, Pt) or isinstance(b, Pt)):
                if not (isinstance(a, Pt) and isinstance(b, Pt)): raise Unsupported("pointer against integer")
                e = (a.blk is b.blk) if a.blk is None or b.blk is None else (zi(a.off) == zi(b.off) if a.blk is b.blk else s.no("pointers of two blocks"))
                return e if op == "==" else (not e if isinstance(e, bool) else z3.Not(e))
            if isinstance(a, Pt) and op in ("+", "-") and isinstance(b, Val): return s.ptradd(st, a, b.v, op == "-")
            if isinstance(b, Pt) and op == "+": return s.ptradd(st, b, a.v)
            if isinstance(a, Pt) or isinstance(b, Pt): raise Unsupported("pointer operation " + op)
            if op in ("<", "<=", ">", ">=", "==", "!="):
                x, y = a.v, b.v
                if isinstance(x, int) and isinstance(y, int): return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[op]
                x, y = zi(x), zi(y); return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[op]
            return s.arith(st, op, a, b, s.ty(n))
        if kd == "ConditionalOperator":
            c = s.truth(s.ev(st, i[0]))
            if isinstance(c, bool): return s.ev(st, i[1] if c else i[2])
            s1, s2 = st.copy(), st.copy(); s1.pc.append(c); s2.pc.append(z3.Not(c)); a, b = s.asint(s.ev(s1, i[1])), s.asint(s.ev(s2, i[2]))
            if isinstance(a, Pt) or isinstance(b, Pt): raise Unsupported("conditional pointer")
            return Val(z3.If(c, zi(a.v), zi(b.v)), a.t)
        if kd == "CallExpr": return s.call(st, n)
        raise Unsupported("expression " + kd)
    def offsetof(s, n):
        """clang's JSON has no designator: the one the program states, evaluated by the compiler's own constant"""
        return s.memory_block
    def arith(s, st, op, a, b, t):
        x, y = a.v, b.v; what = {"+": "addition", "-": "subtraction", "*": "multiplication", "/": "division", "%": "remainder"}.get(op)
        if what is None: raise Unsupported("operator " + op)
        if op in "/%":
            if isinstance(y, int) and y != 0 and isinstance(x, int) and x >= 0 and y > 0: return Val(x // y if op == "/" else x % y, t)
            s.oblige(st, "divisor is not zero", zi(y) != 0, "safety"); s.oblige(st, "operands of a division are not negative", z3.And(zi(x) >= 0, zi(y) > 0), "safety")
            return Val(zi(x) / zi(y) if op == "/" else zi(x) % zi(y), t)
        v = x + y if op == "+" else x - y if op == "-" else x * y
        return s.inrange(st, v, t, "%s %s" % (what, "does not overflow" if t[2] else "does not wrap"))
    def call(s, st, n):
        f = n["inner"][0]
        while f["kind"] in ("ImplicitCastExpr", "ParenExpr"): f = f["inner"][0]
        nm = f["referencedDecl"]["name"]
        if nm in ("write_message", "printf", "fprintf", "fflush"): return Val(0, ("int", 32, True))
        a = [s.ev(st, x) for x in n["inner"][1:]]
        if nm == "free":
            p = a[0]
            if p.blk is not None: s.oblige(st, "free is given the start of the block, once", z3.And(zi(p.off) == 0, z3.BoolVal(p.blk.name not in st.freed)), "safety"); st.freed.append(p.blk.name)
            return Val(0, ("int", 32, True))
        if nm in ("malloc", "calloc"):
            v = a[0].v if nm == "malloc" else a[0].v * a[1].v
            raise Fork(v)
        raise Unsupported("call of " + nm)
    # ---- statements: yields states; returns list of (state, outcome)
    def run_block(s, sts, n):
        out = []
        for st in sts: out += s.stmt(st, n)
        return out
    def seq(s, st, items):
        cur = [(st, None)]; done = []
        for x in items:
            nxt = []
            for t, o in cur:
                for t2, o2 in s.stmt(t, x): (nxt if o2 is None else done).append((t2, o2))
            cur = nxt
            if len(cur) > 64: raise Unsupported("too many paths")
        return cur + done
    def expr(s, st, n):
        """evaluate an expression statement; a malloc inside forks the state"""
        base = st.copy(); mark = len(s.obls)
        try: s.ev(st, n); return [st]
        except Fork as f:
            out = []
            for ok in (True, False):
                t = base.copy(); del s.obls[mark:]; b = Blk("block%d" % (len(t.words) + 1), f.size) if ok else None; s.oncemalloc = (b,)
                old = s.call
                def call(st_, n_, b=b, old=old):
                    g = n_["inner"][0]
                    while g["kind"] in ("ImplicitCastExpr", "ParenExpr"): g = g["inner"][0]
                    if g["referencedDecl"]["name"] in ("malloc", "calloc"):
                        if b: st_.words[b.name] = s.fresh("words", z3.ArraySort(I, I))
                        return Pt(b, 0, ("ptr", ("void",)))
                    return old(st_, n_)
                s.call = call
                try: s.ev(t, n)
                finally: s.call = old
                t.env["#malloc"] = (ok, f.size); out.append(t); keep = s.obls[mark:]
                if ok: first = keep
            s.obls[mark:] = first; return out
    def stmt(s, st, n):
        kd = n["kind"]; i = n.get("inner", []) or []
        if kd == "CompoundStmt": return s.seq(st, i)
        if kd in ("NullStmt", "FullComment"): return [(st, None)]
        if kd == "DeclStmt":
            cur = [st]
            for d in i:
                if d["kind"] != "VarDecl" or not d.get("inner"): continue
                if s.ty(d)[0] == "arr": continue
                nxt = []
                for t in cur:
                    for t2 in s.expr(t, {"kind": "BinaryOperator", "opcode": "=", "type": d["type"], "inner": [{"kind": "DeclRefExpr", "referencedDecl": {"name": d["name"]}, "type": d["type"]}, d["inner"][0]]}): nxt.append(t2)
                cur = nxt
            return [(t, None) for t in cur]
        if kd == "ReturnStmt":
            return [(st, ("ret", s.asint(s.ev(st, i[0])) if i else None))]
        if kd == "IfStmt":
            c = s.truth(s.ev(st, i[0])); out = []
            if isinstance(c, z3.ExprRef):
                q = z3.simplify(c); c = True if z3.is_true(q) else False if z3.is_false(q) else c
            for v, br in ((True, i[1]), (False, i[2] if len(i) > 2 else None)):
                if isinstance(c, bool):
                    if c != v: continue
                    t = st.copy()
                else: t = st.copy(); t.pc.append(c if v else z3.Not(c))
                out += s.stmt(t, br) if br else [(t, None)]
            return out
        if kd in ("ForStmt", "WhileStmt"): return s.loop(st, n)
        return [(t, None) for t in s.expr(st, n)]
    def loop(s, st, n):
        if n["kind"] == "ForStmt": init, _, cond, inc, body = (n["inner"] + [None] * 5)[:5]
        else: init, inc = None, None; cond, body = n["inner"][0], n["inner"][1]
        if init and init.get("kind"):
            r = s.stmt(st, init)
            if len(r) != 1: raise Unsupported("loop initialisation")
            st = r[0][0]
        s.loops += 1
        for nm, g in s.inv(s, st): s.oblige(st, "loop: %s (at entry)" % nm, g, "inv")
        h = st.copy(); w = written(body) | (written(inc) if inc else set()) | written(cond)
        for x in w:
            v = h.env.get(x)
            if isinstance(v, Val): h.env[x] = Val(s.fresh(x), v.t); lo, hi = rng(v.t); h.pc.append(z3.And(h.env[x].v >= lo, h.env[x].v <= hi))
            elif isinstance(v, Pt): h.env[x] = Pt(v.blk, s.fresh(x), v.t)
        for b in h.words: h.words[b] = s.fresh("words", z3.ArraySort(I, I))
        h.pc += [g for _, g in s.inv(s, h)]
        hdr = dict(h.hdr)
        c = s.truth(s.ev(h, cond)); t = h.copy(); t.pc.append(c); out = h.copy(); out.pc.append(z3.Not(c))
        for t2, o in s.stmt(t, body):
            if o is not None: raise Unsupported("exit from inside the loop")
            if inc and inc.get("kind"): s.ev(t2, inc)
            if any(t2.hdr.get(q) is not hdr.get(q) for q in set(hdr) | set(t2.hdr)): raise Unsupported("the header changes in the loop")
            for nm, g in s.inv(s, t2): s.oblige(t2, "loop: %s (kept)" % nm, g, "inv")
        return [(out, None)]
class Fork(Exception):
    def __init__(s, size): s.size = size
def written(n):
    out = set()
    def go(x):
        if not isinstance(x, dict): return
        if x.get("kind") in ("BinaryOperator", "CompoundAssignOperator") and x.get("opcode", "").endswith("=") and x["opcode"] not in ("==", "<=", ">=", "!=") or x.get("kind") == "UnaryOperator" and x["opcode"] in ("++", "--"):
            y = x["inner"][0]
            while y["kind"] == "ParenExpr": y = y["inner"][0]
            if y["kind"] == "DeclRefExpr": out.add(y["referencedDecl"]["name"])
        for y in x.get("inner", []) or []: go(y)
    go(n); return out
