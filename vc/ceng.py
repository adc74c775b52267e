"""Deductive engine for C functions: clang's AST of /repo's current source is executed
symbolically with path merging; loops are cut with invariants, callees are inlined or used by
contract, floats are mathematical reals and ints mathematical integers (narrowing
conversions wrap).  Every postcondition, invariant, bound and callee precondition becomes an
obligation (name, assumptions, goal, info, kind) for vc.solve."""
import os, re, json, subprocess, hashlib
from fractions import Fraction
import z3
from .pysym import Unsupported

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
PI = Fraction("3.14159265358979323846")     # every literal within 1e-14 of pi stands for it
INTW = {"char": (8, True), "signed char": (8, True), "unsigned char": (8, False), "short": (16, True), "unsigned short": (16, False),
        "int": (32, True), "unsigned int": (32, False), "unsigned": (32, False), "long": (64, True), "unsigned long": (64, False),
        "long long": (64, True), "unsigned long long": (64, False), "_Bool": (1, False), "bool": (1, False), "short int": (16, True), "long int": (64, True),
        "uint8_t": (8, False), "int16_t": (16, True), "int8_t": (8, True), "uint16_t": (16, False), "int32_t": (32, True), "uint32_t": (32, False), "int64_t": (64, True), "uint64_t": (64, False), "size_t": (64, False)}
FLT = {"float": 4, "double": 8, "long double": 16}

# ------------------------------------------------------------------ types
class T:
    """('int', bits, signed) ('flt', bytes) ('ptr', T) ('arr', T, n) ('rec', name) ('void',) ('fun',)"""
def parse_type(s, td):
    s = s.strip()
    s = re.sub(r"\b(const|volatile|restrict|__restrict|struct|static|extern|enum)\b", " ", s); s = re.sub(r"\s+", " ", s).strip()
    if "(*" in s and not re.search(r"\(\*+\)\s*\[", s): return ("ptr", ("fun",))
    m = re.match(r"^(.*?)\(\*\)\s*((\[[^\]]*\])+)$", s)
    if m:
        t = parse_type(m.group(1), td)
        for d in reversed(re.findall(r"\[([^\]]*)\]", m.group(2))): t = ("arr", t, int(d) if d.isdigit() else None)
        return ("ptr", t)
    if s.endswith("]"):
        i = s.index("[")
        t = parse_type(s[:i], td)
        for d in reversed(re.findall(r"\[([^\]]*)\]", s[i:])): t = ("arr", t, int(d) if d.isdigit() else None)
        return t
    if s.endswith("*"): return ("ptr", parse_type(s[:-1], td))
    if s.endswith(")"): return ("fun",)
    if s in INTW: return ("int",) + INTW[s]
    if s in FLT: return ("flt", FLT[s])
    if s == "void": return ("void",)
    if s in td and td[s] != s: return parse_type(td[s], td)
    return ("rec", s)

class CUnit:
    """clang's AST of one C file of /repo"""
    cache = {}
    def __init__(self, repo, rel, extra=()):
        self.path = os.path.join(repo, "src/cxx", rel); self.rel = rel
        r = subprocess.run(["clang-18", "-fsyntax-only", "-w", "-I" + os.path.join(repo, "src/cxx"), "-Xclang", "-ast-dump=json"] + list(extra) + [self.path], capture_output=True, text=True)
        if r.returncode: raise Unsupported("clang: " + r.stderr[-300:])
        tu = json.loads(r.stdout)
        self.funcs, self.records, self.td, self.enums, self.globals = {}, {}, {}, {}, {}; self.reads = {}
        last = None
        for n in tu["inner"]:
            k = n.get("kind")
            if k == "FunctionDecl":
                if any(x.get("kind") == "CompoundStmt" for x in n.get("inner", [])): self.funcs[n["name"]] = n
            elif k == "RecordDecl":
                f = [(x["name"], x["type"].get("desugaredQualType", x["type"]["qualType"])) for x in n.get("inner", []) if x.get("kind") == "FieldDecl"]
                if f: last = (n.get("id"), f); self.records[n.get("name") or n["id"]] = f; self.records[n["id"]] = f
            elif k == "TypedefDecl":
                q = n["type"].get("desugaredQualType", n["type"]["qualType"]); self.td[n["name"]] = q
                # typedef struct {...} Name;
                def own(x):
                    if "ownedTagDecl" in x: return x["ownedTagDecl"]["id"]
                    if x.get("kind") == "RecordType" and "decl" in x: return x["decl"]["id"]
                    for y in x.get("inner", []):
                        o = own(y)
                        if o: return o
                o = own(n)
                if o in self.records: self.records[n["name"]] = self.records[o]; self.td[n["name"]] = n["name"]
            elif k == "VarDecl": self.globals[n["name"]] = n
            elif k == "EnumDecl":
                v = -1
                if n.get("name"): self.td[n["name"]] = "int"
                for x in n.get("inner", []):
                    if x["kind"] != "EnumConstantDecl": continue
                    ini = [y for y in x.get("inner", []) if y["kind"] in ("ConstantExpr", "ImplicitCastExpr", "IntegerLiteral")]
                    while ini and "value" not in ini[0]: ini = ini[0].get("inner", [])
                    v = int(ini[0]["value"]) if ini else v + 1
                    self.enums[x["id"]] = v
        self.rectypes = {}
    def type(self, node):
        t = node["type"] if isinstance(node, dict) and "type" in node else node
        return parse_type(t.get("desugaredQualType", t["qualType"]), self.td)
    def fields(self, rec):
        if rec not in self.rectypes:
            if rec not in self.records: raise Unsupported("record " + rec)
            self.rectypes[rec] = [(n, parse_type(t, self.td)) for n, t in self.records[rec]]
        return self.rectypes[rec]
    def sizeof(self, t):
        k = t[0]
        if k == "int": return max(1, t[1] // 8)
        if k == "flt": return t[1]
        if k == "ptr": return 8
        if k == "arr": return t[2] * self.sizeof(t[1])
        if k == "rec":
            o = 0; al = 1
            for n, ft in self.fields(t[1]):
                a = self.align(ft); al = max(al, a); o = (o + a - 1) // a * a + self.sizeof(ft)
            return (o + al - 1) // al * al
        raise Unsupported("sizeof")
    def align(self, t):
        if t[0] == "arr": return self.align(t[1])
        if t[0] == "rec": return max(self.align(f) for _, f in self.fields(t[1]))
        return self.sizeof(t)
    def only_read(self, nm):
        """every mention of the global in this unit reads one of its values"""
        if nm in self.reads: return self.reads[nm]
        bad = []
        def go(x, up):
            if not isinstance(x, dict): return
            if x.get("kind") == "DeclRefExpr" and x.get("referencedDecl", {}).get("name") == nm and x["referencedDecl"].get("kind") == "VarDecl":
                ok = False; ks = [y for y in reversed(up)]
                for q, y in enumerate(ks):
                    if y["kind"] == "ImplicitCastExpr" and y.get("castKind") == "LValueToRValue": ok = True; break
                    if y["kind"] == "ImplicitCastExpr" and y.get("castKind") == "ArrayToPointerDecay" and q + 1 < len(ks) and ks[q + 1]["kind"] == "ArraySubscriptExpr": continue
                    if y["kind"] not in ("ArraySubscriptExpr", "ParenExpr"): break
                if not ok: bad.append(1)
            for y in x.get("inner", []) or []: go(y, up + [x])
        for f in self.funcs.values(): go(f, [])
        self.reads[nm] = not bad; return not bad
    def hash_of(self, *names):
        h = hashlib.sha256()
        def strip(n):
            if isinstance(n, dict): return {k: strip(v) for k, v in n.items() if k not in ("id", "loc", "range", "referencedMemberDecl", "previousDecl", "isUsed", "isReferenced", "ownedTagDecl", "decl", "parentDeclContextId")}
            if isinstance(n, list): return [strip(x) for x in n]
            return n
        for nm in names:
            if nm in self.funcs: h.update(json.dumps(strip(self.funcs[nm]), sort_keys=True).encode())
        return h.hexdigest()[:16]

def unit(repo, rel):
    k = (repo, rel)
    if k not in CUnit.cache: CUnit.cache[k] = CUnit(repo, rel)
    return CUnit.cache[k]

# ------------------------------------------------------------------ values
def isz(x): return isinstance(x, z3.ExprRef)
def isbool(x): return isinstance(x, bool) or (isz(x) and z3.is_bool(x))
def zb(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    if isz(x) and z3.is_bool(x): return x
    raise Unsupported("boolean expected: %r" % (x,))
def zi(x):
    if isinstance(x, bool): return z3.IntVal(int(x))
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, Fraction): raise Unsupported("integer expected")
    if isz(x) and z3.is_bool(x): return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x
def zr(x):
    if isinstance(x, bool): x = int(x)
    if isinstance(x, int): return z3.RealVal(x)
    if isinstance(x, Fraction): return z3.RealVal("%d/%d" % (x.numerator, x.denominator))
    if isinstance(x, float): return zr(Fraction(x))
    if z3.is_bool(x): return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    return z3.ToReal(x) if z3.is_int(x) else x
def zv(x):
    """any number as a z3 term of its own sort"""
    if isinstance(x, (bool, int)): return zi(x)
    if isinstance(x, (Fraction, float)): return zr(x)
    return x
def conc(x):
    """python number/bool if the term is a literal"""
    if not isz(x): return x
    s = x
    if z3.is_int_value(s): return s.as_long()
    if z3.is_rational_value(s): return Fraction(s.numerator_as_long(), s.denominator_as_long())
    if z3.is_true(s): return True
    if z3.is_false(s): return False
    return x
def simp(x):
    if not isz(x): return x
    return conc(z3.simplify(x))
def lit(x): return not isz(x)
def isreal(x): return isinstance(x, (Fraction, float)) or (isz(x) and z3.is_real(x))
def num(x):
    """comparison results used as numbers"""
    if isinstance(x, bool): return int(x)
    if isz(x) and z3.is_bool(x): return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x
def arith(op, a, b):
    a, b = num(a), num(b)
    if isinstance(a, float): a = Fraction(a)
    if isinstance(b, float): b = Fraction(b)
    if lit(a) and lit(b): return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b}[op]()
    if op == "+":
        if lit(a) and a == 0 and (isreal(b) or not isreal(a)): return b
        if lit(b) and b == 0 and (isreal(a) or not isreal(b)): return a
    if op == "-" and lit(b) and b == 0 and (isreal(a) or not isreal(b)): return a
    if op == "*":
        for x, y in ((a, b), (b, a)):
            if lit(x) and x == 1: return zr(y) if isreal(x) else y
            if lit(x) and x == 0: return Fraction(0) if isreal(x) or isreal(y) else 0
    if isreal(a) or isreal(b): a, b = zr(a), zr(b)
    else: a, b = zi(a), zi(b)
    return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b}[op]()
def cmp(op, a, b):
    a, b = num(a), num(b)
    if lit(a) and lit(b): return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
    if isreal(a) or isreal(b): a, b = zr(a), zr(b)
    else: a, b = zi(a), zi(b)
    if a.eq(b): return op in ("<=", ">=", "==")
    r = {"<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b, ">=": lambda: a >= b, "==": lambda: a == b, "!=": lambda: a != b}[op]()
    return conc(z3.simplify(r)) if (a.num_args() < 3 and b.num_args() < 3) else r
def bnot(x): return (not x) if isinstance(x, bool) else conc(z3.simplify(z3.Not(x))) if z3.is_not(x) or z3.is_true(x) or z3.is_false(x) else z3.Not(x)
def band(a, b):
    if isinstance(a, bool): return b if a else False
    if isinstance(b, bool): return a if b else False
    return z3.And(a, b)
def bor(a, b):
    if isinstance(a, bool): return True if a else b
    if isinstance(b, bool): return True if b else a
    return z3.Or(a, b)
def conj(xs):
    r = True
    for x in xs: r = band(r, x)
    return r
def cdiv(a, b):
    """C integer division (truncation)"""
    if lit(a) and lit(b):
        if b == 0: raise Unsupported("division by zero")
        q = abs(a) // abs(b); return q if (a < 0) == (b < 0) else -q
    a, b = zi(a), zi(b)
    if z3.is_int_value(b) and b.as_long() > 0: return z3.If(a >= 0, a / b, -((-a) / b))
    return z3.If(a >= 0, z3.If(b > 0, a / b, -(a / (-b))), z3.If(b > 0, -((-a) / b), (-a) / (-b)))
def cmod(a, b):
    if lit(a) and lit(b): return a - b * cdiv(a, b)
    a, b = zi(a), zi(b)
    if z3.is_int_value(b) and b.as_long() > 0: return z3.If(a >= 0, a % b, -((-a) % b))
    return a - b * cdiv(a, b)
def rdiv(a, b):
    if lit(a) and lit(b) and b != 0: return Fraction(a) / Fraction(b)
    return zr(a) / zr(b)
def trunc(x):
    if lit(x): x = Fraction(x); return int(x)
    x = zr(x)
    if z3.is_to_real(x): return x.arg(0)
    return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
def cfloor(x):
    if lit(x): x = Fraction(x); return Fraction(x.numerator // x.denominator)
    return z3.ToReal(z3.ToInt(zr(x)))
def normal(x): return z3.simplify(x, som=True, sort_sums=True)
def trig(name, x): return uf(name, R, R)(normal(zr(x)))
UFS = {}
def uf(name, *s):
    k = (name, tuple(str(x) for x in s))
    if k not in UFS: UFS[k] = z3.Function(name, *s)
    return UFS[k]
def narrow(x, bits, signed):
    if bits >= 64: return x
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    if lit(x):
        x = int(x)
        if lo <= x <= hi: return x
        return (x - lo) % (1 << bits) + lo
    x = zi(x)
    return z3.If(z3.And(x >= lo, x <= hi), x, (x - lo) % (1 << bits) + lo)
def inrange(v, bits, signed):
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    return z3.And(v >= lo, v <= hi)
def ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if a is b: return a
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if isinstance(a, Ptr) and isinstance(b, Ptr): return ptr_ite(c, a, b)
        if a is None: return b
        if b is None: return a
        raise Unsupported("merge of a pointer and a number")
    if a is None: return b
    if b is None: return a
    if isinstance(a, dict) and isinstance(b, dict):
        return {k: ite(c, a.get(k), b.get(k)) for k in set(a) | set(b)}
    if isbool(a) and isbool(b):
        return z3.If(c, zb(a), zb(b)) if not (isinstance(a, bool) and isinstance(b, bool) and a == b) else a
    a, b = num(a), num(b)
    if lit(a) and lit(b) and a == b and type(a) == type(b): return a
    if isz(a) and z3.is_array(a):
        return a if a.eq(b) else z3.If(c, a, b)
    if isreal(a) or isreal(b): a, b = zr(a), zr(b)
    else: a, b = zi(a), zi(b)
    return a if a.eq(b) else z3.If(c, a, b)

def plain(t):
    """no connective, quantifier or store in a pattern"""
    if z3.is_quantifier(t) or t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_STORE, z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ): return False
    return all(plain(c) for c in t.children())
def FA(vs, body, *pats):
    """ForAll with patterns; each pattern is a term or a tuple of terms; unusable ones are dropped"""
    ps = []
    for p in pats:
        p = p if isinstance(p, tuple) else (p,)
        if all(plain(x) for x in p): ps.append(z3.MultiPattern(*p) if len(p) > 1 else p[0])
    try: return z3.ForAll(vs, body, patterns=ps) if ps else z3.ForAll(vs, body)
    except z3.Z3Exception: return z3.ForAll(vs, body)

def push_selects(t, memo=None):
    """the same term with reads moved through writes and case distinctions (outside quantifiers)"""
    memo = {} if memo is None else memo
    k = t.get_id()
    if k in memo: return memo[k][1]
    if not z3.is_app(t) or t.num_args() == 0: r = t
    else:
        ch = [push_selects(x, memo) for x in t.children()]
        r = read(ch[0], ch[1], memo) if z3.is_select(t) and len(ch) == 2 else t.decl()(*ch)
    memo[k] = (t, r)
    return r
def read(a, i, memo):
    k = ("read", a.get_id(), i.get_id())
    if k in memo: return memo[k][2]
    if z3.is_app_of(a, z3.Z3_OP_ITE):
        x, y = read(a.arg(1), i, memo), read(a.arg(2), i, memo)
        r = x if x.eq(y) else z3.If(a.arg(0), x, y)
    elif z3.is_store(a) and a.num_args() == 3:
        j = a.arg(1); q = z3.BoolVal(True) if i.eq(j) else z3.simplify(i == j)
        if z3.is_true(q): r = a.arg(2)
        else:
            o = read(a.arg(0), i, memo)
            r = o if z3.is_false(q) else z3.If(i == j, a.arg(2), o)
    else: r = a[i]
    memo[k] = (a, i, r)
    return r

class Region:
    n = 0
    def __init__(self, name, ty, nd, lens=None, init=None, kind="param"):
        Region.n += 1
        self.id = Region.n; self.name = name; self.ty = ty; self.nd = nd; self.lens = lens or (None,) * nd; self.kind = kind
        self.init = init or {}      # path -> initial array/value
        self.rowptr = None          # dict of row pointers, for arrays of pointers
    def __repr__(self): return "<%s#%d>" % (self.name, self.id)
class Ptr:
    """pointer (or lvalue) into region; ty is the pointee type"""
    __slots__ = ("reg", "path", "idx", "ty", "null", "alts")
    def __init__(self, reg, path, idx, ty, null=False): self.reg = reg; self.path = path; self.idx = tuple(idx); self.ty = ty; self.null = null
    def at(self, ty=None, idx=None, path=None): return Ptr(self.reg, self.path if path is None else path, self.idx if idx is None else idx, ty or self.ty, self.null)
    def __repr__(self): return "Ptr(%s,%s,%s)" % (self.reg, self.path, self.idx)
NULL = Ptr(None, "", (), ("void",), True)
def ptr_ite(c, a, b):
    if a.reg is None and b.reg is None: return a
    if a.reg is None: return Ptr(b.reg, b.path, b.idx, b.ty, bor(c, b.null) if not isinstance(c, bool) else (True if c else b.null))
    if b.reg is None: return Ptr(a.reg, a.path, a.idx, a.ty, bor(bnot(c), a.null))
    if a.reg is not b.reg or a.path != b.path or len(a.idx) != len(b.idx): raise Unsupported("merge of pointers into different objects")
    return Ptr(a.reg, a.path, [ite(c, x, y) for x, y in zip(a.idx, b.idx)], a.ty, ite(c, a.null, b.null))

class St:
    __slots__ = ("mem", "pc", "dead")
    def __init__(self): self.mem = {}; self.pc = []; self.dead = False
    def copy(self):
        s = St(); s.mem = dict(self.mem); s.pc = list(self.pc); s.dead = self.dead; return s
    def put(self, o): self.mem = o.mem; self.pc = o.pc; self.dead = o.dead

class Frame:
    def __init__(self, fn, unit): self.fn = fn; self.unit = unit; self.vars = {}; self.names = {}; self.loops = {}; self.entry = None
class View:
    """what an invariant or postcondition sees: variables by name, cells of arrays"""
    def __init__(self, eng, st, fr, extra=None): self.e = eng; self.st = st; self.fr = fr; self.x = extra or {}
    def ptr(self, name):
        if name not in self.fr.names: raise Unsupported("no variable %s in %s" % (name, self.fr.fn))
        return self.e.load(self.st, self.fr.names[name], self.e.lv(self.fr.names[name]))
    def has(self, name): return name in self.fr.names
    def __getitem__(self, name):
        v = self.ptr(name)
        return v if isinstance(v, Ptr) else zv(v)
    def __getattr__(self, n):
        if n.startswith("_"): raise AttributeError(n)
        return self[n]
    def cell(self, p, *idx, field=None):
        """value of p[idx...] (p a pointer value or variable name)"""
        if isinstance(p, str): p = self.ptr(p)
        return self.e.cellv(self.st, p, idx, field)
    def arr(self, p, field=None):
        if isinstance(p, str): p = self.ptr(p)
        return self.e.arrv(self.st, p, field)
    def tags(self, p):
        if isinstance(p, str): p = self.ptr(p)
        self.e.regtag(self.st, p.reg)
        return self.st.mem[(p.reg.id, "#T")]

class Eng:
    def __init__(self, units, contracts=None, inv=None, bounds=True, inline=True, maxunroll=400, name="", houdini=True):
        self.units = units; self.contracts = contracts or {}; self.inv = inv or {}; self.bounds = bounds
        self.facts = []; self.obls = []; self.quiet = 0; self.nf = 0; self.name = name; self.frames = []
        self.written = None; self.maxunroll = maxunroll; self.depth = 0; self.reg_of = {}; self.houdini = houdini; self.loopinfo = {}; self.globals = {}; self.nonnull = False
        self.inlined = set(); self.exits = []; self.after = {}; self.strict_null = False; self.allocfail = True; self.uninit_check = False; self.stmt_hook = None
        self.tagged = set(); self.tagmap = {}; self.ranged = {}; self.guards = {}; self.counting = False; self.op_hook = None
    # ---- bookkeeping
    def fresh(self, name, sort):
        self.nf += 1
        return z3.Const("%s!%d" % (name, self.nf), sort)
    def fact(self, st, f):
        f = zb(f)
        if z3.is_true(f): return
        g = conj(st.pc)
        self.facts.append(f if g is True else z3.Implies(g, f))
    def assume(self, st, c):
        if c is True: return
        if isinstance(c, bool) and not c: st.dead = True
        st.pc.append(zb(c))
    def oblige(self, st, name, goal, kind="post", info=None):
        if self.quiet: return
        goal = zb(goal) if not isinstance(goal, bool) else goal
        if goal is True: self.trivial = getattr(self, "trivial", 0) + 1; return
        goal = z3.BoolVal(False) if goal is False else goal
        s = z3.simplify(goal)
        if z3.is_true(s): self.trivial = getattr(self, "trivial", 0) + 1; return
        if st.dead: return
        # pieces of a conjunction are separate obligations
        if z3.is_and(goal):
            for i, g in enumerate(goal.children()): self.oblige(st, "%s [%d]" % (name, i + 1), g, kind, info)
            return
        while z3.is_quantifier(goal) and goal.is_forall():
            vs = [self.fresh(goal.var_name(i), goal.var_sort(i)) for i in range(goal.num_vars())]
            goal = z3.substitute_vars(goal.body(), *reversed(vs))
        if z3.is_and(goal): return self.oblige(st, name, goal, kind, info)
        if self.push:
            goal = push_selects(goal); s = z3.simplify(goal)
            if z3.is_true(s): self.trivial = getattr(self, "trivial", 0) + 1; return
        if self.split:
            if self.split == "deep": goal = s if z3.is_quantifier(goal) else z3.simplify(goal)
            for c, i in self.reads_over_writes(goal):
                g1 = z3.substitute(goal, (c, i)); g1 = z3.simplify(g1, som=True, sort_sums=True)
                if not z3.is_true(g1): self.obls.append((("%s: " % self.name if self.name else "") + name + " (at the written cell)", list(self.facts) + list(st.pc) + [c == i], g1, info, kind))
                else: self.trivial = getattr(self, "trivial", 0) + 1
                goal = z3.Implies(c != i, z3.substitute(goal, *[(t, z3.Select(t.arg(0).arg(0), t.arg(1))) for t in self.selects(goal) if z3.is_store(t.arg(0)) and t.arg(1).eq(c) and t.arg(0).arg(1).eq(i)]))
        base = (self.unguarded(st) if self.push else list(self.facts)) + list(st.pc); nm = ("%s: " % self.name if self.name else "") + name
        if self.cases and any(x in name for x in self.cases): return self.by_cases(nm, base, goal, info, kind, 4)
        self.obls.append((nm, base, goal, info, kind))
    cases = ()
    def by_cases(self, nm, asm, goal, info, kind, depth):
        """one obligation per branch of the outermost choice the goal's terms make (merged paths)"""
        todo, seen, c = [goal], set(), None
        while todo and depth:
            t = todo.pop(0)
            if t.get_id() in seen or z3.is_quantifier(t): continue
            seen.add(t.get_id())
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and not z3.is_true(t.arg(0)) and not z3.is_false(t.arg(0)): c = t.arg(0); break
            todo += t.children()
        if c is None: self.obls.append((nm, asm, goal, info, kind)); return
        T, F = z3.BoolVal(True), z3.BoolVal(False)
        for i, (h, v) in enumerate(((c, T), (z3.Not(c), F))):
            g = z3.simplify(z3.substitute(goal, (c, v)))
            if z3.is_true(g): self.trivial = getattr(self, "trivial", 0) + 1; continue
            self.by_cases(nm + " <%d>" % (i + 1), asm + [h], g, info, kind, depth - 1)
    def unguarded(self, st):
        """the facts, without the guards that hold on this path"""
        have = {x.get_id() for x in st.pc}; out = []
        def flat(g): return [y for x in g.children() for y in flat(x)] if z3.is_and(g) else [g]
        for f in self.facts:
            h = self.guards.get(f.get_id())
            if h is None: h = self.guards[f.get_id()] = (f, frozenset(x.get_id() for x in flat(f.arg(0))), f.arg(1)) if z3.is_implies(f) else (f, None, f)
            out.append(h[2] if h[1] is not None and h[1] <= have else f)
        return out
    split = False
    push = False
    def selects(self, t, seen=None):
        seen = {} if seen is None else seen
        if t.get_id() in seen or z3.is_quantifier(t): return []
        seen[t.get_id()] = t; r = []
        if z3.is_select(t): r.append(t)
        for c in t.children(): r += self.selects(c, seen)
        return r
    def reads_over_writes(self, goal):
        """(skolem constant, written index) pairs worth a case split"""
        out = []
        for t in self.selects(goal):
            if z3.is_store(t.arg(0)) and z3.is_const(t.arg(1)) and t.arg(1).decl().kind() == z3.Z3_OP_UNINTERPRETED:
                p = (t.arg(1), t.arg(0).arg(1))
                if not any(p[0].eq(q[0]) and p[1].eq(q[1]) for q in out): out.append(p)
        return out[:2]
    # ---- memory
    def sort_of(self, t):
        if t[0] == "int": return I
        if t[0] == "flt": return R
        raise Unsupported("sort of %r" % (t,))
    def leafdims(self, reg, path):
        """number of indices of a leaf and its type, by the region's type and the field path"""
        t = reg.ty; nd = reg.nd
        for f in [x for x in path.split(".") if x]:
            while t[0] == "arr": nd += 1; t = t[1]
            if t[0] != "rec": raise Unsupported("field of %r" % (t,))
            t = dict(self.unit.fields(t[1]))[f]
        while t[0] == "arr": nd += 1; t = t[1]
        return nd, t
    @property
    def unit(self): return self.frames[-1].unit if self.frames else self.units[0]
    def leaf(self, st, reg, path):
        k = (reg.id, path); self.reg_of[reg.id] = reg
        v = st.mem.get(k)
        if v is not None: return v
        if path in reg.init: v = reg.init[path]
        else:
            nd, t = self.leafdims(reg, path)
            if t[0] == "ptr":
                v = {} if nd else None
            else:
                s = self.sort_of(t)
                z = z3.RealVal(0) if s == R else z3.IntVal(0) if s == I else None
                for _ in range(nd):
                    s = z3.ArraySort(I, s)
                    if z is not None: z = z3.K(I, z)
                if getattr(reg, "zeroed", False) and z is not None and nd: v = z      # calloc
                else: v = self.fresh("%s%s" % (reg.name, "." + path if path else ""), s)
                if t[0] == "int" and t[1] < 32:
                    self.range_fact(v, nd, t)
            reg.init[path] = v
        st.mem[k] = v
        return v
    def range_fact(self, v, nd, t):
        if nd == 0: self.facts.append(inrange(v, t[1], t[2])); return
        ks = [z3.Int("k!%d" % i) for i in range(nd)]; e = v
        for k in ks: e = e[k]
        self.facts.append(z3.ForAll(ks, inrange(e, t[1], t[2]), patterns=[e]))
    def lv(self, reg): return Ptr(reg, "", (0,) * 0 if reg.nd == 0 else (0,) * reg.nd, reg.ty)
    def check(self, st, p, write):
        r = p.reg
        if r is None: raise Unsupported("null dereference")
        if p.null is not False and not self.quiet: self.oblige(st, "%s pointer is not null" % r.name, bnot(p.null), "safety")
        if not self.bounds: return
        for i, ln in enumerate(r.lens):
            if ln is None or i >= len(p.idx): continue
            lo, hi = ln if isinstance(ln, tuple) else (0, ln)
            ix = p.idx[i]
            if lo is not None: self.oblige(st, "%s of %s: index not below its range" % ("write" if write else "read", r.name), cmp(">=", ix, lo), "safety")
            if hi is not None: self.oblige(st, "%s of %s: index not above its range" % ("write" if write else "read", r.name), cmp("<", ix, hi), "safety")
        # constant inner dimensions
        t = r.ty; j = r.nd
        for f in [x for x in p.path.split(".") if x] + [None]:
            while t[0] == "arr":
                if j < len(p.idx) and t[2] is not None:
                    self.oblige(st, "%s of %s%s: index in its constant range" % ("write" if write else "read", r.name, "." + p.path if p.path else ""), band(cmp(">=", p.idx[j], 0), cmp("<", p.idx[j], t[2])), "safety")
                j += 1; t = t[1]
            if f is None or t[0] != "rec": break
            t = dict(self.unit.fields(t[1]))[f]
    def leaves(self, t, path=""):
        """all leaf paths of a type"""
        while t[0] == "arr": t = t[1]
        if t[0] == "rec":
            for f, ft in self.unit.fields(t[1]):
                yield from self.leaves(ft, path + "." + f if path else f)
        else: yield path
    def load(self, st, _r, p):
        t = p.ty
        if t[0] == "arr": return Ptr(p.reg, p.path, p.idx + (0,), t[1], p.null)      # decay
        if t[0] == "rec": return p                                                   # struct value: reference
        if t[0] == "fun": return p
        self.check(st, p, False)
        if t[0] == "ptr" and p.reg.ty[0] != "ptr" and p.reg.nd > len(p.idx):
            # row pointer of a block of rows
            return Ptr(p.reg, p.path, p.idx + (0,), t[1], False)
        v = self.leaf(st, p.reg, p.path)
        if isinstance(v, dict):
            k = tuple(simp(x) for x in p.idx)
            if any(isz(x) for x in k): raise Unsupported("symbolic index into an array of pointers")
            if k not in v: raise Unsupported("uninitialised pointer element of " + p.reg.name)
            return v[k]
        for i in p.idx: v = z3.Select(v, zi(i)) if isz(v) else v
        if isz(v) and z3.is_array(v): raise Unsupported("partial load")
        if v is None and p.reg.kind == "global":
            v = Ptr(Region(p.reg.name + "_target", ("void",), 1, kind="global"), "", (0,), ("void",)); st.mem[(p.reg.id, p.path)] = v
        if v is None: raise Unsupported("uninitialised pointer " + p.reg.name)
        if p.reg.id in self.tagged: self.regtag(st, p.reg)
        if isz(v) and z3.is_select(v): v = self.fold(v)
        if t[0] == "int" and t[1] < 32 and isz(v): self.ranged[v.get_id()] = (v, t)
        return v
    # provenance of the values of a tagged vector: tag k = value that was at index k on entry
    def regtag(self, st, reg):
        a = self.leaf(st, reg, "")
        k = (reg.id, "#T")
        if k not in st.mem:
            if "#T" not in reg.init: reg.init["#T"] = self.fresh(reg.name + "_tag", z3.ArraySort(I, I))
            st.mem[k] = reg.init["#T"]
        self.tagmap[a.get_id()] = (a, st.mem[k])
    def tag(self, v):
        if isz(v) and z3.is_select(v):
            m = self.tagmap.get(v.arg(0).get_id())
            if m: return z3.Select(m[1], v.arg(1))
            f = self.fold(v)
            if isz(f) and z3.is_select(f) and f.arg(0).get_id() in self.tagmap: return z3.Select(self.tagmap[f.arg(0).get_id()][1], f.arg(1))
        if isz(v) and z3.is_app_of(v, z3.Z3_OP_ITE): return z3.If(v.arg(0), self.tag(v.arg(1)), self.tag(v.arg(2)))
        return z3.IntVal(-1)
    def fold(self, v):
        """read over write with decidable indices"""
        a, i = v.arg(0), v.arg(1)
        for _ in range(64):
            if z3.is_store(a):
                if a.arg(1).eq(i): return conc(a.arg(2))
                d = z3.simplify(a.arg(1) == i)
                if z3.is_true(d): return conc(a.arg(2))
                if z3.is_false(d): a = a.arg(0); continue
            break
        return z3.Select(a, i) if not a.eq(v.arg(0)) else v
    def store(self, st, p, val):
        t = p.ty
        if t[0] == "rec" or t[0] == "arr": return self.copy(st, p, val)
        self.check(st, p, True)
        self.note(p.reg, p.path)
        old = self.leaf(st, p.reg, p.path)
        if isinstance(val, Ptr) or t[0] == "ptr":
            if isinstance(old, dict):
                k = tuple(simp(x) for x in p.idx)
                if any(isz(x) for x in k): raise Unsupported("symbolic index into an array of pointers")
                n = dict(old); n[k] = val; st.mem[(p.reg.id, p.path)] = n; return
            if p.idx and p.reg.ty[0] != "ptr": raise Unsupported("row pointer of a block is overwritten")
            st.mem[(p.reg.id, p.path)] = val; return
        val = self.conv(val, t)
        val = zr(val) if t[0] == "flt" else zi(val)
        if p.reg.id in self.tagged:
            self.regtag(st, p.reg); tg = self.tag(val)
            st.mem[(p.reg.id, "#T")] = z3.Store(st.mem[(p.reg.id, "#T")], zi(p.idx[0]), tg)
            st.mem[(p.reg.id, p.path)] = self.nstore(old, p.idx, val); self.regtag(st, p.reg); self.note(p.reg, "#T"); return
        st.mem[(p.reg.id, p.path)] = self.nstore(old, p.idx, val) if p.idx else (conc(val))
    def nstore(self, a, idx, val):
        i = zi(idx[0])
        if len(idx) == 1: return z3.Store(a, i, val)
        sub = z3.Select(a, i)
        sub = self.foldz(sub)
        return z3.Store(a, i, self.nstore(sub, idx[1:], val))
    def foldz(self, v):
        f = self.fold(v); return zv(f) if not isz(f) else f
    def note(self, reg, path):
        if self.written is not None: self.written.add((reg.id, path))
    def copy(self, st, d, s):
        """struct assignment"""
        if not isinstance(s, Ptr): raise Unsupported("struct assignment")
        self.check(st, d, True); self.check(st, s, False)
        for lp in self.leaves(d.ty):
            dp = (d.path + "." + lp if d.path else lp) if lp else d.path; sp = (s.path + "." + lp if s.path else lp) if lp else s.path
            self.note(d.reg, dp)
            sv = self.leaf(st, s.reg, sp); dv = self.leaf(st, d.reg, dp)
            for i in s.idx: sv = z3.Select(zv(sv), zi(i))
            st.mem[(d.reg.id, dp)] = self.nstore(dv, d.idx, zv(sv)) if d.idx else sv
    def cellv(self, st, p, idx, field=None):
        path = p.path + ("." + field if p.path and field else (field or ""))
        v = self.leaf(st, p.reg, path)
        base = list(p.idx)
        # the pointer's last index is its offset; further indices go to inner dimensions
        full = base[:-1] + [arith("+", base[-1], idx[0])] + list(idx[1:]) if base and idx else base + list(idx)
        for i in full: v = z3.Select(zv(v), zi(i))
        return zv(v) if not isinstance(v, Ptr) else v
    def arrv(self, st, p, field=None):
        path = p.path + ("." + field if p.path and field else (field or ""))
        v = self.leaf(st, p.reg, path)
        for i in p.idx[:-1]: v = z3.Select(v, zi(i))
        return v
    # ---- conversions
    def conv(self, v, t):
        if isinstance(v, Ptr): return v
        if t[0] == "int":
            if isreal(v): v = trunc(v)
            v = num(v)
            if t[1] == 1:
                return v if not lit(v) else int(v != 0)
            return narrow(v, t[1], t[2]) if t[1] < 32 and not self.known_range(v, t) else v
        if t[0] == "flt":
            v = num(v)
            return Fraction(v) if lit(v) else zr(v)
        return v
    def known_range(self, v, t):
        """a value loaded from a narrow cell already lies in the range of that type"""
        if lit(v): return False
        m = self.ranged.get(v.get_id())
        if m is None: return z3.is_app_of(v, z3.Z3_OP_ITE) and not isreal(v) and all(lit(conc(x)) and narrow(conc(x), t[1], t[2]) == conc(x) or (isz(conc(x)) and self.known_range(x, t)) for x in v.children()[1:])
        b, sg = m[1][1], m[1][2]
        return (b, sg) == (t[1], t[2]) or (b < t[1] and (t[2] or not sg))
    # ---- functions
    def find(self, name):
        for u in self.units:
            if name in u.funcs: return u, u.funcs[name]
        return None, None
    def call(self, st, name, args, node=None):
        if name in self.contracts:
            return self.contracts[name](self, st, args)
        if name in BUILTIN: return BUILTIN[name](self, st, args)
        u, f = self.find(name)
        if f is None: raise Unsupported("call of %s without contract" % name)
        if any(fr.fn == name for fr in self.frames): raise Unsupported("recursive call of %s without contract" % name)
        self.inlined.add(name)
        return self.run_body(st, u, f, args)[0]
    def run_body(self, st, u, f, args, keep=False):
        fr = Frame(f["name"], u); self.frames.append(fr)
        if len(self.frames) > 40: raise Unsupported("call depth")
        try:
            ps = [x for x in f["inner"] if x["kind"] == "ParmVarDecl"]
            if len(ps) != len(args): raise Unsupported("argument count of " + f["name"])
            for pd, a in zip(ps, args):
                t = u.type(pd)
                if t[0] == "arr": t = ("ptr", t[1])
                reg = Region(pd.get("name", "_"), t, 0, kind="local")
                fr.vars[pd["id"]] = reg; fr.names[pd.get("name", "_")] = reg
                self.reg_of[reg.id] = reg
                if t[0] == "rec":
                    for lp in self.leaves(t): st.mem[(reg.id, lp)] = None
                    for lp in self.leaves(t):
                        sp = (a.path + "." + lp if a.path else lp)
                        sv = self.leaf(st, a.reg, sp)
                        for i in a.idx: sv = sv[i] if isinstance(sv, dict) else z3.Select(zv(sv), zi(i))
                        st.mem[(reg.id, lp)] = sv
                    continue
                st.mem[(reg.id, "")] = self.conv(a, t) if not isinstance(a, Ptr) else self.retype(a, t)
            body = [x for x in f["inner"] if x["kind"] == "CompoundStmt"][0]
            self.number_loops(fr, body)
            fr.entry = st.copy()
            outs = self.ex(st, body)
            rets = []
            for k, (s, v) in outs.items():
                if k == "ret": rets.append((s, v))
                elif k == "next": rets.append((s, None))
                else: raise Unsupported("outcome %s leaves a function" % (k,))
            if not rets: st.dead = True; st.pc.append(z3.BoolVal(False)); return None, fr
            s, v = rets[0]
            for s2, v2 in rets[1:]: s, v = self.merge(s, v, s2, v2)
            st.put(s)
            return v, fr
        finally:
            self.frames.pop()
    def retype(self, p, t):
        if t[0] == "ptr" and p.reg is not None: return p
        return p
    def number_loops(self, fr, body):
        n = [0]
        def go(x):
            if isinstance(x, dict):
                if x.get("kind") in ("ForStmt", "WhileStmt", "DoStmt"): fr.loops[x["id"]] = n[0]; n[0] += 1
                for y in x.get("inner", []): go(y)
        go(body)
    # ---- merging
    def merge(self, a, va, b, vb):
        if a.dead: return b, vb
        if b.dead: return a, va
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n].eq(b.pc[n]): n += 1
        sa, sb = a.pc[n:], b.pc[n:]
        ca = conj(sa)
        if ca is True: ca = bnot(conj(sb)) if sb else True
        # a condition that separates the two: the first differing conjunct when complementary
        sep = ca
        if sa and sb and (z3.Not(sa[0]).eq(sb[0]) or z3.Not(sb[0]).eq(sa[0]) or z3.simplify(z3.Not(sa[0])).eq(z3.simplify(sb[0]))): sep = sa[0]
        m = St(); m.pc = a.pc[:n]
        if sep is not ca or (sa and sb):
            if len(sa) == 1 and len(sb) == 1 and sep is not ca: pass
            elif sep is not ca:
                ra, rb = conj(sa[1:]), conj(sb[1:])
                d = z3.And(z3.Implies(sep, zb(ra)), z3.Implies(z3.Not(sep), zb(rb)))
                d = z3.simplify(d) if ra is True and rb is True else d
                if not z3.is_true(d): m.pc.append(d)
            else:
                m.pc.append(z3.Or(zb(conj(sa)), zb(conj(sb))))
        for k in set(a.mem) | set(b.mem):
            if k in a.mem and k in b.mem:
                x, y = a.mem[k], b.mem[k]
            else:
                reg = self.reg_of[k[0]]
                x = a.mem.get(k, reg.init.get(k[1])); y = b.mem.get(k, reg.init.get(k[1]))
                if x is None and y is None: continue
            if x is y: m.mem[k] = x; continue
            try: m.mem[k] = ite(sep, x, y)
            except Unsupported:
                if isinstance(x, Ptr) or isinstance(y, Ptr): m.mem[k] = None; continue
                raise
        v = None
        if va is not None or vb is not None: v = ite(sep, va, vb)
        return m, v
    def add(self, outs, k, s, v=None):
        if s.dead: return
        if k in outs: outs[k] = self.merge(outs[k][0], outs[k][1], s, v)
        else: outs[k] = (s, v)
    # ---- statements: dict outcome -> (state, value)
    def ex(self, st, n):
        k = n.get("kind")
        if st.dead: return {}
        if self.stmt_hook: self.stmt_hook(self, st, n)
        m = getattr(self, "s_" + k, None)
        if m is not None: return m(st, n)
        if "Stmt" in k: raise Unsupported("statement " + k)
        self.ev(st, n)
        return {} if st.dead else {"next": (st, None)}
    def s_CompoundStmt(self, st, n):
        fr = self.frames[-1]; names = dict(fr.names)
        try: return self.block(st, n)
        finally: fr.names.update(names)
    def block(self, st, n):
        outs = {}; cur = st; items = n.get("inner", [])
        labels = {x["name"]: i for i, x in enumerate(items) if x["kind"] == "LabelStmt"}
        i = 0
        while i < len(items):
            o = self.ex(cur, items[i])
            # forward gotos to a label of this block
            nxt = o.pop("next", None)
            for kk, (s, v) in o.items(): self.add(outs, kk, s, v)
            i += 1
            if i < len(items) and items[i]["kind"] == "LabelStmt" and ("goto", items[i].get("declId") or items[i]["name"]) in outs:
                g = outs.pop(("goto", items[i].get("declId") or items[i]["name"]))
                nxt = g if nxt is None else self.merge(g[0], None, nxt[0], None)
            if nxt is None:
                # dead here: a later label may still be reached
                while i < len(items) and not (items[i]["kind"] == "LabelStmt" and ("goto", items[i].get("declId") or items[i]["name"]) in outs): i += 1
                if i >= len(items): return outs
                nxt = outs.pop(("goto", items[i].get("declId") or items[i]["name"]))
            cur = nxt[0]
        self.add(outs, "next", cur)
        return outs
    def s_LabelStmt(self, st, n):
        return self.ex(st, n["inner"][0])
    def s_GotoStmt(self, st, n): return {("goto", n["targetLabelDeclId"]): (st, None)}
    def s_NullStmt(self, st, n): return {"next": (st, None)}
    def s_DeclStmt(self, st, n):
        for d in n["inner"]:
            if d["kind"] == "VarDecl": self.declare(st, d)
        return {"next": (st, None)}
    def declare(self, st, d):
        fr = self.frames[-1]; t = fr.unit.type(d)
        init = [x for x in d.get("inner", []) if "kind" in x and not x["kind"].endswith("Attr")]
        if t[0] == "arr" and not init: t = self.vla(st, d, t)
        reg = Region(d["name"], t, 0, kind="local"); self.reg_of[reg.id] = reg
        if d["id"] in fr.vars: reg = fr.vars[d["id"]]     # same local in a loop body
        fr.vars[d["id"]] = reg; fr.names[d["name"]] = reg
        # a fresh unknown value on every execution
        for lp in self.leaves(t):
            nd, lt = self.leafdims(reg, lp)
            if lt[0] == "ptr": st.mem[(reg.id, lp)] = {} if nd else None
            else:
                s = self.sort_of(lt)
                for _ in range(nd): s = z3.ArraySort(I, s)
                v = self.fresh(d["name"] + "_uninit", s); st.mem[(reg.id, lp)] = v
                if lt[0] == "int" and lt[1] < 32: self.range_fact(v, nd, lt)
            self.note(reg, lp)
        if init:
            x = init[0]
            if x["kind"] == "InitListExpr": self.initlist(st, Ptr(reg, "", (), t), x)
            elif t[0] == "arr": pass        # string literal
            else: self.store(st, Ptr(reg, "", (), t), self.ev(st, x))
    def vla(self, st, d, t):
        """variable dimensions (names, numbers, sums and products of them) take their values at the declaration"""
        dims = re.findall(r"\[([^\]]*)\]", d["type"]["qualType"]); j = [0]
        def val(x):
            if not re.fullmatch(r"[\w\s+*()-]+", x): raise Unsupported("variable length array")
            names = self.frames[-1].names; env = {}
            for n in set(re.findall(r"[A-Za-z_]\w*", x)):
                if n not in names: raise Unsupported("variable length array")
                v = st.mem.get((names[n].id, "")); env[n] = zi(v) if isz(v) else v
            v = eval(x, {"__builtins__": {}}, env); v = conc(simp(v)) if isz(v) else v
            self.oblige(st, "length of the array %s is positive" % d["name"], cmp(">=", v, 1), "safety") if not isinstance(v, int) else None
            return v
        def go(u):
            if u[0] != "arr": return u
            x = dims[j[0]].strip(); j[0] += 1; n = u[2] if u[2] is not None else val(x)
            return ("arr", go(u[1]), n)
        return go(t)
    def initlist(self, st, p, x):
        t = p.ty
        if t[0] == "arr":
            el = list(x.get("inner", []))
            if "array_filler" in x:
                el = [y for y in x["array_filler"] if y.get("kind") != "ImplicitValueInitExpr"]
            for i in range(t[2] or len(el)):
                q = Ptr(p.reg, p.path, p.idx + (i,), t[1])
                if i < len(el) and el[i].get("kind") == "InitListExpr": self.initlist(st, q, el[i])
                elif i < len(el) and el[i].get("kind") != "ImplicitValueInitExpr": self.store(st, q, self.ev(st, el[i]))
                else: self.zero(st, q)
        elif t[0] == "rec":
            for (f, ft), y in zip(self.unit.fields(t[1]), x.get("inner", [])):
                q = Ptr(p.reg, p.path + "." + f if p.path else f, p.idx, ft)
                if y.get("kind") == "InitListExpr": self.initlist(st, q, y)
                elif y.get("kind") == "ImplicitValueInitExpr": self.zero(st, q)
                else: self.store(st, q, self.ev(st, y))
        else: self.store(st, p, self.ev(st, x["inner"][0]))
    def zero(self, st, p):
        if p.ty[0] == "arr":
            for i in range(p.ty[2]): self.zero(st, Ptr(p.reg, p.path, p.idx + (i,), p.ty[1]))
        elif p.ty[0] == "rec":
            for f, ft in self.unit.fields(p.ty[1]): self.zero(st, Ptr(p.reg, p.path + "." + f if p.path else f, p.idx, ft))
        else: self.store(st, p, 0)
    def cond(self, st, n):
        v = self.ev(st, n)
        return self.truth(v)
    def truth(self, v):
        if isinstance(v, Ptr): return bnot(v.null) if v.reg is not None else False
        if isbool(v): return v
        v = simp(v) if isz(v) and v.num_args() < 4 else v
        if lit(v): return v != 0
        if z3.is_app_of(v, z3.Z3_OP_ITE) and all(z3.is_int_value(v.arg(i)) for i in (1, 2)):
            a, b = v.arg(1).as_long() != 0, v.arg(2).as_long() != 0
            return v.arg(0) if a and not b else z3.Not(v.arg(0)) if b and not a else a
        return v != 0
    def decide(self, st, c):
        """simplify a condition; True/False when it is decided by constants"""
        if isinstance(c, bool): return c
        return conc(z3.simplify(c))if c.num_args() <= 2 else c
    def s_IfStmt(self, st, n):
        inner = [x for x in n["inner"] if x]
        c = self.decide(st, self.cond(st, inner[0]))
        if st.dead: return {}
        th = inner[1]; el = inner[2] if len(inner) > 2 else None
        if c is True: return self.ex(st, th)
        if c is False: return self.ex(st, el) if el else {"next": (st, None)}
        a, b = st.copy(), st.copy()
        a.pc.append(c); b.pc.append(z3.Not(c))
        oa = self.ex(a, th); ob = self.ex(b, el) if el else {"next": (b, None)}
        outs = dict(oa)
        for k, (s, v) in ob.items(): self.add(outs, k, s, v)
        return outs
    def s_ReturnStmt(self, st, n):
        v = self.ev(st, n["inner"][0]) if n.get("inner") else None
        if v is not None:
            q = self.frames[-1].unit.funcs.get(self.frames[-1].fn)
            if q:
                rt = parse_type(q["type"]["qualType"].split("(")[0], self.frames[-1].unit.td)
                if rt[0] in ("int", "flt"): v = self.conv(v, rt)
        return {} if st.dead else {"ret": (st, v)}
    def s_BreakStmt(self, st, n): return {"break": (st, None)}
    def s_ContinueStmt(self, st, n): return {"continue": (st, None)}
    def s_SwitchStmt(self, st, n):
        inner = [x for x in n["inner"] if x]; v = self.ev(st, inner[0]); body = inner[1]
        outs = {}; cases = []; flat = []
        def walk(x, labels):
            if x["kind"] == "CaseStmt":
                ii = [y for y in x["inner"] if y]; cv = self.ev(st, ii[0]); return walk(ii[1], labels + [cv])
            if x["kind"] == "DefaultStmt": return walk(x["inner"][0], labels + ["default"])
            flat.append((labels, x))
        for x in body["inner"]: walk(x, [])
        allc = [l for ls, _ in flat for l in ls if l != "default"]
        cur = None
        for ls, x in flat:
            if ls:
                c = False
                for l in ls: c = bor(c, conj([bnot(cmp("==", v, q)) for q in allc]) if l == "default" else cmp("==", v, l))
                e = st.copy(); self.assume(e, c)
                if not (c is False): cur = e if cur is None else self.merge(e, None, cur, None)[0]
            if cur is None or cur.dead: cur = None; continue
            o = self.ex(cur, x); nx = o.pop("next", None); cur = nx[0] if nx else None
            for k, (s, w) in o.items(): self.add(outs, "next" if k == "break" else k, s, w)
        if cur is not None: self.add(outs, "next", cur)
        if not any(l == "default" for ls, _ in flat for l in ls):
            e = st.copy(); self.assume(e, conj([bnot(cmp("==", v, q)) for q in allc])); self.add(outs, "next", e)
        return outs
    # ---- loops
    def s_ForStmt(self, st, n):
        fr = self.frames[-1]; names = dict(fr.names)
        try: return self.for_(st, n)
        finally: fr.names.update(names)   # a name declared inside no longer hides the outer one
    def for_(self, st, n):
        init, _, c, inc, body = (n["inner"] + [{}] * 5)[:5]
        if init:
            o = self.ex(st, init)
            if "next" not in o: return o
            st = o["next"][0]
        return self.loop(st, n, c, inc, body, False)
    def s_WhileStmt(self, st, n):
        ii = [x for x in n["inner"] if x]
        return self.loop(st, n, ii[0], None, ii[1], False)
    def s_DoStmt(self, st, n):
        ii = [x for x in n["inner"] if x]
        # first iteration, then a while loop
        o = self.ex(st, ii[0]); outs = {}
        for k, (s, v) in o.items():
            self.add(outs, {"continue": "next", "break": "done"}.get(k, k), s, v)
        d = outs.pop("done", None); nx = outs.pop("next", None)
        if nx:
            for k, (s, v) in self.loop(nx[0], n, ii[1], None, ii[0], False).items(): self.add(outs, k, s, v)
        if d: self.add(outs, "next", d[0])
        return outs
    def iterate(self, st, c, inc, body):
        """one iteration from st: (exit state or None, back state or None, other outcomes)"""
        cv = self.decide(st, self.cond(st, c)) if c else True
        ex_ = None
        if cv is False: return st, None, {}
        if cv is not True:
            ex_ = st.copy(); ex_.pc.append(z3.Not(cv)); st.pc.append(cv)
        o = self.ex(st, body); outs = {}
        for k, (s, v) in o.items(): self.add(outs, "next" if k == "continue" else k, s, v)
        nx = outs.pop("next", None); back = None
        if nx:
            back = nx[0]
            if inc: self.ev(back, inc)
        return ex_, back, outs
    def loop(self, st, n, c, inc, body, _):
        fr = self.frames[-1]; lid = (fr.fn, fr.loops.get(n["id"], -1))
        inv = self.inv.get(lid)
        if inv is None:
            # unroll while the condition is decided
            cur = st; outs = {}
            for _i in range(self.maxunroll):
                t = cur.copy()
                q = self.quiet; self.quiet += 1; nfacts = len(self.facts)
                cv = self.decide(t, self.cond(t, c)) if c else True
                if isz(cv): cv = conc(z3.simplify(cv))
                self.quiet = q; del self.facts[nfacts:]
                if cv is False:
                    self.add(outs, "next", cur); return outs
                if cv is not True:
                    if _i: raise Unsupported("loop %s#%d is not constant after %d iterations" % (lid + (_i,)))
                    break
                e, back, o = self.iterate(cur, c, inc, body)
                for k, (s, v) in o.items(): self.add(outs, "next" if k == "break" else k, s, v)
                if back is None or back.dead: return outs
                cur = back
            else: raise Unsupported("loop %s#%d is unrolled too often" % lid)
            inv = (self.counting and self.counter(st, c, inc, body)) or (lambda L: [])
        elif inv == "unroll":
            raise Unsupported("unroll")
        return self.cut(st, lid, inv, c, inc, body)
    def counter(self, st, c, inc, body):
        """the bounds of a counter that only the increment of its loop writes, against a bound the loop does not write"""
        def bare(x):
            while x.get("kind") in ("ParenExpr", "ImplicitCastExpr", "CStyleCastExpr"): x = x["inner"][0]
            return x
        if not (c and inc and c.get("kind") == "BinaryOperator" and inc.get("kind") == "UnaryOperator" and inc.get("opcode") in ("++", "--")): return None
        v, w = bare(inc["inner"][0]), bare(c["inner"][0]); up = inc["opcode"] == "++"; op = c["opcode"]
        if v.get("kind") != "DeclRefExpr" or w.get("kind") != "DeclRefExpr" or v["referencedDecl"]["id"] != w["referencedDecl"]["id"] or op not in (("<", "<=") if up else (">", ">=")): return None
        vid = v["referencedDecl"]["id"]; fr = self.frames[-1]; ids = set(); ok = [True]
        def scan(x):
            x = bare(x); kd = x.get("kind")
            if kd == "DeclRefExpr": ids.add(x["referencedDecl"]["id"])
            elif kd == "BinaryOperator" and x["opcode"] in ("+", "-", "*"): [scan(y) for y in x["inner"]]
            elif kd == "UnaryOperator" and x["opcode"] == "-": scan(x["inner"][0])
            elif kd == "UnaryOperator" and x["opcode"] == "*" and bare(x["inner"][0]).get("kind") == "DeclRefExpr": ids.add(bare(x["inner"][0])["referencedDecl"]["id"]); ids.add("*")
            elif kd not in ("IntegerLiteral", "ConstantExpr", "UnaryExprOrTypeTraitExpr"): ok[0] = False
        scan(c["inner"][1]); lhs = set()
        def writes(x):
            if not isinstance(x, dict): return
            kd = x.get("kind")
            if kd in ("BinaryOperator", "CompoundAssignOperator") and (x["opcode"] == "=" or kd[0] == "C") or kd == "UnaryOperator" and x["opcode"] in ("++", "--", "&"):
                y = bare(x["inner"][0])
                if y.get("kind") == "DeclRefExpr": lhs.add(y["referencedDecl"]["id"])
                elif y.get("kind") == "UnaryOperator" and y["opcode"] == "*": lhs.add("*")
            for y in x.get("inner", []) or []: writes(y)
        writes(body)
        if not ok[0] or vid in lhs or ids & lhs or vid not in fr.vars or vid in ids: return None
        rid = fr.vars[vid].id; v0 = st.mem.get((rid, ""))
        if v0 is None or isreal(v0): return None
        def inv(L):
            q = L.st.copy(); self.quiet += 1; n = len(self.facts)
            try: b = zi(num(self.ev(q, c["inner"][1])))
            finally: self.quiet -= 1; del self.facts[n:]
            x = zi(L.st.mem[(rid, "")]); z0 = zi(v0)
            if op == "<=": b = b + 1
            if op == ">=": b = b - 1
            return [("the counter stays between its start and its bound", z3.And(x >= z0, z3.Or(x == z0, x <= b)) if up else z3.And(x <= z0, z3.Or(x == z0, x >= b)))]
        return inv
    def havoc_set(self, st, c, inc, body):
        """leaves written by the loop, found by executing its body once from a havocked state"""
        W = set(); outer = self.written
        self.quiet += 1; nf = len(self.facts)
        try:
            for _ in range(6):
                self.written = set()
                s = st.copy(); self.havoc(s, W)
                mark = Region("mark", ("void",), 0).id      # memory allocated inside the body is not written by other iterations
                e, back, o = self.iterate(s, c, inc, body)
                new = {k for k in self.written if (k in st.mem or self.reg_of[k[0]].kind != "local" or k in W) and not (k[0] > mark and self.reg_of[k[0]].kind == "heap")}
                if new <= W: break
                W |= new
            else: raise Unsupported("loop effects do not stabilise")
        finally:
            self.quiet -= 1; del self.facts[nf:]
            self.written = outer
        if outer is not None: outer |= W
        return W
    def havoc(self, st, W):
        for rid, path in sorted(W):
            reg = self.reg_of[rid]
            if path == "#T": st.mem[(rid, path)] = self.fresh(reg.name + "_tag", z3.ArraySort(I, I)); continue
            nd, t = self.leafdims(reg, path)
            if t[0] == "ptr":
                old = st.mem.get((rid, path))
                if isinstance(old, dict) or old is None: st.mem[(rid, path)] = old; continue
                if isinstance(old, Ptr) and old.reg is not None and old.idx:
                    st.mem[(rid, path)] = Ptr(old.reg, old.path, old.idx[:-1] + (self.fresh(reg.name + "_off", I),), old.ty, old.null)
                continue
            s = self.sort_of(t)
            for _ in range(nd): s = z3.ArraySort(I, s)
            v = self.fresh(reg.name + ("." + path if path else ""), s); st.mem[(rid, path)] = v
            if t[0] == "int" and t[1] < 32: self.range_fact(v, nd, t)
    def cut(self, st, lid, inv, c, inc, body):
        fr = self.frames[-1]
        W = self.havoc_set(st, c, inc, body)
        entry = st.copy()
        def view(s): return View(self, s, fr, {"entry": View(self, entry, fr), "fn": View(self, fr.entry, fr)})
        tag = "%s loop %d" % lid
        cands = self.auto(st, lid, W, c, inc, body, inv, view) if self.houdini else []
        def invs(s): return list(inv(view(s))) + [(nm, f(s)) for nm, f in cands]
        for nm, f in invs(st): self.oblige(st, "%s: %s (on entry)" % (tag, nm), f, "inv")
        h = st.copy(); self.havoc(h, W)
        for nm, f in invs(h): self.fact(h, f)
        e, back, o = self.iterate(h, c, inc, body)
        if back is not None and not back.dead:
            for nm, f in invs(back): self.oblige(back, "%s: %s (kept)" % (tag, nm), f, "inv")
        outs = {}
        if e is not None: self.add(outs, "next", e)
        for k, (s, v) in o.items(): self.add(outs, "next" if k == "break" else k, s, v)
        if lid in self.after and "next" in outs:
            s = outs["next"][0]
            for nm, f in self.after[lid](view(s)): self.oblige(s, "%s: %s (after)" % (tag, nm), f, "inv"); self.fact(s, f)
        return outs
    def auto(self, st, lid, W, c, inc, body, inv, view):
        """Houdini over counter bounds: candidates kept only when proved inductive"""
        fr = self.frames[-1]; cand = []
        for rid, path in W:
            reg = self.reg_of[rid]
            if reg.kind != "local" or path or reg.ty[0] != "int" or (rid, path) not in st.mem: continue
            x0 = st.mem[(rid, path)]
            if x0 is None: continue
            g = lambda s, k=(rid, path): s.mem[k]
            cand.append(("%s does not fall below its start" % reg.name, lambda s, g=g, x0=x0: cmp(">=", g(s), x0)))
            cand.append(("%s does not rise above its start" % reg.name, lambda s, g=g, x0=x0: cmp("<=", g(s), x0)))
        if c and c.get("kind") == "BinaryOperator" and c["opcode"] in ("<", "<=", ">", ">="):
            op = c["opcode"]
            def bound(s, strict_slack):
                q = s.copy(); self.quiet += 1; n = len(self.facts)
                try: a, b = self.ev(q, c["inner"][0]), self.ev(q, c["inner"][1])
                finally: self.quiet -= 1; del self.facts[n:]
                if isreal(a) or isreal(b): return True
                a, b = zi(num(a)), zi(num(b))
                d = {"<": b - a, "<=": b + 1 - a, ">": a - b, ">=": a + 1 - b}[op]
                return d >= 0
            cand.append(("counter stays within the loop's bound", lambda s: bound(s, 0)))
        if not cand: return []
        self.quiet += 1; nf = len(self.facts); outer = self.written; self.written = None
        try:
            base = list(self.facts) + list(st.pc)
            keep = []
            for nm, f in cand:
                try: ok = self.quick(base, f(st))
                except Unsupported: ok = False
                if ok: keep.append((nm, f))
            while keep:
                del self.facts[nf:]
                h = st.copy(); self.havoc(h, W)
                for nm, f in list(inv(view(h))) : self.fact(h, f)
                for nm, f in keep: self.fact(h, f(h))
                e, back, o = self.iterate(h, c, inc, body)
                if back is None or back.dead: break
                asm = list(self.facts) + list(back.pc)
                bad = [i for i, (nm, f) in enumerate(keep) if not self.quick(asm, f(back))]
                if not bad: break
                keep = [x for i, x in enumerate(keep) if i not in bad]
            return keep
        finally:
            self.quiet -= 1; del self.facts[nf:]; self.written = outer
    def quick(self, asm, g, ms=400):
        if isinstance(g, bool): return g
        if z3.is_true(z3.simplify(g)): return True
        s = z3.Solver(); s.set("timeout", ms)
        from .solve import has_quant
        for a in asm:
            if not has_quant(a): s.add(a)
        s.add(z3.Not(g))
        return s.check() == z3.unsat
    # ---- expressions
    def ev(self, st, n):
        m = getattr(self, "e_" + n["kind"], None)
        if m is None: raise Unsupported("expression " + n["kind"])
        return m(st, n)
    def place(self, st, n):
        """lvalue"""
        k = n["kind"]
        if k == "ParenExpr": return self.place(st, n["inner"][0])
        if k == "DeclRefExpr":
            d = n["referencedDecl"]; fr = self.frames[-1]
            if d["id"] in fr.vars: r = fr.vars[d["id"]]; return Ptr(r, "", (), r.ty)
            g = self.global_(st, d)
            return Ptr(g, "", (), g.ty)
        if k == "ArraySubscriptExpr":
            a, b = n["inner"]; p = self.ev(st, a); i = self.ev(st, b)
            if not isinstance(p, Ptr): p, i = i, p
            return self.padd(p, i)
        if k == "UnaryOperator" and n["opcode"] == "*":
            p = self.ev(st, n["inner"][0])
            if not isinstance(p, Ptr): raise Unsupported("dereference of a number")
            return p
        if k == "MemberExpr":
            b = n["inner"][0]
            p = self.ev(st, b) if n.get("isArrow") else self.place(st, b)
            if p.ty[0] != "rec": raise Unsupported("member of %r" % (p.ty,))
            f = dict(self.unit.fields(p.ty[1]))
            if n["name"] not in f: raise Unsupported("field " + n["name"])
            return Ptr(p.reg, p.path + "." + n["name"] if p.path else n["name"], p.idx, f[n["name"]], p.null)
        if k in ("CStyleCastExpr", "ImplicitCastExpr"): return self.place(st, n["inner"][0])
        raise Unsupported("lvalue " + k)
    def global_(self, st, d):
        nm = d["name"]
        if nm in self.globals: return self.globals[nm]
        t = self.unit.type(d)
        g = Region(nm, t, 0, kind="global"); self.globals[nm] = g; self.reg_of[g.id] = g
        # a constant global with an initialiser
        node = None
        for u in self.units:
            if nm in u.globals: node = u.globals[nm]; break
        if node is not None and node.get("inner") and ("const" in node["type"]["qualType"] or all(u.only_read(nm) for u in self.units)):
            x = [y for y in node["inner"] if "kind" in y][0]
            s0 = St(); q = self.quiet; self.quiet += 1; wr, self.written = self.written, None
            if x["kind"] == "InitListExpr": self.initlist(s0, Ptr(g, "", (), t), x)
            else: self.store(s0, Ptr(g, "", (), t), self.ev(s0, x))
            self.quiet = q; self.written = wr
            for (rid, path), v in s0.mem.items():
                if rid == g.id: g.init[path] = v
        return g
    def padd(self, p, i):
        if p.reg is None: raise Unsupported("arithmetic on a null pointer")
        i = num(i)
        if lit(i) and i == 0: return p
        if not p.idx: raise Unsupported("arithmetic on a pointer to a scalar")
        return Ptr(p.reg, p.path, p.idx[:-1] + (arith("+", p.idx[-1], i),), p.ty, p.null)
    def e_ParenExpr(self, st, n): return self.ev(st, n["inner"][0])
    def e_ConstantExpr(self, st, n): return int(n["value"]) if "value" in n else self.ev(st, n["inner"][0])
    def e_IntegerLiteral(self, st, n): return int(n["value"])
    def e_CharacterLiteral(self, st, n): return int(n["value"])
    def e_FloatingLiteral(self, st, n):
        v = Fraction(n["value"])
        return PI if abs(v - PI) < Fraction(1, 10**14) else v
    def e_StringLiteral(self, st, n): return Ptr(Region("string", ("arr", ("int", 8, True), None), 0, kind="local"), "", (0,), ("int", 8, True))
    def e_PredefinedExpr(self, st, n): return self.e_StringLiteral(st, n)
    def e_DeclRefExpr(self, st, n):
        d = n["referencedDecl"]
        if d["kind"] == "EnumConstantDecl":
            if d["id"] not in self.unit.enums: raise Unsupported("enum")
            return self.unit.enums[d["id"]]
        if d["kind"] == "FunctionDecl": return Ptr(None, d["name"], (), ("fun",))
        return self.place(st, n)
    e_ArraySubscriptExpr = e_MemberExpr = lambda self, st, n: self.place(st, n)
    def e_UnaryExprOrTypeTraitExpr(self, st, n):
        if n.get("name") != "sizeof": raise Unsupported("trait")
        if "argType" in n: t = self.unit.type(n["argType"])
        else: t = self.unit.type(n["inner"][0])
        return self.unit.sizeof(t)
    def e_ImplicitCastExpr(self, st, n): return self.cast(st, n)
    def e_CStyleCastExpr(self, st, n): return self.cast(st, n)
    def cast(self, st, n):
        ck = n["castKind"]; x = n["inner"][0]
        if ck == "LValueToRValue": return self.load(st, None, self.place(st, x))
        if ck == "ArrayToPointerDecay":
            while x["kind"] == "ParenExpr": x = x["inner"][0]
            if x["kind"] in ("StringLiteral", "PredefinedExpr"): return self.ev(st, x)
            p = self.place(st, x); return Ptr(p.reg, p.path, p.idx + (0,), p.ty[1], p.null)
        if ck == "FunctionToPointerDecay": return self.ev(st, x)
        if ck == "NullToPointer": return NULL
        v = self.ev(st, x)
        t = self.unit.type(n)
        if ck in ("IntegralCast", "FloatingToIntegral", "IntegralToFloating", "FloatingCast", "IntegralToBoolean", "BooleanToSignedIntegral", "NoOp"):
            if isinstance(v, Ptr): return v
            if ck == "IntegralToBoolean": return self.truth(v)
            return self.conv(v, t)
        if ck == "FloatingToBoolean": return self.truth(v)
        if ck == "PointerToBoolean": return self.truth(v)
        if ck == "BitCast":
            if isinstance(v, Ptr) and v.reg is not None and t[0] == "ptr" and v.reg.kind == "heap" and v.ty == ("void",): return self.typed(v, t[1])
            return v
        if ck == "ToVoid": return None
        if ck == "IntegralToPointer":
            if lit(v) and v == 0: return NULL
        raise Unsupported("cast " + ck)
    def typed(self, p, t):
        """a fresh heap block gets its element type from the first cast"""
        r = p.reg
        if r.ty == ("void",):
            r.ty = t; sz = self.unit.sizeof(t)
            if r.bytes is not None: r.lens = (self.ediv(r.bytes, sz),)
        return Ptr(r, "", (0,), r.ty, p.null)
    def ediv(self, b, s):
        """bytes / size when the byte count is a multiple by construction"""
        if lit(b): return b // s
        b = z3.simplify(b)
        for q in (b,):
            if z3.is_mul(q) and z3.is_int_value(q.arg(0)) and q.arg(0).as_long() % s == 0:
                r = z3.IntVal(q.arg(0).as_long() // s)
                for a in q.children()[1:]: r = r * a
                return z3.simplify(r)
        if z3.is_add(b):
            xs = []
            for a in b.children():
                y = self.ediv(conc(a), s)
                xs.append(y)
            if all(lit(conc(a)) and conc(a) % s == 0 or not lit(conc(a)) for a in b.children()): return z3.simplify(sum([zi(x) for x in xs[1:]], zi(xs[0])))
        return zi(b) / s
    def e_UnaryOperator(self, st, n):
        op = n["opcode"]; x = n["inner"][0]
        if op == "*": return self.place(st, n)
        if op == "&":
            p = self.place(st, x)
            return p
        if op in ("++", "--"):
            p = self.place(st, x); v = self.load(st, None, p)
            w = self.padd(v, 1 if op == "++" else -1) if isinstance(v, Ptr) else arith("+" if op == "++" else "-", v, 1)
            self.store(st, p, w)
            return v if n.get("isPostfix") else w
        v = self.ev(st, x)
        if op == "-": return arith("-", 0, v) if isz(v) or isbool(v) else -v
        if op == "+": return v
        if op == "!": return bnot(self.truth(v))
        if op == "~": return arith("-", -1, v)
        if op == "__extension__": return v
        raise Unsupported("operator " + op)
    def e_BinaryOperator(self, st, n):
        op = n["opcode"]; a, b = n["inner"]
        if op == "=":
            if self.unit.type(n)[0] == "rec":
                p = self.place(st, a); q = self.place(st, self.strip(b)); self.copy(st, p, q); return p
            v = self.ev(st, b); p = self.place(st, a)
            self.store(st, p, v); return v
        if op == ",": self.ev(st, a); return self.ev(st, b)
        if op in ("&&", "||"):
            c = self.truth(self.ev(st, a))
            c = self.decide(st, c)
            if c is (op == "||"): return c
            if c is (op == "&&"): return self.truth(self.ev(st, b))
            s2 = st.copy(); s2.pc.append(c if op == "&&" else z3.Not(c))
            before = {k: v for k, v in s2.mem.items()}
            d = self.truth(self.ev(s2, b))
            s3 = st.copy(); s3.pc.append(z3.Not(c) if op == "&&" else c)
            changed = any(k in before and s2.mem[k] is not before[k] for k in s2.mem)
            if changed or s2.dead:
                m, _ = self.merge(s2, None, s3, None); st.put(m)
            else:
                for k in s2.mem: st.mem.setdefault(k, s2.mem[k])
            return band(c, d) if op == "&&" else bor(c, d)
        x, y = self.ev(st, a), self.ev(st, b)
        return self.binop(st, op, x, y, self.unit.type(n))
    def strip(self, n):
        while n["kind"] in ("ImplicitCastExpr", "ParenExpr"): n = n["inner"][0]
        return n
    def binop(self, st, op, x, y, t):
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if op in ("==", "!="):
                if isinstance(x, Ptr) and isinstance(y, Ptr):
                    if y.reg is None: r = x.null if x.reg is not None else True
                    elif x.reg is None: r = y.null
                    elif x.reg is y.reg and x.path == y.path and len(x.idx) == len(y.idx): r = conj([cmp("==", i, j) for i, j in zip(x.idx, y.idx)])
                    else: r = False
                    return r if op == "==" else bnot(r)
            if op == "+": return self.padd(x, y) if isinstance(x, Ptr) else self.padd(y, x)
            if op == "-" and isinstance(x, Ptr) and not isinstance(y, Ptr): return self.padd(x, arith("-", 0, y))
            if op == "-" and isinstance(y, Ptr) and x.reg is y.reg: return arith("-", x.idx[-1], y.idx[-1])
            raise Unsupported("pointer operator " + op)
        if self.op_hook is not None:
            v = self.op_hook(self, st, op, x, y, t)
            if v is not None: return v
        if op in ("+", "-", "*"): return arith(op, x, y)
        if op == "/":
            x, y = num(x), num(y)
            if t[0] == "flt":
                if self.bounds and not lit(y): self.oblige(st, "divisor is not zero", cmp("!=", y, 0), "safety") if self.divcheck else None
                return rdiv(x, y)
            if not lit(y) and self.divcheck: self.oblige(st, "integer divisor is not zero", cmp("!=", y, 0), "safety")
            return cdiv(x, y)
        if op == "%":
            return cmod(num(x), num(y))
        if op in ("<", ">", "<=", ">=", "==", "!="): return cmp(op, x, y)
        if op in ("&", "|", "^", "<<", ">>"):
            if op in ("&", "|"):
                bx, by = self.as01(x), self.as01(y)
                if bx is not None and by is not None: return band(bx, by) if op == "&" else bor(bx, by)
            x, y = num(x), num(y)
            if lit(x) and lit(y): return {"&": x & y, "|": x | y, "^": x ^ y, "<<": x << y if y >= 0 else 0, ">>": x >> y if y >= 0 else 0}[op]
            if op == "<<" and lit(y): return arith("*", x, 1 << y)
            if op == ">>" and lit(y): return zi(x) / (1 << y)
            if op == "&" and (lit(x) or lit(y)):
                m, v = (x, y) if lit(x) else (y, x)
                if m >= 0 and (m & (m + 1)) == 0: return zi(v) % (m + 1)
                if m > 0 and (m & (m - 1)) == 0: return ((zi(v) / m) % 2) * m
            if isbool(x) and isbool(y): return band(x, y) if op == "&" else bor(x, y)
        raise Unsupported("operator " + op)
    def as01(self, v):
        """the truth of a value that is 0 or 1 by construction, else None"""
        if isbool(v): return v
        if lit(v): return bool(v) if v in (0, 1) else None
        v = simp(v)
        if z3.is_app_of(v, z3.Z3_OP_ITE) and all(z3.is_int_value(v.arg(i)) and v.arg(i).as_long() in (0, 1) for i in (1, 2)): return self.truth(v)
        return None
    divcheck = False
    def e_CompoundAssignOperator(self, st, n):
        a, b = n["inner"]; v = self.ev(st, b); p = self.place(st, a); old = self.load(st, None, p)
        t = self.unit.type({"type": n.get("computeResultType", n["type"])})
        r = self.binop(st, n["opcode"][:-1], self.conv(old, t) if not isinstance(old, Ptr) else old, v, t)
        self.store(st, p, r); return r
    def e_ConditionalOperator(self, st, n):
        c, a, b = n["inner"]
        cv = self.decide(st, self.truth(self.ev(st, c)))
        if cv is True: return self.ev(st, a)
        if cv is False: return self.ev(st, b)
        s1, s2 = st.copy(), st.copy(); s1.pc.append(cv); s2.pc.append(z3.Not(cv))
        k1, k2 = dict(s1.mem), dict(s2.mem)
        x = self.ev(s1, a); y = self.ev(s2, b)
        pure = all(s1.mem[k] is k1[k] for k in k1) and all(s2.mem[k] is k2[k] for k in k2) and not s1.dead and not s2.dead
        if pure:
            for s in (s1, s2):
                for k in s.mem: st.mem.setdefault(k, s.mem[k])
            if x is None and y is None: return None
            return ite(cv, x, y)
        m, v = self.merge(s1, x, s2, y); st.put(m); return v
    def e_CallExpr(self, st, n):
        f = n["inner"][0]
        while f["kind"] in ("ImplicitCastExpr", "ParenExpr"): f = f["inner"][0]
        if f["kind"] != "DeclRefExpr": raise Unsupported("indirect call")
        nm = f["referencedDecl"]["name"]
        args = [self.ev(st, a) if nm not in LAZY else a for a in n["inner"][1:]]
        return self.call(st, nm, args, n)
    def e_InitListExpr(self, st, n): raise Unsupported("init list")
    # ---- top level
    def param(self, name, ty, **k): pass

def isnear(*a): raise Unsupported("float classification")
def b_malloc(e, st, a):
    r = Region("heap", ("void",), 1, kind="heap"); r.bytes = a[0]; e.reg_of[r.id] = r
    nl = e.fresh("malloc_fails", B) if e.allocfail else False
    return Ptr(r, "", (0,), ("void",), nl)
def b_calloc(e, st, a):
    p = b_malloc(e, st, [arith("*", a[0], a[1])]); p.reg.zeroed = True; return p
def b_exit(e, st, a):
    e.exits.append(list(st.pc)); st.dead = True; st.pc.append(z3.BoolVal(False)); return 0
def b_abs(e, st, a):
    x = a[0]
    if isreal(x): x = trunc(x)
    return abs(x) if lit(x) else z3.If(x >= 0, x, -x)
def b_fabs(e, st, a):
    x = num(a[0])
    if lit(x): return abs(Fraction(x))
    x = zr(x); return z3.If(x >= 0, x, -x)
def mathf(name):
    def f(e, st, a):
        return uf(name, *([R] * (len(a) + 1)))(*[normal(zr(x)) for x in a])
    return f
def b_sqrt(e, st, a):
    x = zr(num(a[0])); v = uf("sqrt", R, R)(x)
    e.facts.append(z3.Implies(x >= 0, z3.And(v >= 0, v * v == x)))
    return v
def b_pow(e, st, a):
    y = conc(a[1]) if isz(a[1]) else a[1]
    if lit(y) and Fraction(y).denominator == 1 and 0 <= y <= 8:
        r = Fraction(1)
        for _ in range(int(y)): r = arith("*", r, a[0])
        return r
    return mathf("pow")(e, st, a)
def b_round(e, st, a):
    x = num(a[0])
    if lit(x): x = Fraction(x); return Fraction(int(x + Fraction(1, 2)) if x >= 0 else -int(-x + Fraction(1, 2)))
    x = zr(x); h = z3.RealVal("1/2")
    return z3.If(x >= 0, z3.ToReal(z3.ToInt(x + h)), -z3.ToReal(z3.ToInt(-x + h)))
NOP = lambda e, st, a: 0
BUILTIN = {"malloc": b_malloc, "calloc": b_calloc, "free": NOP, "exit": b_exit, "abs": b_abs, "labs": b_abs, "fabs": b_fabs, "fabsf": b_fabs, "sqrt": b_sqrt, "sqrtf": b_sqrt,
           "pow": b_pow, "powf": b_pow, "floor": lambda e, st, a: cfloor(a[0]), "round": b_round, "roundf": b_round,
           "ceil": lambda e, st, a: arith("-", 0, cfloor(arith("-", 0, a[0]))),
           "printf": NOP, "fprintf": NOP, "sprintf": NOP, "snprintf": NOP, "write_message": NOP, "puts": NOP, "fflush": NOP}
for _m in "cos sin tan acos asin atan exp log log10 cosf sinf acosf expf logf atan2".split(): BUILTIN[_m] = mathf({"cosf": "cos", "sinf": "sin", "acosf": "acos", "expf": "exp", "logf": "log"}.get(_m, _m))
LAZY = set()

# ------------------------------------------------------------------ driver
class Proof:
    """one function under contract"""
    def __init__(self, c, units, fn, name=None, **kw):
        self.c = c; self.fn = fn; self.name = name or fn
        self.e = Eng(units, name=self.name, **kw); self.st = St(); self.args = []
        u, f = self.e.find(fn)
        if f is None: raise Unsupported("function %s not found" % fn)
        self.u, self.f = u, f
        self.params = [(x.get("name", "_"), u.type(x)) for x in f["inner"] if x["kind"] == "ParmVarDecl"]
        self.vals = {}
        c.track(u.rel + ":" + fn, u.hash_of(fn))
    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        if lo is not None: self.pre(v >= lo)
        if hi is not None: self.pre(v <= hi)
        self.vals[name] = v; return v
    def real(self, name): v = z3.Real(name); self.vals[name] = v; return v
    def set(self, name, v): self.vals[name] = v; return v
    def array(self, name, ty, lens=None, nd=1, init=None, region=None):
        """pointer parameter to a block: nd=1 a vector, nd=2 rows (T**)"""
        r = region or Region(name, ty, nd, lens); self.e.reg_of[r.id] = r
        if init is not None: r.init[""] = init
        pt = ty
        if nd == 2: pt = ("ptr", ty)
        self.vals[name] = Ptr(r, "", (0,), pt); return r
    def scalar_out(self, name, ty):
        r = Region(name, ty, 0); self.e.reg_of[r.id] = r
        self.vals[name] = Ptr(r, "", (), ty); return r
    def pre(self, *fs):
        for f in fs: self.st.pc.append(zb(f))
    def snap(self):
        """fix the entry values of the parameters set so far, for specifications stated over them"""
        for n, v in self.vals.items():
            if isinstance(v, Ptr) and v.reg is not None:
                for lp in self.e.leaves(v.reg.ty): self.e.leaf(self.st, v.reg, lp)
        self.old = self.st.copy()
    def run(self):
        self.e.frames = []
        fr0 = Frame("<spec>", self.u); self.e.frames.append(fr0)
        args = []
        for n, t in self.params:
            if n in self.vals: args.append(self.vals[n])
            elif t[0] == "int": args.append(self.int(n, *(() if t[1] >= 32 else (-(1 << (t[1] - 1)), (1 << (t[1] - 1)) - 1) if t[2] else (0, (1 << t[1]) - 1))))
            elif t[0] == "flt": args.append(self.real(n))
            elif t[0] == "ptr": self.array(n, t[1]) if t[1][0] not in ("ptr",) else self.array(n, t[1][1], nd=2); args.append(self.vals[n])
            else: raise Unsupported("parameter %s of %r" % (n, t))
        # force creation of the initial arrays so that 'old' is well defined
        self.snap()
        v, fr = self.e.run_body(self.st, self.u, self.f, args)
        self.ret = v; self.fr = fr
        self.e.frames = [fr0]
        return v
    def cell(self, name, *idx, old=False, field=None):
        v = self.vals[name] if isinstance(name, str) else name
        return self.e.cellv(self.old if old else self.st, v, idx, field)
    def out(self, name, old=False):
        return zv(self.e.leaf(self.old if old else self.st, self.vals[name].reg, ""))
    def post(self, name, f): self.e.oblige(self.st, name, f, "post")
    def done(self, ms=20000, extra=(), defer=True):
        c = self.c
        c.trivial += getattr(self.e, "trivial", 0)
        if self.st.dead: raise RuntimeError("vacuous: no path of %s returns" % self.fn)
        s = z3.Solver(); s.set("timeout", 600); s.add(*self.e.facts); s.add(*self.st.pc)
        if s.check() == z3.unsat: raise RuntimeError("vacuous: the assumptions of %s contradict each other" % self.fn)
        c.covers += 1
        for f in self.e.inlined:
            for u in self.e.units:
                if f in u.funcs: c.track(u.rel + ":" + f, u.hash_of(f)); break
        return (c.defer if defer else c.discharge)(list(self.e.obls) + list(extra), "%s (%s)%s" % (self.name, self.u.rel, " with " + ", ".join(sorted(self.e.inlined)) if self.e.inlined else ""), ms)
