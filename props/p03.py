"""P03: block results are assembled at their own place in the tile map."""
import z3, os
from vc import pysym as ps
from vc.pysym import SNum, SBool, PArr, SymList, Explorer, Module, Unsupported, _z, real

N = SNum
nx, ny, w, h, X, Y, r, q, R, C = z3.Ints("n_block_x n_block_y block_width block_height X Y r q R C")
I = z3.IntSort()
GEO = [nx >= 1, ny >= 1, w >= 1, h >= 1, 0 <= X, X < nx, 0 <= Y, Y < ny, 0 <= r, r < h, 0 <= q, q < w,
       R == Y * h + r, C == X * w + q]
# consequences of the geometry, proved once as lemmas and then used as facts
FACTS = [R >= 0, R < ny * h, C >= 0, C < nx * w, Y * nx + X < nx * ny, Y * nx + X >= 0, ny * h >= 1, nx * w >= 1, nx * ny >= 1]
HINTS = [(Y, X), (Y, r), (X, q), (Y * nx + X, q), (ny, z3.IntVal(0)), (nx, z3.IntVal(0)), (w, z3.IntVal(0)), (h, z3.IntVal(0)), (R, C), (ny * h, z3.IntVal(0)), (nx * w, z3.IntVal(0)),
         (r, q), (nx * ny, z3.IntVal(0))]

def uniq(a, b, qq, qh, rh):
    """instance of the uniqueness lemma: a = qh*b+rh and qq*b <= a < (qq+1)*b imply qq = qh"""
    return z3.Implies(z3.And(b > 0, a == qh * b + rh, rh >= 0, rh < b, a >= qq * b, a < (qq + 1) * b), qq == qh)

class Info:
    def __init__(self):
        self.n_rows, self.n_cols, self.n_block_x, self.n_block_y = N(ny * h), N(nx * w), N(nx), N(ny)
        self.nblocks, self.block_width, self.block_height = N(nx * ny), N(w), N(h)

def lemmas(c):
    k1, k2 = z3.Ints("k1 k2")
    c.discharge(ps.euclid_lemma(), "lemma euclid_unique")
    a, b, c1, c2 = z3.Ints("a b c1 c2")
    mono = ("lemma: a <= b-1 and c >= 1 give a*c <= (b-1)*c", [a <= b - 1, c1 >= 1], a * c1 <= (b - 1) * c1, None, "lemma")
    pos = ("lemma: product of positives", [a >= 1, b >= 1], a * b >= 1, None, "lemma")
    nn = ("lemma: product of non-negatives", [a >= 0, b >= 1], a * b >= 0, None, "lemma")
    H = [Y * h <= (ny - 1) * h, X * w <= (nx - 1) * w, Y * nx <= (ny - 1) * nx, ny * h >= 1, nx * w >= 1, nx * ny >= 1, Y * h >= 0, X * w >= 0, Y * nx >= 0]
    c.discharge([mono, pos, nn, ("lemma: the pixel lies inside the tile", GEO + H, z3.And(*FACTS), None, "lemma"),
                 ("lemma: quotient bracket is unique", [c1 > 0, a == c2 * c1 + k1, k1 >= 0, k1 < c1, a >= b * c1, a < (b + 1) * c1, z3.Implies(b >= c2 + 1, b * c1 >= (c2 + 1) * c1), z3.Implies(b <= c2 - 1, (b + 1) * c1 <= c2 * c1)], b == c2, None, "lemma")],
                "lemmas of the block grid")

def run(c):
    m = {}
    def load():
        from vc import facades as fc
        f = dict(os.environ)
        m['u'] = Module(c.repo, "pycold/utils.py"); c.track("utils.py", m['u'].hash_all())
        m['o'] = Module(c.repo, "pycold/ob_analyst.py"); c.track("ob_analyst.py", m['o'].hash_all())
    c.guard("modules", load)
    c.guard("lemmas", lambda: lemmas(c))
    V = z3.Function("V", I, I, I, I, z3.RealSort())      # value of block b at in-block (row, col), layer
    nf, t = z3.Ints("n_layers t")

    def asm():
        f = m['u'].fn("assemble_array")
        ex = Explorer("assemble_array", GEO + FACTS + [nf >= 1, 0 <= t, t < nf], hints=HINTS)
        def body(p):
            L = SymList(N(nx * ny), lambda k: PArr((N(h), N(w), N(nf)), lambda i, j, l: N(V(_z(k), _z(i), _z(j), _z(l)))))
            out = f(L, N(nx))
            if not isinstance(out, PArr): p.oblige("an array is returned", z3.BoolVal(False)); return
            p.oblige("tile has n_block_y * block_height rows", _z(out.shape[0]) == ny * h, kind="post")
            p.oblige("tile has n_block_x * block_width columns", _z(out.shape[1]) == nx * w, kind="post")
            p.oblige("pixel (R, C) holds the value of its block at its in-block place", _z(out.at(N(R), N(C), N(t))) == V(Y * nx + X, r, q, t), kind="post")
        c.explore(ex, body, "assemble_array (utils.py), any grid and number of layers")
    c.guard("assemble_array", asm)

    def cmm(prefix):
        u = m['u']; f = u.fn("assemble_cmmaps")
        n_cm, start, itv, T = z3.Ints("n_cm start interval T")
        ex = Explorer("assemble_cmmaps(%s)" % prefix, GEO + FACTS + [n_cm >= 1, 0 <= T, T < n_cm, start >= 1, itv >= 1], hints=HINTS + [(r * w + q, T), (r, q)])
        loaded = {}
        def body(p):
            saves = []
            def on_load(path):
                args, tm = ps.unfmt(path)
                if tm != "/res/%s_x<>_y<>.npy" % prefix or len(args) != 2: raise Unsupported("unexpected file name " + tm)
                bx, by = _z(args[0][0]), _z(args[1][0])
                if args[0][1] or args[1][1]: raise Unsupported("format of block numbers")
                p.oblige("the block read is a block of the grid", z3.And(bx >= 1, bx <= nx, by >= 1, by <= ny), kind="post")
                # block file: pixels x intervals, pixel i*w+j of block (by-1)*nx+(bx-1) at interval t
                return PArr((N(w * h), N(n_cm)), lambda k, t_: N(W(bx, by, _z(k), _z(t_))))
            ex.on_load = on_load
            def on_save(path, a):
                args, tm = ps.unfmt(path)
                p.oblige("map %s is named after its date" % prefix, z3.And(z3.BoolVal(tm.startswith("/cm/%s_maps_<>_" % prefix)), _z(args[0][0]) == start + ps.CUR.loops_index() * itv) if args else z3.BoolVal(False), kind="post")
                p.oblige("map has the tile's shape", z3.And(_z(a.shape[0]) == ny * h, _z(a.shape[1]) == nx * w) if a.ndim == 2 else z3.BoolVal(False), kind="post")
                p.oblige("pixel (R, C) of the map of interval T is its own block's value", z3.Implies(ps.CUR.loops_index() == T, _z(a.at(N(R), N(C))) == W(X + 1, Y + 1, r * w + q, T)), kind="post")
                saves.append(1)
            ex.on_save = on_save
            f(Info(), "/res", "/cm", N(start), N(n_cm), prefix, N(itv), clean=False)
        W = z3.Function("W", I, I, I, I, z3.RealSort())
        nan = z3.RealVal(-9999)
        def inv(loop, i, loc):
            L = loc['*']; ml = L.get("cm_map_list")
            if ml is None or not isinstance(ml, SymList): return []
            v = real(_z(ml.get(N(T)).at(N(R), N(C)))); good = W(X + 1, Y + 1, r * w + q, T)
            mine = Y * nx + X
            # outer loop over blocks, inner loop over maps, final loop over maps (saving)
            depth = [x for x in ps.CUR.loops if x[0] != loop.lid]
            b = blk.get('b')
            if getattr(loop, 'kind', None) is None:
                loop.kind = "inner" if depth else ("blocks" if not blk.get('seen') else "save")
                if loop.kind == "blocks": blk['seen'] = True; blk['loop'] = loop
            if loop.kind == "blocks":
                return [("maps hold the blocks read so far", v == z3.If(mine < _z(i), good, v)), ]
            if loop.kind == "inner":
                cx, cy = L.get("current_block_x"), L.get("current_block_y"); bi = _z(blk['loop'].i)
                for cur, a, b_, qh, rh in ((cy, R, h, Y, r), (cx, C, w, X, q)):
                    if cur is not None: ps.CUR.assume(uniq(a, b_, _z(cur) - 1, qh, rh))
                # a block other than mine leaves (R, C) alone; mine fills map T once its turn has come
                return [("earlier blocks stay", z3.Implies(mine < bi, v == good)), ("own block fills map T", z3.Implies(z3.And(mine == bi, T < _z(i)), v == good))]
            return [("maps are complete", v == good)]
        blk = {}
        def body2(p):
            blk.clear(); body(p)
        ex.loopinv = inv
        def loops_index(self):
            return self.cur_save.i.t if getattr(self, 'cur_save', None) is not None else z3.IntVal(0)
        ps.Path.loops_index = loops_index
        real_enter = ps.Loop.enter
        def enter(self, loc):
            rr = real_enter(self, loc); ps.CUR.cur_save = self; return rr
        ps.Loop.enter = enter
        # external calls of the naming part: calendar functions are uninterpreted here (P11 decides them)
        class TS:
            @staticmethod
            def fromordinal(o):
                class D: year = SNum(z3.Function("year", I, I)(_z(o)))
                return D
        class PD: Timestamp = TS
        old = {k: u.ns.get(k) for k in ("pd", "get_doy", "join")}
        u.ns["pd"] = PD; u.ns["get_doy"] = lambda o: SNum(z3.Function("doy", I, I)(_z(o)))
        u.ns["join"] = lambda *a: "/".join(a)
        try: c.explore(ex, body2, "assemble_cmmaps (utils.py), prefix %s, any grid and number of intervals" % prefix)
        finally:
            ps.Loop.enter = real_enter
            for k, v in old.items(): u.ns[k] = v
    for prefix in ("CM", "CM_date", "CM_direction"):
        c.guard("assemble_cmmaps " + prefix, lambda: cmm(prefix))

    def obia():
        o = m['o']; cls = o.ns["ObjectAnalystHPC"]
        CH, DT = z3.Function("change", I, I, I), z3.Function("date", I, I, I)
        a_, b_ = z3.Ints("a_ b_")
        ex = Explorer("save_obiaresult", GEO + FACTS + [z3.Or(CH(R, C) == 0, CH(R, C) == 1)], hints=HINTS)
        class Self: pass
        class Tricks:
            class lib:
                class stride_tricks:
                    @staticmethod
                    def as_strided(a, shape=None, strides=None):
                        """contract: a C-contiguous int32 array; element (i..) is flat element sum(i*stride)/4"""
                        if a.ndim != 2: raise Unsupported("as_strided rank")
                        rows, cols = a.shape; f = a.snap()
                        st = []
                        for s in strides:
                            s = _z(s); st.append(z3.simplify(s / 4)); ps.CUR.oblige("stride is a whole number of elements", s % 4 == 0)
                        last = sum([(_z(k) - 1) * e for k, e in zip(shape, st)], z3.IntVal(0))
                        def g(*i):
                            fl = sum([_z(x) * e for x, e in zip(i, st)], z3.IntVal(0))
                            qq, rr = ps.CUR.euclid(fl, _z(cols))
                            ps.CUR.oblige("strided element lies inside the array", z3.And(fl >= 0, qq < _z(rows)))
                            return f(N(qq), N(rr))
                        return PArr(tuple(shape), g)
        npx = ps.NP({"lib": Tricks.lib, "multiply": ps._map2(lambda a, b: a * b)})
        old = {k: o.ns.get(k) for k in ("np", "join", "open", "obiaresname_fromdate")}
        o.ns["np"] = npx; o.ns["join"] = lambda *a: "/".join(a)
        class Fh:
            def __enter__(s): return s
            def __exit__(s, *a): return False
        o.ns["open"] = lambda *a, **k: Fh(); o.ns["obiaresname_fromdate"] = lambda d: "obiaresult_" + format(d, "")
        def body(p):
            s = Self(); s.dataset_info = Info(); s.obia_path = "/ob"
            ch = PArr((N(ny * h), N(nx * w)), lambda i, j: N(CH(_z(i), _z(j)))); ch.dtype = "int"
            dm = PArr((N(ny * h), N(nx * w)), lambda i, j: N(DT(_z(i), _z(j)))); dm.dtype = "int"
            d = z3.Int("date_")
            def on_save(path, a):
                args, tm = ps.unfmt(path)
                if tm != "/ob/obiaresult_<>_x<>_y<>.npy": raise Unsupported("unexpected file name " + tm)
                bx, by = _z(args[1][0]), _z(args[2][0])
                p.oblige("the block written is a block of the grid", z3.And(bx >= 1, bx <= nx, by >= 1, by <= ny), kind="post")
                mine = z3.And(bx == X + 1, by == Y + 1)
                if a.ndim != 2: p.oblige("block is two-dimensional", z3.BoolVal(False)); return
                p.oblige("block has the block's shape", z3.And(_z(a.shape[0]) == h, _z(a.shape[1]) == w), kind="post")
                p.assume(mine)
                p.oblige("block pixel (r, q) is the tile's pixel (R, C)", real(_z(a.at(N(r), N(q)))) == real(z3.If(z3.And(CH(R, C) == 1, DT(R, C) > 0), DT(R, C), z3.IntVal(0))), kind="post")
            ex.on_save = on_save
            cls.save_obiaresult(s, N(d), ch, dm)
        try: c.explore(ex, body, "ObjectAnalystHPC.save_obiaresult, any grid")
        finally:
            for k, v in old.items():
                if v is None: o.ns.pop(k, None)
                else: o.ns[k] = v
    c.guard("save_obiaresult", obia)
    c.assumptions += ["np.hstack/vstack/hsplit/as_strided/reshape contracts (facade)", "block files hold pixels in row-major order", "file listing, numeric sorting of block files and the export driver are decided by the concrete oracle only (bounded)"]
    c.bounded += ["listing and sorting of per-block files, PyClassifierHPC steps, export_change_map driver: concrete grids up to 12 blocks"]
    c.oracle("o_assemble.py", timeout=300)
