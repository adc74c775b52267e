"""P02: pixel, block and tile addresses convert into each other without loss."""
import z3
from vc import pysym as ps
from vc.pysym import SNum, Explorer, Module

def run(c):
    m = {}
    def load():
        m['u'] = Module(c.repo, "pycold/utils.py"); m['c'] = m['u'].cache.get("pycold/common.py") or Module(c.repo, "pycold/common.py")
    c.guard("utils.py", load)
    I = z3.Int
    nbx, nby, w, h, bx, by, i, j, b = [I(x) for x in "nbx nby w h bx by i j b".split()]
    pos_geo = [nbx >= 1, nby >= 1, w >= 1, h >= 1]
    N = SNum
    def lemma():
        c.discharge(ps.euclid_lemma(), "lemma euclid_unique")
    c.guard("lemma", lemma)

    def blocks():
        u = m['u']; c.track("utils.py", u.hash_all())
        ex = Explorer("get_block_x/get_block_y", pos_geo + [b >= 1, b <= nbx * nby, bx >= 1, bx <= nbx, by >= 1, by <= nby],
                      hints=[(by - 1, bx - 1)])
        def body(p):
            x = ps._z(u.fn("get_block_x")(N(b), N(nbx))); y = ps._z(u.fn("get_block_y")(N(b), N(nbx)))
            p.oblige("block column in 1..n_block_x", z3.And(x >= 1, x <= nbx), kind="post")
            p.oblige("block row at least 1", y >= 1, kind="post")
            p.oblige("row-major: (y-1)*n_block_x + x is the block number", (y - 1) * nbx + x == b, kind="post")
            p.oblige("block cell (bx,by) is the cell of block (by-1)*nbx+bx", z3.Implies(b == (by - 1) * nbx + bx, z3.And(x == bx, y == by)), kind="post")
        c.explore(ex, body, "get_block_x, get_block_y (utils.py)")
    c.guard("get_block_x/y", blocks)

    # a pixel (i, j) of block (bx, by): tile row r, column q (0-based), pos = r*n_cols + q + 1
    r = (by - 1) * h + i; q = (bx - 1) * w + j
    r_, q_, nc, pos = I("r"), I("q"), I("n_cols"), I("pos")
    pix = pos_geo + [bx >= 1, bx <= nbx, by >= 1, by <= nby, i >= 0, i < h, j >= 0, j < w,
                     r_ == r, q_ == q, nc == nbx * w, pos == r_ * nc + q_ + 1,
                     # consequences of the geometry (products of ordered terms; proved below)
                     q_ < nc, q_ >= 0, r_ >= 0]
    def geom():
        base = [x for x in pix[:-3]]
        c.discharge([("geometry: a block's pixel lies inside the tile", base + [(bx - 1) * w <= (nbx - 1) * w, (by - 1) * h >= 0, (bx - 1) * w >= 0], z3.And(q_ < nc, q_ >= 0, r_ >= 0), None, "lemma"),
                     ("geometry: monotone product", [bx <= nbx, w >= 1], (bx - 1) * w <= (nbx - 1) * w, None, "lemma"),
                     ("geometry: non-negative product", [bx >= 1, w >= 1], (bx - 1) * w >= 0, None, "lemma")], "lemma block geometry")
    c.guard("geometry", geom)
    hints = [(r_, q_), (by - 1, i), (bx - 1, j), (i, j), (r_ - (by - 1) * h, j)]
    def pixel(name, body):
        def f():
            u = m['u']
            ex = Explorer(name, pix, hints=hints)
            c.explore(ex, lambda p: body(p, u.fn(name)), name + " (utils.py)")
        c.guard(name, f)
    def b1(p, f):
        g = ps._z(f(N(pos), N(nc), N(bx), N(w)))
        p.oblige("in-block column of the pixel", g == j, kind="post")
    pixel("get_col_index", b1)
    def b2(p, f):
        g = ps._z(f(N(pos), N(nc), N(by), N(h)))
        p.oblige("in-block row of the pixel", g == i, kind="post")
    pixel("get_row_index", b2)
    def b3(p, f):
        g = ps._z(f(N(pos), N(w), N(h), N(nc)))
        p.oblige("index of the pixel in its block", g == i * w + j, kind="post")
    pixel("get_id_inblock", b3)
    def b4(p, f):
        idx = z3.Int("idx")
        p.assume(idx == i * w + j); p.assume(idx >= 0)
        t = f(N(idx), N(w), N(h), N(bx), N(by))
        p.oblige("tile row (from 1) of the in-block index", ps._z(t[0]) == r_ + 1, kind="post")
        p.oblige("tile column (from 1) of the in-block index", ps._z(t[1]) == q_ + 1, kind="post")
    pixel("get_rowcol_intile", b4)
    def ds():
        D = m['c'].fn("DatasetInfo")
        c.track("common.py", m['c'].hash_all())
        nr, ncl = z3.Ints("nr ncl")
        ex = Explorer("DatasetInfo", pos_geo + [nr == nby * h, ncl == nbx * w], hints=[(w, z3.IntVal(0)), (h, z3.IntVal(0))])
        def body(p):
            p.assume(nr >= 0); p.assume(ncl >= 0)
            d = D(n_rows=N(nr), n_cols=N(ncl), n_block_x=N(nbx), n_block_y=N(nby))
            p.oblige("block width is columns / block columns", ps._z(d.block_width) == w, kind="post")
            p.oblige("block height is rows / block rows", ps._z(d.block_height) == h, kind="post")
            p.oblige("number of blocks is the product", ps._z(d.nblocks) == nbx * nby, kind="post")
        c.explore(ex, body, "DatasetInfo.__post_init__ (common.py)")
    c.guard("DatasetInfo", ds)
    c.assumptions += ["int(a / b) of integers is the integer quotient: true division in binary64 is exact enough for a + b < 2^53",
                      "the tile splits evenly into blocks"]
    c.oracle("o_addr.py", timeout=200)
