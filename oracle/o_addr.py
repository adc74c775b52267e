from common import *
py_package()
from pycold import utils as u, common as cm
rng = random.Random(SEED); n = 0; geos = 0
def chk(what, inp, exp, got):
    global n
    n += 1
    try: ok = (got == exp) and all(float(x) == int(x) for x in (got if isinstance(got, tuple) else (got,)))
    except Exception: ok = False
    if not ok: violation(what, inp, exp, got); return False
    return True
def geo(nbx, nby, w, h, pix):
    global geos
    geos += 1
    g = dict(n_block_x=nbx, n_block_y=nby, block_width=w, block_height=h)
    nc, nr = nbx * w, nby * h
    d = cm.DatasetInfo(n_rows=nr, n_cols=nc, n_block_x=nbx, n_block_y=nby)
    if not chk("DatasetInfo geometry", g, (w, h, nbx * nby), (d.block_width, d.block_height, d.nblocks)): return False
    seen = set()
    for b in range(1, min(nbx * nby, 200) + 1):
        x, y = u.get_block_x(b, nbx), u.get_block_y(b, nbx)
        if not chk("block number to block cell", dict(g, block=b), ((b - 1) % nbx + 1, (b - 1) // nbx + 1), (x, y)): return False
    for (r, q) in pix:
        bx, by, i, j = q // w + 1, r // h + 1, r % h, q % w
        pos = r * nc + q + 1
        inp = dict(g, row=r, col=q, pos=pos)
        for mk in (int, np.int32, np.int64):
            P = mk(pos)
            if not (chk("in-block column", inp, j, u.get_col_index(P, nc, bx, w)) and chk("in-block row", inp, i, u.get_row_index(P, nc, by, h))
                and chk("in-block index", inp, i * w + j, u.get_id_inblock(P, w, h, nc))
                and chk("tile row and column of an in-block index", inp, (r + 1, q + 1), tuple(u.get_rowcol_intile(mk(i * w + j), w, h, bx, by)))): return False
    return True
ok = True
for nbx in range(1, 5):
    for nby in range(1, 5):
        for w in range(1, 5):
            for h in range(1, 5):
                ok = ok and geo(nbx, nby, w, h, [(r, q) for r in range(nby * h) for q in range(nbx * w)])
for _ in range(300 if not THOROUGH else 5000):
    if not ok: break
    nbx, nby, w, h = [rng.choice([1, 2, 3, 5, 7, 10, 20, 50]) for _ in range(2)] + [rng.choice([1, 3, 10, 100, 125, 250, 366]) for _ in range(2)]
    pix = [(0, 0), (nby * h - 1, nbx * w - 1), (0, nbx * w - 1), (nby * h - 1, 0)] + [(rng.randrange(nby * h), rng.randrange(nbx * w)) for _ in range(20)]
    ok = geo(nbx, nby, w, h, pix)
stats(evaluations=n, distinct_nontrivial=geos, rule="every geometry up to 4x4 blocks of 4x4 pixels with every pixel, plus random larger ones; non-trivial: distinct geometries", samples=[{"n_block_x": 3, "n_block_y": 2, "block_width": 4, "block_height": 5, "row": 7, "col": 9}])
