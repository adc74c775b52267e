from common import *
import threading, tempfile, logging, datetime, io, contextlib
m = py_package()
from pycold import utils as u, pyclassifier as pc, common as cm
from pycold.common import DatasetInfo
try: from pycold import ob_analyst as oa
except Exception as e: oa = None; emit(note=repr(e))
from pycold.imagetool import export_change_map as ex
from osgeo import gdal
gdal.UseExceptions()
rng = np.random.default_rng(SEED); n = 0; nt = 0
pc.time.sleep = lambda *_: None
GEO = [(1, 1, 3, 2), (2, 3, 4, 5), (3, 2, 5, 4), (4, 3, 2, 3), (1, 4, 6, 2), (5, 1, 2, 7), (3, 4, 3, 3), (6, 2, 1, 4), (2, 6, 4, 1)]
if THOROUGH: GEO += [tuple(int(x) for x in rng.integers(1, 7, 4)) for _ in range(60)]
def cut(tile, g, x, y):
    nx, ny, w, h = g
    return tile[(y - 1) * h:y * h, (x - 1) * w:x * w]
def geo(g): return DatasetInfo(n_rows=g[1] * g[3], n_cols=g[0] * g[2], n_block_x=g[0], n_block_y=g[1])
def inp(g, **k): return dict(n_block_x=g[0], n_block_y=g[1], block_width=g[2], block_height=g[3], **k)
bad = False
def cmp(what, i, want, got):
    global n, nt, bad
    n += 1; nt += i["n_block_x"] != i["n_block_y"]
    ok = isinstance(got, np.ndarray) and got.shape == want.shape and np.array_equal(np.asarray(got, float), np.asarray(want, float), equal_nan=True)
    if not ok:
        bad = True
        e = None
        if isinstance(got, np.ndarray) and got.shape == want.shape:
            p = np.argwhere(~(np.asarray(got, float) == np.asarray(want, float)))
            if len(p): e = [int(x) for x in p[0]]
        violation(what, dict(i, first_bad_pixel=e), want.shape if e is None else float(want[tuple(e)]), (getattr(got, "shape", repr(got)) if e is None else float(got[tuple(e)])))
    return ok
def fail(what, i, e):
    global bad
    bad = True; violation(what, i, "no error", repr(e))
def mk(g, lo=-32000, hi=32000, dt=np.int32): return rng.integers(lo, hi, (g[1] * g[3], g[0] * g[2])).astype(dt)

# block lists
for g in GEO:
    if bad: break
    nx, ny, w, h = g
    for f in (1, 3):
        T = rng.integers(0, 10 ** 6, (ny * h, nx * w, f))
        L = [cut(T, g, b % nx + 1, b // nx + 1) for b in range(nx * ny)]
        try: cmp("assemble_array", inp(g, features=f), T, u.assemble_array([x.copy() for x in L], nx))
        except Exception as e: fail("assemble_array", inp(g), e)
# change magnitude maps
for g in GEO:
    if bad: break
    d = geo(g); nx, ny, w, h = g
    with tempfile.TemporaryDirectory(dir=SCRATCH) as t:
        r, c = os.path.join(t, "r"), os.path.join(t, "c"); os.mkdir(r); os.mkdir(c)
        k = int(rng.integers(1, 5)); start = int(rng.integers(723900, 738000)); itv = int(rng.choice([1, 32, 60, 365]))
        for prefix, dt in (("CM", np.int16), ("CM_date", np.int32), ("CM_direction", np.uint8)):
            Ts = [mk(g, 0 if dt == np.uint8 else -9999, 255 if dt == np.uint8 else 32000 if dt == np.int16 else 900000, dt) for _ in range(k)]
            for y in range(1, ny + 1):
                for x in range(1, nx + 1):
                    np.save(os.path.join(r, "%s_x%d_y%d.npy" % (prefix, x, y)), np.stack([cut(T, g, x, y).ravel() for T in Ts], axis=1).reshape([(w * h, k), (h, w, k), (w * h * k,)][(x + y) % 3]))
            cl = prefix != "CM"
            try:
                with contextlib.redirect_stdout(io.StringIO()): u.assemble_cmmaps(d, r, c, start, k, prefix, itv, clean=cl)
            except Exception as e: fail("assemble_cmmaps", inp(g, prefix=prefix, n_cm=k), e); break
            for j in range(k):
                od = start + j * itv; D = datetime.date.fromordinal(od)
                fn = "%s_maps_%d_%d%03d.npy" % (prefix, od, D.year, D.timetuple().tm_yday)
                try: got = np.load(os.path.join(c, fn))
                except OSError as e: got = "missing %s, have %s" % (fn, sorted(os.listdir(c))[:4])
                if not cmp("change-magnitude map %s number %d" % (prefix, j), inp(g, n_cm=k, start=start, interval=itv), Ts[j], got): break
                if got.dtype != dt: fail("type of " + prefix, inp(g), got.dtype)
            if cl == any(f.startswith(prefix + "_x") for f in os.listdir(r)): fail("intermediate files of %s: clean=%s" % (prefix, cl), inp(g), sorted(os.listdir(r))[:5])
            if bad: break
# object analysis maps
for g in GEO if oa else []:
    if bad: break
    d = geo(g); nx, ny, w, h = g
    with tempfile.TemporaryDirectory(dir=SCRATCH) as t:
        os.mkdir(os.path.join(t, "s")); start = 735000
        o = oa.ObjectAnalystHPC(d, os.path.join(t, "s"), t, start, cmmap_path=os.path.join(t, "cm")); o.hpc_preparation()
        dates = sorted(int(x) for x in rng.choice(np.arange(start, start + 4000), 4, replace=False)); want = {}
        for dte in [dates[2], dates[0], dates[3], dates[1]]:
            ch = (rng.random((ny * h, nx * w)) < .6).astype(np.byte)
            dm = rng.integers(start, start + 4000, (ny * h, nx * w)).astype(np.int32); dm[rng.random(dm.shape) < .3] = -9999
            want[dte] = np.where((ch == 1) & (dm > 0), dm, 0)
            try: o.save_obiaresult(dte, ch.copy(), dm.copy())
            except Exception as e: fail("save_obiaresult", inp(g), e); break
        if bad: break
        if o.is_finished_object_analysis(dates) is not True or o.is_finished_object_analysis(dates + [5]) is not False: fail("is_finished_object_analysis", inp(g), "wrong")
        for y in range(1, ny + 1):
            for x in range(1, nx + 1):
                if bad: break
                try: got = o.get_allobiaresult_asarray(x, y)
                except Exception as e: fail("get_allobiaresult_asarray", inp(g), e); break
                W = np.stack([cut(want[q], g, x, y).ravel() for q in dates])
                cmp("object analysis result of block (%d,%d)" % (x, y), inp(g, dates=dates), W, got)
        # obia_execute before the first full interval: zero maps of the tile's shape
        try:
            o.obia_execute(start + 10)
        except Exception as e: fail("obia_execute at the start", inp(g), e)
        # reconstruction reads the block's own data and reports tile positions
        if bad: break
        bands = rng.integers(0, 5000, (3, ny * h, nx * w, 8)).astype(np.int16)
        sd = [2001, 2003, 2002]
        for y in range(1, ny + 1):
            for x in range(1, nx + 1):
                fo = os.path.join(t, "s", "block_x%d_y%d" % (x, y)); os.mkdir(fo)
                for q, yr in enumerate(sd):
                    np.save(os.path.join(fo, "LE7045030%d%03dxxxx.npy" % (yr, 100 + q)), bands[q, (y - 1) * h:y * h, (x - 1) * w:x * w].reshape(h * w, 8))
        seen = {}
        def fake(dates_, b, g_, r_, n_, s1, s2, t_, q_, br, pos=None, conse=None, **k):
            seen[pos] = (list(map(int, dates_)), np.stack([b, g_, r_, n_, s1, s2, t_, q_], 1), np.asarray(br)); z = np.zeros(1, cm.reccg_dt); z["pos"] = pos; return z
        oa.obcold_reconstruct = fake
        order = [0, 2, 1]; dd = [datetime.date(sd[q], 1, 1).toordinal() + 99 + q for q in order]
        all_dates = sorted(set(dates + [start + 10])); want[start + 10] = np.zeros((ny * h, nx * w), int)
        for b in range(1, nx * ny + 1):
            try: res = o.reconstruct_reccg(b, conse=5); o.save_obcoldrecords(b, res)
            except Exception as e: fail("reconstruct_reccg of block %d" % b, inp(g), e); break
        if bad: break
        for R in range(ny * h):
            for C in range(nx * w):
                pos = R * nx * w + C + 1; n += 1
                s = seen.get(pos)
                if s is None or s[0] != dd or not np.array_equal(s[1], np.stack([bands[q, R, C] for q in order])) or not np.array_equal(s[2], [want[q][R, C] for q in all_dates]):
                    fail("series handed to the reconstruction", inp(g, row=R, col=C), "missing position" if s is None else "other pixel's data"); break
            if bad: break
        if bad: break
        for b in range(1, nx * ny + 1):
            x, y = (b - 1) % nx + 1, (b - 1) // nx + 1
            f = os.path.join(t, "obcold", "record_change_x%d_y%d_obcold.npy" % (x, y))
            if not os.path.exists(f): fail("saved records", inp(g, block=b), "missing"); break
            P = sorted(np.load(f)["pos"].tolist()); W = sorted((R * nx * w + C + 1) for R in range((y - 1) * h, y * h) for C in range((x - 1) * w, x * w))
            if P != W: fail("records of block %d" % b, inp(g), "other positions"); break
# classification features and cover maps
FE = ["a0", "a1", "b1"]; lg = logging.getLogger("q"); lg.addHandler(logging.NullHandler()); lg.propagate = False
def recs(g, x, y, pixels, years):
    nx, ny, w, h = g; L = []
    for (i, j) in pixels:
        R, C = (y - 1) * h + i, (x - 1) * w + j
        a = np.zeros(2, cm.reccg_dt); a["pos"] = R * nx * w + C + 1
        a["t_start"] = [datetime.date(1984, 1, 1).toordinal(), datetime.date(2001, 1, 1).toordinal()]; a["t_end"] = [datetime.date(2000, 6, 1).toordinal(), datetime.date(2020, 1, 1).toordinal()]
        a["t_break"] = [datetime.date(2000, 3, 1 + (R + C) % 28).toordinal(), 0]; a["change_prob"] = [100, 0]
        a["coefs"] = rng.normal(0, 50, (2, 7, 8)); a["coefs"][:, :, 1] = 0
        a["magnitude"] = rng.normal(0, 500, (2, 7)); L.append(a)
    return np.concatenate(L) if L else np.zeros(0, cm.reccg_dt)
for g in GEO:
    if bad: break
    d = geo(g); nx, ny, w, h = g
    with tempfile.TemporaryDirectory(dir=SCRATCH) as t:
        yrs = [1999, 2005]
        try: o = pc.PyClassifierHPC(d, t, year_list_to_predict=list(yrs), feature_outputs=list(FE), logger=lg); o.hpc_preparation()
        except Exception as e: fail("PyClassifierHPC", inp(g), e); break
        W = {y_: np.full((ny * h, nx * w, 21), -9999.) for y_ in yrs}; allrec = {}
        empty = int(rng.integers(1, nx * ny + 1)) if nx * ny > 2 else 0
        for y in range(1, ny + 1):
            for x in range(1, nx + 1):
                px = [(i, j) for i in range(h) for j in range(w) if rng.random() < .85]
                if (y - 1) * nx + x == empty: continue
                if not px: px = [(0, 0)]
                a = recs(g, x, y, px, yrs); allrec[x, y] = a
                np.save(os.path.join(t, "record_change_x%d_y%d_cold.npy" % (x, y)), a)
                for q in range(0, len(a), 2):
                    R, C = divmod(int(a[q]["pos"]) - 1, nx * w)
                    for s, yy in enumerate(yrs):
                        for b in range(7): W[yy][R, C, b * 3:b * 3 + 3] = [a[q + s]["coefs"][b][0], a[q + s]["coefs"][b][2], a[q + s]["coefs"][b][3]]
        try:
            for b in rng.permutation(np.arange(1, nx * ny + 1)): o.step1_feature_generation(block_id=int(b))
        except Exception as e: fail("step1_feature_generation", inp(g), e); break
        if not o.is_finished_step1_predict_features(): fail("is_finished_step1_predict_features", inp(g), False); break
        for yy in yrs:
            try: got = u.assemble_array(o.get_fullfeature_forcertainyear(yy), nx)
            except Exception as e: fail("assembled features", inp(g), e); break
            if not cmp("assembled features of %d" % yy, inp(g), W[yy].astype(np.float32), got.astype(np.float32) if hasattr(got, "astype") else got): break
        if bad: break
        class RF:
            def predict(self, X): return (np.abs(X[:, 0]).astype(np.int64) * 3 + X.shape[1]) % 9
        o._save_rf_model(None, o.rf_path); o._get_rf_model = lambda: RF()
        try:
            for b in rng.permutation(np.arange(1, nx * ny + 1)): o.step3_classification(block_id=int(b))
            o.step4_assemble(clean=True)
        except Exception as e: fail("classification", inp(g), e); break
        if not o.is_finished_step4_assemble(): fail("is_finished_step4_assemble", inp(g), False); break
        for yy in yrs:
            got = np.load(os.path.join(t, "feature_maps", "yearlyclassification_%d.npy" % yy))
            if not cmp("cover map of %d" % yy, inp(g), np.where((W[yy] == -9999).all(axis=2), 255, (np.abs(W[yy][:, :, 0].astype(np.float32)).astype(np.int64) * 3 + 21) % 9), got): break
        if bad: break
        # whole-tile export, single process and three processes
        ref = os.path.join(t, "ref.tif"); D = gdal.GetDriverByName("GTiff").Create(ref, nx * w, ny * h, 1, gdal.GDT_Int16); D.SetGeoTransform((1000, 30, 0, 5000, 0, -30)); del D
        open(os.path.join(t, "c.yaml"), "w").write("DATASETINFO:\n  n_rows: %d\n  n_cols: %d\n  n_block_x: %d\n  n_block_y: %d\n" % (ny * h, nx * w, nx, ny))
        if empty: np.save(os.path.join(t, "record_change_x%d_y%d_cold.npy" % ((empty - 1) % nx + 1, (empty - 1) // nx + 1)), recs(g, (empty - 1) % nx + 1, (empty - 1) // nx + 1, [(0, 0)], yrs))
        if empty: allrec[(empty - 1) % nx + 1, (empty - 1) // nx + 1] = np.load(os.path.join(t, "record_change_x%d_y%d_cold.npy" % ((empty - 1) % nx + 1, (empty - 1) // nx + 1)))
        BM = np.full((ny * h, nx * w), -9999); CF = {yy: np.full((ny * h, nx * w, 2), -9999.) for yy in (1999, 2000, 2001)}
        for a in allrec.values():
            for q in range(0, len(a), 2):
                R, C = divmod(int(a[q]["pos"]) - 1, nx * w); BM[R, C] = datetime.date.fromordinal(int(a[q]["t_break"])).timetuple().tm_yday
                for yy in CF:
                    s = 0 if yy <= 2000 else 1
                    day = datetime.date(yy, 7, 1).toordinal(); CF[yy][R, C] = [a[q + s]["coefs"][b][0] for b in (1, 4)]
        for size in (1, 3):
            bc = {}; bar = threading.Barrier(size); loc = threading.local()
            class Comm:
                def Get_rank(self): return loc.r
                def Get_size(self): return size
                def Barrier(self): bar.wait(20)
                barrier = Barrier
                def bcast(self, v, root=0):
                    k = loc.k = getattr(loc, "k", 0) + 1
                    if loc.r == root: bc[k] = v
                    bar.wait(20); return bc[k]
            ex.MPI.COMM_WORLD = Comm(); out = os.path.join(t, "out%d" % size); errs = []
            os.makedirs(os.path.join(out, "cold_maps"))
            def work(r):
                loc.r = r; loc.k = 0
                try: ex.main.callback(reccg_path=t, reference_path=ref, out_path=out, method="COLD", year_lowbound=1999, year_uppbound=2001, yaml_path=os.path.join(t, "c.yaml"), coefs="a0", coefs_bands="1,4")
                except BaseException as e: errs.append(repr(e)); bar.abort()
            with contextlib.redirect_stdout(io.StringIO()):
                th = [threading.Thread(target=work, args=(r,)) for r in range(size)]
                [x.start() for x in th]; [x.join(60) for x in th]
            if errs: fail("export_change_map on %d processes" % size, inp(g), errs[0] if "Broken" not in errs[0] else errs[-1]); break
            try:
                got = gdal.Open(os.path.join(out, "cold_maps", "2000_break_map_COLD.tif")).ReadAsArray()
                cmp("exported break map", inp(g, processes=size), BM, np.where(got > 0, got % 1000, got))
                z = gdal.Open(os.path.join(out, "cold_maps", "1999_break_map_COLD.tif")).ReadAsArray()
                cmp("exported break map of a year without breaks", inp(g, processes=size), np.full(BM.shape, -9999), z)
                for yy in (1999, 2001):
                    for ib, b in enumerate((1, 4)):
                        # July first of 2000 lies after the first segment's end; checked years are covered
                        got = gdal.Open(os.path.join(out, "cold_maps", "%d_coefs_COLD_%d_a0.tif" % (yy, b))).ReadAsArray()
                        cmp("exported coefficient map %d band %d" % (yy, b), inp(g, processes=size), CF[yy][:, :, ib].astype(np.float32), got)
            except Exception as e: fail("exported maps", inp(g, processes=size), e)
            if bad: break
# single images keep their shape
if not bad:
    for R, C in ((4, 7), (7, 4), (5, 5)):
        with tempfile.TemporaryDirectory(dir=SCRATCH) as t:
            ref = os.path.join(t, "ref.tif"); D = gdal.GetDriverByName("GTiff").Create(ref, C, R, 1, gdal.GDT_Int16); D.SetGeoTransform((1000, 30, 0, 5000, 0, -30)); del D
            i = dict(n_block_x=1, n_block_y=2, rows=R, cols=C); A = rng.integers(0, 100, (R, C)).astype(np.int16)
            try:
                u.generate_rowcolimage(ref, os.path.join(t, "rc.tif"))
                cmp("row/column image", i, np.array([[(r + 1) * 10000 + c + 1 for c in range(C)] for r in range(R)]), gdal.Open(os.path.join(t, "rc.tif")).ReadAsArray())
                for rr in (None, ref):
                    u.save_1band_fromrefimage(A, os.path.join(t, "b.tif"), rr); cmp("one-band image", i, A, gdal.Open(os.path.join(t, "b.tif")).ReadAsArray())
            except Exception as e: fail("single image", i, e); break
stats(evaluations=n, distinct_nontrivial=nt, rule="maps assembled and compared pixel by pixel for nine grids (up to 12 blocks); non-trivial: non-square grids", samples=[{"n_block_x": 4, "n_block_y": 3, "block_width": 2, "block_height": 3}])
