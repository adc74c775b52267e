from common import *
import datetime, tempfile, contextlib, io, pickle
m = py_package()
from pycold.imagetool import export_change_map as ex
from pycold import common as cm
from osgeo import gdal
gdal.UseExceptions()
rng = np.random.default_rng(SEED); n = 0; cats = {}
bad = False
def green(r, t): return r["magnitude"][3] > -t and r["magnitude"][2] < t and r["magnitude"][4] < t
def cat(P, i, last, method):
    r = P[i]
    if green(r, 250 if method == "OBCOLD" else 200):
        if method == "SCCDOFFLINE" or i + 1 >= len(P) or P[i + 1]["pos"] != r["pos"]: return 2
        q = P[i + 1]; c = lambda b: (q["coefs"][b][1], abs(r["coefs"][b][1]))
        return 3 if c(3)[0] > c(3)[1] and c(2)[0] < -c(2)[1] and c(4)[0] < -c(4)[1] else 2
    if method != "OBCOLD" or i == 0 or last != 1 or r["t_break"] - P[i - 1]["t_break"] > 365.25 * 5: return 1
    return 4 if sum(float(r["magnitude"][b]) * float(P[i - 1]["magnitude"][b]) < 0 for b in range(1, 6)) >= 4 else 1
MV = [-2000, -251, -250, -249, -201, -200, -199, -50, -1, 0, 1, 50, 199, 200, 201, 249, 250, 251, 2000]
def rec(k, pos, dt=cm.reccg_dt, nb=7):
    a = np.zeros(k, dt)
    if "pos" in dt.names: a["pos"] = pos
    a["magnitude"] = rng.choice(MV, (k, nb))
    gr = rng.random(k) < .55
    for i in range(k):
        if gr[i]: a["magnitude"][i, 3] = rng.choice([-249, -199, 0, 300]); a["magnitude"][i, [2, 4]] = rng.choice([249, 199, -10, -900], 2)
        elif i and rng.random() < .6:
            a["magnitude"][i, 1:6] = -a["magnitude"][i - 1, 1:6]
            if rng.random() < .5: b = rng.integers(1, 6, int(rng.integers(1, 3))); a["magnitude"][i, b] = a["magnitude"][i - 1, b]
    a["coefs"][:, :, 1] = rng.choice([-3, -2, -1, 0, 1, 2, 3], (k, nb))
    for i in range(1, k):
        if rng.random() < .5:
            for b, sg in ((3, 1), (2, -1), (4, -1)): a["coefs"][i, b, 1] = sg * (abs(a["coefs"][i - 1, b, 1]) + rng.choice([0, 1, 1, 1, 1]))
    y = datetime.date(1985, 1, 1).toordinal(); t = y + int(rng.integers(0, 2000))
    for i in range(k):
        a["t_start"][i] = t; b = t + int(rng.choice([400, 900, 1500, 1826, 1827, 3000]))
        a["t_break"][i] = b
        if "t_end" in dt.names: a["t_end"][i] = b - 10; a["change_prob"][i] = 100
        t = b
    return a
# the three rules on their own
for it in range(6000 if not THOROUGH else 60000):
    if bad: break
    for method, f in (("COLD", ex.getcategory_cold), ("OBCOLD", ex.getcategory_obcold), ("SCCDOFFLINE", ex.getcategory_sccd)):
        P = rec(int(rng.integers(1, 4)), 5) if method != "SCCDOFFLINE" else rec(int(rng.integers(1, 4)), 0, cm.sccd_dt, 6)
        if method != "SCCDOFFLINE" and rng.random() < .3: P = np.concatenate([P, rec(2, 6)])
        if it % 7 == 0 and method != "SCCDOFFLINE": P["coefs"][0, 3, 1] = np.nan
        i = int(rng.integers(0, len(P))); last = int(rng.integers(0, 5))
        w = cat(P, i, last, method); n += 1; cats[w] = cats.get(w, 0) + 1
        try: g = f(P, i, last) if method == "OBCOLD" else f(P, i)
        except Exception as e: g = repr(e)
        if g != w:
            bad = True; violation("category of a break (%s)" % method, dict(index=i, last=last, magnitude=P["magnitude"][max(0, i - 1):i + 1], trends=P["coefs"][i:i + 2, 2:5, 1], t_break=P["t_break"]), w, g); break
# the exported maps
class Comm:
    Get_rank = lambda s: 0; Get_size = lambda s: 1; Barrier = lambda s: None
    barrier = Barrier
    def bcast(self, v, root=0): return v
ex.MPI.COMM_WORLD = Comm()
for it in range(8 if not THOROUGH else 60):
    if bad: break
    for method in ("COLD", "OBCOLD", "SCCDOFFLINE"):
        nx, ny, w, h = [(1, 1, 3, 4), (2, 1, 3, 2), (1, 2, 4, 3), (3, 2, 2, 4)][it % 4]; nc, nr = nx * w, ny * h
        with tempfile.TemporaryDirectory(dir=SCRATCH) as t:
            Y0, Y1 = 1986, 1999
            W = {y: np.full((nr, nc), -9999) for y in range(Y0, Y1 + 1)}
            rp = os.path.join(t, "obcold") if method == "OBCOLD" else t
            os.makedirs(rp, exist_ok=True)
            for by in range(1, ny + 1):
                for bx in range(1, nx + 1):
                    A = []
                    for i in range(h):
                        for j in range(w):
                            R, C = (by - 1) * h + i, (bx - 1) * w + j; pos = R * nc + C + 1
                            P = rec(int(rng.integers(1, 6)), pos) if method != "SCCDOFFLINE" else rec(int(rng.integers(0, 6)), 0, cm.sccd_dt, 6)
                            if len(P) and rng.random() < .5 and method != "SCCDOFFLINE": P["t_break"][-1] = 0; P["change_prob"][-1] = rng.choice([0, 50])
                            last = 0
                            for k in range(len(P)):
                                if P["t_break"][k] == 0: continue
                                last = cat(P, k, last, method); d = datetime.date.fromordinal(int(P["t_break"][k]))
                                cats[last] = cats.get(last, 0) + 1
                                if Y0 <= d.year <= Y1: W[d.year][R, C] = last * 1000 + d.timetuple().tm_yday
                            A.append((pos, P))
                    if method == "SCCDOFFLINE":
                        with open(os.path.join(t, "record_change_x%d_y%d_sccd.npy" % (bx, by)), "wb") as f:
                            for pos, P in A:
                                mdl = np.zeros(1, cm.nrtmodel_dt); md = int(rng.choice([0, 1, 2, 5]))
                                q = np.zeros(3, cm.nrtqueue_dt)
                                pickle.dump([pos, P.tolist() if len(P) else [], np.zeros(6, np.short), md, mdl.tolist() if md in (1, 5) else np.array([]), q.tolist() if md in (2, 5) else np.array([])], f)
                    else:
                        S = np.concatenate([P for _, P in A])
                        if it % 2: S = np.concatenate([A[z][1] for z in rng.permutation(len(A))])
                        np.save(os.path.join(rp, "record_change_x%d_y%d_%s.npy" % (bx, by, method.lower())), S)
            ref = os.path.join(t, "ref.tif"); D = gdal.GetDriverByName("GTiff").Create(ref, nc, nr, 1, gdal.GDT_Int16); D.SetGeoTransform((1, 30, 0, 5, 0, -30)); del D
            open(os.path.join(t, "c.yaml"), "w").write("DATASETINFO:\n  n_rows: %d\n  n_cols: %d\n  n_block_x: %d\n  n_block_y: %d\n" % (nr, nc, nx, ny))
            i0 = dict(method=method, grid=[nx, ny, w, h])
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    ex.main.callback(reccg_path=t, reference_path=ref, out_path=t, method=method, year_lowbound=Y0, year_uppbound=Y1, yaml_path=os.path.join(t, "c.yaml"), coefs=None, coefs_bands="1")
                o = os.path.join(t, {"COLD": "cold_maps", "OBCOLD": "obcold_maps", "SCCDOFFLINE": "sccd_maps"}[method])
                rd = lambda f: gdal.Open(os.path.join(o, f)).ReadAsArray()
                for y in range(Y0, Y1 + 1):
                    g = rd("%d_break_map_%s.tif" % (y, method)); n += 1
                    if g.shape != W[y].shape or (g != W[y]).any():
                        bad = True; e = tuple(int(x) for x in np.argwhere(g != W[y])[0]) if g.shape == W[y].shape else None
                        violation("exported break map", dict(i0, year=y, pixel=e), None if e is None else W[y][e], g.shape if e is None else g[e]); break
                if bad: break
                rec_, fst = np.zeros((nr, nc), int), np.zeros((nr, nc), int)
                for y in range(Y0, Y1 + 1): rec_[W[y] // 1000 == 1] = y
                for y in range(Y1, Y0 - 1, -1): fst[W[y] // 1000 == 1] = y
                for nm, X in (("recent", rec_), ("first", fst)):
                    n += 1
                    if (rd("%s_disturbance_map_%s.tif" % (nm, method)) != X).any(): bad = True; violation("%s disturbance map" % nm, i0, None, None)
            except Exception as e:
                bad = True; violation("export of break maps", i0, "no error", repr(e)); break
stats(evaluations=n, distinct_nontrivial=sum(v for k, v in cats.items() if k != 1), rule="random record pairs around every threshold, and whole exported maps for the three methods; non-trivial: category other than disturbance", samples=[{"categories": {str(k): v for k, v in cats.items()}}])
