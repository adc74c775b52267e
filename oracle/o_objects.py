from common import *
import itertools, math, copy
m = py_package()
import pandas as pd
from pycold import ob_analyst as ob
from pycold.app import defaults
rng = np.random.default_rng(SEED); n = 0; nt = 0; bad = False
D = dict(defaults["OBCOLD"])
DOC = dict(default=(11.07, 0), C1=(11.07, .1), C2=(15.086, .05), C3=(15.086, .05), C4=(11.07, .1), C5=(15.086, .05), C6=(11.07, .1), C7=(15.086, .05), C8=(15.086, .05))
def rule(mean, mode, size, thematic, ut, us, P):
    if thematic and ut is not None and us is not None: t, s = ut, us
    elif not thematic or mode == 255: t, s = P["default_threshold"], P["default_sizeslope"]
    else: t, s = P["C%d_threshold" % mode], P["C%d_sizeslope" % mode]
    v = mean * min(2.0, 0.95 + s * math.log10(size))
    return v > t, abs(v - t) <= 1e-9 * max(1, abs(t)) and v != t
# the rule
def params():
    P = dict(D)
    for k in ["default"] + ["C%d" % i for i in range(1, 9)]:
        P[k + "_threshold"] = float(rng.choice([5, 9, 11.07, 15.086, 20])) + (0 if k == "default" else int(k[1]) * .25)
        P[k + "_sizeslope"] = float(rng.choice([-.1, 0, .05, .1, .3, 2]))
    return P
cls = np.zeros((2, 2))
for it in range(6000 if THOROUGH else 1500):
    P = params() if it % 3 else None
    Q = P or D
    thematic = bool(rng.integers(2)); mode = int(rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 255])) if thematic else 255
    size = int(rng.choice([1, 2, 9, 10, 25, 99, 100, 1000, 10 ** 5, 10 ** 11]))
    ut = us = None
    u = rng.integers(4)
    if u == 1: ut, us = float(rng.choice([0, 5, 11.07, 20])), float(rng.choice([-.1, 0, 0.1, 1.05, 2]))
    if u == 2: ut = 3.0
    if u == 3: us = .1
    if thematic and ut is not None and us is not None: t, s = ut, us
    else:
        k = "C%d" % mode if thematic and mode != 255 else "default"; t, s = Q[k + "_threshold"], Q[k + "_sizeslope"]
    sc = min(2.0, 0.95 + s * math.log10(size))
    for mean in (t / sc if sc else 1.0, t / sc * 1.0001 if sc else 1.0, t / sc * .9999 if sc else 0.0, float(rng.uniform(0, 40)), -9999.0):
        want, tie = rule(mean, mode, size, thematic, ut, us, Q)
        if tie: continue
        row = pd.DataFrame({"label": [1], "mean_intensity": [mean], "mode": [mode], "npixels": [size]})
        inp = dict(mean=mean, mode=mode, size=size, thematic=thematic, uniform_threshold=ut, uniform_sizeslope=us, threshold=t, slope=s)
        try: got = ob.is_change_object(row.loc[row["label"] == 1], ut, us, "mean_intensity", cls if thematic else None, P)
        except Exception as e: got = repr(e)
        n += 1; nt += want
        if isinstance(got, str) or bool(got) != want:
            violation("object change rule", inp, bool(want), got); bad = True; break
    if bad: break
# packaged defaults are the documented table
for k, (t, s) in DOC.items():
    n += 1
    if (D[k + "_threshold"], D[k + "_sizeslope"]) != (t, s): violation("packaged default of " + k, {}, (t, s), (D[k + "_threshold"], D[k + "_sizeslope"]))
# the map
from scipy import ndimage
def table(s1, means):
    l = np.unique(s1); return pd.DataFrame({"label": l, "mean_intensity": [means[int(x)] for x in l]})
def expect(s1, s2, means, cmap, ut, us, P):
    out = np.zeros(s1.shape, int); amb = False
    for l in np.unique(s1):
        reg = s1 == l
        if cmap is None: mode = 255
        else:
            v, c = np.unique(cmap[reg], return_counts=True); mode = int(v[np.argmax(c)])
        sz = [int((s2 == x).sum()) for x in s2[reg]]
        v, c = np.unique(sz, return_counts=True); size = int(v[np.argmax(c)])
        w, tie = rule(means[int(l)], mode, size, cmap is not None, ut, us, P or D)
        if tie: return None
        if w: out[reg] = 1
    return out
for it in range(400 if THOROUGH else 90):
    if bad: break
    R, C = int(rng.integers(1, 14)), int(rng.integers(1, 14))
    base = rng.integers(0, 2, (R, C))
    s2, _ = ndimage.label(base, structure=np.ones((3, 3)))
    s1 = np.zeros((R, C), int)
    k = int(rng.integers(1, 6))
    perm = rng.permutation(200) + 1
    for r in range(R):
        for q in range(C):
            if s2[r, q]: s1[r, q] = perm[s2[r, q] * 2 + ((r * 3 + q) // 4 + it) % 2]
    if it % 4 == 3: s1 = np.where(base == 0, 0, s1 + 300)     # labels above 255
    if it % 5 == 4: s2 = np.ones_like(s2); s1 = s1 + 1         # no background at all
    means = {int(l): float(rng.uniform(5, 25)) for l in np.unique(s1)}
    if 0 in means: means[0] = -9999.0
    cmap = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 255], (R, C)).astype(np.uint8) if it % 2 else None
    if cmap is not None and it % 3: cmap = (cmap * 0 + rng.choice([1, 2, 4, 8, 255])).astype(np.uint8); cmap[::2] = 4
    ut, us = (11.0, .2) if it % 7 == 0 else (None, None)
    P = params() if it % 2 else None
    want = expect(s1, s2, means, cmap, ut, us, P)
    if want is None: continue
    a = (s1.astype(np.int32), s2.copy(), table(s1, means), None if cmap is None else cmap.copy(), ut, us, copy.deepcopy(P))
    try: got = ob.object_analysis(*a)
    except Exception as e: got = repr(e)
    n += 1; nt += int(want.any())
    if isinstance(got, str) or got.shape != want.shape or not np.array_equal(np.asarray(got, int), want):
        violation("change map", dict(superpixels=s1, patches=s2, means=means, classes=cmap, uniform_threshold=ut, uniform_sizeslope=us), want, got); bad = True
# per-date change map through the pipeline of an image date: the class map is the one of the year before
if not bad:
    from pycold.common import DatasetInfo
    import datetime as dt
    base = os.path.join(SCRATCH, "ob"); os.makedirs(base + "/cm_maps"); os.makedirs(base + "/th")
    for y in range(1998, 2004): np.save(base + "/th/yearlyclassification_%d.npy" % y, np.full((6, 8), (y - 1998) % 8 + 1, np.uint8))
    for start, date, want in ((dt.date(1998, 3, 1), dt.date(2001, 1, 1), 2000), (dt.date(1998, 3, 1), dt.date(2000, 12, 31), 1999), (dt.date(2001, 3, 1), dt.date(2001, 6, 1), 2001),
                              (dt.date(2001, 12, 31), dt.date(2002, 1, 1), 2001), (dt.date(2001, 1, 1), dt.date(2003, 1, 1), 2002)):
        o = ob.ObjectAnalystHPC(DatasetInfo(6, 8, 2, 2), base, base, start.toordinal(), thematic_path=base + "/th")
        got = int(o.get_lastyear_cmap_fromdate(date.toordinal())[0, 0]) - 1 + 1998; n += 1
        if got != want: violation("class map year", dict(start=str(start), date=str(date)), want, got)
stats(evaluations=n, distinct_nontrivial=int(nt), rule="object statistics at, just above and just below the threshold for every class, size and parameter source, plus random label maps; non-trivial: the object (or some pixel) is change",
      samples=[{"mean": 11.08, "mode": 4, "size": 100}])
