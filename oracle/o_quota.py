from common import *
m = py_package()
from pycold import pyclassifier as pc
from pycold.app import defaults
rng = np.random.default_rng(SEED); n = 0; nt = 0
D = defaults["CLASSIFIER"]
if D["total_landcover_category"] != 8: violation("number of classes", {}, 8, D["total_landcover_category"])
def want(lab, P):
    K = P["total_landcover_category"]; cnt = [int((lab == k).sum()) for k in range(1, K + 1)]; S = sum(cnt); out = []
    for x in cnt: out.append(min(max(min(round(x * P["total_samples"] / S), P["max_category_samples"]), P["min_category_samples"]), x))
    return out
def one(lab, P):
    global n, nt
    w = want(lab, P); n += 1
    try: g = pc.generate_sample_num(lab.copy(), dict(P)); g = [int(x) for x in g]
    except Exception as e: g = repr(e)
    nt += len(set(w)) > 2
    if g != w:
        v, c = np.unique(lab, return_counts=True)
        violation("sample quotas", dict(shape=lab.shape, counts=dict(zip(v.tolist(), c.tolist())), parameters={k: P[k] for k in ("total_landcover_category", "total_samples", "min_category_samples", "max_category_samples")}), w, g); return False
    return True
ok = True
for it in range(4000 if THOROUGH else 800):
    if not ok: break
    K = 8 if it % 3 else int(rng.integers(1, 12))
    mn = int(rng.choice([0, 1, 5, 20, 60])); mx = mn + int(rng.choice([0, 1, 40, 200]))
    P = dict(D, total_landcover_category=K, total_samples=int(rng.choice([1, 7, 100, 333, 1000])), min_category_samples=mn, max_category_samples=mx)
    if it % 10 == 0: P = dict(D)
    R, C = (int(x) for x in rng.integers(1, 40, 2)) if it % 10 else (int(rng.integers(100, 260)), int(rng.integers(100, 260)))
    vals = list(rng.permutation(np.arange(0, K + 3)))[:int(rng.integers(1, K + 3))] + ([255] if it % 4 == 0 else [])
    if not any(1 <= v <= K for v in vals): vals.append(int(rng.integers(1, K + 1)))
    pr = rng.dirichlet(np.ones(len(vals)) * float(rng.choice([.2, 1, 5])))
    lab = rng.choice(vals, (R, C), p=pr).astype(rng.choice([np.uint8, np.int16, np.int64]))
    if not ((lab >= 1) & (lab <= K)).any(): lab[0, 0] = 1
    ok = one(lab, P)
# the quotas are what the training draws: that many distinct pixels of each class
if ok:
    import logging
    from pycold.common import DatasetInfo
    saved = dict(D)
    class RF:
        def __init__(self, *a, **k): pass
        def fit(self, x, y): RF.x, RF.y = x, y
    pc.RandomForestClassifier = RF
    log = logging.getLogger("x")
    for it in range(10):
        R, C = 40, 60
        D.update(total_samples=500, min_category_samples=20, max_category_samples=120)
        lab = rng.choice([0, 1, 2, 4, 7, 8, 200] if it % 2 else [1, 2, 3, 6], (R, C)).astype(np.uint8)
        feat = np.arange(R * C * 3, dtype=np.float32).reshape(R, C, 3)
        o = pc.PyClassifier(DatasetInfo(R, C, 2, 2), logger=log)
        try: o.train_rfmodel(feat, lab.copy())
        except Exception as e: violation("training on a label map", dict(labels=sorted(set(lab.ravel().tolist()))), None, repr(e)); break
        w = want(lab, D); n += 1
        cnt = [int((RF.y == k).sum()) for k in range(1, 9)]
        pix = (RF.x[:, 0] / 3).astype(int)
        if cnt != w or len(set(pix)) != len(pix) or not np.array_equal(lab.ravel()[pix], RF.y):
            violation("training samples drawn", dict(labels=sorted(set(lab.ravel().tolist()))), w, cnt); break
    D.update(saved)
stats(evaluations=n, distinct_nontrivial=nt, rule="random label maps (with 0, out-of-range and missing classes) and quota bounds; non-trivial: at least three different quotas", samples=[{"counts": {"0": 10, "3": 500, "5": 400}}])
