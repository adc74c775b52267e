"""P09 on the real code: unindex/index round trips of states of every mode."""
from common import *
py_package()
import pickle
from pycold import utils as U
from pycold.common import SccdOutput, sccd_dt, nrtmodel_dt, nrtqueue_dt
mods = [("utils", U)]
try:
    from pycold.imagetool import export_change_map as X
    if hasattr(X, "index_sccdpack"): mods.append(("export_change_map", X))
except Exception as e: emit(stats={"export_import": repr(e)[:120]})
rng = np.random.default_rng(SEED)
def fill(n, dt, how):
    a = np.zeros(n, dtype=dt)
    for f in dt.names:
        base, sh = (dt[f].subdtype or (dt[f], ()))
        full = (n,) + tuple(sh)
        if base.kind in "iu":
            ii = np.iinfo(base)
            v = rng.integers(ii.min, ii.max, size=full, endpoint=True, dtype=np.int64 if ii.max < 2**62 else base)
            if how == "extreme": v = rng.choice(np.array([ii.min, ii.max, 0, 1, ii.max - 1], dtype=np.int64), size=full)
            if how == "distinct": v = (np.arange(int(np.prod(full))).reshape(full) + 3) % (min(ii.max, 120) + 1)
        else:
            v = rng.normal(size=full) * 10.0 ** rng.integers(-30, 30, size=full)
            if how == "extreme": v = rng.choice(np.array([0.0, -0.0, 1e-40, 3.4e38, -3.4e38, 0.1, 1 / 3, np.inf, -np.inf, np.nan]), size=full)
            if how == "distinct": v = np.arange(int(np.prod(full))).reshape(full) + 0.1
        a[f] = v.astype(base)
    return a
def plain(x): return isinstance(x, (list, tuple))
def structured(x):
    """the entry read back is field-addressable"""
    return getattr(x, "dtype", None) is not None and x.dtype.names is not None
def bits(a):
    a = np.ascontiguousarray(a); return {f: np.ascontiguousarray(a[f]).tobytes() for f in a.dtype.names}
def same_part(a, b):
    if len(a) != len(b): return "length %d instead of %d" % (len(b), len(a))
    if len(a) == 0: return None
    if not structured(b): return "not a record array"
    if a.dtype.names != b.dtype.names: return "fields %s" % (b.dtype.names,)
    for f in a.dtype.names:
        x, y = a[f], b[f]
        if x.shape != y.shape: return "field %s has shape %s" % (f, y.shape)
        if x.dtype != y.dtype: return "field %s has type %s" % (f, y.dtype)
        if not np.array_equal(x, y, equal_nan=x.dtype.kind == "f"): return "field %s differs" % f
    return None
n = nt = bad = 0
def report(*a, **k):
    global bad
    bad += 1
    if bad <= 3: violation(*a, **k)
E0 = lambda: np.array([])
SEGS = [0, 1, 2, 3, 7, 12, 40]
for rep in range(12 if THOROUGH else 3):
  for how in ("random", "extreme", "distinct"):
    for ns in SEGS:
        for hasm in (0, 1):
            for nq in (0, 1, 2, 5, 24, 240):
                for mode in (0, 1, 2, 3, 4, 5, 11, 12, 13, 15):
                    if (ns * 7 + nq + mode + rep) % (1 if THOROUGH else 7): continue
                    rec = fill(ns, sccd_dt, how) if ns else (E0() if mode % 2 else np.zeros(0, dtype=sccd_dt))
                    st = SccdOutput(int(rng.integers(1, 25000000)), rec, rng.integers(-32768, 32767, 6).astype(np.int16), mode,
                                    fill(1, nrtmodel_dt, how) if hasm else E0(), fill(nq, nrtqueue_dt, how) if nq else E0())
                    keep = pickle.loads(pickle.dumps(st))
                    info = {"segments": ns, "model": hasm, "queue": nq, "mode": mode, "values": how}
                    n += 1; nt += 1
                    try: flat = U.unindex_sccdpack(st)
                    except Exception as e: report("unindex_sccdpack raises on a valid state", info, "a list", repr(e)); continue
                    if not isinstance(flat, list) or len(flat) != 6: report("the flat state is a list of its six parts", info, 6, repr(type(flat))); continue
                    for i, nme in ((1, "rec_cg"), (4, "nrt_model"), (5, "nrt_queue")):
                        if len(getattr(st, nme)) and not plain(flat[i]): report("flattening gives plain lists", dict(info, part=nme), "a list", repr(type(flat[i])))
                    # the caller's state is left alone
                    for i, nme in enumerate(SccdOutput._fields):
                        a, b = getattr(keep, nme), getattr(st, nme)
                        if isinstance(a, np.ndarray) and (a.dtype != b.dtype or a.tobytes() != b.tobytes()): report("flattening changes the given state", dict(info, part=nme))
                    for mn, M in mods:
                        try: back = M.index_sccdpack(pickle.loads(pickle.dumps(flat)))
                        except Exception as e: report("%s.index_sccdpack raises on a stored state" % mn, info, "the state", repr(e)); continue
                        if type(back).__name__ != "SccdOutput" or back._fields != SccdOutput._fields: report("%s.index_sccdpack returns the named state" % mn, info, list(SccdOutput._fields), repr(type(back))); continue
                        if back.position != keep.position: report("position", info, keep.position, back.position)
                        if back.nrt_mode != keep.nrt_mode: report("mode", info, keep.nrt_mode, back.nrt_mode)
                        if list(np.asarray(back.min_rmse)) != list(keep.min_rmse): report("minimum noise", info, keep.min_rmse, back.min_rmse)
                        for nme in ("rec_cg", "nrt_model", "nrt_queue"):
                            r = same_part(getattr(keep, nme), getattr(back, nme))
                            if r: report("%s: %s is restored unchanged" % (mn, nme), info, "same", r)
                        if mn == "utils":
                            try:
                                f2 = U.unindex_sccdpack(back)
                                if not all(pickle.dumps(x) == pickle.dumps(y) or repr(x) == repr(y) for x, y in zip(flat, f2)): report("flattening the restored state gives the same list", info)
                            except Exception as e: report("the restored state cannot be flattened again", info, "a list", repr(e))
for mn, M in mods:
    good = U.unindex_sccdpack(SccdOutput(1, fill(1, sccd_dt, "random"), np.zeros(6, np.int16), 3, fill(1, nrtmodel_dt, "random"), E0()))
    for k in list(range(0, 6)) + list(range(7, 14)):
        x = (good * 3)[:k]; n += 1
        try: r = M.index_sccdpack(x); report("%s.index_sccdpack accepts a list of %d parts" % (mn, k), {"parts": k}, "an error", repr(type(r)))
        except Exception: pass
stats(evaluations=n, distinct_nontrivial=nt, rule="states of every mode, 0-40 segments, 0-240 queued observations, random/extreme/distinct values; wrong lengths 0-13", samples=[{"segments": 3, "queue": 24}])
