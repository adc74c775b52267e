"""P07 on the real package: accepted ranges of every parameter, array shapes."""
from common import *
import itertools, math
ext = py_package()
import pycold.colds as cd
rnd = random.Random(SEED)
calls = []
for n in ("_cold_detect", "_obcold_reconstruct", "_sccd_detect", "_sccd_update"):
    def mk(n):
        def f(*a, **k): calls.append(n); return None
        return f
    setattr(cd, n, mk(n))
class Reached(Exception): pass
class Pk:
    @property
    def nrt_mode(self): calls.append("identify"); raise Reached()
ENTRY = {"cold_detect": ["t_cg", "pos", "conse", "b_output_cm", "starting_date", "n_cm", "cm_output_interval", "gap_days"],
         "obcold_reconstruct": ["pos", "conse"], "sccd_detect": ["t_cg", "pos", "conse", "b_pinpoint", "gate_tcg"],
         "sccd_update": ["t_cg", "pos", "conse", "gate_tcg", "predictability_tcg"],
         "sccd_identify": ["dist_conse", "t_cg_scale100", "t_cg_singleband_scale1000", "t_angle_scale100", "transform_mode"]}
INTS = {"pos": (1, None), "conse": (1, 11), "starting_date": (0, None), "n_cm": (0, None), "cm_output_interval": (0, None), "dist_conse": (1, 6), "t_angle_scale100": (1, 17999)}
inf, nan = float("inf"), float("nan")
def ok(k, v):
    if k in ("b_output_cm", "b_pinpoint", "transform_mode"):
        return isinstance(v, (bool, np.bool_, int, np.integer))
    num_int = isinstance(v, (int, np.integer)) and not isinstance(v, np.bool_)
    num = num_int or isinstance(v, (float, np.floating))
    if k in INTS:
        if not num_int: return False
        lo, hi = INTS[k]; return v >= lo and (hi is None or v <= hi)
    if not num or v != v: return False
    if k == "gap_days": return v >= 0 and (v != inf or None)
    if k == "t_cg_singleband_scale1000": return None if abs(v) == inf else True
    return v > 0 and (v != inf or None)      # infinite: not decided by the documentation
cand = [-inf, -1e9, -18001, -2, -1, -0.5, -1e-300, -0.0, 0, 0.0, 5e-324, 1e-9, 0.5, 1, 1.0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 5.5, 6.0, 11.5, 17998, 17999, 18000, 18001, 1e9, 10**12,
        inf, nan, None, "6", "", [6], (1,), {}, True, False, np.bool_(True), np.int8(3), np.int16(6), np.int32(11), np.int32(12), np.int64(0), np.int64(-1), np.uint8(5),
        np.float32(2.5), np.float64(6.0), np.float64(-1.0), np.float64(nan), np.float32(0), object(), 1j, b"6"]
def series(n=20, sh=None):
    return {k: np.arange(n, dtype=np.int64) for k in "dates ts_b ts_g ts_r ts_n ts_s1 ts_s2 ts_t qas".split()}
def call(fn, kw, arr=None, br=None):
    """'ran', or the exception"""
    calls.clear()
    f = getattr(cd, fn); a = arr or series()
    try:
        if fn == "sccd_identify":
            try: f(Pk(), **kw)
            except Reached: pass
        else:
            x = list(a.values())
            if fn == "obcold_reconstruct": x.append(np.array([1, 2], dtype=np.int64) if br is None else br)
            if fn == "sccd_update": x.insert(0, object())
            f(*x, **kw)
        return ("ran", None) if calls else ("silent", None)
    except Exception as e:
        return ("raised after running" if calls else "raised", e)
n = 0; nt = 0; bad = 0
def report(what, inp, exp, got):
    global bad
    bad += 1
    if bad <= 4: violation(what, inp, exp, got)
for fn, ps_ in ENTRY.items():
    st, e = call(fn, {}); n += 1
    if st != "ran": report("a call with default parameters does not run", {"entry": fn}, "runs", "%s %r" % (st, e))
    for k in ps_:
        vals = list(cand)
        if THOROUGH or True:
            vals += [rnd.randrange(-20, 20) for _ in range(20)] + [rnd.uniform(-20, 20) for _ in range(20)] + [rnd.randrange(10**6) for _ in range(10)]
        for v in vals:
            o = ok(k, v); n += 1
            if o is None: continue
            st, e = call(fn, {k: v})
            if o: nt += 1
            inp = {"entry": fn, "parameter": k, "value": repr(v)}
            if o and st != "ran": report("a documented parameter value is rejected", inp, "runs", "%s %r" % (st, e))
            if not o:
                if st != "raised": report("an invalid parameter value is accepted", inp, "an error naming " + k, st)
                elif not isinstance(e, ValueError) or k not in str(e): report("the error does not name the parameter", inp, "an error naming " + k, repr(e))
    # two invalid parameters at once, and one invalid among valid ones
    for a, b in itertools.combinations(ps_, 2):
        n += 1
        st, e = call(fn, {a: "x", b: [0]})
        if st != "raised" or not (a in str(e) or b in str(e)): report("invalid parameters are accepted", {"entry": fn, a: "x", b: "[0]"}, "an error", st)
    if fn == "sccd_identify": continue
    # array shapes
    names = list(series())
    for k in names:
        for delta in (-1, 1, -20, 5, 20, -2):
            a = series(); a[k] = np.arange(20 + delta, dtype=np.int64); n += 1; nt += 1
            st, e = call(fn, {}, a)
            if st != "raised": report("series of different lengths are accepted", {"entry": fn, "series": k, "length": 20 + delta, "others": 20}, "an error", st)
        for sh in ((20, 1), (20, 3), (20, 1, 1), (20, 20)):
            a = series(); a[k] = np.zeros(sh, dtype=np.int64); n += 1; nt += 1
            st, e = call(fn, {}, a)
            if st != "raised": report("a series of more than one dimension is accepted", {"entry": fn, "series": k, "shape": sh}, "an error", st)
    for k1, k2 in itertools.combinations(names, 2):
        a = series(); a[k1] = a[k2] = np.arange(21); n += 1
        st, e = call(fn, {}, a)
        if st != "raised": report("series of different lengths are accepted", {"entry": fn, "series": [k1, k2]}, "an error", st)
        a = series(); a[k1] = np.zeros((20, 2), dtype=np.int64); a[k2] = np.zeros((20, 2), dtype=np.int64); n += 1
        st, e = call(fn, {}, a)
        if st != "raised": report("series of more than one dimension are accepted", {"entry": fn, "series": [k1, k2]}, "an error", st)
    a = {k: np.zeros((20, 1), dtype=np.int64) for k in names}; n += 1
    st, e = call(fn, {}, a)
    if st != "raised": report("two-dimensional series are accepted", {"entry": fn}, "an error", st)
    for dt in (np.int16, np.int32, np.float32, np.uint8, np.int64):
        for stride in (1, 2):
            a = {k: np.arange(20 * stride).astype(dt)[::stride] for k in names}; n += 1; nt += 1
            st, e = call(fn, {}, a)
            if st != "ran": report("valid one-dimensional series are rejected", {"entry": fn, "dtype": str(dt), "stride": stride}, "runs", repr(e))
    if fn == "obcold_reconstruct":
        for m in (0, 1, 2, 7, 20, 40):
            n += 1; st, e = call(fn, {}, None, np.arange(m, dtype=np.int64))
            if m and st != "ran": report("break dates of another length than the series are rejected", {"breaks": m}, "runs", repr(e))
        for sh in ((2, 1), (20, 2), (1, 1)):
            n += 1; st, e = call(fn, {}, None, np.zeros(sh, dtype=np.int64))
            if st != "raised": report("two-dimensional break dates are accepted", {"shape": sh}, "an error", st)
stats(evaluations=n, distinct_nontrivial=nt, rule="one call per (entry point, parameter, value); non-trivial: value inside the range, or a malformed series",
      samples=[{"entry": "cold_detect", "conse": 12, "expected": "error naming conse"}, {"entry": "sccd_identify", "dist_conse": 6, "expected": "accepted"}])
