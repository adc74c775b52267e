"""P13 on the real C library: every sorting and partition routine, on sub-ranges with guard
cells, duplicates, sorted and reversed series."""
from common import *
lib = clib(extra=["-fsanitize=signed-integer-overflow", "-fno-sanitize-recover"][:0])
rng = np.random.default_rng(SEED)
T = {"int": np.int32, "float": np.float32, "double": np.float64, "long": np.int64, "short": np.int16}
# routine: key type, payload list ("rows", type) / ("vec", type), has band_num
R = {"quick_sort_buf": ("int", [("rows", "short"), ("vec", "short")], 0, "partition_buf"),
     "quick_sort_buf_sensor": ("int", [("rows", "short"), ("vec", "short"), ("vec", "short")], 0, "partition_buf_sensor"),
     "quick_sort_index": ("int", [("vec", "int")], 0, "partition_index"),
     "quick_sort_float": ("float", [], 0, "partition_float"), "quick_sort_double": ("double", [], 0, "partition_double"),
     "quick_sort_long": ("long", [], 0, "partition_long"), "quick_sort_int": ("int", [], 0, "partition_int"),
     "quick_sort_2d_float": ("float", [("rows", "float")], 1, "partition_2d_float"),
     "quick_sort_2d_double": ("double", [("rows", "double")], 1, "partition_2d_double"),
     "quick_sort": ("int", [("str", None), ("vec", "int")], 0, "partition")}
def keys(n, how):
    if how == "distinct": return rng.permutation(n) * 3 - n
    if how == "sorted": return np.arange(n)
    if how == "reversed": return np.arange(n)[::-1].copy()
    if how == "equal": return np.full(n, 5)
    if how == "few": return rng.integers(0, 3, n)
    if how == "big": return rng.integers(-2**30, 2**30, n)
    if how == "organ": return np.concatenate([np.arange((n + 1) // 2), np.arange(n // 2)[::-1]])
    return rng.integers(-20, 20, n)
def case(fn, lo, n, hi, how, nb):
    """arguments: guard cells lo before and hi after the sorted range of n"""
    kt, pay, bn, part = R[fn]; N = lo + n + hi
    K = np.concatenate([rng.integers(-50, 50, lo), keys(n, how), rng.integers(-50, 50, hi)]).astype(T[kt])
    if kt in ("float", "double") and how == "few": K[lo:lo + n] += 0.25
    pl = []
    for kind, t in pay:
        if kind == "rows": a = rng.permutation(7 * N).reshape(7, N).astype(T[t]); pl.append(a)
        elif kind == "vec": pl.append(rng.permutation(N).astype(T[t]))
        else: pl.append(np.array([("scene%05d_%s" % (x, "x" * (x % 7))).encode() for x in rng.permutation(N)], dtype="S64"))
    return K, pl
def run1(name, K, pl, l, r, nb, fn):
    kt, pay, bn, part = R[fn]; hold = []; a = [P(K)]
    out = []
    for (kind, t), x in zip(pay, pl):
        if kind == "rows": b = rows(x); hold.append(b); a.append(b)
        elif kind == "vec": a.append(P(x))
        else:
            bs = [ctypes.create_string_buffer(bytes(y), 512) for y in x]; arr = (ctypes.c_void_p * len(bs))(*[ctypes.addressof(y) for y in bs]); hold += [bs, arr]; a.append(arr)
    a += [l, r] + ([nb] if bn else [])
    f = getattr(lib, name); f.restype = ctypes.c_int
    ret = f(*a)
    for i, ((kind, t), x) in enumerate(zip(pay, pl)):
        if kind == "str":
            bs = [h for h in hold if isinstance(h, list)][0]; pl[i] = np.array([y.value for y in bs], dtype="S64")
    return ret
def check(fn, K0, pl0, K1, pl1, l, r, nb, part=None):
    N = len(K0); kt, pay, bn, _ = R[fn]
    out = [i for i in range(N) if i < l or i > r]
    if any(K0[i] != K1[i] for i in out): return "keys outside the range changed"
    if part is None:
        if any(K1[i] > K1[i + 1] for i in range(l, r)): return "keys are not in non-decreasing order"
    else:
        i = part
        if not (l < i <= r + 1 and (l == r or i <= r)): return "the split %d is outside the range" % i
        if i <= r and max(K1[l:i]) > min(K1[i:r + 1]): return "keys before the split exceed keys after it"
    def recs(K, pl):
        o = []
        for x in range(l, r + 1):
            rec = [float(K[x])]
            for (kind, t), p in zip(pay, pl):
                if kind == "rows": rec += [float(v) for v in p[:nb if bn else 7, x]]
                elif kind == "str": rec.append(p[x])
                else: rec.append(float(p[x]))
            o.append(tuple(map(str, rec)))
        return sorted(o)
    if recs(K0, pl0) != recs(K1, pl1): return "attached values do not stay with their keys"
    for (kind, t), p, q in zip(pay, pl0, pl1):
        if kind == "rows":
            if not np.array_equal(p[:, out], q[:, out]): return "attached values outside the range changed"
            if bn and not np.array_equal(p[nb:], q[nb:]): return "rows beyond band_num changed"
        elif not np.array_equal(p[out], q[out]): return "attached values outside the range changed"
    return None
n = nt = bad = 0
HOW = ["distinct", "sorted", "reversed", "equal", "few", "big", "organ", "random"]
SIZES = [1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 31, 64, 127, 300]
for fn in R:
    def batch(fn=fn):
        out = []; cnt = 0; bn = R[fn][2]
        for how in HOW:
            for sz in SIZES:
                for rep in range(12 if THOROUGH else 4):
                    if sz > 40 and rep > 3: continue
                    lo, hi = int(rng.integers(0, 4)), int(rng.integers(0, 4)); nb = int(rng.integers(0, 8)) if bn and rep % 2 else 7
                    K, pl = case(fn, lo, sz, hi, how, nb)
                    l, r = lo, lo + sz - 1
                    for name in (fn, R[fn][3]):
                        K1 = K.copy(); p1 = [x.copy() for x in pl]; cnt += 1
                        os.write(tr, json.dumps({"routine": name, "keys": K.tolist(), "left": l, "right": r, "band_num": nb}).encode()[:3000] + b"\n")
                        ret = run1(name, K1, p1, l, r, nb, fn)
                        e = check(fn, K, pl, K1, p1, l, r, nb, ret if name != fn else None)
                        if e: out.append((e, {"routine": name, "keys": K.tolist(), "left": l, "right": r, "band_num": nb, "order": how}, K1.tolist()))
                        if len(out) > 2: return cnt, out
        # exhaustive small ranges
        import itertools
        for sz in range(1, 6 if not THOROUGH else 7):
            for ks in itertools.product(range(min(sz, 4)), repeat=sz):
                K, pl = case(fn, 1, sz, 1, "equal", 7); K[1:1 + sz] = ks
                for name in (fn, R[fn][3]):
                    K1 = K.copy(); p1 = [x.copy() for x in pl]; cnt += 1
                    os.write(tr, json.dumps({"routine": name, "keys": K.tolist(), "left": 1, "right": sz}).encode() + b"\n")
                    ret = run1(name, K1, p1, 1, sz, 7, fn)
                    e = check(fn, K, pl, K1, p1, 1, sz, 7, ret if name != fn else None)
                    if e: out.append((e, {"routine": name, "keys": K.tolist(), "left": 1, "right": sz}, K1.tolist()))
                    if len(out) > 2: return cnt, out
        return cnt, out
    trace = os.path.join(SCRATCH, "sort_trace"); tr = os.open(trace, os.O_CREAT | os.O_WRONLY | os.O_TRUNC | os.O_APPEND)
    if not hasattr(lib, fn): continue
    r = forked(batch, 120); os.close(tr)
    if isinstance(r, dict):
        last = open(trace).read().strip().split("\n")[-1]
        if "error" in r: sys.stderr.write(str(r)); sys.exit(3)
        violation("%s crashes or does not terminate (%s)" % (fn, r), json.loads(last) if last.startswith("{") and last.endswith("}") else last[:300]); bad += 1; continue
    n += r[0]; nt += r[0]
    for e, inp, got in r[1][:2]: violation(e, inp, "sorted keys with their own values", got)
stats(evaluations=n, distinct_nontrivial=nt, rule="each routine: ranges of 1-300 keys with guard cells, 8 orders, and every key vector up to length %d over few values" % (6 if THOROUGH else 5), samples=[{"routine": "quick_sort_2d_float", "n": 31}])
