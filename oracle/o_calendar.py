"""P11 on the real code: conversions and file names against Python's proleptic Gregorian calendar."""
from common import *
import datetime, tempfile
L = clib()
n = bad = 0
def report(*a, **k):
    global bad
    bad += 1
    if bad <= 4: violation(*a, **k)
def D(y):
    y -= 1; return 365 * y + y // 4 - y // 100 + y // 400
def lp(y): return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
I = ctypes.c_int
def cside():
    out = []; k = 0
    for y in range(1, 10000):
        k += 1
        if bool(L.is_leap_year(y)) != lp(y) or L.is_leap_year(y) not in (0, 1): out.append(("is_leap_year", y, lp(y), L.is_leap_year(y)))
    cum = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
    for y in (1, 4, 100, 400, 1900, 1972, 1973, 1999, 2000, 2001, 2004, 2023, 2024, 2100, 2400):
        for m in range(1, 13):
            for d in (1, 2, 28, 30):
                k += 1; w = cum[m - 1] + d + (1 if lp(y) and m > 2 else 0)
                if L.yearmonth2doy(y, m, d) != w: out.append(("yearmonth2doy", (y, m, d), w, L.yearmonth2doy(y, m, d)))
    for y in list(range(1973, 2500)) + [3000, 4000, 9999]:
        for d in (range(1, 366 + lp(y)) if y < 2101 or THOROUGH else (1, 2, 59, 60, 61, 365, 365 + lp(y))):
            k += 1; j = I(123457); r = L.convert_year_doy_to_ordinal(y, d, ctypes.byref(j)); w = D(y) + d
            if r != 0 or j.value != w: out.append(("convert_year_doy_to_ordinal", {"year": y, "doy": d, "*jday before": 123457}, w, (r, j.value)))
            a, b = I(-7), I(-7); r = L.convert_jday_to_year_doy_from_0001(w, ctypes.byref(a), ctypes.byref(b))
            if r != 0 or (a.value, b.value) != (y, d): out.append(("convert_jday_to_year_doy_from_0001", w, (y, d), (r, a.value, b.value)))
        if len(out) > 5: break
    for y in (-5, 1, 1900, 1972):
        j = I(5); r = L.convert_year_doy_to_ordinal(y, 3, ctypes.byref(j))
        if r == 0: out.append(("years before 1973 are refused", y, "error", r))
    for w in (-3, 0, 1, 700000, 720257):
        a, b = I(-7), I(-7); r = L.convert_jday_to_year_doy_from_0001(w, ctypes.byref(a), ctypes.byref(b))
        if r == 0: out.append(("dates before 1973 are refused", w, "error", r))
    return k, out
r = forked(cside, 120)
if isinstance(r, dict): report("the calendar functions do not return", {}, got=r)
else:
    n += r[0]
    for x in r[1]: report(x[0], x[1], x[2], x[3])
# Python
py_package()
from pycold import utils as U, ob_analyst as O
dates = sorted(set(range(612600, 825500, 1 if THOROUGH else 37)) | {D(y) + d for y in range(1680, 2260) for d in (1, 2, 59, 60, 61, 99, 100, 365, 365 + lp(y))})
for o in dates:
    n += 1; t = datetime.date.fromordinal(o); y, j = t.year, t.timetuple().tm_yday
    for f, w in ((U.get_doy, "%03d" % j), (O.cmname_fromdate, "CM_maps_%d_%d%03d" % (o, y, j)), (O.cmdatename_fromdate, "CM_date_maps_%d_%d%03d" % (o, y, j)), (O.obiaresname_fromdate, "obiaresult_%d_%d%03d" % (o, y, j))):
        g = f(o)
        if g != w: report(f.__name__, o, w, g)
    if U.date2matordinal(y, t.month, t.day) != o: report("date2matordinal", (y, t.month, t.day), o, U.date2matordinal(y, t.month, t.day))
    g = U.matordinal2date(o)
    if (g.year, g.month, g.day) != (y, t.month, t.day): report("matordinal2date", o, t.isoformat(), str(g))
# stacked file names carry year and day of year; the dates read back must be theirs, in order
d = tempfile.mkdtemp(dir=SCRATCH); rng = np.random.default_rng(SEED)
pick = [int(x) for x in rng.choice([o for o in dates if 720259 <= o <= 767000], 40, replace=False)] + [D(2000) + 366, D(2001) + 1, D(1999) + 365, D(2004) + 60]
pick = sorted(set(pick))
for o in pick:
    t = datetime.date.fromordinal(o); np.save(os.path.join(d, "LC8123456%04d%03d_x.npy" % (t.year, t.timetuple().tm_yday)), np.full((4, 8), o % 30000, np.int16))
n += 1
try:
    st, ds = U.read_blockdata(d, 4, 8)
    if list(map(int, ds)) != pick: report("dates of stacked files (read_blockdata)", pick, pick, list(map(int, ds)))
    elif not np.array_equal(st[0, 0, :], np.array([o % 30000 for o in pick], np.int16)): report("images of stacked files follow their dates", pick, None, st[0, 0, :])
except Exception as e: report("read_blockdata", pick, got=repr(e))
stats(evaluations=n, distinct_nontrivial=n, rule="every year 1-9999, every day 1973-2100, dates of the pandas range", samples=[])
