"""P11: calendar conversions agree with the proleptic Gregorian calendar.
Under contract: is_leap_year, convert_year_doy_to_ordinal (input.c),
convert_jday_to_year_doy_from_0001 (output.c), yearmonth2doy (misc.c); get_doy, date2matordinal,
matordinal2date (utils.py), cmname_fromdate, cmdatename_fromdate, obiaresname_fromdate
(ob_analyst.py).  D(y) is the number of days before 1 January of year y in the proleptic
Gregorian calendar that starts on 1 January of year 1."""
import re
import z3
from vc import ceng as ce, pysym as ps
from vc.ceng import Proof, zi
from vc.pysym import Module, Explorer, SNum, _z

I = z3.IntSort()
INT = ("int", 32, True)
def leap(y): return z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))
def D(y): return 365 * (y - 1) + (y - 1) / 4 - (y - 1) / 100 + (y - 1) / 400
def length(y): return z3.If(leap(y), 366, 365)
CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]

def c_leap(c, u):
    p = Proof(c, [u], "is_leap_year"); y = p.int(p.params[0][0], 1)
    r = p.run(); p.post("exactly the Gregorian leap years", (zi(r) == 1) == leap(y)); p.post("the answer is TRUE or FALSE", z3.Or(zi(r) == 1, zi(r) == 0)); p.done()

def c_ord(c, u, i):
    p = Proof(c, [u, i], "convert_year_doy_to_ordinal"); (Y, _), (DD, _), (J, _) = p.params
    y = p.int(Y, 1, 99999); d = p.int(DD, 1, 366); p.scalar_out(J, INT)
    p.e.inv[("convert_year_doy_to_ordinal", 0)] = lambda L: [("the days before year i", z3.And(L["i"] >= 1973, L["i"] <= y, zi(L.cell(J)) == D(L["i"]))) if "i" in names(L) else ("-", True)]
    r = zi(p.run())
    p.post("years before 1973 are refused", z3.Implies(y < 1973, r != 0))
    p.post("years from 1973 on are accepted", z3.Implies(y >= 1973, r == 0))
    p.post("the ordinal is the number of days up to that day", z3.Implies(y >= 1973, zi(p.cell(J)) == D(y) + d))
    p.done()
def names(L):
    try: L["i"]; return ("i",)
    except Exception: return ()

def c_back(c, u, i):
    p = Proof(c, [u, i], "convert_jday_to_year_doy_from_0001"); (J, _), (Y, _), (DD, _) = p.params
    j = p.int(J, 1, 99999 * 365); p.scalar_out(Y, INT); p.scalar_out(DD, INT)
    p.e.inv[("convert_jday_to_year_doy_from_0001", 0)] = lambda L: [("the count covers whole years", z3.And(L["year_count"] >= 1972, L["day_count"] == D(L["year_count"] + 1), z3.Implies(L["year_count"] > 1972, D(L["year_count"]) < j)))]
    r = zi(p.run()); y, d = zi(p.cell(Y)), zi(p.cell(DD))
    p.post("dates from 1973 on are accepted", z3.Implies(j > 720258, r == 0))
    p.post("dates before the end of 1972 are refused", z3.Implies(j < 720258, r != 0))
    p.post("year and day of year give the date", z3.Implies(r == 0, D(y) + d == j))
    p.post("the day of year is in its year", z3.Implies(r == 0, z3.And(1 <= d, d <= length(y))))
    p.done()

def c_month(c, u, i):
    p = Proof(c, [u, i], "yearmonth2doy"); (Y, _), (M, _), (DD, _) = p.params
    y, m, d = p.int(Y, 1), p.int(M, 1, 12), p.int(DD, 1, 31)
    r = zi(p.run())
    for k, n in enumerate(CUM): p.post("month %d starts after its days" % (k + 1), z3.Implies(m == k + 1, r == n + d + (z3.If(leap(y), 1, 0) if k > 1 else 0)))
    p.done()

def lemmas(c):
    y, z, d, f = z3.Ints("y z d f")
    c.defer([("lemma: year y is followed by year y+1", [y >= 1], D(y + 1) == D(y) + length(y), None, "lemma"),
             ("lemma: 1973 starts after day 720258", [], D(z3.IntVal(1973)) == 720258, None, "lemma"),
             ("lemma: year 1 starts the calendar", [], D(z3.IntVal(1)) == 0, None, "lemma"),
             ("lemma: later years start later", [y >= 1, z > y], D(z) >= D(y) + length(y), None, "lemma"),
             ("lemma: year and day of year are unique for a date", [y >= 1, z >= 1, 1 <= d, d <= length(y), 1 <= f, f <= length(z), D(y) + d == D(z) + f,
                z3.Implies(z > y, D(z) >= D(y) + length(y)), z3.Implies(y > z, D(y) >= D(z) + length(z))], z3.And(y == z, d == f), None, "lemma")], "calendar lemmas")

YEAR, DOY = z3.Function("gregorian_year", I, I), z3.Function("gregorian_day_of_year", I, I)
class TT:
    def __init__(s, o): s.o = o; s.tm_year = SNum(YEAR(_z(o))); s.tm_yday = SNum(DOY(_z(o)))
class Stamp:
    """the date of an ordinal (documented pandas / datetime semantics)"""
    def __init__(s, o): s.o = o
    @staticmethod
    def fromordinal(o, *a, **k): return Stamp(o)
    year = property(lambda s: SNum(YEAR(_z(s.o))))
    dayofyear = day_of_year = property(lambda s: SNum(DOY(_z(s.o))))
    def timetuple(s): return TT(s.o)
    def toordinal(s): return SNum(_z(s.o))
    def date(s): return s
    to_pydatetime = date
    def strftime(s, f):
        if not re.fullmatch(r"(%Y|%j|[^%])*", f): raise ps.Unsupported("date format")
        return f.replace("%Y", ps.TokStr(format(SNum(YEAR(_z(s.o))), ""))).replace("%j", format(SNum(DOY(_z(s.o))), "03d"))
class YMD:
    def __new__(cls, y, m, d): return Stamp(SNum(ORD(_z(y), _z(m), _z(d))))
    fromordinal = Stamp.fromordinal
ORD = z3.Function("gregorian_ordinal", I, I, I, I)
class PD: Timestamp = Stamp
class DT: date = datetime = YMD

def parts(s):
    """text and tokens of a string in order"""
    out = []
    for t in re.split(r"(<#\d+>)", s):
        if t.startswith("<#"): v, spec = ps.CUR.fmt[int(t[2:-1])]; out.append((v, spec))
        elif t: out.append(t)
    return out
W3 = ("03", "03d", "0>3", "0>3d")
def python(c):
    fac = {"pandas": PD, "datetime": DT, "numpy": ps.NP()}
    U = Module(c.repo, "pycold/utils.py", facades=fac); O = Module(c.repo, "pycold/ob_analyst.py", facades=fac, cache=U.cache)
    c.track("utils.py", U.hash_of("get_doy", "date2matordinal", "matordinal2date")); c.track("ob_analyst.py", O.hash_of("cmname_fromdate", "cmdatename_fromdate", "obiaresname_fromdate"))
    o, y, m, d = z3.Ints("ordinal y m d"); pre = [o >= 1]
    def doy(path):
        t = parts(U.fn("get_doy")(SNum(o)))
        path.oblige("get_doy is the three-digit day of year", z3.BoolVal(len(t) == 1 and not isinstance(t[0], str) and t[0][1] in W3) if not (len(t) == 1 and not isinstance(t[0], str)) else z3.And(t[0][1] in W3, _z(t[0][0]) == DOY(o)))
    c.explore(Explorer("get_doy", pre), doy, "get_doy (utils.py)")
    def back(path):
        path.oblige("date2matordinal is the ordinal of the date", _z(U.fn("date2matordinal")(SNum(y), SNum(m), SNum(d))) == ORD(y, m, d))
        r = U.fn("matordinal2date")(SNum(o)); path.oblige("matordinal2date is the date of the ordinal", z3.And(_z(r.toordinal()) == o))
    c.explore(Explorer("ordinals", pre), back, "date2matordinal, matordinal2date (utils.py)")
    for fn, px in (("cmname_fromdate", "CM_maps_"), ("cmdatename_fromdate", "CM_date_maps_"), ("obiaresname_fromdate", "obiaresult_")):
        def name(path, fn=fn, px=px):
            t = parts(O.fn(fn)(SNum(o)))
            shape = len(t) == 5 and t[0] == px and t[2] == "_" and all(not isinstance(t[i], str) for i in (1, 3, 4)) and t[4][1] in W3 and t[1][1] == "" and t[3][1] == ""
            path.oblige("%s: ordinal, year and three-digit day of year" % fn, z3.And(_z(t[1][0]) == o, _z(t[3][0]) == YEAR(o), _z(t[4][0]) == DOY(o)) if shape else z3.BoolVal(False))
        c.explore(Explorer(fn, pre), name, "%s (ob_analyst.py)" % fn)

def run(c):
    m = {}
    def load():
        for f in ("input.c", "output.c", "misc.c"): m[f] = ce.unit(c.repo, f)
    c.guard("clang", load)
    c.guard("is_leap_year", lambda: c_leap(c, m["input.c"]))
    c.guard("convert_year_doy_to_ordinal", lambda: c_ord(c, m["input.c"], m["input.c"]))
    c.guard("convert_jday_to_year_doy_from_0001", lambda: c_back(c, m["output.c"], m["input.c"]))
    c.guard("yearmonth2doy", lambda: c_month(c, m["misc.c"], m["input.c"]))
    c.guard("lemmas", lambda: lemmas(c))
    c.flush()
    c.guard("python", lambda: python(c))
    c.trusted.append("datetime / pandas date objects (year, day of year and ordinal of a date)")
    c.assumptions += ["ints mathematical (years up to 99999)", "the C functions have no caller in the extension build; the contracts are on the functions themselves"]
    c.oracle("o_calendar.py")
