"""record types of the sources: numpy dtypes (evaluated from their own text) and the struct
declarations of the binding layer; used by P24's contracts and by its oracle"""
import ast, os, re
import numpy as np
RECORDS = {"Output_t": ("reccg_dt", {"t_start", "t_end", "t_break", "pos", "num_obs", "category", "change_prob", "coefs", "rmse", "magnitude"}),
           "Output_sccd": ("sccd_dt", {"t_start", "t_break", "num_obs", "coefs", "rmse", "magnitude"}),
           "output_nrtqueue": ("nrtqueue_dt", {"clry", "clrx_since1982"}),
           "output_nrtmodel": ("nrtmodel_dt", {"t_start_since1982", "num_obs", "obs", "obs_date_since1982", "covariance", "nrt_coefs", "H", "rmse_sum", "norm_cm", "cm_angle", "conse_last"}),
           "Output_sccd_pinpoint": ("pinpoint_dt", {"t_break", "coefs", "obs", "obs_date_since1982", "norm_cm", "cm_angle"})}
def which(names):
    """the record a dtype is meant for, by its field names"""
    best = max(RECORDS, key=lambda r: len(RECORDS[r][1] & names) / len(RECORDS[r][1] | names))
    return best if len(RECORDS[best][1] & names) / len(RECORDS[best][1] | names) > .6 else None
def dtypes(repo):
    """every structured dtype written down in the package: [(file, line, name, dtype)]"""
    out, bad = [], []
    for d, _, fs in sorted(os.walk(os.path.join(repo, "src/python/pycold"))):
        for f in sorted(fs):
            if not f.endswith(".py"): continue
            p = os.path.join(d, f); rel = os.path.relpath(p, repo)
            try: t = ast.parse(open(p).read())
            except SyntaxError as e: bad.append("%s: %s" % (rel, e)); continue
            env = {"np": np, "numpy": np}
            for n in t.body:
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    try: env[n.targets[0].id] = eval(compile(ast.Expression(n.value), p, "eval"), dict(env))
                    except Exception: pass
            names = {}
            for n in ast.walk(t):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.targets[0], ast.Name): names[id(n.value)] = n.targets[0].id
            for n in ast.walk(t):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "dtype" and isinstance(n.func.value, ast.Name) and n.func.value.id in ("np", "numpy"):
                    try: v = eval(compile(ast.Expression(n), p, "eval"), dict(env))
                    except Exception as e: bad.append("%s:%d: %s" % (rel, n.lineno, e)); continue
                    if v.names and which(set(v.names)): out.append((rel, n.lineno, names.get(id(n), "dtype"), v))
    return out, bad
CT = {"i4": "int", "i2": "short", "f4": "float", "f8": "double", "u1": "unsigned char", "i1": "signed char", "u4": "unsigned int", "u2": "unsigned short", "i8": "long", "u8": "unsigned long"}
def ctype(dt):
    """(C element type, dimensions) of a numpy field"""
    base, shape = (dt.subdtype if dt.subdtype else (dt, ()))
    return CT[base.kind + str(base.itemsize)], tuple(int(x) for x in shape)
def binding(repo):
    """struct declarations of the binding layer: {record: [(field, C type, dims)]}"""
    s = open(os.path.join(repo, "src/python/pycold/_colds_cython.pyx")).read()
    defs = {m.group(1): int(m.group(2)) for m in re.finditer(r"^DEF\s+(\w+)\s*=\s*(\d+)", s, re.M)}
    out = {}
    for m in re.finditer(r"^([ \t]*)(?:ctypedef struct|cdef struct)\s+(\w+)\s*:\s*\n((?:\1[ \t]+.*\n|\s*\n)+)", s, re.M):
        fl = []
        for ln in m.group(3).split("\n"):
            ln = re.sub(r"#.*", "", ln).strip().rstrip(";")
            if not ln or ln in ("pass", "..."): continue
            q = re.match(r"(.*?)(\w+)\s*((?:\[[^\]]*\])*)$", ln)
            fl.append((q.group(2), q.group(1).strip(), tuple(int(eval(x, {}, defs)) for x in re.findall(r"\[([^\]]*)\]", q.group(3)))))
        out[m.group(2)] = fl
    return out
