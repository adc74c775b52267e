"""Mechanical extraction of the Cython binding layer into Python that the engine executes.
Dropped: C types of variables and parameters, memory-view declarations, casts.  Kept: every
statement, every call, every argument.  `&x[0]` becomes a tagged address, `&n` of a C scalar a
reference whose new value the callee's contract returns."""
import re, os
from . import pysym as ps

class Addr:
    """&view[0]"""
    def __init__(self, arr, i): self.arr = arr; self.i = i
class Ref:
    def __init__(self, name, val): self.name = name; self.val = val

def split_top(s, sep=","):
    out, d, cur, q = [], 0, "", None
    for ch in s:
        if q:
            if ch == q: q = None
        elif ch in "\"'": q = ch
        elif ch in "([{": d += 1
        elif ch in ")]}": d -= 1
        if ch == sep and d == 0 and not q: out.append(cur); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur)
    return out

CTYPES = r"(?:unsigned\s+|short\s+|long\s+)*(?:int|double|float|bint|bool|long|short|char|np\.\w+_t|[A-Z]\w*_t|Output_\w+|output_\w+)"

def to_python(src):
    """the pyx text as Python source"""
    # join parenthesised lines, so that each statement is one logical line
    lines, buf, depth, doc = [], "", 0, False
    for ln in src.split("\n"):
        raw = ln
        if not doc:
            code = re.sub(r"#.*$", "", raw) if '"""' not in raw and "'" not in raw and '"' not in raw else raw
        if doc:
            if '"""' in raw: doc = False
            continue
        if raw.count('"""') == 1 and depth == 0: doc = True; continue
        if raw.count('"""') == 2 and depth == 0: continue
        if not code.strip() and depth == 0: continue
        s = re.sub(r"\"[^\"]*\"|'[^']*'", "", code)
        if "#" in s: 
            k = code.rfind("#"); code = code[:k]; s = re.sub(r"\"[^\"]*\"|'[^']*'", "", code)
        buf = (buf + " " + code.strip()) if buf else code.rstrip()
        depth += sum(s.count(c) for c in "([{") - sum(s.count(c) for c in ")]}")
        if depth <= 0: lines.append(buf); buf = ""; depth = 0
    out, skip = [], None
    consts = {}
    for ln in lines:
        ind = len(ln) - len(ln.lstrip()); st = ln.strip()
        if skip is not None:
            if ind > skip: continue
            skip = None
        if st.startswith(("cimport ", "from libc", "from libcpp", "from cpython", "np.import_array")) or re.match(r"from \S+ cimport", st): continue
        if st.startswith(("cdef extern", "ctypedef")): skip = ind; continue
        pad = " " * ind
        m = re.match(r"DEF (\w+)\s*=\s*(.*)", st)
        if m: out.append(pad + "%s = %s" % m.groups()); continue
        m = re.match(r"(?:cpdef|cdef|def)\s+(?:%s\s+)?(\w+)\s*\((.*)\)\s*:$" % CTYPES, st)
        if m:
            ps_ = []
            for a in split_top(m.group(2)):
                a = a.strip(); d = None
                k = split_top(a, "=")
                if len(k) > 1: a, d = k[0].strip(), "=".join(k[1:]).strip()
                nm = re.search(r"(\w+)$", a).group(1)
                ps_.append(nm + ("=" + d if d is not None else ""))
            out.append(pad + "def %s(%s):" % (m.group(1), ", ".join(ps_))); continue
        if st.startswith("cdef "):
            m = re.match(r"cdef\s+%s\s*(\[[:, ]*\]|\*)?\s*(\w+)\s*(?:=\s*(.*))?$" % CTYPES, st)
            if not m: raise ps.Unsupported("cdef statement: " + st)
            if m.group(3) is None: continue
            st = "%s = %s" % (m.group(2), m.group(3))
        st = re.sub(r"<\s*\w[\w\s]*\*\s*>", "", st)
        st = re.sub(r"&(\w+)\[(\w+)\]", r"_addr(\1, \2)", st)
        refs = re.findall(r"&(\w+)", st)
        if refs:
            m = re.match(r"(\w+)\s*=\s*(.*)$", st)
            if not m: raise ps.Unsupported("call by reference: " + st)
            e = re.sub(r"&(\w+)", r"_ref('\1', \1)", m.group(2))
            st = "%s, %s = %s" % (m.group(1), ", ".join(refs), e)
        out.append(pad + st)
    return "\n".join(out) + "\n"

class PyxModule(ps.Module):
    def load(self):
        raise NotImplementedError
    def __init__(self, repo, rel="pycold/_colds_cython.pyx", facades=None, cache=None, ns=None):
        import ast, builtins
        self.repo = repo; self.rel = rel; self.cache = cache if cache is not None else {}; self.cache[rel] = self
        raw = open(os.path.join(repo, "src/python", rel)).read()
        self.src = to_python(raw)
        self.facades = facades or {}
        self.ns = {"__name__": "shadow." + rel, "_vc_Loop": ps.Loop, "_vc_locs": ps._locs, "_vc_get": ps._get, "_vc_lc": ps._lc, "_vc_glist": ps.GList,
                   "_addr": Addr, "_ref": Ref}
        self.ns.update(ns or {})
        b = dict(vars(builtins)); b.update(ps.BUILTINS); self.ns["__builtins__"] = b
        self.tree = ast.parse(self.src)
        ps.Module.load(self)
        self.ns.update(ns or {})

def c_params(repo, rel, fname):
    """parameter names and types of a C function definition, in order"""
    s = open(os.path.join(repo, "src/cxx", rel)).read()
    s = re.sub(r"/\*.*?\*/", " ", s, flags=re.S); s = re.sub(r"//[^\n]*", " ", s)
    for m in re.finditer(r"\b%s\s*\(" % fname, s):
        i = m.end(); d = 1
        while d and i < len(s):
            d += {"(": 1, ")": -1}.get(s[i], 0); i += 1
        if s[i:].lstrip().startswith("{"):
            r = []
            for a in s[m.end():i - 1].split(","):
                a = a.strip(); nm = re.search(r"(\w+)\s*(\[[^\]]*\])*$", a).group(1)
                r.append((nm, a[:a.rfind(nm)].strip()))
            return r
    raise ps.Unsupported("definition of %s not found in %s" % (fname, rel))
