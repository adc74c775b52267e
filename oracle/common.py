"""Shared helpers of the concrete oracles (run under the pycold venv)."""
import os, sys, json, random, types, shutil, subprocess, ctypes
REPO = os.environ.get("PYCOLD_REPO", "/repo")
SCRATCH = os.environ.get("VERIF_SCRATCH", "/tmp")
SEED = int(os.environ.get("VERIF_SEED", "1"))
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
sys.dont_write_bytecode = True
try:
    import numpy as np
    np.seterr(all="ignore")
except ImportError:
    np = None
import warnings
warnings.filterwarnings("ignore")

def emit(**k):
    print(json.dumps(k, default=_js), flush=True)
def _js(o):
    if np is not None:
        if isinstance(o, np.ndarray): return o.tolist()
        if isinstance(o, np.generic): return o.item()
    return repr(o)
def violation(what, inp, expected=None, got=None, **k):
    v = {"what": what, "input": inp, "expected": expected, "got": got}; v.update(k)
    emit(violation=v)
def known(kid): emit(known=kid)
def stats(**k): emit(stats=k)

def stub_modules():
    """stand-ins for libraries that are absent here, so that the real modules can be imported"""
    for name in ("mpi4py", "mpi4py.MPI"):
        if name not in sys.modules:
            m = types.ModuleType(name); sys.modules[name] = m
            if name == "mpi4py": m.MPI = types.ModuleType("mpi4py.MPI")
    sys.modules["mpi4py.MPI"] = sys.modules["mpi4py"].MPI

def py_package(build=False):
    """import the real pycold Python package from /repo/src/python.  With build, the
    extension is rebuilt from /repo's C/Cython sources into the scratch folder and the
    package is imported from a scratch copy; otherwise a stand-in replaces the extension."""
    stub_modules()
    if build:
        dst = build_ext()
        sys.path.insert(0, dst)
    else:
        sys.path.insert(0, os.path.join(REPO, "src/python"))
        m = types.ModuleType("pycold._colds_cython")
        def mk(n):
            def f(*a, **k): raise RuntimeError("extension stand-in")
            f.__name__ = n; return f
        for n in ("_cold_detect", "_obcold_reconstruct", "_sccd_detect", "_sccd_update", "test_func"):
            setattr(m, n, mk(n))
        sys.modules["pycold._colds_cython"] = m
        return m

def build_ext():
    dst = os.path.join(SCRATCH, "pkg"); os.makedirs(dst, exist_ok=True)
    bd = os.path.join(SCRATCH, "cmake")
    env = dict(os.environ); env["PATH"] = "/opt/pycold-venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    env.update(CC="gcc", CXX="g++", FC="gfortran", PYTHONPATH=os.path.join(REPO, "src/python"))
    for cmd in (["/usr/bin/cmake", "-S", REPO, "-B", bd, "-G", "Ninja", "-Wno-dev", "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
                 "-DPYTHON_EXECUTABLE=/opt/pycold-venv/bin/python", "-DPYTHON_INCLUDE_DIR=/usr/include/python3.12",
                 "-DPYTHON_LIBRARY=/usr/lib/x86_64-linux-gnu/libpython3.12.so"], ["/usr/bin/ninja", "-C", bd]):
        r = subprocess.run(cmd, env=env, capture_output=True, text=True, timeout=400)
        if r.returncode: raise RuntimeError("build failed: " + r.stdout[-500:] + r.stderr[-500:])
    pk = os.path.join(dst, "pycold")
    if os.path.exists(pk): shutil.rmtree(pk)
    shutil.copytree(os.path.join(REPO, "src/python/pycold"), pk, ignore=shutil.ignore_patterns("*.so", "__pycache__"))
    so = [f for f in os.listdir(os.path.join(bd, "src/python/pycold")) if f.endswith(".so")][0]
    shutil.copy(os.path.join(bd, "src/python/pycold", so), pk)
    return dst

CSRC = "cold.c input.c 2d_array.c utilities.c misc.c multirobust.c output.c s_ccd.c KFAS.c lbfgs.c distribution_math.c".split()
def build_c(san=False, extra=(), name="libcold.so"):
    """the C sources of the extension, from /repo, as a shared library in the scratch folder"""
    out = os.path.join(SCRATCH, name)
    if os.path.exists(out): return out
    od = os.path.join(SCRATCH, "cobj_" + name); os.makedirs(od, exist_ok=True)
    procs = []
    flags = ["-O1", "-g", "-fPIC", "-w", "-I" + os.path.join(REPO, "src/cxx")] + list(extra)
    for f in CSRC:
        procs.append(subprocess.Popen(["gcc"] + flags + ["-c", os.path.join(REPO, "src/cxx", f), "-o", os.path.join(od, f + ".o")], stderr=subprocess.PIPE))
    procs.append(subprocess.Popen(["gfortran", "-O1", "-fPIC", "-w", "-std=legacy", "-c", os.path.join(REPO, "src/cxx/GLMnet.f"), "-o", os.path.join(od, "GLMnet.o")], stderr=subprocess.PIPE))
    for p in procs:
        _, e = p.communicate()
        if p.returncode: raise RuntimeError("C build failed: " + e.decode()[-500:])
    objs = [os.path.join(od, f) for f in sorted(os.listdir(od))]
    r = subprocess.run(["gcc", "-shared", "-o", out] + objs + list(extra) + ["-lgsl", "-lgslcblas", "-lgfortran", "-lm", "-lz", "-lpthread"], capture_output=True, text=True)
    if r.returncode: raise RuntimeError("link failed: " + r.stderr[-500:])
    return out

def cython_object():
    """the binding layer compiled from /repo's pyx, as an object file"""
    wd = os.path.join(SCRATCH, "cy"); o = os.path.join(wd, "_colds_cython.o")
    if os.path.exists(o): return o
    src = os.path.join(wd, "src", "python", "pycold"); os.makedirs(src, exist_ok=True)
    if not os.path.exists(os.path.join(wd, "src", "cxx")): os.symlink(os.path.join(REPO, "src/cxx"), os.path.join(wd, "src", "cxx"))
    shutil.copy(os.path.join(REPO, "src/python/pycold/_colds_cython.pyx"), src)
    open(os.path.join(src, "__init__.py"), "w").close()
    inc = subprocess.run(["/opt/pycold-venv/bin/python", "-c", "import numpy;print(numpy.get_include())"], capture_output=True, text=True).stdout.strip()
    for cmd in (["/opt/pycold-venv/bin/cython", "_colds_cython.pyx", "-o", "_colds_cython.c"],
                ["gcc", "-O1", "-fPIC", "-w", "-I/usr/include/python3.12", "-I" + inc, "-c", "_colds_cython.c", "-o", o]):
        r = subprocess.run(cmd, cwd=src, capture_output=True, text=True, timeout=300)
        if r.returncode: raise RuntimeError("cython build failed: " + r.stdout[-800:] + r.stderr[-800:])
    return o

def ext_package(objs, name):
    """a copy of the pycold package whose extension is linked from the given objects"""
    dst = os.path.join(SCRATCH, name); pk = os.path.join(dst, "pycold")
    if os.path.exists(pk): return dst
    os.makedirs(dst, exist_ok=True)
    shutil.copytree(os.path.join(REPO, "src/python/pycold"), pk, ignore=shutil.ignore_patterns("*.so", "__pycache__"))
    r = subprocess.run(["gcc", "-shared", "-o", os.path.join(pk, "_colds_cython.cpython-312-x86_64-linux-gnu.so"), cython_object()] + objs +
                       ["-lgsl", "-lgslcblas", "-lgfortran", "-lm", "-lz", "-lpthread"], capture_output=True, text=True)
    if r.returncode: raise RuntimeError("link failed: " + r.stderr[-500:])
    return dst

def c_objects(flags=("-O1", "-g"), tag="o1"):
    """object files of the C library, from /repo's sources"""
    od = os.path.join(SCRATCH, "cobj_" + tag)
    if not os.path.isdir(od):
        os.makedirs(od)
        procs = []
        for f in CSRC:
            procs.append(subprocess.Popen(["gcc"] + list(flags) + ["-fPIC", "-w", "-I" + os.path.join(REPO, "src/cxx"), "-c", os.path.join(REPO, "src/cxx", f), "-o", os.path.join(od, f + ".o")], stderr=subprocess.PIPE))
        procs.append(subprocess.Popen(["gfortran", "-O1", "-fPIC", "-w", "-std=legacy", "-c", os.path.join(REPO, "src/cxx/GLMnet.f"), "-o", os.path.join(od, "GLMnet.o")], stderr=subprocess.PIPE))
        for p in procs:
            _, e = p.communicate()
            if p.returncode: raise RuntimeError("C build failed: " + e.decode()[-500:])
    return [os.path.join(od, f) for f in sorted(os.listdir(od))]

def c_params(rel, fname):
    """parameter (name, type) list of a C function definition"""
    import re
    s = open(os.path.join(REPO, "src/cxx", rel)).read()
    s = re.sub(r"/\*.*?\*/", " ", s, flags=re.S); s = re.sub(r"//[^\n]*", " ", s)
    for m in re.finditer(r"\b%s\s*\(" % fname, s):
        i = m.end(); d = 1
        while d and i < len(s):
            d += {"(": 1, ")": -1}.get(s[i], 0); i += 1
        if s[i:].lstrip().startswith("{"):
            r = []
            for a in s[m.end():i - 1].split(","):
                a = a.strip(); nm = re.search(r"(\w+)\s*(\[[^\]]*\])*$", a).group(1)
                r.append((nm, a[:a.rfind(nm)].strip()))
            return r
    raise RuntimeError("definition of %s not found" % fname)

def forked(fn, timeout=60):
    """run fn() in a child process: its result, or {"crash": signal} / {"hang": seconds}"""
    import pickle, select, time as _t, signal
    r, w = os.pipe(); sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 2)
            d = pickle.dumps(fn())
        except BaseException as e:
            d = pickle.dumps({"error": repr(e)[:500]})
        with os.fdopen(w, "wb") as f: f.write(d)
        os._exit(0)
    os.close(w); buf = b""; t0 = _t.time()
    while True:
        left = timeout - (_t.time() - t0)
        if left <= 0 or not select.select([r], [], [], left)[0]:
            os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0); os.close(r); return {"hang": timeout}
        d = os.read(r, 1 << 20)
        if not d: break
        buf += d
    os.close(r); _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st): return {"crash": os.WTERMSIG(st)}
    try: return pickle.loads(buf)
    except Exception: return {"crash": -1}

def clib(**k):
    """the C library of the extension, built from /repo, through ctypes"""
    return ctypes.CDLL(build_c(**k))
def rows(a):
    """T** view of a 2-D array (keeps no reference: hold on to `a`)"""
    n = a.shape[0]
    return (ctypes.c_void_p * max(n, 1))(*[a[i].ctypes.data for i in range(n)])
def P(a): return ctypes.c_void_p(a.ctypes.data)
