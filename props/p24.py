"""P24: one record layout in C, in the binding and in numpy.
The contract of a record: for every numpy record type of the package that describes it and for
the binding's struct declaration, each field has the same byte offset, element type and
dimensions as in the C structure, and the record the same size and fields.  Every clause is a
static assertion over the real headers, decided by the type checkers of gcc and clang."""
import os, re, subprocess, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "oracle"))
from vc import ceng as ce
import layouts as ly

def run(c):
    A = []           # (name, C expression)
    st = {}
    def collect():
        ds, bad = ly.dtypes(c.repo); c.trouble += ["dtype not evaluated: " + b for b in bad]
        u = ce.unit(c.repo, "s_ccd.c"); st["recs"] = recs = {}
        for r in ly.RECORDS:
            recs[r] = [f for f, _ in u.records[r]] if r in u.records else None
        seen = {}
        for rel, ln, nm, dt in ds:
            r = ly.which(set(dt.names)); w = "%s %s (%s)" % (rel.split("/")[-1], nm, r); seen.setdefault(rel, set()).add(r)
            if recs[r] is not None: A.append((w + ": the fields of the C record, in order", "1" if list(dt.names) == recs[r] else "0"))
            A.append((w + ": record size", "sizeof(%s) == %d" % (r, dt.itemsize)))
            for f in dt.names:
                ft, off = dt.fields[f][:2]; t, sh = ly.ctype(ft)
                A.append(("%s.%s: byte offset" % (w, f), "offsetof(%s, %s) == %d" % (r, f, off)))
                A.append(("%s.%s: element type and dimensions" % (w, f), "__builtin_types_compatible_p(__typeof__(((%s *)0)->%s), %s%s)" % (r, f, t, "".join("[%d]" % x for x in sh))))
            c.track("layout:" + w, str([(n, dt.fields[n][0].str if not dt.fields[n][0].subdtype else str(dt.fields[n][0]), dt.fields[n][1]) for n in dt.names]))
        for r in ly.RECORDS:
            if not any(r in v for k, v in seen.items() if k.endswith("common.py")): c.trouble.append("no numpy record type for %s in common.py" % r)
        for r, fl in ly.binding(c.repo).items():
            w = "_colds_cython.pyx %s" % r
            if recs.get(r) is not None: A.append((w + ": the fields of the C record, in order", "1" if [f for f, _, _ in fl] == recs[r] else "0"))
            for f, t, sh in fl: A.append(("%s.%s: element type and dimensions" % (w, f), "__builtin_types_compatible_p(__typeof__(((%s *)0)->%s), %s%s)" % (r, f, t, "".join("[%d]" % x for x in sh))))
            c.track("layout:" + w, str(fl))
        A.append(("capacity: numpy conse is the C capacity of consecutive observations", "DEFAULT_CONSE_SCCD == %d" % [d for _, _, n, d in ds if n == "nrtmodel_dt"][0].fields["obs_date_since1982"][0].shape[0]))
    c.guard("layouts", collect)
    def decide():
        p = os.path.join(c.scratch, "layout.c")
        head = ["#include <stdbool.h>", "#include <stdio.h>", "#include <stddef.h>"] + ['#include "%s"' % h for h in ("defines.h", "output.h", "s_ccd.h")]
        open(p, "w").write("\n".join(head + ['_Static_assert(%s, "A%d");' % (e, i) for i, (_, e) in enumerate(A)]) + "\n")
        for be, cmd in (("gcc", ["gcc", "-fsyntax-only", "-w"]), ("clang", ["clang-18" if os.path.exists("/usr/bin/clang-18") else "clang", "-fsyntax-only", "-w", "-ferror-limit=0"])):
            t = time.time(); r = subprocess.run(cmd + ["-I" + os.path.join(c.repo, "src/cxx"), p], capture_output=True, text=True, timeout=100)
            lines = {int(m.group(1)): m.group(2) for m in re.finditer(r"layout\.c:(\d+):\d+: (?:fatal )?error: (.*)", r.stderr)}
            if r.returncode and (not lines or min(lines) <= len(head)): raise RuntimeError("headers: " + r.stderr[:300])
            for i, (n, e) in enumerate(A):
                m = lines.get(len(head) + 1 + i)
                c.res.append({"name": n + " [%s]" % be, "result": "unsat" if m is None else "sat", "backend": be, "time": (time.time() - t) / len(A), "info": m, "meta": e, "kind": "layout"})
                if m: c.log("   NOT DISCHARGED:", n, m)
        c.functions += ["%s (C), %s and its copies (numpy), binding declaration" % (r, d) for r, (d, _) in ly.RECORDS.items()]; c.covers += len(ly.RECORDS)
    c.guard("static assertions", decide)
    c.assumptions += ["the x86-64 ABI of the installed compilers", "numpy's own offsets, as numpy reports them", "text of the dtype calls evaluated as written"]
    c.oracle("o_layout.py")
