"""P24 on the real code: the C compiler fills records field by field, numpy reads the bytes."""
from common import *
import layouts as ly
ds, bad = ly.dtypes(REPO)
n = 0
NR = 3
def val(k, size): return k % 251 if size == 1 else k % 32749 if size == 2 else (k * 7919) % 8388593
for rel, ln, nm, dt in ds:
    r = ly.which(set(dt.names)); src = ["#include <stdbool.h>", "#include <stdio.h>", "#include <stddef.h>", '#include "defines.h"', '#include "output.h"', '#include "s_ccd.h"', "#include <string.h>",
        "static long val(long k, int s) { return s == 1 ? k %% 251 : s == 2 ? k %% 32749 : (k * 7919) %% 8388593; }".replace("%%", "%"), "int main(void) { static %s x[%d]; long k = 1; memset(x, 0, sizeof x);" % (r, NR), "for (int q = 0; q < %d; q++) {" % NR]
    for f in dt.names:
        nd = len(ly.ctype(dt.fields[f][0])[1])
        src.append("{ __typeof__(x[0].%s%s) *p = (void *) &x[q].%s; for (unsigned i = 0; i < sizeof x[0].%s / sizeof *p; i++) p[i] = val(k++, sizeof *p); }" % (f, "[0]" * nd, f, f))
    src.append("} fwrite(x, sizeof x[0], %d, stdout); return 0; }" % NR)
    p = os.path.join(SCRATCH, "lay.c"); open(p, "w").write("\n".join(src)); e = os.path.join(SCRATCH, "lay")
    g = subprocess.run(["gcc", "-w", "-I" + os.path.join(REPO, "src/cxx"), p, "-o", e], capture_output=True, text=True)
    inp = {"record": r, "numpy type": "%s %s:%d" % (nm, rel, ln)}
    if g.returncode:
        if "has no member" in g.stderr or "subscripted value" in g.stderr: violation("a field of the numpy type is not a field of the C record with that many dimensions", inp, None, g.stderr[:300])
        else: raise RuntimeError(g.stderr[-500:])
        continue
    b = subprocess.run([e], capture_output=True).stdout; n += 1
    if len(b) != NR * dt.itemsize: violation("the numpy record has another size than the C record", inp, len(b) // NR, dt.itemsize); continue
    a = np.frombuffer(b, dtype=dt); k = 1; ok = True
    for q in range(NR):
        for f in dt.names:
            x = np.asarray(a[q][f]); want = np.array([val(k + i, x.dtype.itemsize) for i in range(x.size)]).reshape(x.shape).astype(float); k += x.size; n += x.size
            if ok and not np.array_equal(x.astype(float), want): ok = False; violation("a field written by C is read differently", dict(inp, field=f, record_index=q), want.tolist(), x.tolist())
# the binding accepts every record type: one detection in each output mode
stats(evaluations=n, distinct_nontrivial=n, rule="every field element of three records of every numpy record type of the package, written by C and read by numpy")
