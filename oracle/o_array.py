"""P21 on the real 2d_array.c: shapes, element sizes, impossible requests and refused memory,
with the allocator replaced by one that records what it is asked for and what it is given back."""
from common import *
HOOK = r"""
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
size_t hk_size; void *hk_ptr; int hk_refuse, hk_mallocs, hk_frees; void *hk_freed;
void *h_malloc(size_t n) { hk_mallocs++; hk_size = n; if (hk_refuse || n > ((size_t) 1 << 28)) return hk_ptr = NULL; return hk_ptr = malloc(n ? n : 1); }
void *h_calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) n = (size_t) -1; void *p = h_malloc(n); if (p) memset(p, 0, n); return p; }
void *h_realloc(void *p, size_t n) { return realloc(p, n); }
void h_free(void *p) { hk_frees++; hk_freed = p; free(p); }
"""
src = os.path.join(SCRATCH, "hook.c"); so = os.path.join(SCRATCH, "libhook.so"); open(src, "w").write(HOOK)
subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, src], check=True)
hk = ctypes.CDLL(so, mode=ctypes.RTLD_GLOBAL)
lib = clib(extra=["-Dmalloc=h_malloc", "-Dcalloc=h_calloc", "-Drealloc=h_realloc", "-Dfree=h_free"], name="libarr.so")
A, F = lib.allocate_2d_array, lib.free_2d_array
A.restype = ctypes.c_void_p; A.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_size_t]; F.argtypes = [ctypes.c_void_p]
gi = lambda n, t=ctypes.c_int: t.in_dll(hk, n)
size, ptr, refuse, nm, nf, freed = gi("hk_size", ctypes.c_size_t), gi("hk_ptr", ctypes.c_void_p), gi("hk_refuse"), gi("hk_mallocs"), gi("hk_frees"), gi("hk_freed", ctypes.c_void_p)
rng = np.random.default_rng(SEED); V = []
def viol(inp, want, got): V.append((inp, want, got))
def shape(r, c, m):
    inp = dict(rows=r, columns=c, member_size=m); need = max(r, 0) * max(c, 0) * m; nm.value = nf.value = 0; refuse.value = 0
    p = A(r, c, m)
    if p is None:
        if r >= 0 and c >= 0 and need + 8 * r < 1 << 27: viol(inp, "a request within memory is satisfied", "null")
        if nm.value != nf.value and ptr.value is not None: viol(inp, "a refused request leaves nothing allocated", "%d malloc, %d free" % (nm.value, nf.value))
        return
    if r < 0 or c < 0 or need > 1 << 28:
        viol(inp, "a request that cannot be satisfied returns null", "a block of %d bytes for %d bytes of elements" % (size.value, need)); return
    lo, hi = ptr.value, ptr.value + size.value; rp = [int(x) for x in (ctypes.c_uint64 * r).from_address(p)] if r else []
    if not lo <= p <= p + 8 * r <= hi: viol(inp, "the table of rows lies inside the block", [p - lo, size.value]); return
    K = c * m; al = next(a for a in (16, 8, 4, 2, 1) if m % a == 0)
    for i, x in enumerate(rp):
        if not lo <= x <= x + K <= hi: viol(inp, "row %d lies inside the block" % i, [x - lo, K, size.value]); return
        if K and x < p + 8 * r: viol(inp, "row %d does not overlap the table of rows" % i, [x - lo, p - lo]); return
        if i and x != rp[i - 1] + K: viol(inp, "row %d follows row %d" % (i, i - 1), x - rp[i - 1]); return
        if K and x % min(al, 8): viol(inp, "row %d is aligned for its elements" % i, x % al); return
    for i, x in enumerate(rp): ctypes.memset(x, i % 251 + 1, K)
    if [int(x) for x in (ctypes.c_uint64 * r).from_address(p)] != rp if r else False: viol(inp, "writing the elements leaves the table of rows", "changed"); return
    for i, x in enumerate(rp):
        if ctypes.string_at(x, K) != bytes([i % 251 + 1]) * K: viol(inp, "row %d keeps its elements" % i, "overwritten"); return
    base = ptr.value; st = F(p)
    if st != 0: viol(inp, "freeing an array succeeds", st); return
    if nm.value != 1 or nf.value != 1 or freed.value != base: viol(inp, "freeing releases the whole block", [nm.value, nf.value]); return
def batch(todo):
    """runs shape over the list in a child (its C output silenced), one by one if that dies"""
    def go():
        dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1)
        del V[:]
        for s in todo:
            shape(*s)
            if len(V) > 3: break
        return list(V)
    r = forked(go, 60)
    if isinstance(r, list): return r
    if len(todo) == 1: return [(dict(zip(("rows", "columns", "member_size"), todo[0])), "allocation, use and release without a crash", str(r))]
    out = []
    for s in todo:
        out += batch([s])
        if len(out) > 3: break
    return out
def misuse():
    dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1); del V[:]
    for r, c, m in ((1, 1, 4), (7, 5, 8), (0, 0, 1)):
        refuse.value = 1; nf.value = 0; p = A(r, c, m); refuse.value = 0
        if p is not None: viol(dict(rows=r, columns=c, member_size=m), "refused memory gives null", "a pointer")
    if F(None) != 0: viol("null", "freeing null succeeds", "failure")
    p = A(3, 3, 4); base = ptr.value; nf.value = 0; raw = ctypes.create_string_buffer(ctypes.string_at(base, size.value), size.value); off = p - base
    ctypes.memset(raw, 0x5A, 4)
    if F(ctypes.addressof(raw) + off) == 0 or nf.value: viol("a block that allocate_2d_array did not return", "it is reported and not freed", nf.value)
    F(p); return list(V)
def main():
    todo = [(r, c, m) for r in list(range(0, 12)) + [31, 40, 41] for c in (0, 1, 2, 3, 5, 8, 17, 366) for m in (1, 2, 4, 8, 12, 24)]
    todo += [(int(rng.integers(0, 400)), int(rng.integers(0, 400)), int(rng.choice([1, 2, 4, 8]))) for _ in range(3000 if THOROUGH else 300)]
    big = [(65536, 65536, 1), (65536, 32768, 2), (46341, 46341, 4), (2**31 - 1, 2, 1), (2, 2**31 - 1, 8), (2**30, 2**30, 8), (2**31 - 1, 2**31 - 1, 8), (2**31 - 1, 2**31 - 1, 16), (2**16, 2**16, 2**32), (2**20, 2**20, 2**24), (-1, 4, 4), (4, -1, 4), (-3, -3, 8), (-2**31, 1, 1), (1, -2**31, 8),
           (2**29, 1, 1), (2**28, 0, 4), (3, 3, 2**62), (1, 1, 2**64 - 8), (8, 1, 2**61), (2**10, 2**12, 2**42), (1, 2**30, 4), (7, 2**29, 4)]
    out = batch(todo)
    for b in big: out += batch([b])
    r = forked(misuse, 60); out += r if isinstance(r, list) else [("refused memory, null, foreign block", "no crash", str(r))]
    for inp, want, got in out[:6]: violation("2-D work array: " + want, inp, want, got)
    stats(evaluations=len(todo) + len(big) + 5)
main()
