from common import *
py_package()
import pycold.imagetool.prepare_ard as pa
L = {"qabitval_array": dict(cloud=[5], shadow=[3], snow=[4], water=[2], clear=[1], hls=False),
     "qabitval_array_c2": dict(cloud=[1, 3], shadow=[4], snow=[5], water=[7], clear=[6], hls=False),
     "qabitval_array_HLS": dict(cloud=[1, 2], shadow=[3], snow=[4], water=[5], clear=[], hls=True)}
def spec(w, l):
    b = lambda ks: any((w >> k) & 1 for k in ks)
    if l["hls"] and w == 255: return 255
    for c, v in (("cloud", 4), ("shadow", 2), ("snow", 3), ("water", 1)):
        if b(l[c]): return v
    return 0 if (l["hls"] or b(l["clear"])) else 255
n = 0
rng = random.Random(SEED)
for fn, l in L.items():
    words = list(range(1 << 16))
    if fn == "qabitval_array_HLS": sets = [np.arange(256, dtype=np.uint8), np.array(words, dtype=np.uint16)]
    else: sets = [np.array(words, dtype=np.uint16), np.array([rng.randrange(1 << 31) for _ in range(20000)], dtype=np.int64)]
    for ws in sets:
        exp = np.array([spec(int(w), l) for w in ws])
        shapes = [ws.shape]
        if ws.size == 65536: shapes += [(256, 256), (64, 1024)]
        for sh in shapes:
            perm = np.array(rng.sample(range(ws.size), ws.size))
            a = ws[perm].reshape(sh); b = a.copy()
            try: got = getattr(pa, fn)(a)
            except Exception as e:
                violation("%s raises" % fn, {"dtype": str(a.dtype), "shape": sh}, got=repr(e)); continue
            n += a.size
            if got.shape != tuple(sh): violation("%s changes the shape" % fn, {"shape": sh}, got=got.shape); continue
            bad = np.argwhere(got.reshape(-1) != exp[perm])
            if len(bad):
                i = int(bad[0][0]); violation("%s decodes a QA word to the wrong class" % fn, {"word": int(a.reshape(-1)[i])}, int(exp[perm][i]), int(got.reshape(-1)[i]))
            if not (a == b).all(): violation("%s modifies its input" % fn, {"shape": sh})
stats(evaluations=n, distinct_nontrivial=3 * 65536 - 0, rule="every 16-bit word (8- and 16-bit for HLS) of each decoder in several array shapes; non-trivial: all words are distinct", samples=[{"word": 5440, "c2": spec(5440, L["qabitval_array_c2"])}])
