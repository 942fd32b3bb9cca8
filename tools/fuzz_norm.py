"""Differential test of the sign normal form and of the range propagation: on random boxes and random points inside them the
rewritten query has the same truth value as the original (developer tool, not part of any check)."""
import os, random, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, "checks")]
sys.argv = sys.argv[:1] + sys.argv[1:]
from common import *
from engine import absfp, lib, ranges, signnorm

SPECIAL = {32: [0, 0x7F800000, 0x7FC00000, 1, 0x3F800000, 0x4B000000, 0x40490FDB, 0x3FC90FDB], 64: [0, 0x7FF << 52, 0x7FF8 << 48, 1, 0x3FF << 52, 0x433 << 52, 0x400921FB54442D18, 0x3FF921FB54442D18]}


def main():
    fns = sys.argv[1].split(",")
    random.seed(int(sys.argv[2]) if len(sys.argv) > 2 else 1)
    m = build.build_ir("arch", True, extra=lib.EXTRA, key="n")
    for fn in fns:
        w = 32 if fn.endswith("f") and fn != "erf" else 64
        x = t.var("x0", w)
        st = dict(stubs=STUBS, max_iter=60)
        (r,), c, ev, _ = X.encode(m, fn, [x], (w,), **st)
        (s,), c2, ev2, _ = X.encode(m, fn, [t.bxor(x, t.const(1 << (w - 1), w))], (w,), **st)
        k = t.var("k", w)
        preds = [t.flt(t.fadd(r, s), t.fsub(r, t.fmul(k, s))), t.flt(k, r), t.feq(r, s), t.feq(t.fadd(r, s), k), t.fle(s, k), t.eq(r, s), t.msb(r), t.eq(t.fmul(r, k), t.fsub(s, k))]
        bad = tot = true = 0
        for it in range(150):
            lo = random.choice(SPECIAL[w] + [random.getrandbits(w) for _ in range(6)]) ^ random.choice([0, 1 << (w - 1)])
            wid = random.choice([1, 4, 16, 1 << (w // 3), 1 << (w - 10), 1 << (w - 4)])
            hi = min(lo + wid, (1 << w) - 1)
            kk = random.choice([0, 1 << (w - 1)] + SPECIAL[w] + [random.getrandbits(w)])
            box = {"x0": (lo, hi), "k": (kk, kk)}
            p = random.choice(preds)
            q = t.band(t.band(c, c2), p)
            [a], val = ranges.propagate([q], box)
            if a.op == "const":
                n = a
            else:
                n, _ = signnorm.norm_in(a, val, box)
            for _ in range(4):
                pt = {"x0": random.choice([lo, hi, random.randint(lo, hi)]), "k": kk}
                cv = absfp.values([q, n], pt)
                tot += 1
                true += cv[q].k
                if cv[q].k != cv[n].k:
                    bad += 1
                    if bad < 5:
                        print("MISMATCH", fn, preds.index(p), {z: hex(v) for z, v in pt.items()}, box, cv[q].k, cv[n].k)
        print(fn, "points", tot, "true", true, "mismatches", bad, flush=True)


main()
