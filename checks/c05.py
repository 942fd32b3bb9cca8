"""C05: scalbn / ldexp scale by a power of two with one rounding."""
from common import *


def spec(x, r):
    """round(x * 2^n) from the exact value"""
    a, n = x
    w = a.w
    eb, sb, bias = S.params(w)
    ew = max(eb + 3, 34)
    s, e, m = B.unpack(a, ew)
    e = t.add(e, t.sext(n, ew))
    # n far outside the exponent range saturates to infinity / zero: clamp to keep the shifter small
    hi, lo = 4 * (1 << eb), -4 * (1 << eb)
    cw = eb + 5
    c = lambda v: t.const(v, ew)
    e = t.ite(t.slt(c(hi), e), c(hi), t.ite(t.slt(e, c(lo)), c(lo), e))
    v = B.round_pack(w, s, t.trunc(e, cw), t.concat(m, t.const(0, 2)) if w > 16 else t.concat(m, t.const(0, 2)))
    return same(r[0], t.ite(t.bor(t.is_nan(a), t.bor(t.is_inf(a), t.is_fzero(a))), a, v))


def split(a, n):
    """case split that covers everything: three ranges of n, normal and subnormal inputs"""
    eb, sb, bias = S.params(a.w)
    c = lambda v: t.const(v, 32)
    sub = t.eq(t.fexp(a), t.const(0, eb))
    rng = [t.slt(n, c(-bias + 1)), t.slt(c(bias), n), t.band(t.sle(c(-bias + 1), n), t.slt(n, c(0))), t.band(t.sle(c(0), n), t.sle(n, c(bias)))]
    return [t.band(g, q) for g in rng for q in (sub, t.bnot(sub))]


def obligations(tier):
    obs = []
    for cfg in CFGS:
        for w, s in SUF.items():
            for n in ("scalbn", "ldexp"):
                obs.append(Ob(f"{n}{s}[{cfg}]", n + s, spec, config=cfg, timeout=200, split=split if w == 128 else None))
    return obs


if __name__ == "__main__":
    sys.exit(lib.main("C05", obligations, "other", "all bit patterns of f16/f32/f64/f128 x all i32 exponents"))
