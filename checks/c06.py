"""C06: frexp, modf and ilogb take a number apart exactly."""
from common import *


def ilog(x, w, bits=32):
    """floor(log2 |x|) for finite nonzero x"""
    eb, sb, bias = S.params(w)
    s, e, m = B.normalize(x, 16 if w < 128 else 20)
    return t.sext(t.sub(e, t.const(bias, e.w)), bits)


def special(x):
    return t.disj([t.is_nan(x), t.is_inf(x), t.is_fzero(x)])


def spec_ilogb(x, r):
    (x,), (r,) = x, r
    c = lambda v: t.const(v & 0xFFFFFFFF, 32)
    exp = t.ite(t.bor(t.is_fzero(x), t.is_nan(x)), c(-(1 << 31)), t.ite(t.is_inf(x), c((1 << 31) - 1), ilog(x, x.w)))
    return t.eq(r, exp)


def spec_frexp(x, r):
    (x,), (m, e) = x, r
    w = x.w
    eb, sb, bias = S.params(w)
    s, ne, sig = B.normalize(x, 16)
    em = t.concat(s, t.const(bias - 1, eb), t.extract(sig, sb - 1, 0))
    ee = t.sext(t.sub(ne, t.const(bias - 1, 16)), 32)
    return t.ite(special(x), t.band(same(m, x), t.bor(t.bnot(t.is_fzero(x)), t.eq(e, t.const(0, 32)))), t.band(t.eq(m, em), t.eq(e, ee)))


def spec_modf(x, r):
    (x,), (f, i) = x, r
    w = x.w
    ip = B.frint(x, "trunc")
    sgn = t.concat(t.msb(x), t.const(0, w - 1))
    fr = t.fsub(x, ip)
    frac = t.ite(t.bor(t.is_inf(x), t.is_fzero(fr)), sgn, fr)
    return t.ite(t.is_nan(x), t.band(t.is_nan(f), t.is_nan(i)), t.band(t.eq(i, ip), t.eq(f, frac)))


def obligations(tier):
    obs = []
    for cfg in CFGS:
        for w in (32, 64):
            s = SUF[w]
            obs.append(Ob(f"ilogb{s}[{cfg}]", "ilogb" + s, spec_ilogb, config=cfg, max_iter=60))
            obs.append(Ob(f"frexp{s}[{cfg}]", "frexp" + s, spec_frexp, config=cfg))
            obs.append(Ob(f"modf{s}[{cfg}]", "modf" + s, spec_modf, config=cfg))
    return obs


if __name__ == "__main__":
    sys.exit(lib.main("C06", obligations, "other", "all bit patterns of f32/f64; loops unrolled to their end (60 iterations, shown sufficient)"))
