"""C07: nextafter steps to the adjacent representable value."""
from common import *


def key(x):
    """monotone map of the non-NaN floats onto integers, with -0 and +0 at the same place"""
    w = x.w
    m = t.concat(t.const(0, 1), t.extract(x, w - 2, 0))
    return t.ite(t.msb(x), t.neg(m), m)


def spec(x, r):
    (a, b), (r,) = x, r
    w = a.w
    ka, kb, kr = key(a), key(b), key(r)
    one = t.const(1, w)
    step = t.ite(t.slt(ka, kb), t.eq(kr, t.add(ka, one)), t.eq(kr, t.sub(ka, one)))
    return t.ite(t.bor(t.is_nan(a), t.is_nan(b)), t.is_nan(r),
                 t.ite(t.eq(ka, kb), t.eq(r, b),
                       # a step onto zero keeps the sign of the starting value
                       t.conj([step, t.bnot(t.is_nan(r)), t.bor(t.bnot(t.is_fzero(r)), t.eq(t.msb(r), t.msb(a)))])))


def obligations(tier):
    return [Ob(f"nextafter{SUF[w]}[{cfg}]", "nextafter" + SUF[w], spec, config=cfg) for cfg in CFGS for w in (32, 64)]


if __name__ == "__main__":
    sys.exit(lib.main("C07", obligations, "other", "all pairs of bit patterns of f32/f64"))
