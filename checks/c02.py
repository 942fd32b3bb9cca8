"""C02: sign operations, minimum/maximum family, fdim."""
from common import *


def pick(c, a, b):
    return t.ite(c, a, b)


def spec_fabs(x, r):
    return t.eq(r[0], t.concat(t.const(0, 1), t.extract(x[0], x[0].w - 2, 0)))


def spec_copysign(x, r):
    return t.eq(r[0], t.concat(t.msb(x[1]), t.extract(x[0], x[0].w - 2, 0)))


def less(a, b):
    """total order on non-NaN values with -0 < +0"""
    w = a.w
    ka = t.ite(t.msb(a), t.bnot(a), t.bor(a, t.const(1 << (w - 1), w)))
    kb = t.ite(t.msb(b), t.bnot(b), t.bor(b, t.const(1 << (w - 1), w)))
    return t.ult(ka, kb)


def minmax(maximum, nan, strict):
    def spec(x, r):
        a, b, r = x[0], x[1], r[0]
        an, bn = t.is_nan(a), t.is_nan(b)
        big = pick(less(a, b), b, a) if maximum else pick(less(a, b), a, b)
        z = t.band(t.is_fzero(a), t.is_fzero(b))
        val = t.eq(r, big) if strict else t.bor(t.eq(r, big), t.band(z, t.is_fzero(r)))
        if nan == "propagate":
            return t.ite(t.bor(an, bn), t.is_nan(r), val)
        return t.ite(an, same(r, b), t.ite(bn, same(r, a), val))

    return spec


def spec_fdim(x, r):
    a, b, r = x[0], x[1], r[0]
    return t.ite(t.bor(t.is_nan(a), t.is_nan(b)), t.is_nan(r), t.ite(t.fle(a, b), t.eq(r, t.const(0, a.w)), same(r, t.fsub(a, b))))


def obligations(tier):
    obs = []
    for cfg in CFGS:
        for w, s in SUF.items():
            for n, sp in [("fabs", spec_fabs), ("copysign", spec_copysign), ("fdim", spec_fdim),
                          ("fmax", minmax(True, "ignore", False)), ("fmin", minmax(False, "ignore", False)),
                          ("fmaximum", minmax(True, "propagate", True)), ("fminimum", minmax(False, "propagate", True)),
                          ("fmaximum_num", minmax(True, "ignore", True)), ("fminimum_num", minmax(False, "ignore", True))]:
                obs.append(Ob(f"{n}{s}[{cfg}]", n + s, sp, config=cfg))
    return obs


if __name__ == "__main__":
    sys.exit(lib.main("C02", obligations, "other", "all bit patterns of f16/f32/f64/f128"))
