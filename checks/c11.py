"""C11: special values, domain errors and NaN propagation of the functions of two arguments."""
from common import *

PI = {32: (0x40490FDB, 0x3FC90FDB, 0x3F490FDB, 0x4016CBE4), 64: (0x400921FB54442D18, 0x3FF921FB54442D18, 0x3FE921FB54442D18, 0x4002D97C7F3321D2)}


def near(r, k, neg=None):
    """within one unit in the last place of the constant; neg: its sign"""
    k = t.const(k, r.w)
    if neg is not None:
        r = t.bxor(r, t.concat(neg, t.const(0, r.w - 1)))
    return t.ule(t.sub(r, t.sub(k, t.const(1, r.w))), t.const(2, r.w))


def is_c(x, v):
    return t.eq(x, fc(v, x.w))


def zero(neg, w):
    return t.concat(neg, t.const(0, w - 1))


def infty(neg, w):
    return t.concat(neg, t.const(S.inf(w), w - 1))


def integer(y):
    """finite and integral, by the bits"""
    return t.band(t.is_finite(y), t.bor(t.is_fzero(y), t.eq(B.frint(y, "trunc"), y)))


def odd(y):
    """an odd integer: the bit of weight one is set and those below are clear"""
    _, sb, bias = t.fparams(y.w)
    e, m = t.fexp(y), t.ffrac(y)
    out = []
    for k in range(sb + 1):  # unit at fraction bit sb - k
        low = sb - k
        c = t.eq(e, t.const(bias + k, e.w))
        frac0 = t.eq(t.extract(m, low - 1, 0), t.const(0, low)) if low else t.TRUE
        unit = t.TRUE if k == 0 else t.extract(m, low, low)
        out.append(t.conj([c, frac0, unit]))
    return t.disj(out)


def stub_atan(w):
    """a call of atan: odd (C12) and of unknown magnitude in [0, pi/2] (an obligation of its own, below)"""

    def f(ctx, args, mem, pc):
        (x,) = args
        u = t.extract(t.mk(f"uf_atan{w}", (t.fabs(x),), w), w - 2, 0)
        hi = t.const(PI[w][1] + 1, w - 1)
        m = t.ite(t.ult(hi, u), hi, u)
        v = t.ite(t.is_nan(x), t.mk(f"uf_atann{w}", (x,), w), t.concat(t.msb(x), m))
        return v, mem, pc

    return f


ATAN = {**STUBS, "libm::math::atan::atan": stub_atan(64), "libm::math::atanf::atanf": stub_atan(32)}


def rules(fn, w):
    """list of (name, assumption, goal); x: the arguments, r: the results"""
    nan = lambda r: t.is_nan(r[0])
    isn, inf, z, fin, neg = t.is_nan, t.is_inf, t.is_fzero, t.is_finite, t.msb
    lt = lambda a, b: t.flt(a, b)
    one = lambda x: is_c(x, 1)
    absl = lambda x, v: t.flt(t.fabs(x), fc(v, w))
    absg = lambda x, v: t.flt(fc(v, w), t.fabs(x))
    A = t.band
    N = t.bnot
    F = t.const(0, 1)
    pi, pi2, pi4, pi34 = PI[w]
    if fn == "pow":
        return [
            ("y = 0 -> 1", lambda x, y: z(y), lambda x, y, r: is_c(r[0], 1)),
            ("x = 1 -> 1", lambda x, y: one(x), lambda x, y, r: is_c(r[0], 1)),
            ("NaN in", lambda x, y: t.conj([t.bor(isn(x), isn(y)), N(z(y)), N(one(x))]), lambda x, y, r: nan(r)),
            ("0^negative odd -> inf with sign", lambda x, y: t.conj([z(x), neg(y), odd(y)]), lambda x, y, r: t.eq(r[0], infty(neg(x), w))),
            ("0^negative other -> inf", lambda x, y: t.conj([z(x), neg(y), N(z(y)), N(isn(y)), N(odd(y))]), lambda x, y, r: is_c(r[0], "inf")),
            ("0^positive odd -> 0 with sign", lambda x, y: t.conj([z(x), N(neg(y)), odd(y)]), lambda x, y, r: t.eq(r[0], x)),
            ("0^positive other -> 0", lambda x, y: t.conj([z(x), N(neg(y)), N(z(y)), N(isn(y)), N(odd(y))]), lambda x, y, r: t.eq(r[0], zero(F, w))),
            ("(-1)^inf -> 1", lambda x, y: A(is_c(x, -1), inf(y)), lambda x, y, r: is_c(r[0], 1)),
            ("|x| < 1, infinite y", lambda x, y: A(absl(x, 1), inf(y)), lambda x, y, r: t.eq(r[0], t.ite(neg(y), fc("inf", w), zero(F, w)))),
            ("|x| > 1, infinite y", lambda x, y: A(absg(x, 1), inf(y)), lambda x, y, r: t.eq(r[0], t.ite(neg(y), zero(F, w), fc("inf", w)))),
            ("inf^y", lambda x, y: t.conj([is_c(x, "inf"), N(isn(y)), N(z(y))]), lambda x, y, r: t.eq(r[0], t.ite(neg(y), zero(F, w), fc("inf", w)))),
            ("(-inf)^y", lambda x, y: t.conj([is_c(x, "-inf"), N(isn(y)), N(z(y))]), lambda x, y, r: t.eq(r[0], t.ite(neg(y), zero(odd(y), w), infty(odd(y), w)))),
            ("negative^non-integer -> NaN", lambda x, y: t.conj([fin(x), neg(x), N(z(x)), fin(y), N(integer(y))]), lambda x, y, r: nan(r)),
            ("x^1 = x", lambda x, y: A(one(y), N(isn(x))), lambda x, y, r: t.eq(r[0], x)),
            ("sign of negative^integer", lambda x, y: t.conj([fin(x), neg(x), N(z(x)), integer(y)]), lambda x, y, r: t.bor(nan(r), t.eq(neg(r[0]), odd(y)))),
            ("sign of positive^y", lambda x, y: t.conj([fin(x), N(neg(x)), N(z(x)), fin(y)]), lambda x, y, r: t.bor(nan(r), N(neg(r[0])))),
        ]
    if fn == "atan2":  # (y, x)
        return [
            ("NaN in", lambda y, x: t.bor(isn(x), isn(y)), lambda y, x, r: nan(r)),
            ("y = 0, x >= +0", lambda y, x: t.conj([z(y), N(neg(x)), N(isn(x))]), lambda y, x, r: t.eq(r[0], y)),
            ("y = 0, x <= -0 -> pi", lambda y, x: t.conj([z(y), neg(x), N(isn(x))]), lambda y, x, r: near(r[0], pi, neg(y))),
            ("x = 0 -> pi/2", lambda y, x: t.conj([z(x), N(z(y)), N(isn(y))]), lambda y, x, r: near(r[0], pi2, neg(y))),
            ("finite y, x = inf -> 0", lambda y, x: A(is_c(x, "inf"), fin(y)), lambda y, x, r: t.eq(r[0], zero(neg(y), w))),
            ("finite y, x = -inf -> pi", lambda y, x: A(is_c(x, "-inf"), fin(y)), lambda y, x, r: near(r[0], pi, neg(y))),
            ("infinite y, finite x -> pi/2", lambda y, x: A(inf(y), fin(x)), lambda y, x, r: near(r[0], pi2, neg(y))),
            ("both infinite, x > 0 -> pi/4", lambda y, x: A(inf(y), is_c(x, "inf")), lambda y, x, r: near(r[0], pi4, neg(y))),
            ("both infinite, x < 0 -> 3pi/4", lambda y, x: A(inf(y), is_c(x, "-inf")), lambda y, x, r: near(r[0], pi34, neg(y))),
            ("sign of the result is that of y", lambda y, x: t.conj([N(isn(x)), N(isn(y))]), lambda y, x, r: A(N(nan(r)), t.eq(neg(r[0]), neg(y)))),
        ]
    if fn == "hypot":
        return [
            ("infinity in -> inf", lambda x, y: t.bor(inf(x), inf(y)), lambda x, y, r: is_c(r[0], "inf")),
            ("NaN in", lambda x, y: t.conj([t.bor(isn(x), isn(y)), N(inf(x)), N(inf(y))]), lambda x, y, r: nan(r)),
            ("hypot(x, 0) = |x|", lambda x, y: t.conj([z(y), N(isn(x))]), lambda x, y, r: t.eq(r[0], t.fabs(x))),
            ("hypot(0, y) = |y|", lambda x, y: t.conj([z(x), N(isn(y))]), lambda x, y, r: t.eq(r[0], t.fabs(y))),
            ("not negative, a number", lambda x, y: t.conj([fin(x), fin(y)]), lambda x, y, r: A(N(nan(r)), N(neg(r[0])))),
        ]
    if fn in ("fmod", "remainder", "remquo"):
        rs = [
            ("NaN, infinite x or zero y", lambda x, y: t.disj([isn(x), isn(y), inf(x), z(y)]), lambda x, y, r: nan(r)),
            ("infinite y -> x", lambda x, y: A(fin(x), inf(y)), lambda x, y, r: t.eq(r[0], x)),
            ("x = 0 -> x", lambda x, y: t.conj([z(x), N(z(y)), N(isn(y))]), lambda x, y, r: t.eq(r[0], x)),
        ]
        if fn == "remquo":
            rs = [(n, a, (lambda x, y, r, g=g, q=i: A(g(x, y, r), t.eq(r[1], t.const(0, 32))) if q else g(x, y, r))) for i, (n, a, g) in enumerate(rs)]
        return rs
    if fn in ("jn", "yn"):  # (n, x)
        n0 = lambda n: t.ne(n, t.const(0, 32))
        if fn == "jn":
            return [
                ("NaN in", lambda n, x: isn(x), lambda n, x, r: nan(r)),
                ("x = 0", lambda n, x: z(x), lambda n, x, r: t.ite(n0(n), z(r[0]), is_c(r[0], 1))),
                ("infinite x", lambda n, x: inf(x), lambda n, x, r: z(r[0])),
            ]
        return [
            ("NaN in", lambda n, x: isn(x), lambda n, x, r: nan(r)),
            ("negative x -> NaN", lambda n, x: A(neg(x), N(z(x))), lambda n, x, r: nan(r)),
            ("x = 0 -> infinity", lambda n, x: z(x), lambda n, x, r: inf(r[0])),
            ("x = inf -> 0", lambda n, x: is_c(x, "inf"), lambda n, x, r: z(r[0])),
        ]
    if fn == "lgamma_r":
        return [
            ("sign for x > 0", lambda x: t.conj([N(neg(x)), N(isn(x)), N(z(x))]), lambda x, r: t.eq(r[1], t.const(1, 32))),
            ("sign for x = 0", lambda x: z(x), lambda x, r: t.eq(r[1], t.ite(neg(x), t.const(-1, 32), t.const(1, 32)))),
        ]
    raise KeyError(fn)


FNS = "pow atan2 hypot fmod remainder remquo jn yn lgamma_r".split()


def obligations(tier):
    obs = []
    sel = [a for a in sys.argv[1:] if a in FNS]
    for fn in sel or FNS:
        for w in (16, 32, 64, 128) if fn == "fmod" else (32, 64):
            f = "lgamma" + SUF[w] + "_r" if fn == "lgamma_r" else fn + SUF[w]
            if fn == "atan2":
                g = "atan" + SUF[w]
                obs.append(Ob(f"{g}: in [0, pi/2] for x >= 0", g, lambda x, r: t.ule(r[0], t.const(PI[x[0].w][1] + 1, x[0].w)), assume=lambda x: t.ule(x, t.const(S.inf(x.w), x.w)),
                              ranges=True, nopanic=False, complete=False, timeout=60))
            for name, assume, goal in rules(fn, w) if w in PI else [r for r in _frules(w)]:
                if tier == "quick" and ("a number" in name or "sign of" in name and fn == "pow"):
                    continue  # not settled within minutes
                obs.append(Ob(f"{f}: {name}", f, lambda x, r, g=goal: g(*x, r), assume=assume, abstract=True, stubs=ATAN if fn == "atan2" and "sign of" in name else STUBS, nopanic=False, complete=False, 
                              max_iter=12 if fn in ("fmod", "remainder", "remquo", "jn", "yn") else 300, timeout=60 if tier == "quick" else 600))
    return obs


def _frules(w):
    PI[w] = (0, 0, 0, 0)
    return rules("fmod", w)


if __name__ == "__main__":
    sys.exit(lib.main("C11", obligations, "other", "all pairs of bit patterns"))
