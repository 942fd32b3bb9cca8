import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import api, build, exec as X, fpblast as B, lib, smt, softfp as S, term as t
from engine.lib import Ob, num_eq, same

SUF = {16: "f16", 32: "f", 64: "", 128: "f128"}
CFGS = ("arch", "soft", "intrinsics")


def fc(v, w):
    """a float constant: a number (rounded to nearest), "inf", "-inf", "nan" or "-0\""""
    from fractions import Fraction

    if isinstance(v, str):
        k = {"inf": S.inf(w), "nan": S.qnan(w), "0": 0}[v.lstrip("-")] | ((1 << (w - 1)) if v[0] == "-" else 0)
        return t.const(k, w)
    return t.const(S.from_frac(w, Fraction(v)), w)


def stub_rem_pio2_large(ctx, args, mem, pc):
    """a deterministic function of the values it reads, y0 + y1 in (-1, 1) and not zero: assumed, not proved, here"""
    x, nx, y, ny, e0, prec = args
    st = X.State(mem, {})
    xs = [ctx.load(st, X.Ptr(x.obj, t.add(x.off, t.const(8 * i, 64))), ("f", 64), pc) for i in range(nx.k if t.isc(nx) else 3)]
    key = tuple([*xs, e0, prec, nx])
    st.mem = dict(mem)
    for i in range(ny.k):
        u = t.mk(f"uf_rpl{i}", key, 64)
        e = t.extract(u, 62, 52)
        if i == 0:  # 2^-128 <= |y0| < 1: no double is a multiple of pi/2
            e = t.add(t.const(0x3FE - 127, 11), t.zext(t.extract(u, 58, 52), 11))
        else:  # |y1| < 2^-53 or zero
            e = t.zext(t.extract(u, 61, 52), 11)
            e = t.ite(t.ult(e, t.const(970, 11)), e, t.const(0, 11))
        ctx.store(st, X.Ptr(y.obj, t.add(y.off, t.const(8 * i, 64))), ("f", 64), t.concat(t.extract(u, 63, 63), t.concat(e, t.extract(u, 51, 0))), pc)
    n = t.mk("uf_rpln", key, 32)
    return t.band(n, t.const(7, 32)), st.mem, pc


def stub_fma(ctx, args, mem, pc):
    """a call of fma: the correctly rounded fused multiply-add, which C04 establishes"""
    return t.ffma(*args), mem, pc


STUBS = {"libm::math::rem_pio2_large::rem_pio2_large": stub_rem_pio2_large, "libm::math::fma::fma": stub_fma}


def uf(name, w, parity=None):
    """a call of a one-argument function as an uninterpreted function (odd or even where that is what C12 establishes)"""

    def f(ctx, args, mem, pc):
        (x,) = args
        ctx.encoded.add(f"{name} (uninterpreted)")
        r = t.mk("uf_" + name, (t.fabs(x) if parity else x,), w)
        if parity == "odd":
            r = t.bxor(r, t.concat(t.msb(x), t.const(0, w - 1)))
        return r, mem, pc

    return f


PARITY = {"sin": "odd", "cos": "even", "j0": "even", "j1": "odd", "atan": "odd"}


def ufs(*names):
    out = dict(STUBS)
    for n in names:
        for w in (32, 64):
            f = n + SUF[w]
            mod = f.replace("y", "j") if n in ("y0", "y1") else f
            out[f"libm::math::{mod}::{f}"] = uf(f, w, PARITY.get(n))
    return out
