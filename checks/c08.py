"""C08: fmod, remainder and remquo are exact: x - n*y with the integer n of their definition, by long division in the specification."""
from common import *

EW = 20


def magn(a):
    return t.extract(a, a.w - 2, 0)


class Div:
    """x = nx * 2^(ex), y = ny * 2^(ey) with significands of sb+1 bits, d = ex - ey a constant"""

    def __init__(self, w, nx, ny, d):
        sb = S.params(w)[1]
        W = sb + 3
        self.w, self.W, self.d = w, W, d
        z = lambda v: t.zext(v, W)
        self.D = z(ny)
        self.q = []  # quotient bits, most significant first
        rem = z(nx)
        if d < 0:
            # y's unit is larger: everything in x's unit
            self.D = t.shl(z(ny), t.const(-d, W)) if -d <= 1 else None
            self.rem = rem
            return
        for i in range(d + 1):
            if i:
                rem = t.concat(t.extract(rem, W - 2, 0), t.const(0, 1))
            ge = t.uge(rem, self.D)
            self.q.append(ge)
            rem = t.ite(ge, t.sub(rem, self.D), rem)
        self.rem = rem

    def qlow(self, n):
        """low n bits of the quotient"""
        bits = ([t.FALSE] * n + self.q)[-n:]
        return t.concat(*bits) if n > 1 else bits[0]


def pack(w, sign, e, m):
    """m * 2^(e - bias - sb), exact"""
    sb = S.params(w)[1]
    return B.round_pack(w, sign, e, t.concat(t.trunc(m, sb + 1), t.const(0, 3)))


def spec(fn, w, d, parts):
    sb = S.params(w)[1]

    def sp(x, r):
        sx, sy, nx, ny, ey, X_, Y_ = parts(*x)
        c = lambda v: t.const(v, EW)
        dv = Div(w, nx, ny, d)
        if fn == "fmod":
            if d < 0:
                return t.eq(r[0], X_)
            return t.eq(r[0], t.ite(t.ult(magn(X_), magn(Y_)), X_, pack(w, sx, ey, dv.rem)))
        if d < -1:
            ok = t.eq(r[0], X_)
            return ok if fn == "remainder" else t.band(ok, t.eq(r[1], t.const(0, 32)))
        two = t.concat(t.extract(dv.rem, dv.W - 2, 0), t.const(0, 1))
        odd = dv.q[-1] if dv.q else t.FALSE
        up = t.bor(t.ult(dv.D, two), t.band(t.eq(dv.D, two), odd))
        m = t.ite(up, t.sub(dv.D, dv.rem), dv.rem)
        e = t.sub(ey, c(-d)) if d < 0 else ey
        ok = t.eq(r[0], pack(w, t.bxor(sx, up), e, m))
        if fn == "remquo":
            n = t.add(dv.qlow(3), t.zext(up, 3))
            neg = t.bxor(sx, sy)
            q = r[1]
            mag = t.ite(t.msb(q), t.neg(q), q)
            ok = t.conj([ok, t.eq(t.extract(mag, 2, 0), n), t.bor(t.eq(q, t.const(0, 32)), t.eq(t.msb(q), neg))])
        return ok

    return sp


def normal(w, d):
    """both normal, exponent of the smaller one any"""
    eb, sb, bias = S.params(w)

    def parts(sx, sy, fx, fy, E):
        ex, ey = (t.add(E, t.const(d, eb)), E) if d >= 0 else (E, t.add(E, t.const(-d, eb)))
        one = t.const(1, 1)
        return sx, sy, t.concat(one, fx), t.concat(one, fy), t.zext(ey, EW), t.concat(sx, ex, fx), t.concat(sy, ey, fy)

    return (1, 1, sb, sb, eb), parts, lambda sx, sy, fx, fy, E: t.band(t.ule(t.const(1, eb), E), t.ult(E, t.const((1 << eb) - 1 - abs(d), eb)))


def fixed(w, ex, ey):
    """exponent fields given; 0: subnormal dividend"""
    eb, sb, bias = S.params(w)

    def parts(sx, sy, fx, fy):
        i = lambda e: t.const(int(e > 0), 1)
        return sx, sy, t.concat(i(ex), fx), t.concat(i(ey), fy), t.const(max(ey, 1), EW), t.concat(sx, t.const(ex, eb), fx), t.concat(sy, t.const(ey, eb), fy)

    return (1, 1, sb, sb), parts, None


def sub_divisor(w, ex, p):
    """a subnormal divisor with highest bit p; the dividend normal with exponent field ex, or subnormal with highest bit -ex"""
    eb, sb, bias = S.params(w)

    def num(h, low, field):
        """(significand, exponent, fraction)"""
        if field > 0:
            return t.concat(t.const(1, 1), low), field, low
        frac = t.concat(*([t.const(0, sb - h - 1)] if h < sb - 1 else []), t.const(1, 1), *([low] if h else []))
        return t.concat(t.const(1, 1), *([low] if h else []), t.const(0, sb - h)), 1 - (sb - h), frac

    ny, ey, fracy = None, 1 - (sb - p), None
    e1 = ex if ex > 0 else 1 - (sb + ex)

    def parts(sx, sy, fx, fy):
        nx, _, fracx = num(-ex, fx, ex)
        ny, _, fracy = num(p, fy, 0)
        return sx, sy, nx, ny, t.const(ey, EW), t.concat(sx, t.const(max(ex, 0), eb), fracx), t.concat(sy, t.const(0, eb), fracy)

    return e1 - ey, (1, 1, sb if ex > 0 else max(-ex, 1), max(p, 1)), parts, None


class Lazy:
    """an obligation that is encoded by the worker that decides it"""

    def __init__(self, ob):
        self.ob, self.label, self.config, self.checked, self.weight = ob, ob.label, ob.config, ob.checked, ob.max_iter
        self.encoded, self.nodes = [], 0

    def run(self):
        ob = self.ob
        try:
            out = [lib.Task(q, ob).run() for q in lib.encode_ob(ob) if not (t.isc(q) and q.k == 0)]
        except Exception as e:
            import traceback

            return lib.Result(ob, "error", f"{type(e).__name__}: {e} {traceback.format_exc()[-800:]}")
        r = out[0] if out else lib.Result(ob, "holds", by=["simplifier"])
        self.encoded, self.nodes = ob.encoded, ob.nodes
        return r


def obligations(tier):
    obs = []
    q = tier == "quick"
    sel = [a for a in sys.argv[1:] if a in api.FUNCS]
    T = 150 if q else 1200

    def add(fn, w, label, d, kinds, parts, assume):
        f = fn + SUF[w]
        if f not in api.FUNCS or sel and f not in sel:
            return
        if q and fn == "remainder" and (w == 64 or len(kinds) == 4):
            return  # the same code as remquo's (C13)
        if q and f == "remquo" and len(kinds) == 4 and d in (1, 2, 5):
            return
        obs.append(Lazy(Ob(f"{f}: {label}", f, spec(fn, w, d, parts), assume=assume, args=kinds, calls=[(f, lambda *x: parts(*x)[5:])], timeout=T, max_iter=max(d, 0) + S.params(w)[1] + 6, backends=("kissat",))))

    for fn in ("fmod", "remainder", "remquo"):
        for w in (16, 32, 64, 128):
            eb, sb, bias = S.params(w)
            top = (1 << eb) - 2
            if w < 128:
                for d in range(-2, ({16: 4, 32: 3, 64: 2} if q else {16: 12, 32: 10, 64: 6})[w]):
                    add(fn, w, f"exponents that differ by {d}, both normal", d, *normal(w, d))
            n = ({16: 10, 32: 8, 64: 6, 128: 3} if q else {16: 30, 32: 20, 64: 14, 128: 8})[w]
            for ey in sorted({1, sb, bias, top - n}):
                for d in range(0, n):
                    if q and w > 16 and d > 2 and (d + ey) % 2:
                        continue
                    if ey + d <= top:
                        add(fn, w, f"exponent fields {ey + d} and {ey}", d, *fixed(w, ey + d, ey))
            for ex in (1, 2, 4) if q else range(1, 16):
                add(fn, w, f"exponent fields 0 and {ex} (subnormal dividend)", 1 - ex, *fixed(w, 0, ex))
            for p in sorted({1, sb // 2, sb - 1}) if q else range(1, sb):
                for ex in (1, 3, -p, -min(p + 3, sb - 1)) if q else (1, 2, 3, 5, 9, *(-h for h in range(p, min(p + 9, sb)))):
                    d, *k = sub_divisor(w, ex, p)
                    if d <= (n if q else 2 * n):
                        add(fn, w, f"{f'exponent field {ex}' if ex > 0 else f'subnormal with highest bit {-ex}'} by subnormal with highest bit {p}", d, *k)
    return obs


if __name__ == "__main__":
    sys.exit(lib.main("C08", obligations, "other", "finite operands whose exponents differ by the amounts named in each obligation"))
