"""Accuracy over a box of arguments: the real code's result as a Taylor model, compared with the true function's.

Within a box of arguments the term of the result is a straight line of floating-point operations.  Each operation's value is
written as p(t) + sum s_i * d_i + r with a polynomial p over the position t in [-1, 1] of the argument in the box, one bounded
unknown d_i in [-1, 1] per rounding, and a remainder r.  The true function is its Taylor polynomial at the middle of the box with
a remainder bounded by Cauchy's estimate.  That their difference cannot exceed the error bound is decided by an SMT solver over
the reals (t, its powers and the d_i being variables); otherwise the box is split."""
import mpmath
from mpmath import mp, mpf

from . import ranges, softfp as S, term as t

PREC = 140
TARGET = 90  # bits to which quotients and square roots are expanded


def setup(w):
    """working precision and degree for results of format w"""
    global PREC, TARGET
    PREC, TARGET, TM.D = (100, 60, 10) if w == 32 else (140, 90, 14)


mp.prec = 400


class Fail(Exception):
    pass


class Fork(Exception):
    def __init__(self, node, values):
        self.node, self.values = node, values


def _rsh(x, k):
    return x >> k if x >= 0 else -((-x) >> k)


class TM:
    """(sum c[k] t^k + sum over products M of truncation unknowns sum x[M][k] t^k M + sum s[i] d_i + [-r, r]) * 2^e; all integers"""

    __slots__ = ("c", "e", "s", "r", "x")
    D = 14
    J = 3  # highest degree in the truncation unknowns

    def __init__(self, c, e, s=None, r=0, x=None):
        self.c, self.e, self.s, self.r, self.x = c, e, s or {}, r, x or {}

    def norm(self):
        m = max([abs(x).bit_length() for x in self.c] + [self.r.bit_length()] + [abs(x).bit_length() for x in self.s.values()])
        k = m - PREC
        if k > 16:
            y = self.to(self.e + k)
            self.c, self.s, self.r, self.x, self.e = y.c, y.s, y.r, y.x, y.e
        while len(self.c) > 1 and self.c[-1] == 0:
            self.c.pop()
        return self

    def xrad(self):
        return sum(abs(v) for l in self.x.values() for v in l) if self.x else 0

    def srad(self):
        return sum(abs(x) for x in self.s.values()) + self.r

    def rad(self):
        return sum(abs(x) for x in self.c[1:]) + self.srad() + self.xrad()

    def range(self):
        """bounds in units of 2^e"""
        c, d = self.c, self.srad() + self.xrad()
        if len(c) > 1 and abs(c[1]) >= sum(k * abs(x) for k, x in enumerate(c[2:], 2)):
            # monotone
            a, b = sum(c), sum(-x if k & 1 else x for k, x in enumerate(c))
            return min(a, b) - d, max(a, b) + d
        # odd powers in [-1, 1], even powers in [0, 1]
        lo = hi = self.c[0]
        for k, x in enumerate(self.c[1:], 1):
            a = abs(x)
            if k & 1 or x > 0:
                hi += a
            if k & 1 or x < 0:
                lo -= a
        return lo - d, hi + d

    def mag(self):
        lo, hi = self.range()
        return max(abs(lo), abs(hi))

    def shift(self, k):
        return TM(self.c, self.e + k, self.s, self.r, self.x)

    def neg(self):
        return TM([-x for x in self.c], self.e, {i: -x for i, x in self.s.items()}, self.r, {m: [-v for v in l] for m, l in self.x.items()})

    def to(self, e):
        """rescale to unit 2^e"""
        k = self.e - e
        if k == 0:
            return self
        if k > 0:
            return TM([x << k for x in self.c], e, {i: x << k for i, x in self.s.items()}, self.r << k, {m: [v << k for v in l] for m, l in self.x.items()})
        k = -k
        n = 1 + len(self.c) + len(self.s) + sum(len(l) for l in self.x.values())
        s = {}
        for i, x in self.s.items():
            y = _rsh(x, k)
            if y:
                s[i] = y
        xs = {}
        for m, l in self.x.items():
            l = [_rsh(v, k) for v in l]
            while l and not l[-1]:
                l.pop()
            if l:
                xs[m] = l
        return TM([_rsh(x, k) for x in self.c], e, s, (self.r >> k) + n, xs)


def const(v):
    """from a dyadic (mantissa, exponent) pair"""
    m, e = v
    return TM([m], e)


def _ladd(a, b):
    if len(a) < len(b):
        a, b = b, a
    return [x + b[i] if i < len(b) else x for i, x in enumerate(a)]


def add(a, b, sub=False):
    gap = a.e - b.e
    if gap > 400:
        e = a.e - 400
    elif gap < -400:
        e = b.e - 400
    else:
        e = min(a.e, b.e)
    a, b = a.to(e), b.to(e)
    if sub:
        b = b.neg()
    c = _ladd(a.c, b.c)
    s = dict(a.s)
    for i, x in b.s.items():
        y = s.get(i, 0) + x
        if y:
            s[i] = y
        else:
            s.pop(i, None)
    x = a.x
    if b.x:
        x = dict(x)
        for m, l in b.x.items():
            l = _ladd(x[m], l) if m in x else l
            while l and not l[-1]:
                l = l[:-1]
            if l:
                x[m] = l
            else:
                x.pop(m, None)
    return TM(c, e, s, a.r + b.r, x).norm()


def _lmul(a, b, D):
    """product of coefficient lists up to degree D, and a bound of what is cut off"""
    c = [0] * (min(len(a) + len(b) - 2, D) + 1)
    r = 0
    for i, x in enumerate(a):
        if not x:
            continue
        for j, y in enumerate(b):
            if i + j <= D:
                c[i + j] += x * y
            else:
                r += abs(x * y)
    return c, r


def mul(a, b):
    D = TM.D
    c, r = _lmul(a.c, b.c, D)
    x = {}
    if a.x or b.x:
        for ma, la in [((), a.c), *a.x.items()]:
            for mb, lb in [((), b.c), *b.x.items()]:
                if not ma and not mb:
                    continue
                if len(ma) + len(mb) > TM.J:
                    r += sum(abs(v) for v in la) * sum(abs(v) for v in lb)
                    continue
                l, q = _lmul(la, lb, D)
                r += q
                m = tuple(sorted(ma + mb))
                x[m] = _ladd(x[m], l) if m in x else l
    s = {}
    ra, rb = sum(abs(v) for v in a.c[1:]) + a.xrad(), sum(abs(v) for v in b.c[1:]) + b.xrad()
    sa, sb = sum(abs(v) for v in a.s.values()), sum(abs(v) for v in b.s.values())
    for i, v in a.s.items():
        s[i] = v * b.c[0]
    for i, v in b.s.items():
        s[i] = s.get(i, 0) + v * a.c[0]
    r += sa * rb + sb * ra + sa * sb
    ma, mb = abs(a.c[0]) + ra + sa, abs(b.c[0]) + rb + sb
    r += a.r * mb + b.r * ma + a.r * b.r
    return TM(c, a.e + b.e, s, r, x).norm()


def cmul(a, m, e):
    """times the exact constant m*2^e"""
    return TM([x * m for x in a.c], a.e + e, {i: x * m for i, x in a.s.items()}, a.r * abs(m), {k: [v * m for v in l] for k, l in a.x.items()}).norm()


def series(w, coefs):
    """sum coefs[k] w^k for dyadic coefficient pairs"""
    y = const(coefs[-1])
    for q in reversed(coefs[:-1]):
        y = add(mul(y, w), const(q))
    return y


def _ratio(w, b0):
    """(w - its centre) / b0 as a TM with relative error 2^-PREC, centre b0 != 0 an integer in w's unit"""
    v = TM([0] + w.c[1:], w.e, w.s, w.r, w.x)
    k = b0.bit_length() + PREC + 10
    inv = (1 << k) // b0
    # 1/b0 = inv * 2^-k (1 + eps), |eps| <= 2^-(PREC+8)
    q = cmul(v, inv, -k - w.e)
    q.r += (q.rad() >> (PREC)) + 1
    return q, inv, k


def _pow_bound(m, n):
    """upper bound of m**n for 0 <= m < 1 given as (integer, shift)"""
    return m**n


def recip(b):
    lo, hi = b.range()
    if lo <= 0 <= hi:
        raise Fail("division by a range with zero")
    b0 = b.c[0]
    sg = 1 if b0 > 0 else -1
    bb = b if sg > 0 else b.neg()
    w, inv, k = _ratio(bb, abs(b0))
    q = mpf(w.rad()) * mpf(2) ** w.e
    if q > 0.25:
        raise Fail("divisor varies too much")
    n = 2
    while q > 0 and q ** (n + 1) > mpf(2) ** -TARGET and n < 40:
        n += 1
    one = TM([1 << PREC], -PREC)
    y = one
    nw = w.neg()
    for _ in range(n):
        y = add(mul(y, nw), one)
    rem = q ** (n + 1) / (1 - q)
    y = add(y, TM([0], -PREC, None, int(rem * mpf(2) ** PREC) + 2))
    y = cmul(y, inv, -k - b.e)
    y.r += (y.mag() >> (PREC - 2)) + 1
    return y if sg > 0 else y.neg()


def sqrt(b):
    lo, hi = b.range()
    if lo <= 0:
        raise Fail("square root of a range with zero")
    w, inv, k = _ratio(b, b.c[0])
    q = mpf(w.rad()) * mpf(2) ** w.e
    if q > 0.25:
        raise Fail("radicand varies too much")
    n = 2
    while q > 0 and q ** (n + 1) > mpf(2) ** -TARGET and n < 40:
        n += 1
    cs = [mpmath.binomial(mpf(1) / 2, i) for i in range(n + 1)]
    y = series(w, [dy(x) for x in cs])
    rem = q ** (n + 1) / (1 - q) + mpf(2) ** (-PREC)
    y = add(y, TM([0], -PREC - 20, None, int(rem * mpf(2) ** (PREC + 20)) + 2))
    r0 = mpmath.sqrt(mpf(b.c[0]) * mpf(2) ** b.e)
    m, e = dy(r0)
    y = cmul(y, m, e)
    y.r += (y.mag() >> (PREC - 2)) + 1
    return y


def dy(x):
    """(integer, exponent) of an mpf, exact"""
    s, m, e, _ = x._mpf_
    return (-int(m) if s else int(m)), e


# ---------------------------------------------------------------- evaluation of the term
def fbits(w, b):
    """exact (integer, exponent) of a finite float"""
    eb, sb, bias = t.fparams(w)
    s = b >> (w - 1)
    ex = (b >> sb) & ((1 << eb) - 1)
    f = b & ((1 << sb) - 1)
    if ex == (1 << eb) - 1:
        raise Fail("infinite or NaN constant")
    m = f | (1 << sb) if ex else f
    e = max(ex, 1) - bias - sb
    while m and not m & 1:
        m >>= 1
        e += 1
    return (-m if s else m), e


class Eval:
    def __init__(self, val, box, memo, count):
        self.val, self.box, self.memo, self.count = val, box, memo, count

    def sym(self):
        self.count[0] += 1
        return self.count[0]

    def fr(self, n):
        v = self.val.get(n)
        return ranges.fview(v, n.w) if v is not None else None

    def sign(self, n, x):
        """known sign of a node: 0 or 1"""
        if n in self.memo:
            lo, hi = self.memo[n][0].range()
            if lo > 0:
                return 0
            if hi < 0:
                return 1
        f = self.fr(n)
        if f and not f[2] and f[0] >= 0:
            return 0
        if f and not f[2] and f[1] < 0:
            return 1
        return None

    def round(self, y, w, grid):
        """rounded to format w: one more unknown, unless the exact value is known to be representable"""
        eb, sb, bias = t.fparams(w)
        m = y.mag()
        if m == 0:
            return y, grid
        k = m.bit_length() - 1 + y.e  # |y| < 2^(k+1)
        if k > bias:
            raise Fail("overflow")
        if k >= 1 - bias and m != 1 << (m.bit_length() - 1):
            # barely above a power of two, which is representable: the error is at most what it is below the power
            x = m - (1 << (m.bit_length() - 1))
            if x.bit_length() - 1 + y.e < k - 2 - sb:
                k -= 1
        u = max(k, 1 - bias) - sb
        if grid is not None and grid >= u:
            return y, grid
        if grid is not None and m == 1 << (m.bit_length() - 1) and grid >= u - 1 and k > 1 - bias:
            return y, grid  # the bound is a power of two: multiples of the finer grid below it fit as well
        # half a unit
        he = u - 1
        i = self.sym()
        if y.e > he:
            y = y.to(he)
        if he - y.e > 400:
            y = y.to(he - 400)
        s = dict(y.s)
        s[i] = 1 << (he - y.e)
        z = TM(y.c, y.e, s, y.r, y.x).norm()
        # what a result of this magnitude is a multiple of
        lo, hi = y.range()
        lo = 0 if lo <= 0 <= hi else min(abs(lo), abs(hi))
        g = grid
        if lo:
            gl = max(lo.bit_length() - 1 + y.e, 1 - bias) - sb
            g = gl if g is None else max(g, gl)
        else:
            gl = 1 - bias - sb
            g = gl if g is None else max(g, gl)
        return z, g

    def get(self, root):
        st = [root]
        memo = self.memo
        while st:
            n = st[-1]
            if n in memo:
                st.pop()
                continue
            need = self.deps(n)
            todo = [x for x in need if x not in memo]
            if todo:
                st += todo
                continue
            st.pop()
            memo[n] = self.compute(n)
        return memo[root]

    def bits(self, n):
        """how a bit-level node relates to another float node: (kind, node, extra)"""
        op = n.op
        if op == "concat":
            a = n.args
            if len(a) == 2 and a[0].w == 1 and a[1].op == "extract" and a[1].k == (n.w - 2, 0) and a[1].args[0].w == n.w:
                s = a[0]
                if t.isc(s):
                    return "abs", a[1].args[0], s.k
                v = self.val.get(s)
                if v is not None and v.n == 0:
                    return "abs", a[1].args[0], v.s
                if s.op == "not" and s.args[0].op == "extract" and s.args[0].args[0] is a[1].args[0]:
                    return "neg", a[1].args[0], None
            # truncation: the high bits of another float and constant low bits
            if t.isc(a[-1]):
                low = a[-1].w
                x = a[0]
                if len(a) == 2 and x.op == "extract" and x.args[0].w == n.w and x.k == (n.w - 1, low):
                    return "trunc", x.args[0], (low, a[-1].k)
                if len(a) == 3 and t.isc(a[0]) and a[0].w == 1 and a[1].op == "extract" and a[1].args[0].w == n.w and a[1].k == (n.w - 2, low):
                    return "trunc", a[1].args[0], (low, a[-1].k, a[0].k)
        if op == "xor" and len(n.args) == 2:
            for x, y in (n.args, n.args[::-1]):
                if t.isc(x) and x.k == 1 << (n.w - 1):
                    return "neg", y, None
        return None

    def deps(self, n):
        op = n.op
        if op in ("const", "var"):
            return []
        if op in ("fadd", "fsub", "fmul", "fdiv", "fsqrt", "ffma", "fcvt", "frint"):
            return n.args
        if op in ("si2f", "ui2f", "f2si", "f2ui"):
            return []
        b = self.bits(n)
        if b:
            return [b[1]]
        return []

    def compute(self, n):
        op, w = n.op, n.w
        M = self.memo
        if op == "const":
            m, e = fbits(w, n.k)
            return TM([m], e), (e if m else None)
        if op == "var":
            if n.k not in self.box:
                raise Fork(n, None)
            return affine(w, *self.box[n.k])
        if op in ("fadd", "fsub"):
            (a, ga), (b, gb) = M[n.args[0]], M[n.args[1]]
            g = ga if gb is None else gb if ga is None else min(ga, gb)
            return self.round(add(a, b, op == "fsub"), w, g)
        if op == "fmul":
            (a, ga), (b, gb) = M[n.args[0]], M[n.args[1]]
            g = None if ga is None or gb is None else ga + gb
            for (c, cn), (x, xg) in (((a, n.args[0]), (b, gb)), ((b, n.args[1]), (a, ga))):
                if cn.op == "const" and abs(c.c[0]) == 1:  # times a power of two
                    return self.round(cmul(x, c.c[0], c.e), w, g)
                if cn.op == "const":
                    return self.round(cmul(x, c.c[0], c.e), w, g)
            return self.round(mul(a, b), w, g)
        if op == "ffma":
            (a, ga), (b, gb), (c, gc) = (M[x] for x in n.args)
            g = None if ga is None or gb is None else ga + gb
            g = g if gc is None else gc if g is None else min(g, gc)
            return self.round(add(mul(a, b), c), w, g)
        if op == "fdiv":
            (a, ga), (b, gb) = M[n.args[0]], M[n.args[1]]
            if n.args[1].op == "const" and abs(b.c[0]) == 1:
                return self.round(cmul(a, b.c[0], -b.e), w, None if ga is None else ga - b.e)
            return self.round(mul(a, recip(b)), w, -100000)
        if op == "fsqrt":
            a, _ = M[n.args[0]]
            return self.round(sqrt(a), w, -100000)
        if op == "fcvt":
            a, g = M[n.args[0]]
            if n.w > n.args[0].w:
                return a, g
            return self.round(a, w, g)
        v = self.val.get(n)
        if v is not None and v.n == 0 and op not in ("frint",):
            m, e = fbits(w, v.s)
            return TM([m], e), (e if m else None)
        b = self.bits(n)
        if b:
            kind, y, x = b
            tmy, g = M[y]
            if kind == "neg":
                return tmy.neg(), g
            s = self.sign(y, None)
            if kind == "abs":
                if s is None:
                    raise Fork(n, None)
                return (tmy if s == x else tmy.neg()), g
            # truncation toward zero by less than 2^low units of the last place
            eb, sb, bias = t.fparams(w)
            if s is None:
                raise Fork(n, None)
            if len(x) == 3 and x[2] != s:
                tmy = tmy.neg()
                s = x[2]
            mm = tmy.mag()
            k = max(mm.bit_length() - 1 + tmy.e, 1 - bias) - sb  # unit of the largest value
            # |n| - |y| in [-(2^low - 1) + const, const] units
            hi, lo = x[1], x[1] - (1 << x[0]) + 1
            i = self.sym()
            # the unit may be smaller for smaller values: widen to include zero
            l2, h2 = min(lo, 0), max(hi, 0)
            d = TM([h2 + l2], k - 1, None, 0, {(i,): [h2 - l2]})
            z = add(tmy, d if s == 0 else d.neg())
            lo_, hi_ = tmy.range()
            low = 0 if lo_ <= 0 <= hi_ else min(abs(lo_), abs(hi_))
            gg = None
            if low:
                gl = max(low.bit_length() - 1 + tmy.e, 1 - bias) - sb
                gg = gl + (x[0] if x[1] == 0 else 0)
            return z, gg if gg is not None else 1 - bias - sb
        if op in ("concat", "add", "sub", "and", "or", "ite") and v is not None:
            src = sources(n)
            if len(src) == 1 and src[0].op == "var" and src[0].k in self.box:
                try:
                    return self.direct(n, src[0].k)
                except Fork:
                    return self.integer(n, src[0])
        raise Fork(n, None)

    def integer(self, n, x):
        """a float assembled by integer arithmetic on the bits of another, all within one binade"""
        y, lo, hi = self.itm(n, n)
        sb = t.fparams(n.w)[1]
        if lo >> sb != hi >> sb or lo < 0 or (lo >> sb) & ((1 << (n.w - 1 - sb)) - 1) in (0, (1 << (n.w - 1 - sb)) - 1):
            raise Fork(n, None)
        e = (lo >> sb) & ((1 << (n.w - 1 - sb)) - 1)
        bias = t.fparams(n.w)[2]
        # value = (bits - (e << sb) + (1 << sb)) * 2^(e - bias - sb)
        z = add(y, TM([(1 << sb) - (lo >> sb << sb)], 0)).shift(e - bias - sb)
        low = 0
        if n.op == "concat" and t.isc(n.args[-1]):
            k = n.args[-1]
            low = k.w if k.k == 0 else (k.k & -k.k).bit_length() - 1
        return (z.neg() if lo >> (n.w - 1) else z), e - bias - sb + low

    def itm(self, n, root):
        """(Taylor model, least and largest value) of an unsigned integer"""
        op = n.op
        if op == "const":
            return TM([n.k], 0), n.k, n.k
        v = self.val.get(n)
        if v is None or v.s + v.n >= 1 << n.w:
            raise Fork(root, None)
        if v.n == 0:
            return TM([v.s], 0), v.s, v.s
        lo, hi = v.s, v.s + v.n

        def fit(y):
            """the representative in [lo, hi]"""
            a, b = y.range()
            mid = (a + b) >> 1
            mid = mid >> -y.e if y.e < 0 else mid << y.e
            k = ((lo + hi) // 2 - mid + (1 << (n.w - 1))) >> n.w
            return add(y, TM([k << n.w], 0)), lo, hi

        if op == "var":
            sb = t.fparams(n.w)[1]
            if n.k not in self.box or lo >> sb != hi >> sb:
                raise Fork(root, None)
            if n.k.startswith("$"):
                if n not in self.memo:
                    raise Fork(root, None)
                ex = (lo >> sb) & ((1 << (n.w - 1 - sb)) - 1)
                if ex == 0:
                    raise Fork(root, None)
                y = self.memo[n][0]
                if lo >> (n.w - 1):
                    y = y.neg()
                y = y.shift(sb + t.fparams(n.w)[2] - ex)
                return add(y, TM([(lo >> sb << sb) - (1 << sb)], 0)), lo, hi
            y = TM([lo + hi, hi - lo], -1)
            return y, lo, hi
        if op == "concat":
            z, a, b, sh = TM([0], 0), 0, 0, n.w
            for p in n.args:
                sh -= p.w
                y, l, h = self.itm(p, root)
                z = add(z, y.shift(sh))
                a += l << sh
                b += h << sh
            return z, a, b
        if op == "extract":
            y, a, b = self.itm(n.args[0], root)
            top, low = n.k[0] + 1, n.k[1]
            if a >> top != b >> top:
                raise Fork(root, None)
            k = a >> top << top
            y, a, b = add(y, TM([-k], 0)), a - k, b - k
            if low:
                # floor(y / 2^low) = y / 2^low - u, 0 <= u < 1
                i = self.sym()
                y = add(y.shift(-low), TM([-1], -1, None, 0, {(i,): [1]}))
                a, b = a >> low, b >> low
            return y, a, b
        if op == "add":
            y = None
            for x in n.args:
                z, _, _ = self.itm(x, root)
                y = z if y is None else add(y, z)
            return fit(y)
        if op == "udiv" and t.isc(n.args[1]):
            y, a, b = self.itm(n.args[0], root)
            c = n.args[1].k
            k = 80
            z = cmul(y, (1 << k) // c, -k)
            i = self.sym()
            z = add(z, TM([-1], -1, {i: 1}, 0))
            z.r += z.mag() >> 40  # 1/c is rounded
            return z, a // c, b // c
        raise Fork(root, None)

    def direct(self, n, name):
        """an integer function of a float's bits that equals the bits plus a constant in this box (solver)"""
        from . import fpblast, smt

        x = t.var(name, n.w)
        if x.w != t.variables([n])[name]:
            raise Fork(n, None)
        blo, bhi = self.box[name]
        k = (t_eval(n, name, blo) - blo) % (1 << n.w)
        if (t_eval(n, name, bhi) - bhi) % (1 << n.w) != k:
            raise Fork(n, None)
        for i in range(1, 8):
            p = blo + (bhi - blo) * i * 37 // 296 + i % 3
            if blo <= p <= bhi and (t_eval(n, name, p) - p) % (1 << n.w) != k:
                raise Fork(n, None)
        if not offset(t.substitute([n], {x: t.var("$d", n.w)})[0], blo, bhi, k):
            raise Fork(n, None)
        sb = t.fparams(n.w)[1]
        lo, hi = (blo + k) % (1 << n.w), (bhi + k) % (1 << n.w)
        ex = lambda v: (v >> sb) & ((1 << (n.w - 1 - sb)) - 1)
        if k % (1 << sb) == 0:
            # the exponent changes: a multiplication by a power of two
            es = {ex(blo), ex(bhi), ex(lo), ex(hi)}
            if min(es) == 0 or max(es) == (1 << (n.w - 1 - sb)) - 1 or lo > hi or ex(bhi) - ex(blo) != ex(hi) - ex(lo):
                raise Fork(n, None)
            y, g = self.memo[x] if x in self.memo else affine(n.w, blo, bhi)
            d = ex(lo) - ex(blo)
            z = y if lo >> (n.w - 1) == blo >> (n.w - 1) else y.neg()
            return z.shift(d), None if g is None else g + d
        if lo > hi or lo >> sb != hi >> sb or blo >> sb != bhi >> sb or name.startswith("$"):
            raise Fork(n, None)
        return affine(n.w, lo, hi)


def t_eval(n, name, v):
    try:
        return t.evaluate([n], {name: v})[0]
    except ValueError:
        raise Fork(n, None)


def affine(w, lo, hi):
    """a float running through [lo, hi] (bit patterns of one sign), position t"""
    a, b = fbits(w, lo), fbits(w, hi)
    e = min(a[1], b[1]) - 1
    x, y = a[0] << (a[1] - e), b[0] << (b[1] - e)
    eb, sb, bias = t.fparams(w)
    m = min(lo & ((1 << (w - 1)) - 1), hi & ((1 << (w - 1)) - 1))
    g = max(m >> sb, 1) - bias - sb
    c = [(x + y) // 2, (y - x) // 2]
    if c[1] == 0:
        c.pop()
        g = a[1]
    return TM(c, e), g


OFFSETS = {}


def offset(n, lo, hi, k):
    """is n(x) = x + k for all x in [lo, hi]?  (solver; shown for as much of the binade as possible and remembered)"""
    from . import fpblast, smt

    known = OFFSETS.setdefault(n, [])
    for a, b, c in known:
        if a <= lo and hi <= b:
            return c == k
    sb = t.fparams(n.w)[1]
    x = t.var("$d", n.w)
    g = lambda p: (t_eval(n, "$d", p) - p) % (1 << n.w) == k

    def reach(a, end):
        if g(end):
            return end
        while abs(end - a) > 1:
            m = (a + end) // 2
            if g(m):
                a = m
            else:
                end = m
        return a

    for a, b in ((reach(lo, lo >> sb << sb), reach(hi, hi | ((1 << sb) - 1))), (lo, hi)):
        q = t.conj([t.ule(t.const(a, x.w), x), t.ule(x, t.const(b, x.w)), t.ne(n, t.add(x, t.const(k, x.w)))])
        if not (t.isc(q) and q.k == 0):
            [low] = fpblast.lower([q])
            st, _, _ = smt.solve([low], 10, ("z3",), lower=False)
            if st != "unsat":
                continue
        known.append((a, b, k))
        return True
    return False


# ---------------------------------------------------------------- one box
FOPS = ("fadd", "fsub", "fmul", "fdiv", "fsqrt", "ffma", "fcvt", "frint", "si2f", "ui2f")


def sources(n):
    """the floats whose bits an integer node is computed from"""
    out, seen, st = [], set(), [n]
    while st:
        m = st.pop()
        if m in seen:
            continue
        seen.add(m)
        if m.op == "var" or m.op in FOPS:
            out.append(m)
            continue
        st += m.args
    return out


def fbox(w, y):
    """bit patterns between which a Taylor model's values lie (one sign), or None"""
    lo, hi = y.range()
    if lo <= 0 <= hi:
        return None
    s = 1 << (w - 1) if hi < 0 else 0
    if s:
        lo, hi = -hi, -lo
    from fractions import Fraction

    q = lambda v: Fraction(v << y.e) if y.e >= 0 else Fraction(v, 1 << -y.e)

    def val(b):
        m, e = fbits(w, b)
        return Fraction(m << e) if e >= 0 else Fraction(m, 1 << -e)

    a, b = S.from_frac(w, q(lo)), S.from_frac(w, q(hi))
    if b >= S.inf(w):
        return None
    if val(a) < q(lo):
        a += 1
    if val(b) > q(hi):
        b -= 1
    if a > b:
        a = b  # (an empty range: the box is not reached)
    if b >= S.inf(w):
        return None
    return a | s, b | s


def change(node, name, lo, hi):
    """where a comparison or a conversion to an integer that depends on this float alone changes its value, or None"""
    for n in t.topo([node]):
        if n.op in ("f2si", "f2ui", "flt", "fle", "feq", "ult", "slt", "eq", "extract") and set(t.variables([n])) == {name}:
            if n.op == "extract" and n.k[0] - n.k[1] > 12:
                continue
            try:
                a, b = t_eval(n, name, lo), t_eval(n, name, hi)
                if a == b or n.w > 1 and abs(a - b) > 4:
                    continue
                while hi - lo > 1:
                    m = (lo + hi) // 2
                    if t_eval(n, name, m) == a:
                        lo = m
                    else:
                        hi = m
                return hi
            except Fork:
                continue
    return None


def models(root, name, w, lo, hi, maxdepth=4):
    """Taylor models that together cover the result over the box"""
    return _models(root, {name: (lo, hi)}, {}, [0], maxdepth, 24)


def _models(root, box, memo, count, depth, stages):
    [r], val = ranges.propagate([root], box)
    ev = Eval(val, box, memo, count)
    try:
        return [ev.get(r)[0]]
    except Fork as f:
        node = f.node
    if stages <= 0:
        raise Fail("too many stages")
    # 1. floats whose bits matter here become variables with the range of their Taylor models
    i, src, seen = 0, sources(node), {node}
    while i < len(src):
        y = src[i]
        i += 1
        if y.op in FOPS:
            try:
                tmy = ev.get(y)
            except Fork as f:
                if f.node not in seen:
                    i, node = 0, f.node
                    seen.add(node)
                    src = sources(node)
                continue
            b = fbox(y.w, tmy[0])
            if b is None:
                continue
            v = t.var(f"${count[0]}.{len(box)}", y.w)
            memo = dict(memo)
            memo[v] = tmy
            [q] = t.substitute([r], {y: v})
            return _models(q, {**box, v.k: b}, memo, count, depth, stages - 1)
    if depth <= 0:
        raise Fail("undecided " + node.op)
    # 2. such a variable may be split
    for y in src:
        if y.op == "var" and y.k in box and y.k.startswith("$"):
            blo, bhi = box[y.k]
            if blo == bhi:
                continue
            cut = None
            cs = [c for c in ranges.cuts(node, y.k, blo, bhi) if blo < c <= bhi]
            if cs:
                cut = cs[0]
            elif node.w == y.w and set(t.variables([node])) == {y.k}:
                g = lambda p: (t_eval(node, y.k, p) - p) % (1 << node.w)
                a, b = blo, bhi
                if g(a) != g(b):
                    while b - a > 1:
                        m = (a + b) // 2
                        if g(m) == g(a):
                            a = m
                        else:
                            b = m
                    cut = b
            if cut is None:
                cut = change(node, y.k, blo, bhi)
            if cut is None and bhi - blo <= 4:
                cut = blo + (bhi - blo + 1) // 2
            if cut is not None:
                return _models(r, {**box, y.k: (blo, cut - 1)}, dict(memo), count, depth - 1, stages - 1) + _models(r, {**box, y.k: (cut, bhi)}, dict(memo), count, depth - 1, stages - 1)
    # 3. case split over a node with few values, or over a condition
    best = None
    dep = set(t.topo([node]))
    for n in t.topo([r]):
        if n in dep and n.op not in ("const", "var") and n.args and n.w > 1:
            v = val.get(n)
            if v is not None and 0 < v.n <= 2:
                best = n, [(v.s + i) % (1 << n.w) for i in range(v.n + 1)]
                break
    if best is None:
        for n in t.topo([node]):
            if n.op == "ite" and not t.isc(n.args[0]):
                best = n.args[0], [0, 1]
                break
    if best is None:
        raise Fail("undecided " + node.op)
    out = []
    for v in best[1]:
        [q] = t.substitute([r], {best[0]: t.const(v, best[0].w)})
        out += _models(q, box, dict(memo), count, depth - 1, stages - 1)
    return out
