"""Accuracy of one-argument functions: every box of arguments is decided by an SMT solver over the reals (see tm.py)."""
import time
from fractions import Fraction

import mpmath
import z3
from mpmath import mp, mpf

from . import build, ranges, smt, softfp as S, term as t, tm

mp.prec = 400


# ---------------------------------------------------------------- reference functions: Taylor coefficients and remainder bound
# each: (c, h, D) -> (coefficients of t^0..t^D of f(c + h t), bound of the rest for |t| <= 1)
class Bad(Exception):
    """the Taylor polynomial does not converge fast enough on this box"""


def tail(u, D):
    if u > 0.5:
        raise Bad
    return u ** (D + 1) / (1 - u)


def powser(p, al, D):
    """coefficients of (p0 + p1 t + p2 t^2)^al"""
    y = [p[0] ** al]
    for k in range(1, D + 1):
        s = mpf(0)
        for j in range(1, min(k, len(p) - 1) + 1):
            s += (al * j - (k - j)) * p[j] * y[k - j]
        y.append(s / (k * p[0]))
    return y


def expser(q, D):
    y = [mpmath.exp(q[0])]
    for k in range(1, D + 1):
        s = mpf(0)
        for j in range(1, min(k, len(q) - 1) + 1):
            s += j * q[j] * y[k - j]
        y.append(s / k)
    return y


def divser(a, b, D):
    y = []
    for k in range(D + 1):
        s = a[k]
        for j in range(1, k + 1):
            s -= b[j] * y[k - j]
        y.append(s / b[0])
    return y


def integ(a0, g, h, D):
    return [a0] + [h * g[k - 1] / k for k in range(1, D + 1)]


def entire(h, D, m):
    """rest of an exponential-type series whose derivatives are at most m e^h there"""
    return m * mpmath.exp(h) * h ** (D + 1) / mpmath.factorial(D + 1)


def r_exp(c, h, D, base=None, m1=False):
    L = mpf(1) if base is None else mpmath.log(base)
    e = mpmath.exp(c * L)
    u = h * L
    y = [e]
    for k in range(1, D + 1):
        y.append(y[-1] * u / k)
    if m1:
        y[0] = mpmath.expm1(c)
    return y, entire(u, D, e)


def sc(c, h, D):
    s, k = mpmath.sin(c), mpmath.cos(c)
    ss, cc, f = [], [], mpf(1)
    for i in range(D + 1):
        a = (s, k, -s, -k)[i % 4]
        b = (k, -s, -k, s)[i % 4]
        ss.append(a * f)
        cc.append(b * f)
        f = f * h / (i + 1)
    return ss, cc


def r_sin(c, h, D):
    return sc(c, h, D)[0], entire(h, D, mpf(1))


def r_cos(c, h, D):
    return sc(c, h, D)[1], entire(h, D, mpf(1))


def r_tan(c, h, D):
    pi = mpmath.pi
    d = abs(c - (mpmath.floor(c / pi) + mpf(1) / 2) * pi)
    rho = d / 2
    m = max(mpf(1), 1 / mpmath.sin(d / 2)) * mpf(1.001)
    ss, cc = sc(c, h, D)
    return divser(ss, cc, D), m * tail(h / rho, D)


def hyp(c, h, D):
    s, k, f = mpmath.sinh(c), mpmath.cosh(c), mpf(1)
    ss, cc = [], []
    for i in range(D + 1):
        ss.append((k if i & 1 else s) * f)
        cc.append((s if i & 1 else k) * f)
        f = f * h / (i + 1)
    return ss, cc


def r_sinh(c, h, D):
    return hyp(c, h, D)[0], entire(h, D, mpmath.exp(abs(c)))


def r_cosh(c, h, D):
    return hyp(c, h, D)[1], entire(h, D, mpmath.exp(abs(c)))


def r_tanh(c, h, D):
    if abs(c) - h > 25:
        return [mpmath.sign(c)], 2 * mpmath.exp(-2 * (abs(c) - h)) if abs(c) - h < 1000 else mpf(2) ** -2000
    # |tanh z| <= 1 for |Im z| <= pi/4
    ss, cc = hyp(c, h, D)
    return divser(ss, cc, D), tail(h / mpf("0.785"), D)


def r_log(c, h, D, base=None, p1=False):
    a = 1 + c if p1 else c
    u = h / a
    L = mpf(1) if base is None else 1 / mpmath.log(base)
    y, f = [(mpmath.log1p(c) if p1 else mpmath.log(c)) * L], L
    for k in range(1, D + 1):
        f = f * (u if k == 1 else -u)
        y.append(f / k)
    return y, L * tail(u, D)


def r_atan(c, h, D):
    d = mpmath.sqrt(1 + c * c)
    return integ(mpmath.atan(c), powser([1 + c * c, 2 * c * h, h * h], mpf(-1), D), h, D), min(mpf(1), mpf(1.6) / d) * tail(h / d, D)


def r_atanh(c, h, D):
    d = 1 - abs(c)
    if d <= h:
        raise Bad
    return integ(mpmath.atanh(c), powser([1 - c * c, -2 * c * h, -h * h], mpf(-1), D), h, D), tail(h / d, D)


def _half(a0, p, h, d, D, sign=1):
    rho = d / 2
    if h >= rho / 2:
        raise Bad
    g = powser(p, mpf(-1) / 2, D)
    y = integ(a0, [sign * x for x in g], h, D)
    return y, 2 / d * h * tail(h / rho, D - 1)


def r_asin(c, h, D):
    return _half(mpmath.asin(c), [(1 - c) * (1 + c), -2 * c * h, -h * h], h, 1 - abs(c), D)


def r_acos(c, h, D):
    return _half(mpmath.acos(c), [(1 - c) * (1 + c), -2 * c * h, -h * h], h, 1 - abs(c), D, -1)


def r_asinh(c, h, D):
    return _half(mpmath.asinh(c), [1 + c * c, 2 * c * h, h * h], h, mpmath.sqrt(1 + c * c), D)


def r_acosh(c, h, D):
    return _half(mpmath.acosh(c), [(c - 1) * (c + 1), 2 * c * h, h * h], h, c - 1, D)


def r_cbrt(c, h, D):
    s = -1 if c < 0 else 1
    y = powser([abs(c), s * h], mpf(1) / 3, D)
    return [s * x for x in y], abs(y[0]) * tail(h / abs(c), D)


def _gauss(c, h, D):
    k = 2 / mpmath.sqrt(mpmath.pi)
    g = [k * x for x in expser([-c * c, -2 * c * h, -h * h], D)]
    rho = 2 / max(mpf(1), abs(c))
    m = k * mpmath.exp(-c * c + 2 * abs(c) * rho + rho * rho)
    if h >= rho / 2:
        raise Bad
    return g, m * h * tail(h / rho, D - 1)


def r_erf(c, h, D):
    if abs(c) - h > 7:
        return [mpmath.sign(c)], mpmath.exp(-min(abs(c) - h, mpf(40)) ** 2)
    g, r = _gauss(c, h, D)
    return integ(mpmath.erf(c), g, h, D), r


def r_erfc(c, h, D):
    if c + h < -7:
        return [mpf(2)], mpmath.exp(-min(-c - h, mpf(40)) ** 2)
    g, r = _gauss(c, h, D)
    return integ(mpmath.erfc(c), [-x for x in g], h, D), r


def r_lgamma(c, h, D):
    u = h / c
    y, f = [mpmath.loggamma(c), h * mpmath.psi(0, c)], h
    for n in range(2, D + 1):
        f = f * h
        y.append(f * mpmath.psi(n - 1, c) / mpmath.factorial(n))
    return y, (1 + c) * tail(u, D)


def r_tgamma(c, h, D):
    q, _ = r_lgamma(c, h, D)
    rho = min(c / 2, mpf(1))
    m = max(mpmath.gamma(c - rho), mpmath.gamma(c + rho))
    return expser(q, D), m * tail(h / rho, D)


def gamma_neg(c, h, D):
    """gamma of a negative non-integer by reflection: pi / (sin(pi x) gamma(1 - x))"""
    raise Bad


REF = {
    "exp": r_exp, "exp2": lambda c, h, D: r_exp(c, h, D, 2), "exp10": lambda c, h, D: r_exp(c, h, D, 10), "expm1": lambda c, h, D: r_exp(c, h, D, m1=True),
    "sin": r_sin, "cos": r_cos, "tan": r_tan, "sinh": r_sinh, "cosh": r_cosh, "tanh": r_tanh,
    "log": r_log, "log2": lambda c, h, D: r_log(c, h, D, 2), "log10": lambda c, h, D: r_log(c, h, D, 10), "log1p": lambda c, h, D: r_log(c, h, D, p1=True),
    "atan": r_atan, "atanh": r_atanh, "asin": r_asin, "acos": r_acos, "asinh": r_asinh, "acosh": r_acosh, "cbrt": r_cbrt, "erf": r_erf, "erfc": r_erfc,
    "lgamma": r_lgamma, "tgamma": r_tgamma,
}  # fmt: skip
EXACT = {
    "exp": mpmath.exp, "exp2": lambda x: mpf(2) ** x, "exp10": lambda x: mpf(10) ** x, "expm1": mpmath.expm1, "sin": mpmath.sin, "cos": mpmath.cos, "tan": mpmath.tan,
    "sinh": mpmath.sinh, "cosh": mpmath.cosh, "tanh": mpmath.tanh, "log": mpmath.log, "log2": lambda x: mpmath.log(x) / mpmath.log(2), "log10": lambda x: mpmath.log(x) / mpmath.log(10),
    "log1p": mpmath.log1p, "atan": mpmath.atan, "atanh": mpmath.atanh, "asin": mpmath.asin, "acos": mpmath.acos, "asinh": mpmath.asinh, "acosh": mpmath.acosh,
    "cbrt": lambda x: mpmath.cbrt(x) if x >= 0 else -mpmath.cbrt(-x), "erf": mpmath.erf, "erfc": mpmath.erfc, "lgamma": lambda x: mpmath.log(abs(mpmath.gamma(x))) if abs(x) < 100 else mpmath.loggamma(x), "tgamma": mpmath.gamma,
}  # fmt: skip


def fl(w, bits):
    """the value of a float as an mpf"""
    m, e = tm.fbits(w, bits)
    return mpf(m) * mpf(2) ** e


def ulp_exp(w, x):
    """exponent of the unit in the last place at magnitude x > 0"""
    eb, sb, bias = t.fparams(w)
    return max(int(mpmath.floor(mpmath.log(x, 2))) if x > 0 else -99999, 1 - bias) - sb


def error(fn, w, xbits, ybits):
    """error of the result y at x, in units in the last place of the exact value (None: not a number)"""
    eb, sb, bias = t.fparams(w)
    if (ybits >> sb) & ((1 << eb) - 1) == (1 << eb) - 1:
        return mpf("inf")
    e = EXACT[fn](fl(w, xbits))
    y = fl(w, ybits)
    u = max(ulp_exp(w, abs(e)), ulp_exp(w, abs(y)))
    return abs(y - e) / mpf(2) ** u


# ---------------------------------------------------------------- one box
def ref_model(fn, w, lo, hi):
    """(Taylor model of the true function over the box, lower bound of its magnitude)"""
    x, _ = tm.affine(w, lo, hi)
    c = mpf(x.c[0]) * mpf(2) ** x.e
    h = mpf(x.c[1]) * mpf(2) ** x.e if len(x.c) > 1 else mpf(0)
    sg = -1 if h < 0 else 1
    y, rem = REF[fn](c, abs(h), tm.TM.D)
    if sg < 0:
        y = [-v if k & 1 else v for k, v in enumerate(y)]
    m = max(abs(v) for v in y)
    e = int(mpmath.floor(mpmath.log(m, 2))) - 300 if m else -2000
    z = tm.TM([int(mpmath.nint(v * mpf(2) ** -e)) for v in y], e, None, int(mpmath.ceil(rem * mpf(2) ** -e)) + len(y) + (1 << 30))
    lo_, hi_ = z.range()
    least = 0 if lo_ <= 0 <= hi_ else min(abs(lo_), abs(hi_))
    return z, mpf(least) * mpf(2) ** e


def refute(d, bound):
    """can |d| exceed bound?  d: difference (TM), bound: (integer, exponent).  -> 'unsat' or the position t of a model"""
    e = bound[1] - 30
    d = d.to(e)
    B = bound[0] << 30
    sol = z3.SolverFor("QF_LRA")
    terms, slack = [z3.RealVal(d.c[0])], d.r

    def unknown(name, a, lo=-1):
        nonlocal slack
        if abs(a) < 1 << 8:  # (a 2^-22 of a unit: these are added up)
            slack += abs(a)
            return
        v = z3.Real(name)
        sol.add(v <= 1, v >= lo)
        terms.append(v * a)

    for k, a in enumerate(d.c[1:], 1):
        unknown(f"t{k}", a, -1 if k & 1 else 0)
    for m, l in d.x.items():
        for k, a in enumerate(l):
            unknown(f"x{k}." + ".".join(map(str, m)), a)
    for i, a in d.s.items():
        unknown(f"d{i}", a)
    if slack:
        unknown("r", slack + (1 << 8))
    s = z3.Sum(terms)
    sol.add(z3.Or(s > B, s < -B))
    t0 = time.time()
    r = sol.check()
    smt.STATS["queries"] += 1
    smt.STATS["time"] += time.time() - t0
    if r == z3.unsat:
        smt.STATS["unsat"] += 1
        return "unsat"
    smt.STATS["sat"] += 1
    return "sat"


_ln2 = mpmath.log(2)
HINT = {("exp2", 32): (mpf(1) / 16, mpf(1) / 32), ("exp2", 64): (mpf(1) / 256, mpf(1) / 512)}
for _w in (32, 64):
    for _f in ("exp", "expm1", "sinh", "cosh"):
        HINT[_f, _w] = _ln2, _ln2 / 2
    HINT["tanh", _w] = _ln2 / 2, _ln2 / 4
    HINT["exp10", _w] = _ln2 / mpmath.log(10), _ln2 / mpmath.log(10) / 2
    for _f in ("sin", "cos", "tan"):
        HINT[_f, _w] = mpmath.pi / 2, mpmath.pi / 4


class Box:
    """decides |result - exact| <= (n + 1/2) ulp over intervals of arguments, splitting where needed"""

    def __init__(self, fn, w, root, n):
        self.fn, self.w, self.root, self.n = fn, w, root, n
        self.boxes = self.fails = 0
        tm.setup(w)
        self.cand = []
        self.whys = []
        self.probe, self.mark, self.stop = None, 40, None

    def one(self, lo, hi, depth=0):
        """True if shown; False to split"""
        self.boxes += 1
        self.why = "series"
        w = self.w
        try:
            ref, least = ref_model(self.fn, w, lo, hi)
        except Bad:
            return False
        if least == 0 and not (hi - lo < 4):
            # (an absolute bound, the smallest unit, may still do)
            pass
        eb, sb, bias = t.fparams(w)
        u = max(int(mpmath.floor(mpmath.log(least, 2))) if least > 0 else -99999, 1 - bias) - sb
        if least > 0 and int(mpmath.floor(mpmath.log(least * (1 + mpf(2) ** (2 - sb)), 2))) - sb > u:
            u = max(u, int(mpmath.floor(mpmath.log(least * (1 + mpf(2) ** (2 - sb)), 2))) - sb)
        try:
            ms = tm.models(self.root, "x0", w, lo, hi, maxdepth=3 if hi - lo > 64 else 6)
        except (tm.Fail, tm.Fork) as e:
            self.why = str(e)
            return False
        B = (2 * self.n + 1, u - 1)
        for y in ms:
            d = tm.add(y, ref, True)
            dd = d.to(u - 31)
            if dd.mag() > B[0] << 30:
                # not provable by interval reasoning: a solver could not do better on independent unknowns
                self.note(dd, B[0] << 30, lo, hi)
                self.why = f"error bound {float(mpf(dd.mag()) / mpf(2) ** 31):.3f} ulp"
                return False
            if refute(dd, (B[0], u - 1)) != "unsat":
                self.why = "solver found the bound exceeded"
                return False
        return True

    def aligned(self, lo, hi):
        """a natural place to split: where the reduction of the argument moves on"""
        if (self.fn, self.w) not in HINT or hi - lo < 16:
            return None
        step, off = HINT[self.fn, self.w]
        s = lo >> (self.w - 1) << (self.w - 1)
        a, b = sorted((fl(self.w, lo), fl(self.w, hi)))
        if b - a > step * 2**30:
            return None
        m = mpmath.nint(((a + b) / 2 - off) / step)
        p = abs(off + m * step)
        if p == 0:
            return None
        q = S.from_frac(self.w, Fraction(*[(n * 2**e, 1) if e >= 0 else (n, 2**-e) for n, e in [tm.dy(p)]][0])) | s
        return q if lo < q <= hi else None

    def crossing(self, lo, hi):
        """where the exact value passes a power of two, if it does so between the ends"""
        g = lambda b: ulp_exp(self.w, abs(EXACT[self.fn](fl(self.w, b))))
        a, b = g(lo), g(hi)
        if a == b or hi - lo < 2 or lo == 0:
            return None
        while hi - lo > 1:
            m = (lo + hi) // 2
            if g(m) == a:
                lo = m
            else:
                hi = m
        return hi

    def note(self, d, B, lo, hi):
        """arguments at which the error without rounding already exceeds the bound: to be replayed"""
        for k in range(9):
            tt = Fraction(k - 4, 4)
            s = sum(a * tt**i for i, a in enumerate(d.c))
            if abs(s) > B and len(self.cand) < 4000:
                self.cand.append(lo + (hi - lo) * k // 8)

    def cover(self, lo, hi, deadline, minspan=0):
        """-> list of intervals left undecided"""
        from . import ranges as R

        left = []
        st = [(lo, hi)]
        while st:
            lo, hi = st.pop()
            if time.time() > deadline or len(left) > 40 or self.stop:
                left.append((lo, hi, "time"))
                continue
            if self.probe and len(self.cand) >= self.mark:
                # many boxes with an error that looks too large: see whether it is
                self.mark = 4 * len(self.cand) + 40
                self.stop = self.probe(self, left)
            try:
                ok = self.one(lo, hi)
            except Bad:
                ok = False
            if ok:
                continue
            self.fails += 1
            self.whys.append((lo, hi, getattr(self, "why", "")))
            if hi - lo <= minspan:
                left.append((lo, hi, getattr(self, "why", "")))
                continue
            [r], _ = R.propagate([self.root], {"x0": (lo, hi)})
            cs = [c for c in R.cuts(r, "x0", lo, hi) if lo < c <= hi]
            mid = self.crossing(lo, hi)
            if mid is not None:
                pass
            elif (mid := self.aligned(lo, hi)) is not None:
                pass
            elif cs:
                c = min(cs, key=lambda c: abs(c - (lo + hi) // 2))
                mid = c
            else:
                mid = (lo + hi + 1) // 2
            st += [(mid, hi), (lo, mid - 1)]
        return left


# ---------------------------------------------------------------- tasks
WALL = float("inf")  # when everything has to be finished


class Acc:
    """obligation: the function's results over some intervals of arguments are within n + 1/2 units in the last place"""

    def __init__(self, label, fn, w, root, n, intervals, budget, encoded=(), suffix=""):
        self.label, self.fn, self.w, self.root, self.n = label, fn, w, root, n
        self.intervals, self.budget, self.encoded = intervals, budget, sorted(encoded)
        self.name = fn + suffix
        self.weight = 1000 * budget
        self.nodes = len(t.topo([root]))
        self.config, self.checked = "arch", True

    def run(self):
        import traceback

        from . import lib

        t0 = time.time()
        try:
            b = Box(self.fn, self.w, self.root, self.n)
            b.probe = self.replay
            left = []
            end = min(t0 + self.budget, WALL)
            for lo, hi in self.intervals:
                left += b.cover(lo, hi, end)
            v = b.stop or self.replay(b, left)
            info = f"{b.boxes} boxes"
            if v:
                r = lib.Result(self, "violated", v[1], {"x0": v[0]}, time.time() - t0, by="z3 (linear real arithmetic)")
            elif left:
                lo, hi, why = left[0]
                r = lib.Result(self, "undecided", f"{info}; {len(left)} left, e.g. {float(fl(self.w, lo))!r} .. {float(fl(self.w, hi))!r} ({hex(lo)}..{hex(hi)}): {why}", None, time.time() - t0)
            else:
                r = lib.Result(self, "holds", info, None, time.time() - t0, by="z3 (linear real arithmetic)")
            r.boxes, r.left = b.boxes, left
            return r
        except Exception as e:
            return lib.Result(self, "error", f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}", secs=time.time() - t0)

    def replay(self, b, left):
        """run the real code where the solver could not exclude a larger error"""
        xs = set()
        for lo, hi, _ in left[:60]:
            k = min(hi - lo, 24)
            xs.update(lo + (hi - lo) * i // max(k, 1) for i in range(k + 1))
        tight = sorted((h - l, l, h) for l, h, why in b.whys if why.startswith("error") or why.startswith("solver"))
        for _, l, h in tight[:150]:
            xs.update((l, (l + h) // 2, h))
        xs.update(b.cand[-300:])
        if not xs:
            return None
        xs = sorted(xs)
        nat = build.native("arch", True, names=None, key="n")
        outs = nat.run([(self.name, (x,)) for x in xs], timeout=60)
        worst = None
        for x, (st, v) in zip(xs, outs):
            if st != "ok":
                return x, f"{self.name}({hex(x)}) -> {st} {v}"
            e = error(self.fn, self.w, x, v[0])
            if e > self.n + mpf(1) / 2 and (worst is None or e > worst[0]):
                worst = e, x, f"{self.name}({hex(x)}) -> {hex(v[0])}: {float(e):.3g} units in the last place from the exact value, {self.n} and a half allowed"
        return worst[1:] if worst else None
