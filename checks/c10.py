"""C10: special values, domain errors and NaN propagation of the elementary and special functions."""
from common import *


def fin(x):
    return t.is_finite(x)


class V:
    """helpers on one float term"""

    def __init__(self, x):
        self.x, self.w = x, x.w

    def c(self, v):
        return fc(v, self.w)

    def lt(self, v):
        return t.flt(self.x, self.c(v))

    def gt(self, v):
        return t.flt(self.c(v), self.x)

    def eq(self, v):
        """bit-equal to a constant"""
        return t.eq(self.x, self.c(v))

    def zero(self):
        return t.is_fzero(self.x)

    def inf(self):
        return t.is_inf(self.x)

    def pinf(self):
        return self.eq("inf")

    def ninf(self):
        return self.eq("-inf")

    def nan(self):
        return t.is_nan(self.x)

    def integer(self):
        return t.band(fin(self.x), t.eq(B.frint(self.x, "trunc"), self.x))

    def neg(self):
        return t.msb(self.x)


# each table: list of (condition on the argument, wanted result) tried in order; wanted: "nan", "x" (the argument), a constant,
# or "num" (anything but NaN); the rest of the inputs must not give NaN
def T(f):
    return {
        "acos": [(lambda v: t.bor(v.lt(-1), v.gt(1)), "nan"), (lambda v: v.eq(1), 0)],
        "asin": [(lambda v: t.bor(v.lt(-1), v.gt(1)), "nan"), (V.zero, "x")],
        "atan": [(V.zero, "x"), (V.pinf, "pi/2"), (V.ninf, "-pi/2")],
        "acosh": [(lambda v: v.lt(1), "nan"), (lambda v: v.eq(1), 0), (V.pinf, "inf")],
        "asinh": [(V.zero, "x"), (V.inf, "x")],
        "atanh": [(V.zero, "x"), (lambda v: v.eq(1), "inf"), (lambda v: v.eq(-1), "-inf"), (lambda v: t.bor(v.lt(-1), v.gt(1)), "nan")],
        "cos": [(V.zero, 1), (V.inf, "nan")],
        "sin": [(V.zero, "x"), (V.inf, "nan")],
        "tan": [(V.zero, "x"), (V.inf, "nan")],
        "cosh": [(V.zero, 1), (V.inf, "inf")],
        "sinh": [(V.zero, "x"), (V.inf, "x")],
        "tanh": [(V.zero, "x"), (V.pinf, 1), (V.ninf, -1)],
        "exp": [(V.zero, 1), (V.pinf, "inf"), (V.ninf, 0)],
        "exp2": [(V.zero, 1), (V.pinf, "inf"), (V.ninf, 0)],
        "exp10": [(V.zero, 1), (V.pinf, "inf"), (V.ninf, 0)],
        "expm1": [(V.zero, "x"), (V.pinf, "inf"), (V.ninf, -1)],
        "log": [(V.zero, "-inf"), (lambda v: v.eq(1), 0), (V.neg, "nan"), (V.pinf, "inf")],
        "log2": [(V.zero, "-inf"), (lambda v: v.eq(1), 0), (V.neg, "nan"), (V.pinf, "inf")],
        "log10": [(V.zero, "-inf"), (lambda v: v.eq(1), 0), (V.neg, "nan"), (V.pinf, "inf")],
        "log1p": [(V.zero, "x"), (lambda v: v.eq(-1), "-inf"), (lambda v: v.lt(-1), "nan"), (V.pinf, "inf")],
        "cbrt": [(V.zero, "x"), (V.inf, "x")],
        "erf": [(V.zero, "x"), (V.pinf, 1), (V.ninf, -1)],
        "erfc": [(V.pinf, 0), (V.ninf, 2), (V.zero, 1)],
        "lgamma": [(lambda v: t.bor(v.eq(1), v.eq(2)), 0), (lambda v: t.band(t.bor(v.neg(), v.zero()), v.integer()), "inf"), (V.inf, "inf")],
        "tgamma": [(lambda v: v.eq(0), "inf"), (lambda v: v.eq("-0"), "-inf"), (lambda v: t.band(v.neg(), v.integer()), "nan"), (V.ninf, "nan"), (V.pinf, "inf")],
        "j0": [(V.zero, 1), (V.inf, 0)],
        "j1": [(V.zero, "x"), (V.pinf, 0)],
        "y0": [(V.zero, "-inf"), (V.neg, "nan"), (V.pinf, 0)],
        "y1": [(V.zero, "-inf"), (V.neg, "nan"), (V.pinf, 0)],
        "sqrt": [(V.zero, "x"), (V.neg, "nan"), (V.pinf, "inf")],
    }[f]


PI2 = {32: 0x3FC90FDB, 64: 0x3FF921FB54442D18}


def want(w, x, r):
    if w == "nan":
        return t.is_nan(r)
    if w == "x":
        return t.eq(r, x)
    if w == "num":
        return t.bnot(t.is_nan(r))
    if w in ("pi/2", "-pi/2"):
        # within one unit in the last place
        k = PI2[x.w] | ((1 << (x.w - 1)) if w[0] == "-" else 0)
        return t.ule(t.sub(r, t.const(k - 1, x.w)), t.const(2, x.w))
    if w == 0 and not isinstance(w, str):
        return t.eq(r, t.const(0, x.w))
    return t.eq(r, fc(w, x.w))


def parts(fn):
    """(part name, assumption, spec): NaN in, each special case, and no NaN elsewhere"""
    tab = T(fn)
    yield "NaN in", lambda x: t.is_nan(x), lambda x, r: t.is_nan(r[0])
    for i, (c, w) in enumerate(tab):
        def assume(x, i=i):
            v = V(x)
            return t.conj([t.bnot(v.nan()), tab[i][0](v), *[t.bnot(tab[j][0](v)) for j in range(i)]])

        yield f"case {i} -> {w}", assume, lambda x, r, w=w: want(w, x[0], r[0])


def rest(fn):
    tab = T(fn)
    return lambda x: t.conj([t.bnot(t.is_nan(x)), *[t.bnot(c(V(x))) for c, _ in tab]])


FNS = """acos asin atan acosh asinh atanh cos sin tan cosh sinh tanh exp exp2 exp10 expm1 log log2 log10 log1p cbrt erf erfc
lgamma tgamma j0 j1 y0 y1""".split()


# the solver does not settle these within minutes; thorough runs try them
HARD = {f + s for f in "acos tan cos sin exp10 erf erfc lgamma tgamma j0 j1 y0 y1 cbrt tanh sinh".split() for s in ("", "f")}


def obligations(tier):
    obs = []
    sel = [a for a in sys.argv[1:] if a in FNS]
    to = 60 if tier == "quick" else 300
    for fn in sel or FNS:
        for w in (32, 64):
            f = fn + SUF[w]
            com = dict(abstract=True, stubs=STUBS, max_iter=60, timeout=to, nopanic=False, complete=False)
            for part, assume, spec in parts(fn):
                obs.append(Ob(f"{f}: {part}", f, spec, assume=assume, **com))
            if f not in HARD or tier == "thorough":
                obs.append(Ob(f"{f}: number otherwise", f, lambda x, r: t.bnot(t.is_nan(r[0])), assume=rest(fn), **com))
    return obs


if __name__ == "__main__":
    sys.exit(lib.main("C10", obligations, "other", "all bit patterns of f32/f64"))
