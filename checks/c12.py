"""C12: odd functions are odd and even functions are even, bit for bit."""
from common import *

ODD = "asin atan asinh atanh cbrt erf sin sinh tan tanh j1".split()
EVEN = "cos cosh j0".split()
TRIG = "sin cos tan".split()


def flip(x):
    return t.bxor(x, t.const(1 << (x.w - 1), x.w))


def both(r, p):
    return t.band(p(r[0][0]), p(r[1][0]))


def obligations(tier):
    obs = []
    sel = [a for a in sys.argv[1:] if a in ODD + EVEN]
    for fn in sel or ODD + EVEN:
        for w in (32, 64):
            f = fn + SUF[w]
            odd = fn in ODD
            m = (lambda r: flip(r)) if odd else (lambda r: r)
            O = lambda label, spec, **k: obs.append(Ob(label, f, spec, args=(w,), calls=[(f, lambda x: (x,)), (f, lambda x: (flip(x),))], ranges=True, sign=True, stubs=STUBS,
                                                       nopanic=False, complete=False, max_iter=60, timeout=60 if tier == "quick" else 900, **k))
            # the value, zeros counted as equal; the sign of a zero result separately (for the circular functions beyond the
            # reduction only the argument zero: their reduced argument is not known to be nonzero)
            # by symmetry of the statement it is enough to consider x with a clear sign bit
            plus = lambda x: t.eq(t.msb(x), t.const(0, 1))
            fin = lambda x: t.bnot(t.is_inf(x))
        
            O(f"{f}(-x) = {'-' if odd else ''}{f}(x)",
              lambda x, r, m=m, fn=fn: t.disj([t.feq(r[0][0], m(r[1][0])), both(r, t.is_nan)] + ([both(r, t.is_inf)] if fn == "tan" else [])),
              assume=(lambda x: t.band(plus(x), fin(x))) if fn == "j1" else plus)
            O(f"{f}: sign of a zero result", lambda x, r, m=m: t.implies(t.is_fzero(r[0][0]), t.eq(r[0][0], m(r[1][0]))),
              assume=(lambda x: t.eq(x, t.const(0, x.w))) if fn in TRIG else (lambda x: t.band(plus(x), fin(x))) if fn == "j1" else plus)
    return obs


if __name__ == "__main__":
    sys.exit(lib.main("C12", obligations, "other", "all bit patterns"))
