"""C17: symmetries of the functions of two arguments: swapping operands and flipping signs.

The variables are magnitudes; the signs are constants of each case, so that terms that differ only in signs fold."""
from common import *
from c11 import ATAN, odd

FNS = "hypot atan2 fmod remainder remquo pow jn yn".split()


def sg(s, m):
    return t.concat(t.const(s, 1), m)


def flip(x):
    return flip_if(t.TRUE, x)


def eqf(a, b):
    return t.bor(t.eq(a, b), t.band(t.is_nan(a), t.is_nan(b)))


def num(a, b):
    return t.bor(t.feq(a, b), t.band(t.is_nan(a), t.is_nan(b)))


def flip_if(c, x):
    return t.bxor(x, t.concat(c, t.const(0, x.w - 1)))


def cases(fn, w):
    """(name, argument kinds, arguments of the first call, of the second call, goal on the results, assumption, known conditions)"""
    m = (w - 1, w - 1)
    if fn == "hypot":
        lt = lambda x, y: [(t.ult(x, y), 1), (t.ult(y, x), 0), (t.eq(x, y), 0)]
        yield "hypot(y, x) = hypot(x, y)", m, lambda x, y: (sg(0, x), sg(0, y)), lambda x, y: (sg(0, y), sg(0, x)), lambda x, p, q: eqf(p[0], q[0]), None, lt
        for s in (1, 2, 3):
            yield f"hypot of arguments with signs {s:02b}", m, lambda x, y: (sg(0, x), sg(0, y)), lambda x, y, s=s: (sg(s >> 1, x), sg(s & 1, y)), lambda x, p, q: eqf(p[0], q[0]), None, None
    elif fn == "atan2":
        for s in (0, 1):
            yield f"atan2(-y, {'+-'[s]}x) = -atan2(y, {'+-'[s]}x)", m, lambda y, x, s=s: (sg(0, y), sg(s, x)), lambda y, x, s=s: (sg(1, y), sg(s, x)), lambda x, p, q: eqf(p[0], flip(q[0])), None, None
    elif fn in ("fmod", "remainder", "remquo"):
        for s in (1, 2, 3):
            yield (f"signs {s:02b}", m, lambda x, y: (sg(0, x), sg(0, y)), lambda x, y, s=s: (sg(s >> 1, x), sg(s & 1, y)),
                   lambda x, p, q, s=s: t.band(eqf(flip_if(t.const(s >> 1, 1), p[0]), q[0]),
                                               t.eq(q[1], t.neg(p[1]) if s in (1, 2) else p[1]) if len(p) > 1 else t.TRUE), None, None)
    elif fn == "pow":
        for s in (0, 1):
            y_ = lambda y, s=s: sg(s, y)
            yield (f"pow(-x, {'+-'[s]}n) = +-pow(x, {'+-'[s]}n)", m, lambda x, y, s=s: (sg(1, x), sg(s, y)), lambda x, y, s=s: (sg(0, x), sg(s, y)),
                   lambda x, p, q, y_=y_: num(p[0], flip_if(odd(y_(x[1])), q[0])),
                   lambda x, y, y_=y_: t.conj([t.bnot(t.is_nan(sg(0, x))), t.is_finite(y_(y)), t.bor(t.is_fzero(y_(y)), t.eq(B.frint(y_(y), "trunc"), y_(y)))]), None)
    elif fn in ("jn", "yn"):
        for b in (0, 1):
            n_ = lambda n, b=b: t.concat(n, t.const(b, 1))
            f = lambda v, b=b: flip(v) if b else v
            k = f"{fn}(n, x)" if not b else f"-{fn}(n, x)"
            if fn == "jn":
                yield (f"jn(n, -x) = {k}, {'odd' if b else 'even'} n" + " but 1, -1" * b, (31, w - 1), lambda n, x, n_=n_: (n_(n), sg(1, x)), lambda n, x, n_=n_: (n_(n), sg(0, x)),
                       lambda x, p, q, f=f: num(p[0], f(q[0])), None,
                       lambda n, x, n_=n_: [(t.eq(n_(n), t.const(1, 32)), 0), (t.eq(n_(n), t.const(-1, 32)), 0)])
            yield (f"{fn}(-n, x) = {k}, {'odd' if b else 'even'} n > 1", ("i", w - 1), lambda n, x: (t.neg(n), sg(0, x)), lambda n, x: (n, sg(0, x)),
                   lambda x, p, q, f=f: num(p[0], f(q[0])), lambda n, x: t.ne(x, t.const(0, x.w)) if fn == "yn" else t.TRUE,
                   lambda n, x, b=b: [(t.msb(n), 0), (t.msb(t.neg(n)), 1), (t.slt(t.neg(n), t.const(0, 32)), 1), (t.eq(t.neg(n), t.const(0, 32)), 0), (t.eq(n, t.const(0, 32)), 0), (t.eq(n, t.const(1, 32)), 0), (t.extract(n, 0, 0), b)])


BESSEL = ufs("sin", "cos", "j0", "j1", "y0", "y1", "log")
LOOP = {"fmod": 6, "remainder": 6, "remquo": 6, "jn": 6, "yn": 6}


def obligations(tier):
    obs = []
    sel = [a for a in sys.argv[1:] if a in FNS]
    for fn in sel or FNS:
        for w in (16, 32, 64, 128) if fn == "fmod" else (32, 64):
            f = fn + SUF[w]
            mi = LOOP.get(fn)
            if mi and tier == "thorough":
                mi = 16
            for name, args, c1, c2, goal, assume, given in cases(fn, w):
                if tier == "quick" and ("n(-n" in name or fn == "pow"):
                    continue  # not settled within minutes
                obs.append(Ob(f"{f}: {name}" + (f" (at most {mi} visits of a block)" if mi else ""), f, lambda x, r, g=goal: g(x, r[0], r[1]),
                              args=args, calls=[(f, c1), (f, c2)], assume=assume, given=given, abstract=True, sign=True, stubs=BESSEL if fn in ('jn', 'yn') else ATAN if fn == 'atan2' else STUBS, nopanic=False, complete=False,
                              max_iter=mi or 300, ranges=fn not in ("atan2", "hypot"), rk={"eager": 0, "first": 100}, timeout=60 if tier == "quick" else 600))
    return obs


if __name__ == "__main__":
    sys.exit(lib.main("C17", obligations, "other", "all arguments"))
