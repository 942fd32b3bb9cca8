"""C16: results are within the error bound the library keeps to (units in the last place), over intervals of arguments."""
import time
from fractions import Fraction

from common import *
from engine import acc

T = lambda e: Fraction(2) ** e
TRIG = "sin cos tan".split()
# bound in units in the last place beyond correct rounding: f32, f64
BOUND = {
    "exp": (1, 1), "exp2": (1, 1), "exp10": (6, 6), "expm1": (1, 1), "log": (1, 1), "log2": (1, 1), "log10": (1, 1), "log1p": (1, 1),
    "sin": (1, 1), "cos": (1, 1), "tan": (1, 1), "asin": (1, 1), "acos": (1, 1), "atan": (1, 1), "sinh": (2, 2), "cosh": (2, 2), "tanh": (2, 2),
    "asinh": (2, 2), "acosh": (4, 4), "atanh": (2, 2), "erf": (1, 1), "erfc": (6, 7), "cbrt": (1, 1), "lgamma": (16, 16), "tgamma": (1, 20),
}
# not decided in the quick tier (cost); cbrt in f64 is not decided at all: its result is steered by tests of the tail
SLOW = set()
NEVER = {("cbrt", 64)}
  # fmt: skip


def domain(fn, w, tier):
    """intervals (lo, hi) of arguments as numbers, lo nearer to zero; lo = 0 leaves zero out, 1 and -1 are left out where singular"""
    q, f = tier == "quick", w == 32
    F = Fraction
    both = lambda *iv: [*iv, *[(-a, -b if b != "max" else "-max") for a, b in iv]]
    tiny = 0 if f or not q else T(-60)  # (f64: the many binades below are left to the thorough tier)
    if fn in ("exp", "expm1", "exp2", "exp10"):
        hi, lo = {"exp": (F("88.7"), 103), "expm1": (F("88.7"), 100), "exp2": (F("127.9"), 148), "exp10": (F("38.5"), 44)}[fn] if f else {"exp": (F("709.75"), 744), "expm1": (F("709.75"), 100), "exp2": (F("1023.9"), 1073), "exp10": (F("308.2"), 322)}[fn]
        if not q:
            return [(0, hi), (0, -lo)]
        m, e = {"exp": (128, 9), "expm1": (128, 9), "exp2": (24, 3), "exp10": (8, 1)}[fn] if f else {"exp": (40, 8), "expm1": (40, 8), "exp2": (4, F(1, 2)), "exp10": (2, F(1, 4))}[fn]
        if m >= hi:
            return [(0, hi), (0, -lo)]
        return [(tiny, m), (hi - e, hi), (tiny, -m), (-(lo - e), -lo)]
    if fn in ("log", "log2", "log10"):
        return ([(0, "max")] if fn == "log" else [(T(-40), T(40)), (T(-3 - 120), T(-120)), (T(120), T(123))] if f else [(T(-12), T(12)), (T(-1000), T(-998)), (T(1000), T(1002))]) if q and (f or fn != "log") else [(T(-20), T(20))] if q else [(0, "max")]
    if fn == "log1p":
        return [(tiny, T(20) if q and not f else "max"), (tiny, F(-15, 16) if q and not f else -1)]
    if fn in TRIG:
        return both((tiny, F(32 if f else 3 if fn == "tan" else 12) if q else F(1000)))
    if fn in ("asin", "acos", "atanh"):
        return both((tiny, F(63, 64) if q and not f else 1))
    if fn == "cbrt":
        return both((T(-6), T(6))) if q else both((0, "max"))
    if fn in ("atan", "asinh"):
        return both((tiny, T(20) if q else "max"))
    if fn in ("sinh", "cosh"):
        m = F("89.4") if f else F("710.4")
        return both((0, m)) if f or not q else both((tiny, 16), (m - 4, m))
    if fn in ("tanh", "erf"):
        return both((tiny, (T(6) if f else F(30) if fn == "tanh" else F(6)) if q else "max"))
    if fn == "erfc":
        return [(tiny, F(6) if f else F(4)), (tiny, -4)] if q else [(0, F(10) if f else F(26.5)), (0, "-max")]
    if fn == "acosh":
        return [(1, T(30)) if f else (F(9, 8), T(20))] if q else [(1, "max")]
    if fn == "lgamma":
        return [(T(-20), T(12) if f else F(40))] if q else [(0, T(20) if f else F(100))]
    if fn == "tgamma":
        # (the quick tier: around the integers, where a table answers)
        near = [(F(n) * (1 - T(-20 if f else -50)), F(n) * (1 + T(-20 if f else -50))) for n in range(1, 35 if f else 30)]
        return [*near, (F(1, 8), F(3, 2))] if q else [(T(-100), F(35) if f else F(171))]
    raise KeyError(fn)


def bits(w, v):
    if v in ("max", "-max"):
        return S.inf(w) - 1 | (1 << (w - 1) if v[0] == "-" else 0)
    return S.from_frac(w, Fraction(v))


def pieces(w, lo, hi):
    """the interval in pieces: very small numbers together, then binade by binade"""
    neg = hi in ("-max",) or hi not in ("max",) and hi < 0
    a, b = bits(w, lo), bits(w, hi)
    s = 1 << (w - 1) if neg else 0
    if a & ((1 << (w - 1)) - 1) > b & ((1 << (w - 1)) - 1):
        a, b = b, a
    a, b = (a & (s - 1) if s else a), (b & (s - 1) if s else b)
    if lo == 0:
        a = 1
    elif lo in (1, -1):
        a += 1
    if hi in (1, -1):
        b -= 1
    eb, sb, bias = t.fparams(w)
    cuts = sorted({a, b + 1} | {c for c in [(bias + e) << sb for e in [-60, -40, -30] + list(range(-26, bias + 1))] if a < c <= b})
    return [(x | s, y - 1 | s) for x, y in zip(cuts, cuts[1:])]


def obligations(tier):
    obs = []
    acc.WALL = time.time() + (600 if tier == "quick" else 20000)
    m = build.build_ir("arch", True, key="n")
    sel = [a for a in sys.argv[1:] if a.rstrip("f") in BOUND or a in BOUND]
    for fn, ns in BOUND.items():
        for w, n in zip((32, 64), ns):
            f = fn + SUF[w]
            if sel and f not in sel or (fn, w) in NEVER or (fn, w) in SLOW and tier == "quick" and not sel:
                continue
            x = t.var("x0", w)
            try:
                res, c, ev, ctx = X.encode(m, f, [x], api.FUNCS[f][1], stubs=STUBS, max_iter=60)
            except Exception as e:
                print("not encodable:", f, e)
                continue
            ps = []
            for lo, hi in domain(fn, w, tier):
                ps += pieces(w, lo, hi)
            # groups that run in parallel: interleaved, so that the costly regions spread
            k = max(1, min(len(ps) // 4, 16 if tier == "quick" else 32))
            for i in range(k):
                obs.append(acc.Acc(f"{f}: at most {n} + 1/2 ulp, part {i + 1} of {k}", fn, w, res[0], n, ps[i::k], (150 if tier == "quick" else 1500), ctx.encoded, SUF[w]))
    return obs


if __name__ == "__main__":
    sys.exit(lib.main("C16", obligations, "other", "the intervals of arguments named in DESIGN.md; zero, infinities, NaN and poles are C10's"))
