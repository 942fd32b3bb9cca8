"""Range propagation through a term DAG over a box of input bit patterns, and a decision procedure that splits the box.

The value of every node is over-approximated by a wrapped interval [start, start+len] modulo 2^w of its bit pattern; a
floating-point value also by an interval in the total order of bit patterns (-0 just below +0) and a may-be-NaN flag.
Correctly rounded operations are monotone, so the bounds are computed at the end points with the exact operations.
Conditions that the ranges settle are replaced by constants; what remains goes to the abstraction-refinement solver with
the ranges as additional axioms."""
import time

from . import softfp as S, term as t

NONE = object()


class AV:
    __slots__ = ("s", "n", "f")

    def __init__(self, s, n, f=NONE):
        self.s, self.n, self.f = s, n, f  # start, length-1; float view (klo, khi, nan) or NONE when not derived yet / None unknown


def full(w):
    return AV(0, (1 << w) - 1)


def key(w, b):
    return b if not b >> (w - 1) else -(b & ((1 << (w - 1)) - 1)) - 1


def unkey(w, k):
    return k if k >= 0 else (1 << (w - 1)) | (-k - 1)


FULLF = {w: (key(w, S.inf(w, 1)), key(w, S.inf(w)), True) for w in (16, 32, 64, 128)}


def fview(a, w):
    """float interval of a bit interval"""
    f = a.f
    if f is not NONE:
        return f
    s, n = a.s, a.n
    h = 1 << (w - 1)
    e = s + n
    inf = S.inf(w)
    klo, khi, nan = FULLF[w]
    if e < h:  # positive, maybe NaN
        if s > inf:
            f = (0, -1, True)  # only NaN
        else:
            f = (s, min(e, inf), e > inf)
    elif s >= h and e < 2 * h:
        if s > inf + h:
            f = (0, -1, True)
        else:
            f = (key(w, min(e, inf + h)), key(w, s), e > inf + h)
    elif s >= h and e - 2 * h < h and s - h > inf and False:
        f = None
    else:
        f = FULLF[w]
    a.f = f
    return f


def from_f(w, klo, khi, nan):
    """abstract value of a float interval"""
    f = (klo, khi, nan)
    if nan or klo > khi:
        a = full(w)
    elif klo >= 0:
        a = AV(klo, khi - klo)
    elif khi < 0:
        lo, hi = unkey(w, khi), unkey(w, klo)
        a = AV(lo, hi - lo)
    else:
        # both signs: bit patterns wrap around the top half only when small; give up
        a = full(w)
    a.f = f
    return a


def join(w, a, b):
    M = 1 << w
    full_n = M - 1
    if a.n >= full_n or b.n >= full_n:
        r = full(w)
    else:
        # smallest wrapped interval containing both
        best = None
        for x, y in ((a, b), (b, a)):
            d = (y.s - x.s) % M
            n = max(x.n, d + y.n)
            if n < full_n and (best is None or n < best[1]):
                best = (x.s, n)
        r = AV(*best) if best else full(w)
    if w in FULLF and (a.f is not NONE or b.f is not NONE):
        fa, fb = fview(a, w), fview(b, w)
        if fa and fb:
            if fa[0] > fa[1]:
                lo, hi = fb[:2]
            elif fb[0] > fb[1]:
                lo, hi = fa[:2]
            else:
                lo, hi = min(fa[0], fb[0]), max(fa[1], fb[1])
            q = from_f(w, lo, hi, fa[2] or fb[2])
            if q.n < r.n:
                r = q
            else:
                r.f = q.f
    return r


# ---------------------------------------------------------------- bit-vector transfer
def signed(a, w):
    """(lo, hi) as signed integers, or the whole range"""
    h = 1 << (w - 1)
    s = a.s - 2 * h if a.s >= h else a.s
    if s + a.n < h:
        return s, s + a.n
    return -h, h - 1


def unsigned(a, w):
    e = a.s + a.n
    if e < 1 << w:
        return a.s, e
    return 0, (1 << w) - 1


def mkrange(w, lo, hi):
    """wrapped interval from integer bounds"""
    n = hi - lo
    if n >= (1 << w) - 1:
        return full(w)
    return AV(lo % (1 << w), n)


def t_extract(n, a):
    hi, lo = n.k
    x, w = a[0], n.args[0].w
    s, e = x.s >> lo, (x.s + x.n) >> lo
    r = mkrange(n.w, s, e)
    if hi == w - 2 and w in FULLF and x.f is not NONE and x.f is not None:
        # the magnitude of a float interval
        klo, khi, nan = x.f
        if klo <= khi:
            if klo >= 0:
                l, h = klo, khi
            elif khi < 0:
                l, h = -1 - khi, -1 - klo
            else:
                l, h = 0, max(khi, -1 - klo)
            if nan:
                h = (1 << (w - 1)) - 1
            l, h = l >> lo, h >> lo
            if h - l < r.n:
                r = AV(l, h - l)
    return r


def t_concat(n, a):
    lo = hi = 0
    for x, y in zip(n.args, a):
        l, h = unsigned(y, x.w)
        lo, hi = lo << x.w | l, hi << x.w | h
    r = AV(lo, hi - lo)
    if n.w in FULLF and n.args[0].w == 1 and a[0].n:
        # both signs: a symmetric float interval
        m = hi & ((1 << (n.w - 1)) - 1)
        l = lo & ((1 << (n.w - 1)) - 1)
        inf = S.inf(n.w)
        r.f = (0, -1, True) if l > inf else (-1 - min(m, inf), min(m, inf), m > inf)
    return r


def t_add(n, a):
    return mkrange(n.w, a[0].s + a[1].s, a[0].s + a[0].n + a[1].s + a[1].n)


def t_sub(n, a):
    return mkrange(n.w, a[0].s - a[1].s - a[1].n, a[0].s + a[0].n - a[1].s)


def t_mul(n, a):
    w = n.w
    (al, ah), (bl, bh) = unsigned(a[0], w), unsigned(a[1], w)
    r1 = (al * bl, ah * bh)
    (al, ah), (bl, bh) = signed(a[0], w), signed(a[1], w)
    c = (al * bl, al * bh, ah * bl, ah * bh)
    r2 = (min(c), max(c))
    r = r1 if r1[1] - r1[0] <= r2[1] - r2[0] else r2
    return mkrange(w, *r)


def t_udiv(n, a):
    (al, ah), (bl, bh) = unsigned(a[0], n.w), unsigned(a[1], n.w)
    if bl == 0:
        return full(n.w)
    return AV(al // bh, ah // bl - al // bh)


def t_urem(n, a):
    (al, ah), (bl, bh) = unsigned(a[0], n.w), unsigned(a[1], n.w)
    if bl == 0:
        return full(n.w)
    if ah < bl:
        return a[0]
    return AV(0, bh - 1)


def t_and(n, a):
    w = n.w
    if w == 1:
        b = bool2(a, False)
        return b
    m = None
    hi = (1 << w) - 1
    for x in a:
        hi = min(hi, unsigned(x, w)[1])
    # mask of leading ones: truncation is monotone
    for i, x in enumerate(n.args):
        if t.isc(x) and len(a) == 2:
            inv = (~x.k) & ((1 << w) - 1)
            y = a[1 - i]
            if inv & (inv + 1) == 0:
                l, h = unsigned(y, w)
                return AV(l & x.k, (h & x.k) - (l & x.k))
            if x.k & (x.k + 1) == 0:
                b = x.k.bit_length()
                s, e = y.s, y.s + y.n
                if s >> b == e >> b:
                    return AV(s & x.k, (e & x.k) - (s & x.k))
    return AV(0, hi)


def t_or(n, a):
    w = n.w
    if w == 1:
        return bool2(a, True)
    lo, hi = 0, 0
    for x in a:
        l, h = unsigned(x, w)
        lo, hi = max(lo, l), hi | ((1 << h.bit_length()) - 1)
    return AV(lo, hi - lo)


def bool2(a, absorbing):
    v = 1 if absorbing else 0
    if any(x.n == 0 and x.s == v for x in a):
        return AV(v, 0)
    if all(x.n == 0 for x in a):
        return AV(1 - v, 0)
    return AV(0, 1)


def t_xor(n, a):
    w = n.w
    if len(a) == 2:
        for i in (0, 1):
            x, y = n.args[i], a[1 - i]
            if t.isc(x):
                if x.k == 1 << (w - 1):
                    r = AV(y.s ^ x.k, y.n)
                    if w in FULLF and y.f is not NONE and y.f is not None:
                        r.f = (-y.f[1] - 1, -y.f[0] - 1, y.f[2]) if y.f[0] <= y.f[1] else y.f
                        if r.n >= (1 << w) - 1:
                            r = from_f(w, *r.f)
                    return r
                if x.k == (1 << w) - 1:
                    return AV((~(y.s + y.n)) % (1 << w), y.n)
        if all(x.n == 0 for x in a):
            return AV(a[0].s ^ a[1].s, 0)
    hi = 0
    for x in a:
        hi |= (1 << unsigned(x, w)[1].bit_length()) - 1
    return AV(0, hi)


def t_not(n, a):
    return AV((~(a[0].s + a[0].n)) % (1 << n.w), a[0].n)


def t_ite(n, a):
    if a[0].n == 0:
        return a[1] if a[0].s else a[2]
    return join(n.w, a[1], a[2])


def t_sext(n, a):
    lo, hi = signed(a[0], n.args[0].w)
    return mkrange(n.w, lo, hi)


def t_shl(n, a):
    w = n.w
    (al, ah), (bl, bh) = unsigned(a[0], w), unsigned(a[1], w)
    if bh >= w or (ah << bh) >= 4 << w:
        if bl == bh and bl < w:
            return mkrange(w, al << bl, ah << bl)
        return full(w)
    return mkrange(w, al << bl, ah << bh)


def t_lshr(n, a):
    w = n.w
    (al, ah), (bl, bh) = unsigned(a[0], w), unsigned(a[1], w)
    lo = al >> min(bh, w)
    return AV(lo, (ah >> min(bl, w)) - lo)


def t_ashr(n, a):
    w = n.w
    (al, ah), (bl, bh) = signed(a[0], w), unsigned(a[1], w)
    bl, bh = min(bl, w), min(bh, w)
    c = (al >> bl, al >> bh, ah >> bl, ah >> bh)
    return mkrange(w, min(c), max(c))


def t_ctlz(n, a):
    w = n.args[0].w
    l, h = unsigned(a[0], w)
    hi, lo = w - l.bit_length(), w - h.bit_length()
    return AV(lo, hi - lo)


def t_eq(n, a):
    x, y = a
    if x.n == 0 and y.n == 0:
        return AV(int(x.s == y.s), 0)
    M = 1 << n.args[0].w
    if (y.s - x.s) % M > x.n and (x.s - y.s) % M > y.n:
        return AV(0, 0)
    return AV(0, 1)


def cmp(al, ah, bl, bh):
    if ah < bl:
        return AV(1, 0)
    if al >= bh:
        return AV(0, 0)
    return AV(0, 1)


def t_ult(n, a):
    w = n.args[0].w
    return cmp(*unsigned(a[0], w), *unsigned(a[1], w))


def t_slt(n, a):
    w = n.args[0].w
    return cmp(*signed(a[0], w), *signed(a[1], w))


def t_tbl(n, a):
    w = n.args[0].w
    l, h = unsigned(a[0], w)
    v = n.k[l : h + 1]
    if not v:
        return full(n.w)
    r = AV(min(v), max(v) - min(v))
    if n.w in FULLF:
        ks = [key(n.w, x) for x in v if not S.is_nan(n.w, x)]
        if ks and len(ks) == len(v):
            q = from_f(n.w, min(ks), max(ks), False)
            if q.n <= r.n:
                return q
            r.f = q.f
    return r


# ---------------------------------------------------------------- floating-point transfer
def corners(w, op, fs, extra=()):
    """min and max of op over the corner points; None for a NaN corner"""
    ks = list(extra)
    nan = False

    def rec(i, acc):
        nonlocal nan
        if i == len(fs):
            v = op(w, *acc)
            if S.is_nan(w, v):
                nan = True
            else:
                ks.append(key(w, v))
            return
        lo, hi = fs[i][0], fs[i][1]
        rec(i + 1, acc + [unkey(w, lo)])
        if hi != lo:
            rec(i + 1, acc + [unkey(w, hi)])

    rec(0, [])
    return ks, nan


def only_nan(f):
    return f[0] > f[1]


def has_zero(f):
    return f[0] <= 0 and f[1] >= -1


def has_inf(f, w):
    return f[0] == FULLF[w][0] or f[1] == FULLF[w][1]


def nanav(w):
    a = full(w)
    a.f = (0, -1, True)
    return a


def t_fadd(n, a, sub=False):
    w = n.w
    fa, fb = fview(a[0], w), fview(a[1], w)
    if only_nan(fa) or only_nan(fb):
        return nanav(w)
    if sub and n.args[0] is n.args[1]:
        return from_f(w, 0, 0, fa[2] or has_inf(fa, w))
    if sub:
        fb = (-fb[1] - 1, -fb[0] - 1, fb[2])
    klo, khi, _ = FULLF[w]
    nan = fa[2] or fb[2] or (fa[0] == klo and fb[1] == khi) or (fa[1] == khi and fb[0] == klo)
    lo = S.add(w, unkey(w, fa[0]), unkey(w, fb[0]))
    hi = S.add(w, unkey(w, fa[1]), unkey(w, fb[1]))
    lo = klo if S.is_nan(w, lo) else key(w, lo)
    hi = khi if S.is_nan(w, hi) else key(w, hi)
    return from_f(w, lo, hi, nan)


def t_fsub(n, a):
    return t_fadd(n, a, True)


def t_fmul(n, a):
    w = n.w
    fa, fb = fview(a[0], w), fview(a[1], w)
    if only_nan(fa) or only_nan(fb):
        return nanav(w)
    if n.args[0] is n.args[1]:
        m = lambda k: unkey(w, k) & ((1 << (w - 1)) - 1)
        hi = max(m(fa[0]), m(fa[1]))
        lo = 0 if has_zero(fa) else min(m(fa[0]), m(fa[1]))
        return from_f(w, S.mul(w, lo, lo), S.mul(w, hi, hi), fa[2])
    za, zb = has_zero(fa), has_zero(fb)
    nan = fa[2] or fb[2] or (za and has_inf(fb, w)) or (zb and has_inf(fa, w))
    ks, cn = corners(w, S.mul, (fa, fb))
    if cn or za or zb:
        # products of zeros take both signs unless the signs are fixed
        if fa[0] < 0 <= fa[1] or fb[0] < 0 <= fb[1]:
            ks += [0, -1]
        else:
            ks.append(0 if (fa[0] < 0) == (fb[0] < 0) else -1)
    return from_f(w, min(ks), max(ks), nan)


def t_fdiv(n, a):
    w = n.w
    fa, fb = fview(a[0], w), fview(a[1], w)
    if only_nan(fa) or only_nan(fb):
        return nanav(w)
    klo, khi, _ = FULLF[w]
    za, zb = has_zero(fa), has_zero(fb)
    nan = fa[2] or fb[2] or (za and zb) or (has_inf(fa, w) and has_inf(fb, w))
    if fb[0] < 0 <= fb[1]:
        return from_f(w, klo, khi, nan)
    ks, cn = corners(w, S.div, (fa, fb))
    if cn:
        # 0/0 or inf/inf at a corner: everything of the possible signs
        ks = [0, -1, klo, khi]
        if not fa[0] < 0 <= fa[1]:
            ks = [0, khi] if (fa[0] < 0) == (fb[0] < 0) else [-1, klo]
    if fa[0] < 0 <= fa[1]:
        ks += [0, -1]
    return from_f(w, min(ks), max(ks), nan)


def t_fsqrt(n, a):
    w = n.w
    f = fview(a[0], w)
    if only_nan(f) or f[1] < -1:
        return nanav(w)
    lo = f[0]
    nan = f[2] or lo < -1
    lo = max(lo, -1)
    return from_f(w, key(w, S.sqrt(w, unkey(w, lo))), key(w, S.sqrt(w, unkey(w, f[1]))), nan)


def t_ffma(n, a):
    w = n.w
    fs = [fview(x, w) for x in a]
    if any(only_nan(f) for f in fs):
        return nanav(w)
    if any(has_inf(f, w) for f in fs):
        return full(w)
    ks, cn = corners(w, S.fma, fs)
    if cn:
        return full(w)
    nan = any(f[2] for f in fs)
    lo, hi = min(ks), max(ks)
    if lo <= 0 <= hi or lo <= -1 <= hi:
        lo, hi = min(lo, -1), max(hi, 0)
    return from_f(w, lo, hi, nan)


def t_frint(n, a):
    w = n.w
    f = fview(a[0], w)
    if only_nan(f):
        return nanav(w)
    g = lambda k: key(w, S.rint(w, unkey(w, k), n.k))
    return from_f(w, g(f[0]), g(f[1]), f[2])


def t_fcvt(n, a):
    v = n.args[0].w
    f = fview(a[0], v)
    if only_nan(f):
        return nanav(n.w)
    g = lambda k: key(n.w, S.convert(v, unkey(v, k), n.w))
    return from_f(n.w, g(f[0]), g(f[1]), f[2])


def t_i2f(n, a):
    lo, hi = (signed if n.op == "si2f" else unsigned)(a[0], n.args[0].w)
    return from_f(n.w, key(n.w, S.from_int(n.w, lo)), key(n.w, S.from_int(n.w, hi)), False)


def t_f2i(n, a):
    v = n.args[0].w
    f = fview(a[0], v)
    sg = n.op == "f2si"
    if f[2]:
        if only_nan(f):
            return AV(0, 0)
        return full(n.w)
    g = lambda k: S.to_int_sat(v, unkey(v, k), n.w, sg)
    lo, hi = g(f[0]), g(f[1])
    if sg:
        lo, hi = t.sx(lo, n.w), t.sx(hi, n.w)
    return mkrange(n.w, lo, hi)


def fkey0(k):
    """numeric order: both zeros equal"""
    return k if k >= 0 else k + 1


def t_fcmp(n, a):
    w = n.args[0].w
    fa, fb = fview(a[0], w), fview(a[1], w)
    if only_nan(fa) or only_nan(fb):
        return AV(0, 0)
    nan = fa[2] or fb[2]
    al, ah, bl, bh = fkey0(fa[0]), fkey0(fa[1]), fkey0(fb[0]), fkey0(fb[1])
    if n.op == "flt":
        if al >= bh:
            return AV(0, 0)
        if ah < bl and not nan:
            return AV(1, 0)
    elif n.op == "fle":
        if al > bh:
            return AV(0, 0)
        if ah <= bl and not nan:
            return AV(1, 0)
    else:
        if ah < bl or bh < al:
            return AV(0, 0)
        if al == ah == bl == bh and not nan:
            return AV(1, 0)
    return AV(0, 1)


def magmax(m, val):
    """upper bound of a magnitude term's bit pattern"""
    return unsigned(val[m], m.w)[1]


def shrunk(n, base, val, absval, depth=5, strict=False):
    """is the magnitude n the magnitude base multiplied by factors of at most one, at least one of them at most one half?

    Rounding is monotone: |a*b| rounds to at most |a| when |b| <= 1, and to at most |a|/2 when |b| <= 1/2 and |a|/2 is exact."""
    if n is base:
        return strict
    w = n.w + 1
    if depth == 0 or n.op != "extract" or n.k != (w - 2, 0) or n.args[0].op != "fmul":
        return False
    x, y = (t.extract(a, w - 2, 0) for a in n.args[0].args)
    emax, sb = t.fparams(w)[2], t.fparams(w)[1]
    one, half = emax << sb, (emax - 1) << sb
    for a, b in ((x, y), (y, x)):
        absval(b)
        m = magmax(b, val)
        if m <= one and shrunk(a, base, val, absval, depth - 1, strict or m <= half):
            return True
    return False


def relate(n, val, absval):
    """a comparison of two magnitudes settled by `shrunk`: 0, 1 or None"""
    x, y = n.args
    w = x.w + 1
    if w not in FULLF:
        return None
    for small, big, r in ((x, y, 1), (y, x, 0)):
        if small.op == "extract" and small.args[0].op == "fmul" and unsigned(val[big], big.w)[0] >= 2 << t.fparams(w)[1] and magmax(big, val) < S.inf(w):
            if shrunk(small, big, val, absval):
                return 0 if n.op == "eq" else r
    return None


TR = {
    "extract": t_extract, "concat": t_concat, "add": t_add, "sub": t_sub, "mul": t_mul, "udiv": t_udiv, "urem": t_urem, "and": t_and, "or": t_or,
    "xor": t_xor, "not": t_not, "ite": t_ite, "sext": t_sext, "shl": t_shl, "lshr": t_lshr, "ashr": t_ashr, "ctlz": t_ctlz, "eq": t_eq, "ult": t_ult,
    "slt": t_slt, "tbl": t_tbl, "fadd": t_fadd, "fsub": t_fsub, "fmul": t_fmul, "fdiv": t_fdiv, "fsqrt": t_fsqrt, "ffma": t_ffma, "frint": t_frint,
    "fcvt": t_fcvt, "si2f": t_i2f, "ui2f": t_i2f, "f2si": t_f2i, "f2ui": t_f2i, "flt": t_fcmp, "fle": t_fcmp, "feq": t_fcmp,
}


def propagate(roots, box, back=None):
    """-> (simplified roots, abstract value of every node of the simplified DAG); box: variable name -> (lo, hi) bit patterns"""
    memo, val = {}, {}
    if back is not None:
        back.append(memo)

    def absval(n):
        st = [n]
        while st:
            m = st[-1]
            if m in val:
                st.pop()
                continue
            todo = [x for x in m.args if x not in val]
            if todo:
                st += todo
                continue
            st.pop()
            if m.op == "const":
                v = AV(m.k, 0)
            elif m.op == "var":
                b = box.get(m.k)
                v = AV(b[0], b[1] - b[0]) if b else full(m.w)
            else:
                f = TR.get(m.op)
                v = f(m, [val[x] for x in m.args]) if f else full(m.w)
                if v.n and m.op in ("ult", "eq"):
                    k = relate(m, val, absval)
                    if k is not None:
                        v = AV(k, 0)
            val[m] = v
        return val[n]

    def simp(root):
        """rewritten bottom-up, following only the live branch of a decided ite"""
        st = [(root, 0)]
        while st:
            n, ph = st.pop()
            if n in memo:
                continue
            if not n.args:
                v = absval(n)
                memo[n] = t.const(v.s, n.w) if v.n == 0 else n
                continue
            if n.op == "ite":
                c = n.args[0]
                if c not in memo:
                    st += [(n, 0), (c, 0)]
                    continue
                mc = memo[c]
                if t.isc(mc):
                    b = n.args[1] if mc.k else n.args[2]
                    if b not in memo:
                        st += [(n, 0), (b, 0)]
                        continue
                    memo[n] = memo[b]
                    continue
            elif n.w == 1 and n.op in ("and", "or"):
                ab = 1 if n.op == "or" else 0
                hit = False
                for x in n.args:
                    m = memo.get(x)
                    if m is not None and t.isc(m) and m.k == ab:
                        memo[n] = m
                        hit = True
                        break
                if hit:
                    continue
                nxt = next((x for x in n.args if x not in memo), None)
                if nxt is not None:
                    st += [(n, 0), (nxt, 0)]
                    continue
            todo = [x for x in n.args if x not in memo]
            if todo:
                st.append((n, 0))
                st += [(x, 0) for x in todo]
                continue
            a = [memo[x] for x in n.args]
            r = n if all(x is y for x, y in zip(a, n.args)) else t.rebuild(n.op, a, n.w, n.k)
            v = absval(r)
            if r.op == "shl" and r.args[0].op == "concat" and t.isc(r.args[0].args[0]) and r.args[0].args[0].k and unsigned(val[r.args[1]], r.w)[0] >= r.args[0].args[0].w:
                # the bits that are shifted out do not matter
                x = r.args[0]
                r = t.shl(t.concat(t.const(0, x.args[0].w), *x.args[1:]), r.args[1])
                v = absval(r)
            if v.n == 0 and r.op != "const":
                r = t.const(v.s, r.w)
                val[r] = v
            memo[n] = r

    for r in roots:
        simp(r)
    return [memo[r] for r in roots], val


def axioms(n, var, val):
    """constraints on the variable that stands for node n"""
    v = val.get(n)
    if v is None:
        return []
    w, out = n.w, []
    f = fview(v, w) if w in FULLF else None
    if f and f != FULLF[w]:
        klo, khi, nan = f
        if klo > khi:
            return [t.is_nan(var)]
        nn = t.TRUE
        ok = t.FALSE if not nan else t.is_nan(var)
        if not nan:
            out.append(t.bnot(t.is_nan(var)))
        mag, sg = t.extract(var, w - 2, 0), t.msb(var)
        m = (1 << (w - 1)) - 1
        c = lambda k: t.const(unkey(w, k) & m, w - 1)
        # lower bound
        if klo >= 0:
            out.append(t.bor(ok, t.band(t.bnot(sg), t.ule(c(klo), mag))))
        else:
            out.append(t.bor(ok, t.bor(t.bnot(sg), t.ule(mag, c(klo)))))
        if khi < 0:
            out.append(t.bor(ok, t.band(sg, t.ule(c(khi), mag))))
        else:
            out.append(t.bor(ok, t.bor(sg, t.ule(mag, c(khi)))))
    elif v.n < (1 << w) - 1:
        out.append(t.ule(t.sub(var, t.const(v.s, w)), t.const(v.n, w)))
    return out


def midpoint(lo, hi):
    """the roundest split point: hi part starts there"""
    d = lo ^ hi
    b = d.bit_length() - 1
    m = (hi >> b) << b
    return m  # lo < m <= hi


def cuts(r, name, lo, hi):
    """bit patterns of the variable at which a remaining comparison with a constant changes: natural places to split"""
    out = set()
    for n in t.topo([r]):
        if n.op not in ("ult", "slt", "eq"):
            continue
        a, b = n.args
        if t.isc(a) == t.isc(b):
            continue
        c, v = (a.k + 1, b) if t.isc(a) else (b.k, a)
        top, low = v.w, 0
        while v.op == "extract" or v.op == "concat" and t.isc(v.args[0]):
            if v.op == "concat":
                if c >> sum(x.w for x in v.args[1:]) != v.args[0].k or len(v.args) != 2:
                    break
                c &= (1 << v.args[1].w) - 1
                v = v.args[1]
                continue
            c <<= v.k[1]
            low += v.k[1]
            top = min(top, v.w) + v.k[1]
            v = v.args[0]
        if v.op != "var" or v.k != name:
            continue
        if n.op == "eq":
            x = lo >> top << top | (c - (1 << low if t.isc(a) else 0)) & ((1 << top) - 1)
            out.update(z for z in (x, x + (1 << low)) if lo < z <= hi)
            continue
        for h in (0, 1 << (v.w - 1)):
            for d in (0, 1):
                x = c + d
                if x < 1 << v.w and lo < (x | h) <= hi:
                    out.add(x | h)
    return sorted(out)


def box_cond(box, vars_):
    cs = []
    for n, (lo, hi) in box.items():
        v = vars_[n]
        if lo:
            cs.append(t.ule(t.const(lo, v.w), v))
        if hi != (1 << v.w) - 1:
            cs.append(t.ule(v, t.const(hi, v.w)))
    return t.conj(cs)


def decide(neg, timeout=60, backends=("kissat",), first=2.0, per=4.0, min_bits=0, sign=False, stats=None, maxboxes=200000, eager=6, **kw):
    """is neg satisfiable?  splits the box of the free variables; -> (status, model, info)

    eager: number of bits per variable that are split off before the first solver call (while conditions stay undecided)"""
    from . import absfp

    t0 = time.time()
    vs = {k: t.var(k, w) for k, w in t.variables([neg]).items()}
    if not vs:
        return ("sat" if neg.k else "unsat"), {}, "closed"
    work = [({n: (0, (1 << v.w) - 1) for n, v in vs.items()}, neg, 0)]
    nb = ns = 0
    closed = 0
    while work:
        if time.time() - t0 > timeout or nb > maxboxes:
            return "unknown", None, f"{nb} boxes, {closed} closed by ranges, {ns} solver calls, {len(work)} left, e.g. {({k: (hex(a), hex(b)) for k, (a, b) in work[-1][0].items()})}"
        box, g, depth = work.pop()
        nb += 1
        [r], val = propagate([g], box)
        if r.op == "const":
            if r.k:
                return "sat", {n: lo for n, (lo, hi) in box.items()}, "range"
            closed += 1
            continue
        live = set(t.variables([r]))
        widths = {n: (box[n][0] ^ box[n][1]).bit_length() for n in box if n in live}
        can = [n for n, b in widths.items() if b > 0]
        big = max(can, key=lambda n: widths[n] - vs[n].w, default=None)
        lo, hi = box[big] if big else (0, 0)
        cs = cuts(r, big, lo, hi) if big and depth < 16 else []
        if big is None or depth >= eager and not cs:
            left = timeout - (time.time() - t0)
            budget = min(left, first if big is not None and depth < 40 else per)
            # from the whole query again: what is rewritten in a larger box can hide a symmetry
            [q], val = propagate([neg], box)
            if sign:
                from . import signnorm

                # renormalise with the ranges of this box at hand, then derive the ranges of the new terms
                q, val = signnorm.norm_in(q, val, box)
                if q.op == "const":
                    if q.k:
                        return "sat", {n: lo for n, (lo, hi) in box.items()}, "range"
                    closed += 1
                    continue
            q = t.band(q, box_cond({n: box[n] for n in live if n in box}, vs))
            ns += 1
            st, model, info = absfp.decide(q, max(budget, 1.5), backends, val=val, **kw)
            if st == "unsat":
                closed += 1
                continue
            if st == "sat":
                for n, (lo, hi) in box.items():
                    model.setdefault(n, lo)
                return "sat", model, info
            if big is None:
                return "unknown", None, info
        m = cs[len(cs) // 2] if cs else midpoint(lo, hi)
        for p in ((lo, m - 1), (m, hi)):
            b = dict(box)
            b[big] = p
            work.append((b, r, depth + 1))
    return "unsat", None, f"{nb} boxes, {closed} closed, {ns} solver calls"
