"""Exact IEEE-754 (round to nearest even) semantics of the floating-point nodes as bit-vector terms.

Arithmetic results that are NaN are the canonical quiet NaN.  `lower(roots, keep=...)` rewrites a DAG; products
and quotients of significands can be routed through `prod`/`quot` hooks so that two encodings share them.
"""
from . import term as t
from .softfp import params
from .term import FALSE, TRUE, T, band, bnot, bor, concat, const, eq, extract, ite, sext, trunc, ult, zext


def ones(w):
    return (1 << w) - 1


def clz(x, out):
    """leading zeros of x as an `out`-bit term"""
    return t.trunc(lower_ctlz(x), out) if x.w >= out else t.zext(lower_ctlz(x), out)


_clz_cache = {}


def lower_ctlz(x):
    """leading-zero count, width x.w"""
    if x in _clz_cache:
        return _clz_cache[x]
    w = x.w
    n = 1
    while n < w:
        n *= 2
    y = concat(x, const(ones(n - w), n - w)) if n > w else x
    # recursive: (count, allzero)

    def rec(v):
        if v.w == 1:
            return None, bnot(v)
        h = v.w // 2
        ch, zh = rec(extract(v, v.w - 1, h))
        cl, zl = rec(extract(v, h - 1, 0))
        k = h.bit_length() - 1
        if k == 0:
            c = zh
        else:
            c = concat(zh, ite(zh, cl, ch))
        return c, band(zh, zl)

    c, z = rec(y)
    k = c.w if c is not None else 0
    if n == 1:
        r = concat(const(0, w - 1), bnot(x)) if w > 1 else bnot(x)
    else:
        full = max(w, k + 1)
        if n > w:
            r = zext(c, full)
        else:
            r = ite(z, const(w, full), zext(c, full))
        r = trunc(r, w) if full > w else r
    _clz_cache[x] = r
    return r


def lower_cttz(x):
    rev = concat(*[t.bit(x, i) for i in range(x.w)])
    return lower_ctlz(rev)


def lower_ctpop(x):
    w = x.w
    xs = [zext(t.bit(x, i), w) for i in range(w)]
    while len(xs) > 1:
        xs = [t.add(xs[i], xs[i + 1]) if i + 1 < len(xs) else xs[i] for i in range(0, len(xs), 2)]
    return xs[0]


def shl_(x, n):
    """x << n for a term shift of any width (zero when n >= x.w)"""
    return _shift(x, n, True)


def lshr_(x, n):
    return _shift(x, n, False)


def _shift(x, n, left):
    w = x.w
    if t.isc(n):
        return t.shl(x, const(min(n.k, w), w)) if left and n.k < w else (const(0, w) if n.k >= w else t.lshr(x, const(n.k, w)))
    k = (w - 1).bit_length()
    r = x
    for i in range(min(k, n.w)):
        s = const(1 << i, w)
        r = ite(t.bit(n, i), t.shl(r, s) if left else t.lshr(r, s), r) if (1 << i) < w else ite(t.bit(n, i), const(0, w), r)
    if n.w > k:
        r = ite(t.ne(extract(n, n.w - 1, k), const(0, n.w - k)), const(0, w), r)
    return r


def sticky_lshr(x, n):
    """(x >> n) with all shifted-out bits or-ed into bit 0"""
    w = x.w
    k = (w - 1).bit_length()
    if t.isc(n):
        m = min(n.k, w)
        if m == 0:
            return x
        if m >= w:
            return zext(t.ne(x, const(0, w)), w)
        hi = t.lshr(x, const(m, w))
        return t.bor(hi, zext(t.ne(extract(x, m - 1, 0), const(0, m)), w))
    r = x
    for i in range(min(k, n.w)):
        m = 1 << i
        if m >= w:
            sh = zext(t.ne(r, const(0, w)), w)
        else:
            sh = t.lshr(r, const(m, w))
            sh = concat(extract(sh, w - 1, 1), bor(t.bit(sh, 0), t.ne(extract(r, m - 1, 0), const(0, m))))
        r = ite(t.bit(n, i), sh, r)
    if n.w > k:
        r = ite(t.ne(extract(n, n.w - 1, k), const(0, n.w - k)), zext(t.ne(x, const(0, w)), w), r)
    return r


def slt(a, b):
    return t.slt(a, b)


def qnan(w):
    eb, sb, _ = params(w)
    return const((ones(eb + 1) << (sb - 1)), w)


def inf(w, s):
    eb, sb, _ = params(w)
    return concat(s, const(ones(eb), eb), const(0, sb))


def zero(w, s):
    return concat(s, const(0, w - 1))


def unpack(x, ew):
    """(sign, unbiased-by-nothing effective exponent in ew bits (>=1), significand with hidden bit)"""
    eb, sb, _ = params(x.w)
    e, f = t.fexp(x), t.ffrac(x)
    sub = eq(e, const(0, eb))
    ee = zext(ite(sub, const(1, eb), e), ew)
    return t.fsign(x), ee, concat(bnot(sub), f)


def round_pack(w, s, e, sig, zero_sign=None):
    """value = sig * 2^(e - bias - (sig.w-1)) with sig.w > sb+2, bit 0 of sig may be a sticky bit;
    e: signed term; returns bits.  sig == 0 gives zero of sign zero_sign (default s)."""
    eb, sb, bias = params(w)
    W = sig.w
    assert W >= sb + 3, (W, sb)
    ew = max(e.w, W.bit_length() + 1, eb + 2) + 2
    e = sext(e, ew)
    lz = clz(sig, ew) if W.bit_length() <= ew else None
    # shift so that the leading one is at the top unless that would take the exponent below 1
    # allowed left shift: min(lz, e-1); if e < 1 shift right by 1-e
    em1 = t.sub(e, const(1, ew))
    neg = t.msb(em1)
    lim = slt(em1, lz)  # e-1 < lz : result is subnormal
    lsh = ite(neg, const(0, ew), ite(lim, em1, lz))
    left = shl_(sig, trunc(lsh, min(ew, W.bit_length())))
    rsh = t.neg(em1)  # 1-e
    right = sticky_lshr(sig, trunc(rsh, ew - 1))
    norm = ite(neg, right, left)
    ne = ite(bor(neg, lim), const(1, ew), t.sub(e, lz))  # effective exponent (>=1)
    top = t.msb(norm)
    keep = extract(norm, W - 1, W - 1 - sb)  # sb+1 bits
    g = t.bit(norm, W - 2 - sb)
    st = t.ne(extract(norm, W - 3 - sb, 0), const(0, W - 2 - sb))
    inc = band(g, bor(st, t.bit(keep, 0)))
    # biased exponent field: ne if top bit set else 0
    field = ite(top, ne, const(0, ew))
    packed = concat(field, extract(keep, sb - 1, 0))
    packed = t.add(packed, zext(inc, packed.w))
    of = t.sle(const(ones(eb), ew), extract(packed, packed.w - 1, sb))
    body = trunc(packed, w - 1)
    r = ite(of, inf(w, s), concat(s, body))
    z = eq(sig, const(0, W))
    return ite(z, zero(w, s if zero_sign is None else zero_sign), r)


def fadd(a, b, subtract=False):
    if subtract:
        b = t.fneg(b)
    w = a.w
    eb, sb, bias = params(w)
    anan, bnan, ainf, binf = t.is_nan(a), t.is_nan(b), t.is_inf(a), t.is_inf(b)
    swap = ult(extract(a, w - 2, 0), extract(b, w - 2, 0))
    x, y = ite(swap, b, a), ite(swap, a, b)
    ew = eb + 2
    sx, ex, mx = unpack(x, ew)
    sy, ey, my = unpack(y, ew)
    d = t.sub(ex, ey)
    G = 3
    W = sb + 1 + G + 1
    X = concat(const(0, 1), mx, const(0, G))
    Y = sticky_lshr(concat(const(0, 1), my, const(0, G)), trunc(d, eb + 1))
    diff = t.bxor(sx, sy)
    # with at least 3 extra bits the sticky bit is enough for correct rounding of sums and differences
    sm = ite(diff, t.sub(X, Y), t.add(X, Y))
    e = t.add(ex, const(1, ew))
    r = round_pack(w, sx, e, sm, zero_sign=band(sx, sy))
    nan = bor(bor(anan, bnan), band(band(ainf, binf), t.bxor(t.fsign(a), t.fsign(b))))
    return ite(nan, qnan(w), ite(ainf, a, ite(binf, b, r)))


def _prod(ma, mb):
    W = ma.w + mb.w
    return t.mul(zext(ma, W), zext(mb, W))


def fmul(a, b, prod=_prod, norm=False):
    """norm: multiply normalised significands, so that products can be matched with other normalised ones"""
    w = a.w
    eb, sb, bias = params(w)
    ew = eb + (5 if norm else 3)
    take = normalize if norm else unpack
    sa, ea, ma = take(a, ew)
    sb_, eb_, mb = take(b, ew)
    s = t.bxor(sa, sb_)
    P = prod(ma, mb)
    # value = P * 2^(ea+eb-2bias-2sb); round_pack: sig*2^(e-bias-(W-1)), W = 2sb+2
    e = t.add(t.add(ea, eb_), const(1 - bias, ew))
    sig = P
    if sig.w < sb + 3:
        sig = concat(sig, const(0, sb + 3 - sig.w))
    r = round_pack(w, s, e, sig)
    anan, bnan, ainf, binf = t.is_nan(a), t.is_nan(b), t.is_inf(a), t.is_inf(b)
    az, bz = t.is_fzero(a), t.is_fzero(b)
    nan = t.disj([anan, bnan, band(ainf, bz), band(az, binf)])
    return ite(nan, qnan(w), ite(bor(ainf, binf), inf(w, s), r))


def normalize(x, ew):
    """(sign, exponent, significand with leading one) for finite nonzero x; exponent may go below 1"""
    s, e, m = unpack(x, ew)
    lz = clz(m, max(m.w.bit_length(), 1))
    return s, t.sub(e, zext(lz, ew)), shl_(m, lz)


def divmod_sig(n, d):
    """restoring division n // d, n % d for n < 2^k * d; widths equal"""
    w = n.w
    return t.udiv(n, d), t.urem(n, d)


def fdiv(a, b):
    w = a.w
    eb, sb, bias = params(w)
    ew = max(eb, (sb + 1).bit_length()) + 3
    sa, ea, ma = normalize(a, ew)
    s2, e2, mb = normalize(b, ew)
    s = t.bxor(sa, s2)
    k = sb + 3
    W = sb + 1 + k
    n = concat(ma, const(0, k))
    d = zext(mb, W)
    q, r = t.mk("udiv", (n, d), W) if not (t.isc(n) and t.isc(d)) else t.udiv(n, d), t.urem(n, d)
    # q in (2^(k-1), 2^(k+1)); value = q*2^-k * 2^(ea-e2)
    qq = trunc(q, k + 1)
    sig = concat(qq, t.ne(r, const(0, W)))
    # msb of sig weight: bit k+1 of sig = 2^0
    e = t.add(t.sub(ea, e2), const(bias, ew))
    res = round_pack(w, s, e, sig)
    anan, bnan, ainf, binf = t.is_nan(a), t.is_nan(b), t.is_inf(a), t.is_inf(b)
    az, bz = t.is_fzero(a), t.is_fzero(b)
    nan = t.disj([anan, bnan, band(ainf, binf), band(az, bz)])
    return ite(nan, qnan(w), ite(bor(ainf, bz), inf(w, s), ite(bor(binf, az), zero(w, s), res)))


def isqrt_digits(n, bits):
    """floor square root of n (2*bits wide) by the digit recurrence; returns (root, remainder)"""
    W = bits + 2
    rem = const(0, W)
    root = const(0, W)
    for i in range(bits - 1, -1, -1):
        rem = concat(extract(rem, W - 3, 0), extract(n, 2 * i + 1, 2 * i))
        trial = concat(extract(root, W - 3, 0), const(1, 2))
        ge = bnot(ult(rem, trial))
        rem = ite(ge, t.sub(rem, trial), rem)
        root = concat(extract(root, W - 2, 0), ge)
    return trunc(root, bits), rem


def fsqrt(a):
    w = a.w
    eb, sb, bias = params(w)
    ew = max(eb, (sb + 1).bit_length()) + 3
    s, e, m = normalize(a, ew)
    # value = m * 2^(e-bias-sb); choose even exponent
    ub = t.sub(e, const(bias, ew))
    odd = t.bit(ub, 0)
    bits = sb + 3
    # radicand in [1,4): n has 2*bits bits, scaled by 2^(2*bits-2)
    m2 = ite(odd, concat(m, const(0, 1)), concat(const(0, 1), m))
    n = concat(m2, const(0, 2 * bits - m2.w))
    root, rem = isqrt_digits(n, bits)
    sig = concat(root, t.ne(rem, const(0, rem.w)))
    he = t.ashr(t.sub(ub, zext(odd, ew)), const(1, ew))
    res = round_pack(w, const(0, 1), t.add(he, const(bias, ew)), sig)
    z = t.is_fzero(a)
    nan = bor(t.is_nan(a), band(t.fsign(a), bnot(z)))
    return ite(nan, qnan(w), ite(z, a, ite(t.is_inf(a), a, res)))


def ffma(a, b, c, prod=_prod, out=None, norm=False):
    """a*b + c rounded once to the format of width `out` (default: the operands' own)"""
    w = a.w
    out = out or w
    eb, sb, bias = params(w)
    ew = eb + 5
    take = normalize if norm else unpack
    sa, ea, ma = take(a, ew)
    s2, e2, mb = take(b, ew)
    sc, ec, mc = unpack(c, ew)
    ps = t.bxor(sa, s2)
    P = prod(ma, mb)  # 2sb+2 bits
    # common frame: product exponent pe with weight of P's lsb = 2^(pe); c lsb weight 2^(ce)
    p = sb + 1
    pe = t.sub(t.add(ea, e2), const(2 * (bias + sb), ew))
    ce = t.sub(ec, const(bias + sb, ew))
    # frame of width 3p+5: place the one with larger exponent
    W = 4 * p + 6
    PP = concat(const(0, W - 2 * p), P)
    CC = concat(const(0, W - p), mc)
    d = t.sub(ce, pe)  # >0: c is higher
    cneg = t.msb(d)
    # case d>=0: shift c left by d up to L = 2p+3, and if more, treat the product as sticky (d clamped, product scaled down)
    L = 2 * p + 3
    big = slt(const(L, ew), d)
    dl = ite(big, const(L, ew), d)
    C1 = shl_(CC, trunc(dl, W.bit_length()))
    P1 = sticky_lshr(PP, trunc(ite(big, t.sub(d, const(L, ew)), const(0, ew)), ew - 1))
    e1 = ite(big, t.sub(ce, const(L, ew)), pe)
    # case d<0: shift the product left by min(-d, p+3) and c right (sticky) by the rest
    nd = t.neg(d)
    M = p + 3
    big2 = slt(const(M, ew), nd)
    dl2 = ite(big2, const(M, ew), nd)
    P2 = shl_(PP, trunc(dl2, W.bit_length()))
    C2 = sticky_lshr(CC, trunc(ite(big2, t.sub(nd, const(M, ew)), const(0, ew)), ew - 1))
    e2x = t.sub(pe, dl2)
    Pv, Cv, ev = ite(cneg, P2, P1), ite(cneg, C2, C1), ite(cneg, e2x, e1)
    diff = t.bxor(ps, sc)
    lt = ult(Pv, Cv)
    s = ite(lt, sc, ps)
    mag = ite(diff, ite(lt, t.sub(Cv, Pv), t.sub(Pv, Cv)), t.add(Pv, Cv))
    e = t.add(ev, const(bias + W - 1, max(ew, (bias + W).bit_length() + 2))) if (bias + W).bit_length() + 2 <= ew else t.add(sext(ev, ew + 3), const(bias + W - 1, ew + 3))
    r = round_pack(out, s, t.add(e, const(params(out)[2] - bias, e.w)), mag, zero_sign=band(ps, sc))
    if out != w:
        c = fcvt(c, out)
    anan, bnan, cnan = t.is_nan(a), t.is_nan(b), t.is_nan(c)
    ainf, binf, cinf = t.is_inf(a), t.is_inf(b), t.is_inf(c)
    az, bz = t.is_fzero(a), t.is_fzero(b)
    pinf = bor(ainf, binf)
    nan = t.disj([anan, bnan, cnan, band(ainf, bz), band(az, binf), t.conj([pinf, cinf, diff])])
    # exact zero product with nonzero c
    r = ite(band(bor(az, bz), bnot(t.is_fzero(c))), c, r)
    return ite(nan, qnan(out), ite(pinf, inf(out, ps), ite(cinf, c, r)))


def frint(a, mode):
    """round to integral value"""
    w = a.w
    eb, sb, bias = params(w)
    s, e, m = t.fsign(a), t.fexp(a), concat(t.ne(t.fexp(a), const(0, eb)), t.ffrac(a))
    small = ult(e, const(bias - 1, eb))  # |a| < 1/2
    big = bnot(ult(e, const(bias + sb, eb)))  # integral (or inf/nan)
    # shift right by sb - (e-bias) + keep 2 extra bits
    W = sb + 1 + 2
    n = t.sub(const(bias + sb, eb), e)  # in 1..sb+1 for the interesting range
    x = sticky_lshr(concat(m, const(0, 2)), trunc(n, (sb + 2).bit_length()))
    ip = extract(x, W - 1, 2)
    h, st = t.bit(x, 1), t.bit(x, 0)
    frac_nz = bor(h, st)
    inc = {
        "trunc": FALSE, "floor": band(s, frac_nz), "ceil": band(bnot(s), frac_nz),
        "even": band(h, bor(st, t.bit(ip, 0))), "away": h,
    }[mode]
    v = t.add(zext(ip, W), zext(inc, W))
    # repack integer v (<= 2^(sb+1))
    r = from_uint(v, w, s)
    az = t.is_fzero(a)
    smallr = {
        "trunc": zero(w, s), "floor": ite(band(s, bnot(az)), const((1 << (w - 1)) | (bias << sb), w), zero(w, s)),
        "ceil": ite(band(bnot(s), bnot(az)), const(bias << sb, w), zero(w, s)), "even": zero(w, s), "away": zero(w, s),
    }[mode]
    return ite(t.is_nan(a), qnan(w), ite(big, a, ite(small, smallr, r)))


def from_uint(v, w, s):
    """unsigned integer term v, sign s -> float (RNE)"""
    eb, sb, bias = params(w)
    n = v.w
    sig = v if n >= sb + 3 else concat(v, const(0, sb + 3 - n))
    ew = max(eb + 3, n.bit_length() + 3)
    return round_pack(w, s, const(bias + n - 1, ew), sig)


def i2f(v, w, signed):
    if not signed:
        return from_uint(v, w, FALSE)
    s = t.msb(v)
    mag = ite(s, t.neg(v), v)
    return round_zero_pos(from_uint(mag, w, s), v, w)


def round_zero_pos(r, v, w):
    return ite(eq(v, const(0, v.w)), const(0, w), r)


def fcvt(a, w):
    eb, sb, bias = params(a.w)
    eb2, sb2, bias2 = params(w)
    if w > a.w:
        s, e, m = normalize(a, eb2 + 2)
        ne = t.add(e, const(bias2 - bias, eb2 + 2))
        r = concat(s, trunc(ne, eb2), extract(m, sb - 1, 0), const(0, sb2 - sb))
        r = ite(t.is_fzero(a), zero(w, s), r)
        return ite(t.is_nan(a), qnan(w), ite(t.is_inf(a), inf(w, t.fsign(a)), r))
    ew = eb + 2
    s, e, m = unpack(a, ew)
    sig = m if m.w >= sb2 + 3 else concat(m, const(0, sb2 + 3 - m.w))
    r = round_pack(w, s, t.add(e, const(bias2 - bias, ew)), sig)
    return ite(t.is_nan(a), qnan(w), ite(t.is_inf(a), inf(w, s), r))


def f2i(a, w, signed):
    """saturating truncation"""
    eb, sb, bias = params(a.w)
    s, e, m = t.fsign(a), t.fexp(a), concat(t.ne(t.fexp(a), const(0, eb)), t.ffrac(a))
    W = max(w + 1, sb + 1)
    M = zext(m, W) if W > m.w else m
    ee = zext(e, eb + 2)
    # value = m * 2^(e-bias-sb)
    sh = t.sub(ee, const(bias + sb, eb + 2))
    neg = t.msb(sh)
    left = shl_(M, trunc(sh, eb + 1))
    right = lshr_(M, trunc(t.neg(sh), eb + 1))
    v = ite(neg, right, left)
    # magnitude out of range: exponent >= bias + w (or v >= 2^w / 2^(w-1))
    bigexp = t.sle(const(bias + w, eb + 2), ee) if bias + w < (1 << (eb + 1)) else FALSE
    nan = t.is_nan(a)
    bigexp = bor(bigexp, t.is_inf(a))
    if signed:
        over = bor(bigexp, t.ule(const(1 << (w - 1), W), v))
        mag = trunc(v, w)
        pos = ite(over, const((1 << (w - 1)) - 1, w), mag)
        ngt = ite(over, const(1 << (w - 1), w), t.neg(mag))
        r = ite(s, ngt, pos)
    else:
        over = bor(bigexp, t.ule(const(1 << w, W), v) if W > w else FALSE)
        r = ite(s, const(0, w), ite(over, const(ones(w), w), trunc(v, w)))
    return ite(nan, const(0, w), r)


def flt(a, b):
    w = a.w
    nan = bor(t.is_nan(a), t.is_nan(b))
    z = band(t.is_fzero(a), t.is_fzero(b))
    sa, sb = t.msb(a), t.msb(b)
    ma, mb = extract(a, w - 2, 0), extract(b, w - 2, 0)
    lt = ite(sa, ite(sb, ult(mb, ma), TRUE), ite(sb, FALSE, ult(ma, mb)))
    return t.conj([bnot(nan), bnot(z), lt])


def feq(a, b):
    nan = bor(t.is_nan(a), t.is_nan(b))
    z = band(t.is_fzero(a), t.is_fzero(b))
    return band(bnot(nan), bor(z, eq(a, b)))


def fle(a, b):
    w = a.w
    nan = bor(t.is_nan(a), t.is_nan(b))
    z = band(t.is_fzero(a), t.is_fzero(b))
    sa, sb = t.msb(a), t.msb(b)
    ma, mb = extract(a, w - 2, 0), extract(b, w - 2, 0)
    le = ite(sa, ite(sb, t.ule(mb, ma), TRUE), ite(sb, FALSE, t.ule(ma, mb)))
    return band(bnot(nan), bor(z, le))


def lower_table(vals, idx, w):
    def rec(lo, n, bits):
        if bits == 0:
            return const(vals[lo], w)
        h = n // 2
        a, b = rec(lo, h, bits - 1), rec(lo + h, h, bits - 1)
        return ite(t.bit(idx, bits - 1), b, a)

    vals = list(vals) + [vals[-1]] * ((1 << idx.w) - len(vals)) if len(vals) < (1 << idx.w) else vals
    return rec(0, 1 << idx.w, idx.w)


def lowzeros(x, memo=None):
    """number of low bits known to be zero"""
    memo = {} if memo is None else memo
    if x in memo:
        return memo[x]
    w = x.w
    if t.isc(x):
        r = w if x.k == 0 else (x.k & -x.k).bit_length() - 1
    elif x.op == "concat":
        r = 0
        for p in reversed(x.args):
            n = lowzeros(p, memo)
            r += n
            if n < p.w:
                break
    elif x.op == "ite":
        r = min(lowzeros(x.args[1], memo), lowzeros(x.args[2], memo))
    elif x.op == "extract":
        r = max(0, min(w, lowzeros(x.args[0], memo) - x.k[1]))
    elif x.op in ("or", "xor"):
        r = min(lowzeros(a, memo) for a in x.args)
    elif x.op in ("add", "sub"):
        r = min(lowzeros(a, memo) for a in x.args)
    elif x.op == "and":
        r = max(lowzeros(a, memo) for a in x.args)
    else:
        r = 0
    memo[x] = r
    return r


def highzeros(x, memo=None):
    memo = {} if memo is None else memo
    if x in memo:
        return memo[x]
    w = x.w
    if t.isc(x):
        r = w - x.k.bit_length()
    elif x.op == "concat":
        r = 0
        for p in x.args:
            n = highzeros(p, memo)
            r += n
            if n < p.w:
                break
    elif x.op == "ite":
        r = min(highzeros(x.args[1], memo), highzeros(x.args[2], memo))
    elif x.op == "extract":
        r = max(0, min(w, highzeros(x.args[0], memo) - (x.args[0].w - 1 - x.k[0])))
    elif x.op in ("or", "xor"):
        r = min(highzeros(a, memo) for a in x.args)
    elif x.op == "and":
        r = max(highzeros(a, memo) for a in x.args)
    elif x.op == "mul":
        r = max(0, w - sum(a.w - highzeros(a, memo) for a in x.args))
    else:
        r = 0
    memo[x] = r
    return r


def abstract_products(roots, minbits=9):
    """replace every product of two non-constant operands by a fresh variable, with functional consistency and the
    range facts of normalised operands as side conditions; -> (rewritten roots, side condition, [(operand, operand, product)]): an over-approximation"""
    side, seen, memo = [], [], {}
    lz, hz = {}, {}
    for n in t.topo(roots):
        a = [memo[x] for x in n.args]
        r = n if all(x is y for x, y in zip(a, n.args)) else t.rebuild(n.op, a, n.w, n.k)
        if r.op == "mul" and not t.isc(r.args[0]) and not t.isc(r.args[1]):
            x, y = r.args
            lo = [lowzeros(x, lz), lowzeros(y, lz)]
            nx, ny = x.w - highzeros(x, hz), y.w - highzeros(y, hz)
            if min(nx - lo[0], ny - lo[1]) >= minbits:
                cx, cy = extract(x, nx - 1, lo[0]), extract(y, ny - 1, lo[1])
                if (cy.w, id(cy)) < (cx.w, id(cx)):
                    cx, cy = cy, cx
                for px, py, pp in seen:
                    if px is cx and py is cy:
                        p = pp
                        break
                else:
                    p = t.var(f"prod{len(seen)}_{r.id if hasattr(r, 'id') else len(side)}", cx.w + cy.w)
                    for px, py, pp in seen:
                        if px.w == cx.w and py.w == cy.w:
                            side.append(t.implies(band(eq(px, cx), eq(py, cy)), eq(pp, p)))
                            if cx.w == cy.w:
                                side.append(t.implies(band(eq(px, cy), eq(py, cx)), eq(pp, p)))
                    zx, zy = eq(cx, const(0, cx.w)), eq(cy, const(0, cy.w))
                    side.append(eq(bor(zx, zy), eq(p, const(0, p.w))))
                    side.append(t.implies(band(t.msb(cx), t.msb(cy)), bor(t.msb(p), t.bit(p, p.w - 2))))
                    side.append(t.implies(t.bit(cx, 0), eq(t.bit(p, 0), t.bit(cy, 0))))
                    side.append(t.implies(bnot(t.bit(cx, 0)), bnot(t.bit(p, 0))))
                    seen.append((cx, cy, p))
                full = concat(p, const(0, sum(lo))) if sum(lo) else p
                r = extract(full, r.w - 1, 0) if r.w <= full.w else concat(const(0, r.w - full.w), full)
        memo[n] = r
    return [memo[r] for r in roots], t.conj(side), seen


ALL = frozenset(t.FPOPS | t.FPREDS | {"ctlz", "cttz", "ctpop", "tbl"})


def lower(roots, keep=frozenset(), prod=_prod, hooks=None):
    """rewrite FP nodes (except ops in `keep`) into bit-vector terms"""
    memo = {}
    hooks = hooks or {}
    for n in t.topo(roots):
        a = [memo[x] for x in n.args]
        op = n.op
        if not a:
            r = n
        elif op in hooks and (h := hooks[op](n, a)) is not None:
            r = h
        elif op in keep or op not in ALL:
            r = n if all(x is y for x, y in zip(a, n.args)) else t.rebuild(op, a, n.w, n.k)
        elif all(t.isc(x) for x in a):
            r = t.rebuild(op, a, n.w, n.k)
        elif op == "fadd":
            r = fadd(*a)
        elif op == "fsub":
            r = fadd(a[0], a[1], True)
        elif op == "fmul":
            r = fmul(a[0], a[1], prod)
        elif op == "fdiv":
            r = fdiv(*a)
        elif op == "fsqrt":
            r = fsqrt(*a)
        elif op == "ffma":
            r = ffma(*a, prod)
        elif op == "frint":
            r = frint(a[0], n.k)
        elif op == "fcvt":
            r = fcvt(a[0], n.w)
        elif op in ("si2f", "ui2f"):
            r = i2f(a[0], n.w, op == "si2f")
        elif op in ("f2si", "f2ui"):
            r = f2i(a[0], n.w, op == "f2si")
        elif op == "flt":
            r = flt(*a)
        elif op == "fle":
            r = fle(*a)
        elif op == "feq":
            r = feq(*a)
        elif op == "ctlz":
            r = lower_ctlz(a[0])
        elif op == "cttz":
            r = lower_cttz(a[0])
        elif op == "ctpop":
            r = lower_ctpop(a[0])
        elif op == "tbl":
            r = lower_table(n.k, a[0], n.w)
        memo[n] = r
    return [memo[r] for r in roots]
