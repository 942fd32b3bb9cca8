"""Exact software floating point on bit patterns (Python integers).

Used for constant folding in the symbolic executor, for concrete evaluation of encoded terms and for
validating the bit-vector encodings.  All arithmetic is round-to-nearest, ties-to-even; every NaN
result of an arithmetic operation is the canonical quiet NaN.
"""
from fractions import Fraction
from math import isqrt

# name -> (exponent bits, significand bits without the implicit one)
FMT = {16: (5, 10), 32: (8, 23), 64: (11, 52), 128: (15, 112)}


def params(w):
    eb, sb = FMT[w]
    return eb, sb, (1 << (eb - 1)) - 1


def qnan(w):
    eb, sb = FMT[w]
    return (((1 << eb) - 1) << sb) | (1 << (sb - 1))


def inf(w, s=0):
    eb, sb = FMT[w]
    return (s << (w - 1)) | (((1 << eb) - 1) << sb)


def is_nan(w, b):
    return (b & ((1 << (w - 1)) - 1)) > inf(w)


def is_inf(w, b):
    return (b & ((1 << (w - 1)) - 1)) == inf(w)


def is_zero(w, b):
    return (b & ((1 << (w - 1)) - 1)) == 0


def sign(w, b):
    return b >> (w - 1)


def unpack(w, b):
    """finite nonzero/zero -> (sign, m, e) with value (-1)^s * m * 2^e"""
    eb, sb, bias = params(w)
    s = b >> (w - 1)
    e = (b >> sb) & ((1 << eb) - 1)
    m = b & ((1 << sb) - 1)
    if e == 0:
        return s, m, 1 - bias - sb
    return s, m | (1 << sb), e - bias - sb


def to_frac(w, b):
    s, m, e = unpack(w, b)
    v = Fraction(m) * (Fraction(2) ** e)
    return -v if s else v


def round_mant(w, s, m, e, sticky=0):
    """round (-1)^s * (m + sticky*eps) * 2^e to nearest even"""
    eb, sb, bias = params(w)
    if m == 0:
        if sticky:
            m, e, sticky = 1, e - (sb + 4) - 4, 1
            # value is below any representable half-ulp only when caller keeps enough bits
        else:
            return s << (w - 1)
    L = m.bit_length()
    emin = 1 - bias - sb
    # target exponent of lsb
    te = max(e + L - (sb + 1), emin)
    sh = te - e
    if sh <= 0:
        q = m << (-sh)
        rem = 0
        half = 1
        st = sticky
        if st:
            # sticky below an exact value: never reaches half
            rem, half = 0, 1
    else:
        q = m >> sh
        rem = m & ((1 << sh) - 1)
        half = 1 << (sh - 1)
        st = sticky
    if rem > half or (rem == half and (st or (q & 1))) and sh > 0:
        q += 1
    if q == 0:
        return s << (w - 1)
    if q.bit_length() > sb + 1:
        q >>= 1
        te += 1
    if q.bit_length() <= sb:  # subnormal
        return (s << (w - 1)) | q
    be = te + sb + bias
    if be >= (1 << eb) - 1:
        return inf(w, s)
    return (s << (w - 1)) | (be << sb) | (q & ((1 << sb) - 1))


def from_frac(w, v, s0=0):
    """correctly rounded conversion of a Fraction; s0: sign used for exact zero"""
    if v == 0:
        return s0 << (w - 1)
    s = 1 if v < 0 else 0
    v = abs(v)
    n, d = v.numerator, v.denominator
    eb, sb, bias = params(w)
    sh = sb + 4 - (n.bit_length() - d.bit_length())
    if sh < 0:
        sh = 0
    # also enough for subnormals: sticky handles the rest
    q, r = divmod(n << sh, d)
    return round_mant(w, s, q, -sh, 1 if r else 0)


def add(w, a, b):
    if is_nan(w, a) or is_nan(w, b):
        return qnan(w)
    if is_inf(w, a):
        if is_inf(w, b) and sign(w, a) != sign(w, b):
            return qnan(w)
        return a
    if is_inf(w, b):
        return b
    sa, ma, ea = unpack(w, a)
    sb_, mb, eb_ = unpack(w, b)
    if ma == 0 and mb == 0:
        return (sa & sb_) << (w - 1)
    e = min(ea, eb_)
    v = (-1 if sa else 1) * (ma << (ea - e)) + (-1 if sb_ else 1) * (mb << (eb_ - e))
    if v == 0:
        return 0
    return round_mant(w, 1 if v < 0 else 0, abs(v), e)


def neg(w, a):
    return a ^ (1 << (w - 1))


def sub(w, a, b):
    if is_nan(w, b):
        return qnan(w)
    return add(w, a, neg(w, b))


def mul(w, a, b):
    if is_nan(w, a) or is_nan(w, b):
        return qnan(w)
    s = sign(w, a) ^ sign(w, b)
    if is_inf(w, a) or is_inf(w, b):
        if is_zero(w, a) or is_zero(w, b):
            return qnan(w)
        return inf(w, s)
    _, ma, ea = unpack(w, a)
    _, mb, eb_ = unpack(w, b)
    return round_mant(w, s, ma * mb, ea + eb_)


def div(w, a, b):
    if is_nan(w, a) or is_nan(w, b):
        return qnan(w)
    s = sign(w, a) ^ sign(w, b)
    if is_inf(w, a):
        return qnan(w) if is_inf(w, b) else inf(w, s)
    if is_inf(w, b):
        return s << (w - 1)
    if is_zero(w, b):
        return qnan(w) if is_zero(w, a) else inf(w, s)
    _, ma, ea = unpack(w, a)
    _, mb, eb_ = unpack(w, b)
    if ma == 0:
        return s << (w - 1)
    sh = 2 * FMT[w][1] + 6
    q, r = divmod(ma << sh, mb)
    return round_mant(w, s, q, ea - eb_ - sh, 1 if r else 0)


def sqrt(w, a):
    if is_nan(w, a):
        return qnan(w)
    if is_zero(w, a):
        return a
    if sign(w, a):
        return qnan(w)
    if is_inf(w, a):
        return a
    _, m, e = unpack(w, a)
    sh = 2 * FMT[w][1] + 8
    if (e - sh) & 1:
        sh += 1
    m <<= sh
    e -= sh
    r = isqrt(m)
    return round_mant(w, 0, r, e // 2, 1 if r * r != m else 0)


def fma(w, a, b, c):
    if is_nan(w, a) or is_nan(w, b) or is_nan(w, c):
        return qnan(w)
    s = sign(w, a) ^ sign(w, b)
    if is_inf(w, a) or is_inf(w, b):
        if is_zero(w, a) or is_zero(w, b):
            return qnan(w)
        if is_inf(w, c) and sign(w, c) != s:
            return qnan(w)
        return inf(w, s)
    if is_inf(w, c):
        return c
    _, ma, ea = unpack(w, a)
    _, mb, eb_ = unpack(w, b)
    sc, mc, ec = unpack(w, c)
    mp, ep = ma * mb, ea + eb_
    if mp == 0 and mc == 0:
        return (s & sc) << (w - 1)
    e = min(ep, ec)
    v = (-1 if s else 1) * (mp << (ep - e)) + (-1 if sc else 1) * (mc << (ec - e))
    if v == 0:
        return 0
    return round_mant(w, 1 if v < 0 else 0, abs(v), e)


def convert(w, a, w2):
    if is_nan(w, a):
        return qnan(w2)
    if is_inf(w, a):
        return inf(w2, sign(w, a))
    s, m, e = unpack(w, a)
    return round_mant(w2, s, m, e)


def from_int(w, v):
    if v == 0:
        return 0
    return round_mant(w, 1 if v < 0 else 0, abs(v), 0)


def to_int_trunc(w, a):
    """exact truncation; caller handles nan/inf"""
    s, m, e = unpack(w, a)
    v = m << e if e >= 0 else m >> -e
    return -v if s else v


def to_int_sat(w, a, bits, signed):
    lo = -(1 << (bits - 1)) if signed else 0
    hi = (1 << (bits - 1)) - 1 if signed else (1 << bits) - 1
    if is_nan(w, a):
        return 0
    if is_inf(w, a):
        return lo if sign(w, a) else hi
    return max(lo, min(hi, to_int_trunc(w, a)))


def rint(w, a, mode):
    """mode: floor ceil trunc away(ties away) even(ties even)"""
    if is_nan(w, a):
        return qnan(w)
    if is_inf(w, a) or is_zero(w, a):
        return a
    s, m, e = unpack(w, a)
    if e >= 0:
        return a
    sh = -e
    q, rem = m >> sh, m & ((1 << sh) - 1)
    half = 1 << (sh - 1)
    if mode == "floor":
        q += 1 if (s and rem) else 0
    elif mode == "ceil":
        q += 1 if (not s and rem) else 0
    elif mode == "away":
        q += 1 if rem >= half else 0
    elif mode == "even":
        q += 1 if rem > half or (rem == half and q & 1) else 0
    return round_mant(w, s, q, 0)


def lt(w, a, b):
    if is_nan(w, a) or is_nan(w, b):
        return 0
    return 1 if _key(w, a) < _key(w, b) else 0


def le(w, a, b):
    if is_nan(w, a) or is_nan(w, b):
        return 0
    return 1 if _key(w, a) <= _key(w, b) else 0


def eq(w, a, b):
    if is_nan(w, a) or is_nan(w, b):
        return 0
    return 1 if _key(w, a) == _key(w, b) else 0


def _key(w, a):
    m = a & ((1 << (w - 1)) - 1)
    return -m if a >> (w - 1) else m
