"""Hash-consed bit-vector / floating-point term DAG.

Every term is a bit-vector of width `w` (booleans are width 1).  Floating-point operations are ordinary
nodes over the bit patterns of their operands ('fadd', 'fmul', ...); they are given a meaning either by
`fpblast` (exact bit-vector circuits), by uninterpreted functions, or by a real-number relaxation,
depending on the query.  Constant operands are folded with `softfp`.
"""
from . import softfp as S

_tab = {}
_next = [0]


class T:
    __slots__ = ("op", "args", "w", "k", "id", "__weakref__")

    def __init__(self, op, args, w, k):
        self.op, self.args, self.w, self.k = op, args, w, k
        self.id = _next[0]
        _next[0] += 1

    def __repr__(self):
        return show(self, 4)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    # operator sugar (unsigned comparisons are methods)
    def __add__(self, o):
        return add(self, lift(o, self.w))

    def __sub__(self, o):
        return sub(self, lift(o, self.w))

    def __mul__(self, o):
        return mul(self, lift(o, self.w))

    def __and__(self, o):
        return band(self, lift(o, self.w))

    def __or__(self, o):
        return bor(self, lift(o, self.w))

    def __xor__(self, o):
        return bxor(self, lift(o, self.w))

    def __invert__(self):
        return bnot(self)


def lift(v, w):
    return v if isinstance(v, T) else const(v, w)


def show(t, depth=6):
    if t.op == "const":
        return f"{t.k:#x}:{t.w}"
    if t.op == "var":
        return f"{t.k}:{t.w}"
    if depth == 0:
        return f"#{t.id}"
    k = "" if t.k is None or t.op == "tbl" else f"[{t.k}]"
    return f"({t.op}{k} {' '.join(show(a, depth - 1) for a in t.args)})"


def mk(op, args, w, k=None):
    key = (op, w, k) + tuple(a.id for a in args)
    t = _tab.get(key)
    if t is None:
        t = _tab[key] = T(op, args, w, k)
    return t


def const(v, w):
    v &= (1 << w) - 1
    key = ("const", w, v)
    t = _tab.get(key)
    if t is None:
        t = _tab[key] = T("const", (), w, v)
    return t


def var(name, w):
    return mk("var", (), w, name)


TRUE, FALSE = const(1, 1), const(0, 1)


def isc(t):
    return t.op == "const"


def ones(w):
    return (1 << w) - 1


def sx(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def memo(f):
    cache = {}

    def g(*a):
        r = cache.get(a)
        if r is None:
            r = cache[a] = f(*a)
        return r

    g.__name__ = f.__name__
    return g


# ---------------------------------------------------------------- structure ops
def _widening(t):
    """exact product of two zero-extended variables: kept whole, so that products can be matched"""
    a, b = t.args
    if isc(a) or isc(b):
        return False
    z = sum(x.args[0].w for x in (a, b) if x.op == "concat" and isc(x.args[0]) and x.args[0].k == 0)
    return z >= t.w


@memo
def extract(t, hi, lo):
    w = hi - lo + 1
    assert 0 <= lo <= hi < t.w, (hi, lo, t.w)
    if w == t.w:
        return t
    op = t.op
    if op == "const":
        return const(t.k >> lo, w)
    if op == "extract":
        b = t.k[1]
        return extract(t.args[0], hi + b, lo + b)
    if op == "concat":
        parts = []
        pos = t.w
        for a in t.args:
            pos -= a.w
            ahi, alo = min(hi, pos + a.w - 1), max(lo, pos)
            if alo <= ahi:
                parts.append(extract(a, ahi - pos, alo - pos))
        return concat(*parts)
    if op == "sext":
        a = t.args[0]
        if hi < a.w:
            return extract(a, hi, lo)
        if lo >= a.w - 1:
            s = extract(a, a.w - 1, a.w - 1)
            return sext(s, w)
    if op == "ite":
        c, a, b = t.args
        if isc(a) or isc(b) or a.op in ("concat", "extract") or b.op in ("concat", "extract"):
            return ite(c, extract(a, hi, lo), extract(b, hi, lo))
    if op == "not":
        return bnot(extract(t.args[0], hi, lo))
    if op in ("and", "or", "xor"):
        a, b = (extract(x, hi, lo) for x in t.args)
        return {"and": band, "or": bor, "xor": bxor}[op](a, b)
    if op in ("add", "sub", "mul") and lo == 0 and not (op == "mul" and _widening(t)):
        # low bits depend on low bits only
        a, b = (extract(x, hi, 0) for x in t.args)
        return {"add": add, "sub": sub, "mul": mul}[op](a, b)
    if op == "add" and lo > 0:
        # addition of a constant with zero low bits
        a, b = t.args
        if isc(b) and (b.k & ones(lo)) == 0:
            return add(extract(a, hi, lo), const(b.k >> lo, w))
    return mk("extract", (t,), w, (hi, lo))


def concat(*parts):
    out = []
    for p in parts:
        if p.op == "concat":
            out.extend(p.args)
        else:
            out.append(p)
    res = []
    for p in out:
        if res:
            q = res[-1]
            if isc(q) and isc(p):
                res[-1] = const((q.k << p.w) | p.k, q.w + p.w)
                continue
            qb, qh, ql = _ext(q)
            pb, ph, pl = _ext(p)
            if qb is pb and ql == ph + 1:
                res[-1] = extract(qb, qh, pl)
                continue
            if q.op == "not" and p.op == "not":
                qb, qh, ql = _ext(q.args[0])
                pb, ph, pl = _ext(p.args[0])
                if qb is pb and ql == ph + 1:
                    res[-1] = bnot(extract(qb, qh, pl))
                    continue
        res.append(p)
    if len(res) == 1:
        return res[0]
    return mk("concat", tuple(res), sum(p.w for p in res))


def _ext(t):
    if t.op == "extract":
        return t.args[0], t.k[0], t.k[1]
    return t, t.w - 1, 0


def zext(t, w):
    if w == t.w:
        return t
    assert w > t.w
    return concat(const(0, w - t.w), t)


@memo
def sext(t, w):
    if w == t.w:
        return t
    if isc(t):
        return const(sx(t.k, t.w), w)
    if t.op == "concat" and isc(t.args[0]) and t.args[0].k >> (t.args[0].w - 1) == 0:
        return zext(t, w)
    if t.op == "sext":
        return sext(t.args[0], w)
    return mk("sext", (t,), w)


def trunc(t, w):
    return extract(t, w - 1, 0)


def bit(t, i):
    return extract(t, i, i)


def msb(t):
    return extract(t, t.w - 1, t.w - 1)


# ---------------------------------------------------------------- bitwise
def _runs(v, w):
    """list of (bit, hi, lo) runs from the top"""
    out = []
    i = w - 1
    while i >= 0:
        b = (v >> i) & 1
        j = i
        while j - 1 >= 0 and ((v >> (j - 1)) & 1) == b:
            j -= 1
        out.append((b, i, j))
        i = j - 1
    return out


@memo
def bnot(t):
    if isc(t):
        return const(~t.k, t.w)
    if t.op == "not":
        return t.args[0]
    if t.op == "concat":
        return concat(*[bnot(a) for a in t.args])
    if t.op == "ite" and (isc(t.args[1]) or isc(t.args[2])):
        return ite(t.args[0], bnot(t.args[1]), bnot(t.args[2]))
    return mk("not", (t,), t.w)


def _split(t, cuts):
    """split t at bit positions (descending list of lo bounds)"""
    out = []
    hi = t.w - 1
    for lo in cuts:
        out.append(extract(t, hi, lo))
        hi = lo - 1
    return out


def _cuts(t):
    pos, out = t.w, []
    if t.op == "concat":
        for a in t.args:
            pos -= a.w
            out.append(pos)
    else:
        out.append(0)
    return out


def _order(a, b):
    if isc(a) or (not isc(b) and b.id < a.id):
        return b, a
    return a, b


def _has_const_part(t):
    return t.op == "concat" and any(isc(a) for a in t.args)


@memo
def band(a, b):
    assert a.w == b.w
    a, b = _order(a, b)
    w = a.w
    if isc(b):
        if isc(a):
            return const(a.k & b.k, w)
        if b.k == 0:
            return b
        if b.k == ones(w):
            return a
        runs = _runs(b.k, w)
        if len(runs) <= 8:
            return concat(*[extract(a, hi, lo) if v else const(0, hi - lo + 1) for v, hi, lo in runs])
    if a is b:
        return a
    if (a.op == "not" and a.args[0] is b) or (b.op == "not" and b.args[0] is a):
        return const(0, w)
    if w == 1:
        # absorption
        for x, y in ((a, b), (b, a)):
            if x.op == "and" and y in x.args:
                return x
            if x.op == "or" and y in x.args:
                return y
            if x.op == "and" and bnot(y) in x.args:
                return FALSE
            if x.op == "or" and bnot(y) in x.args:
                z = x.args[0] if x.args[1] is bnot(y) else x.args[1]
                return band(z, y)
            if x.op == "not" and x.args[0].op == "and":
                p, q = x.args[0].args
                if p is y or q is y:
                    return band(y, bnot(q if p is y else p))
                if bnot(y) is p or bnot(y) is q:
                    return y
    if _has_const_part(a) or _has_const_part(b):
        cuts = sorted(set(_cuts(a)) | set(_cuts(b)), reverse=True)
        if len(cuts) <= 12:
            return concat(*[band(x, y) for x, y in zip(_split(a, cuts), _split(b, cuts))])
    return mk("and", (a, b), w)


@memo
def bor(a, b):
    assert a.w == b.w
    a, b = _order(a, b)
    w = a.w
    if isc(b):
        if isc(a):
            return const(a.k | b.k, w)
        if b.k == 0:
            return a
        if b.k == ones(w):
            return b
        runs = _runs(b.k, w)
        if len(runs) <= 8:
            return concat(*[const(ones(hi - lo + 1), hi - lo + 1) if v else extract(a, hi, lo) for v, hi, lo in runs])
    if a is b:
        return a
    if (a.op == "not" and a.args[0] is b) or (b.op == "not" and b.args[0] is a):
        return const(ones(w), w)
    if w == 1:
        for x, y in ((a, b), (b, a)):
            if x.op == "or" and y in x.args:
                return x
            if x.op == "and" and y in x.args:
                return y
            if x.op == "or" and bnot(y) in x.args:
                return TRUE
            if x.op == "and" and bnot(y) in x.args:
                z = x.args[0] if x.args[1] is bnot(y) else x.args[1]
                return bor(z, y)
            if x.op == "not" and x.args[0].op == "and":
                p, q = x.args[0].args
                if p is y or q is y:
                    return TRUE
                if bnot(y) is p or bnot(y) is q:
                    return x
        if a.op == "not" and b.op == "not":
            return bnot(band(a.args[0], b.args[0]))
        if a.op == "and" and b.op == "and":
            for i in (0, 1):
                for j in (0, 1):
                    if a.args[i] is b.args[j]:
                        return band(a.args[i], bor(a.args[1 - i], b.args[1 - j]))
    if _has_const_part(a) or _has_const_part(b):
        cuts = sorted(set(_cuts(a)) | set(_cuts(b)), reverse=True)
        if len(cuts) <= 12:
            return concat(*[bor(x, y) for x, y in zip(_split(a, cuts), _split(b, cuts))])
    return mk("or", (a, b), w)


def _xleaves(a, depth):
    if a.op != "xor" or not depth:
        return [a]
    return _xleaves(a.args[0], depth - 1) + _xleaves(a.args[1], depth - 1)


@memo
def bxor(a, b):
    assert a.w == b.w
    a, b = _order(a, b)
    w = a.w
    if isc(b):
        if isc(a):
            return const(a.k ^ b.k, w)
        if b.k == 0:
            return a
        if b.k == ones(w):
            return bnot(a)
        runs = _runs(b.k, w)
        if len(runs) <= 8:
            return concat(*[bnot(extract(a, hi, lo)) if v else extract(a, hi, lo) for v, hi, lo in runs])
    if a is b:
        return const(0, w)
    if a.op == "not" and b.op == "not":
        return bxor(a.args[0], b.args[0])
    if a.op == "not":
        return bnot(bxor(a.args[0], b))
    if b.op == "not":
        return bnot(bxor(a, b.args[0]))
    if w == 1 and (a.op == "xor" or b.op == "xor"):
        leaves = {}
        for x in _xleaves(a, 6) + _xleaves(b, 6):
            leaves[x] = leaves.get(x, 0) ^ 1
        xs = sorted((x for x, v in leaves.items() if v), key=lambda x: x.id)
        r = FALSE
        for x in xs:
            r = x if r is FALSE else mk("xor", (r, x), 1)
        return r
    if _has_const_part(a) or _has_const_part(b):
        cuts = sorted(set(_cuts(a)) | set(_cuts(b)), reverse=True)
        if len(cuts) <= 12:
            return concat(*[bxor(x, y) for x, y in zip(_split(a, cuts), _split(b, cuts))])
    return mk("xor", (a, b), w)


@memo
def ite(c, a, b):
    assert c.w == 1 and a.w == b.w, (c.w, a.w, b.w)
    if isc(c):
        return a if c.k else b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.w == 1:
        if isc(a):
            return bor(c, b) if a.k else band(bnot(c), b)
        if isc(b):
            return bor(bnot(c), a) if b.k else band(c, a)
        if a.op == "not":
            return bnot(ite(c, a.args[0], bnot(b)))
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    # pull common concat structure apart
    if a.op == "concat" or b.op == "concat":
        cuts = sorted(set(_cuts(a)) | set(_cuts(b)), reverse=True)
        if len(cuts) <= 6:
            xs, ys = _split(a, cuts), _split(b, cuts)
            if any(x is y for x, y in zip(xs, ys)):
                return concat(*[ite(c, x, y) for x, y in zip(xs, ys)])
    return mk("ite", (c, a, b), a.w)


# ---------------------------------------------------------------- arithmetic
@memo
def add(a, b):
    assert a.w == b.w
    a, b = _order(a, b)
    w = a.w
    if isc(b):
        if isc(a):
            return const(a.k + b.k, w)
        if b.k == 0:
            return a
        if a.op == "add" and isc(a.args[1]):
            return add(a.args[0], const(a.args[1].k + b.k, w))
        if a.op == "ite" and isc(a.args[1]) and isc(a.args[2]):
            return ite(a.args[0], add(a.args[1], b), add(a.args[2], b))
        # constant with zero low bits only affects the high part
        tz = (b.k & -b.k).bit_length() - 1
        if tz > 0 and a.op == "concat":
            return concat(add(extract(a, w - 1, tz), const(b.k >> tz, w - tz)), extract(a, tz - 1, 0))
    if a.op == "sub" and a.args[1] is b:
        return a.args[0]
    if b.op == "sub" and b.args[1] is a:
        return b.args[0]
    # disjoint concats
    if _has_const_part(a) or _has_const_part(b):
        cuts = sorted(set(_cuts(a)) | set(_cuts(b)), reverse=True)
        if 1 < len(cuts) <= 8:
            xs, ys = _split(a, cuts), _split(b, cuts)
            if all((isc(x) and x.k == 0) or (isc(y) and y.k == 0) for x, y in zip(xs, ys)):
                return concat(*[y if (isc(x) and x.k == 0) else x for x, y in zip(xs, ys)])
            # low parts with one side zero can be split off
            n = 0
            for x, y in zip(reversed(xs), reversed(ys)):
                if (isc(x) and x.k == 0) or (isc(y) and y.k == 0):
                    n += x.w
                else:
                    break
            if n and n < w:
                lowa, lowb = extract(a, n - 1, 0), extract(b, n - 1, 0)
                return concat(add(extract(a, w - 1, n), extract(b, w - 1, n)), bor(lowa, lowb))
    return mk("add", (a, b), w)


def neg(a):
    return sub(const(0, a.w), a)


@memo
def sub(a, b):
    assert a.w == b.w
    w = a.w
    if isc(b):
        return add(a, const(-b.k, w))
    if a is b:
        return const(0, w)
    if isc(a) and b.op == "sub" and isc(b.args[0]):
        return add(b.args[1], const(a.k - b.args[0].k, w))
    if a.op == "add":
        if a.args[0] is b:
            return a.args[1]
        if a.args[1] is b:
            return a.args[0]
    if b.op == "ite" and isc(b.args[1]) and isc(b.args[2]) and isc(a):
        return ite(b.args[0], sub(a, b.args[1]), sub(a, b.args[2]))
    return mk("sub", (a, b), w)


@memo
def mul(a, b):
    assert a.w == b.w
    a, b = _order(a, b)
    w = a.w
    if isc(b):
        if isc(a):
            return const(a.k * b.k, w)
        if b.k == 0:
            return b
        if b.k == 1:
            return a
        if b.k & (b.k - 1) == 0:
            return shl(a, const(b.k.bit_length() - 1, w))
    return mk("mul", (a, b), w)


def udiv(a, b):
    if isc(b) and b.k:
        if isc(a):
            return const(a.k // b.k, a.w)
        if b.k & (b.k - 1) == 0:
            return lshr(a, const(b.k.bit_length() - 1, a.w))
    return mk("udiv", (a, b), a.w)


def urem(a, b):
    if isc(b) and b.k:
        if isc(a):
            return const(a.k % b.k, a.w)
        if b.k & (b.k - 1) == 0:
            return band(a, const(b.k - 1, a.w))
    return mk("urem", (a, b), a.w)


def sdiv(a, b):
    if isc(a) and isc(b) and b.k:
        x, y = sx(a.k, a.w), sx(b.k, b.w)
        q = abs(x) // abs(y)
        return const(-q if (x < 0) != (y < 0) else q, a.w)
    return mk("sdiv", (a, b), a.w)


def srem(a, b):
    if isc(a) and isc(b) and b.k:
        x, y = sx(a.k, a.w), sx(b.k, b.w)
        r = abs(x) % abs(y)
        return const(-r if x < 0 else r, a.w)
    return mk("srem", (a, b), a.w)


def shl(a, b):
    w = a.w
    if isc(b):
        n = b.k
        if n >= w:
            return const(0, w)
        if n == 0:
            return a
        return concat(extract(a, w - 1 - n, 0), const(0, n))
    if isc(a) and a.k == 0:
        return a
    return mk("shl", (a, b), w)


def lshr(a, b):
    w = a.w
    if isc(b):
        n = b.k
        if n >= w:
            return const(0, w)
        if n == 0:
            return a
        return concat(const(0, n), extract(a, w - 1, n))
    if isc(a) and a.k == 0:
        return a
    return mk("lshr", (a, b), w)


def ashr(a, b):
    w = a.w
    if isc(b):
        n = min(b.k, w - 1)
        if n == 0:
            return a
        return sext(extract(a, w - 1, n), w)
    return mk("ashr", (a, b), w)


def ctlz(a):
    """count leading zeros, result width a.w (w for zero)"""
    if isc(a):
        return const(a.w - a.k.bit_length(), a.w)
    return mk("ctlz", (a,), a.w)


def cttz(a):
    if isc(a):
        return const(((a.k & -a.k).bit_length() - 1) if a.k else a.w, a.w)
    return mk("cttz", (a,), a.w)


def ctpop(a):
    if isc(a):
        return const(bin(a.k).count("1"), a.w)
    return mk("ctpop", (a,), a.w)


# ---------------------------------------------------------------- predicates
@memo
def eq(a, b):
    assert a.w == b.w
    a, b = _order(a, b)
    if a is b:
        return TRUE
    if isc(a) and isc(b):
        return FALSE if a.k != b.k else TRUE
    if a.w == 1:
        if isc(b):
            return a if b.k else bnot(a)
        return bnot(bxor(a, b))
    if isc(b):
        if a.op == "concat":
            r = TRUE
            pos = a.w
            for p in a.args:
                pos -= p.w
                r = band(r, eq(p, const(b.k >> pos, p.w)))
                if r is FALSE:
                    return r
            return r
        if a.op == "ite":
            c, x, y = a.args
            if isc(x) or isc(y):
                return ite(c, eq(x, b), eq(y, b))
        if a.op == "add" and isc(a.args[1]):
            return eq(a.args[0], const(b.k - a.args[1].k, a.w))
        if a.op == "sext":
            x = a.args[0]
            v = sx(b.k, b.w)
            if -(1 << (x.w - 1)) <= v < (1 << (x.w - 1)):
                return eq(x, const(v, x.w))
            return FALSE
        if a.op == "sub" and b.k == 0:
            return eq(a.args[0], a.args[1])
        if a.op == "not":
            return eq(a.args[0], const(~b.k, a.w))
    elif a.op == "concat" and b.op == "concat":
        cuts = sorted(set(_cuts(a)) | set(_cuts(b)), reverse=True)
        if len(cuts) <= 8:
            r = TRUE
            for x, y in zip(_split(a, cuts), _split(b, cuts)):
                r = band(r, eq(x, y))
                if r is FALSE:
                    return r
            return r
    return mk("eq", (a, b), 1)


def ne(a, b):
    return bnot(eq(a, b))


@memo
def _urange(t):
    """cheap unsigned bounds"""
    if isc(t):
        return t.k, t.k
    if t.op == "concat":
        lo = hi = 0
        for p in t.args:
            lo, hi = lo << p.w, hi << p.w
            if isc(p):
                lo, hi = lo | p.k, hi | p.k
            else:
                hi |= ones(p.w)
        return lo, hi
    if t.op in ("ctlz", "cttz", "ctpop"):
        return 0, min(t.w, ones(t.w))
    if t.op == "ite":
        a, b = t.args[1], t.args[2]
        if isc(a) or isc(b):
            (l1, h1), (l2, h2) = _urange(a), _urange(b)
            return min(l1, l2), max(h1, h2)
    return 0, ones(t.w)


@memo
def ult(a, b):
    assert a.w == b.w
    if a is b:
        return FALSE
    if isc(a) and isc(b):
        return TRUE if a.k < b.k else FALSE
    (la, ha), (lb, hb) = _urange(a), _urange(b)
    if ha < lb:
        return TRUE
    if la >= hb:
        return FALSE
    if a.w == 1:
        return band(bnot(a), b)
    if isc(b) and b.k == 1:
        return eq(a, const(0, a.w))
    if isc(b) and a.op == "concat":
        # strip leading parts that are constant
        p = a.args[0]
        if isc(p):
            rest = a.w - p.w
            top = b.k >> rest
            if p.k < top:
                return TRUE
            if p.k > top:
                return FALSE
            return ult(extract(a, rest - 1, 0), const(b.k, rest))
        # strip trailing: a = hi ++ lo < b with lo irrelevant if b's low bits are zero
        q = a.args[-1]
        if (b.k & ones(q.w)) == 0:
            return ult(extract(a, a.w - 1, q.w), const(b.k >> q.w, a.w - q.w))
    if isc(a) and b.op == "concat":
        p = b.args[0]
        if isc(p):
            rest = b.w - p.w
            top = a.k >> rest
            if top < p.k:
                return TRUE
            if top > p.k:
                return FALSE
            return ult(const(a.k, rest), extract(b, rest - 1, 0))
        q = b.args[-1]
        if (a.k & ones(q.w)) == ones(q.w):
            return ult(const(a.k >> q.w, a.w - q.w), extract(b, b.w - 1, q.w))
    if a.op == "ite" and isc(b) and (isc(a.args[1]) or isc(a.args[2])):
        return ite(a.args[0], ult(a.args[1], b), ult(a.args[2], b))
    if a.op == "concat" and b.op == "concat" and a.args[0] is b.args[0]:
        r = a.w - a.args[0].w
        return ult(extract(a, r - 1, 0), extract(b, r - 1, 0))
    return mk("ult", (a, b), 1)


def ule(a, b):
    return bnot(ult(b, a))


def ugt(a, b):
    return ult(b, a)


def uge(a, b):
    return bnot(ult(a, b))


@memo
def slt(a, b):
    if a is b:
        return FALSE
    w = a.w
    if isc(a) and isc(b):
        return TRUE if sx(a.k, w) < sx(b.k, w) else FALSE
    # both known non-negative
    if _nonneg(a) and _nonneg(b):
        return ult(a, b)
    if isc(b) and b.k == 0:
        return msb(a)
    if isc(a) and a.k == ones(w):
        return bnot(msb(b))
    if a.op == "sext" and isc(b):
        x = a.args[0]
        v = sx(b.k, w)
        if v >= (1 << (x.w - 1)):
            return TRUE
        if v < -(1 << (x.w - 1)):
            return FALSE
        return slt(x, const(v, x.w))
    if isc(a) and b.op == "sext":
        x = b.args[0]
        v = sx(a.k, w)
        if v >= (1 << (x.w - 1)):
            return FALSE
        if v < -(1 << (x.w - 1)):
            return TRUE
        return slt(const(v, x.w), x)
    if a.op == "ite" and isc(b) and (isc(a.args[1]) or isc(a.args[2])):
        return ite(a.args[0], slt(a.args[1], b), slt(a.args[2], b))
    m = 1 << (w - 1)
    if isc(b) and a.op == "concat" and not isc(a.args[0]) or isc(a) and b.op == "concat":
        # signed -> unsigned by flipping the sign bit
        return ult(bxor(a, const(m, w)), bxor(b, const(m, w)))
    return mk("slt", (a, b), 1)


def _nonneg(t):
    if isc(t):
        return t.k >> (t.w - 1) == 0
    if t.op == "concat":
        p = t.args[0]
        return isc(p) and p.k >> (p.w - 1) == 0
    if t.op in ("ctlz", "ctpop", "cttz"):
        return t.w > 8
    return False


def sle(a, b):
    return bnot(slt(b, a))


def sgt(a, b):
    return slt(b, a)


def sge(a, b):
    return bnot(slt(a, b))


def conj(xs):
    r = TRUE
    for x in xs:
        r = band(r, x)
    return r


def disj(xs):
    r = FALSE
    for x in xs:
        r = bor(r, x)
    return r


def implies(a, b):
    return bor(bnot(a), b)


def table(values, idx, w):
    """values[idx] for a constant table; idx must be known in range by the caller"""
    if isc(idx):
        return const(values[idx.k], w)
    if len(set(values)) == 1:
        return const(values[0], w)
    return mk("tbl", (idx,), w, tuple(values))


# ---------------------------------------------------------------- floating point
def fparams(w):
    return S.params(w)


def fexp(x):
    eb, sb, _ = S.params(x.w)
    return extract(x, sb + eb - 1, sb)


def ffrac(x):
    eb, sb, _ = S.params(x.w)
    return extract(x, sb - 1, 0)


def fsign(x):
    return msb(x)


def fneg(x):
    return bxor(x, const(1 << (x.w - 1), x.w))


def fabs(x):
    return band(x, const(ones(x.w - 1), x.w))


def is_nan(x):
    return ult(const(S.inf(x.w) & ones(x.w - 1), x.w - 1), extract(x, x.w - 2, 0))


def is_inf(x):
    return eq(extract(x, x.w - 2, 0), const(S.inf(x.w), x.w - 1))


def is_fzero(x):
    return eq(extract(x, x.w - 2, 0), const(0, x.w - 1))


def is_finite(x):
    eb, sb, _ = S.params(x.w)
    return ne(fexp(x), const(ones(eb), eb))


_FOLD = {"fadd": S.add, "fsub": S.sub, "fmul": S.mul, "fdiv": S.div}


def fop(op, a, b):
    w = a.w
    assert b.w == w
    if isc(a) and isc(b):
        return const(_FOLD[op](w, a.k, b.k), w)
    if isc(a) and S.is_nan(w, a.k) or isc(b) and S.is_nan(w, b.k):
        return const(S.qnan(w), w)
    return mk(op, (a, b), w)


def fadd(a, b):
    return fop("fadd", a, b)


def fsub(a, b):
    return fop("fsub", a, b)


def fmul(a, b):
    return fop("fmul", a, b)


def fdiv(a, b):
    return fop("fdiv", a, b)


def fsqrt(a):
    if isc(a):
        return const(S.sqrt(a.w, a.k), a.w)
    return mk("fsqrt", (a,), a.w)


def ffma(a, b, c):
    if isc(a) and isc(b) and isc(c):
        return const(S.fma(a.w, a.k, b.k, c.k), a.w)
    return mk("ffma", (a, b, c), a.w)


def frint(a, mode):
    if isc(a):
        return const(S.rint(a.w, a.k, mode), a.w)
    return mk("frint", (a,), a.w, mode)


def fcvt(a, w):
    if w == a.w:
        return a
    if isc(a):
        return const(S.convert(a.w, a.k, w), w)
    return mk("fcvt", (a,), w)


def i2f(a, w, signed):
    if isc(a):
        return const(S.from_int(w, sx(a.k, a.w) if signed else a.k), w)
    return mk("si2f" if signed else "ui2f", (a,), w)


def f2i(a, w, signed):
    """saturating conversion"""
    if isc(a):
        return const(S.to_int_sat(a.w, a.k, w, signed), w)
    return mk("f2si" if signed else "f2ui", (a,), w)


def flt(a, b):
    if isc(a) and isc(b):
        return TRUE if S.lt(a.w, a.k, b.k) else FALSE
    if isc(a) and S.is_nan(a.w, a.k) or isc(b) and S.is_nan(b.w, b.k) or a is b:
        return FALSE
    return mk("flt", (a, b), 1)


def fle(a, b):
    if isc(a) and isc(b):
        return TRUE if S.le(a.w, a.k, b.k) else FALSE
    if isc(a) and S.is_nan(a.w, a.k) or isc(b) and S.is_nan(b.w, b.k):
        return FALSE
    return mk("fle", (a, b), 1)


def feq(a, b):
    if isc(a) and isc(b):
        return TRUE if S.eq(a.w, a.k, b.k) else FALSE
    if isc(a) and S.is_nan(a.w, a.k) or isc(b) and S.is_nan(b.w, b.k):
        return FALSE
    if a is b:
        return bnot(is_nan(a))
    for x, y in ((a, b), (b, a)):
        if isc(x) and x.k & ((1 << (x.w - 1)) - 1) == 0:
            return eq(extract(y, y.w - 2, 0), const(0, y.w - 1))
    a, b = _order(a, b)
    return mk("feq", (a, b), 1)


FPOPS = {"fadd", "fsub", "fmul", "fdiv", "fsqrt", "ffma", "frint", "fcvt", "si2f", "ui2f", "f2si", "f2ui"}
FPREDS = {"flt", "fle", "feq"}


# ---------------------------------------------------------------- traversal
def topo(roots):
    seen, out = set(), []
    for r in roots:
        st = [(r, 0)]
        while st:
            t, i = st.pop()
            if i == 0:
                if t in seen:
                    continue
                seen.add(t)
            if i < len(t.args):
                st.append((t, i + 1))
                if t.args[i] not in seen:
                    st.append((t.args[i], 0))
            else:
                out.append(t)
    return out


def rebuild(op, args, w, k):
    """re-apply the smart constructor for `op`"""
    a = args
    f = _REB.get(op)
    if f is not None:
        return f(*a)
    if op == "extract":
        return extract(a[0], k[0], k[1])
    if op == "concat":
        return concat(*a)
    if op == "sext":
        return sext(a[0], w)
    if op == "tbl":
        return table(k, a[0], w)
    if op in ("fadd", "fsub", "fmul", "fdiv"):
        return fop(op, *a)
    if op == "frint":
        return frint(a[0], k)
    if op == "fcvt":
        return fcvt(a[0], w)
    if op in ("si2f", "ui2f"):
        return i2f(a[0], w, op == "si2f")
    if op in ("f2si", "f2ui"):
        return f2i(a[0], w, op == "f2si")
    return mk(op, tuple(a), w, k)


_REB = dict(
    add=add, sub=sub, mul=mul, udiv=udiv, urem=urem, sdiv=sdiv, srem=srem, shl=shl, lshr=lshr, ashr=ashr,
    ctlz=ctlz, cttz=cttz, ctpop=ctpop, eq=eq, ult=ult, slt=slt, ite=ite, fsqrt=fsqrt, ffma=ffma, flt=flt, fle=fle, feq=feq,
)
_REB["and"], _REB["or"], _REB["xor"], _REB["not"] = band, bor, bxor, bnot


def substitute(roots, m):
    """simultaneous substitution term->term; returns list"""
    memo = dict(m)
    for t in topo(roots):
        if t in memo:
            continue
        if not t.args:
            memo[t] = t
        else:
            na = [memo[a] for a in t.args]
            memo[t] = t if all(x is y for x, y in zip(na, t.args)) else rebuild(t.op, na, t.w, t.k)
    return [memo[r] for r in roots]


def evaluate(roots, env):
    """concrete values of terms under env {var name: int}"""
    memo = {}
    for t in topo(roots):
        if t.op == "const":
            v = t
        elif t.op == "var":
            v = const(env.get(t.k, 0), t.w)
        else:
            v = rebuild(t.op, [memo[a] for a in t.args], t.w, t.k)
            if v.op != "const":
                if t.op == "udiv" or t.op == "urem" or t.op == "sdiv" or t.op == "srem":
                    v = const(0, t.w)
                else:
                    raise ValueError(f"cannot evaluate {t.op}: {v}")
        memo[t] = v
    return [memo[r].k for r in roots]


def variables(roots):
    return {t.k: t.w for t in topo(roots) if t.op == "var"}


def reset_soft():
    """hook for workers (terms are shared by fork; nothing to reset)"""
