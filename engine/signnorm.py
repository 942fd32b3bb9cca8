"""Sign-magnitude normal form of floating-point operations.

Rounding to nearest is symmetric, so every operation can be moved to non-negative operands with its result's sign computed
separately.  Terms that differ only in signs then share their operation nodes, which the abstraction treats alike.

The sign of an exact zero sum does not follow the symmetry.  Where no consumer can tell the zeros apart it is replaced by the
symmetric choice (`relevance` finds those nodes; ranges of the values are used when given)."""
from . import ranges, term as t

SYM = ("trunc", "even", "away")
FW = (16, 32, 64, 128)


def mag(x):
    return t.extract(x, x.w - 2, 0)


def pos(m):
    return t.concat(t.const(0, 1), m)


def can_be_zero(n, val):
    v = val.get(n) if val else None
    if v is None or n.w not in FW:
        return True
    f = ranges.fview(v, n.w)
    return f is None or (f[0] <= 0 and f[1] >= -1)


def is_zero(n, val):
    v = val.get(n) if val else None
    if v is None or n.w not in FW:
        return False
    f = ranges.fview(v, n.w)
    return f is not None and not f[2] and -1 <= f[0] <= f[1] <= 0


def not_nan(n, val):
    v = val.get(n) if val else None
    if v is None or n.w not in FW:
        return False
    f = ranges.fview(v, n.w)
    return f is not None and not f[2]


def relevance(roots, val=None):
    """nodes whose sign matters to some consumer even when their magnitude is zero.

    Invariant kept by the rewriting: a node outside this set keeps its value up to the sign of zero, every other node keeps
    its value exactly."""
    order = t.topo(roots)
    users = {}
    for n in order:
        for x in n.args:
            users.setdefault(x, []).append(n)
    top = set(roots)
    matters = {}

    def strong(u):
        return matters.get(u, True) and can_be_zero(u, val)

    def sign_matters(s, src):
        """does a consumer of the (possibly inverted) sign bit s look at the sign when src is zero?"""
        if s in top:
            return True
        for u in users.get(s, ()):
            if u.op == "not" or u.op == "xor" and u.w == 1 and any(t.isc(x) for x in u.args):
                if sign_matters(u, src):
                    return True
            elif u.op == "concat" and u.w in FW and len(u.args) == 2 and u.args[0] is s and u.args[1].op == "extract" and u.args[1].k == (u.w - 2, 0) and u.args[1].args[0] is src:
                if strong(u):
                    return True
            else:
                return True
        return False

    for n in reversed(order):
        if n.w not in FW or n in top:
            continue
        m = False
        for u in users.get(n, ()):
            op = u.op
            if op in ("flt", "fle", "feq", "f2si", "f2ui"):
                continue
            if op == "extract":
                if u.k[0] < n.w - 1:
                    continue
                m = u.k[1] != n.w - 1 or sign_matters(u, n)
            elif op == "fdiv":
                m = strong(u) or u.args[1] is n and can_be_zero(n, val)
            elif op in ("fadd", "fsub", "fmul", "fcvt", "frint", "fsqrt", "ffma"):
                m = strong(u)
            elif op == "ite" and u.w in FW and u.args[0] is not n:
                m = strong(u)
            elif op == "xor" and len(u.args) == 2 and any(t.isc(x) and x.k == 1 << (n.w - 1) for x in u.args):
                m = strong(u)
            else:
                m = True
            if m:
                break
        matters[n] = m
    return {n for n in order if matters.get(n, True)}


def toint(n, val):
    """v when n is (v + C) - C with C = 1.5 * 2^p and |v| <= 2^(p-1): that is v rounded to an integer, with zero positive

    (the lemma is discharged by the solver in checks/c12.py)"""
    if not val or n.w not in (32, 64) or n.op not in ("fadd", "fsub"):
        return None
    c = t.const((t.fparams(n.w)[2] + t.fparams(n.w)[1]) << t.fparams(n.w)[1] | 1 << (t.fparams(n.w)[1] - 1), n.w)
    x, y = n.args
    if n.op == "fadd" and x is t.fneg(c):
        x, y = y, x
    if not (n.op == "fsub" and y is c or n.op == "fadd" and y is t.fneg(c)) or x.op != "fadd":
        return None
    v = x.args[1] if x.args[0] is c else x.args[0] if x.args[1] is c else None
    if v is None or v not in val:
        return None
    f = ranges.fview(val[v], n.w)
    lim = (t.fparams(n.w)[2] + t.fparams(n.w)[1] - 1) << t.fparams(n.w)[1]
    if f is None or f[2] or f[0] > f[1] or f[1] > lim or f[0] < -lim - 1:
        return None
    return v


def norm_in(q, val, box):
    """normal form of q within the box -> (term, its ranges)

    The order of the operands of a sum is part of the normal form and taken from the terms they become once the ranges are
    propagated; it is recomputed until that makes no more difference."""
    best = None
    key = None
    for _ in range(4):
        memo, back = {}, []
        [r] = norm([q], val, key, memo)
        [r], v = ranges.propagate([r], box, back)
        size = len(t.topo([r]))
        if best is not None and (r is best[0] or size >= best[2]):
            break
        best = r, v, size
        if r.op == "const":
            break
        done = back[0]
        key = {n: done[mag(m)].id for n, m in memo.items() if m.w in FW and mag(m) in done}
    return best[0], best[1]


def norm(roots, val=None, key=None, memo=None):
    """key: order of the operands of sums and products (a number per node of the given roots)"""
    rel = relevance(roots, val)
    memo = {} if memo is None else memo

    def before(n, x, y):
        kx, ky = (key.get(m) for m in n.args) if key else (None, None)
        return (kx, x.id) > (ky, y.id) if kx is not None and ky is not None else x.id > y.id

    for n in t.topo(roots):
        a = [memo[x] for x in n.args]
        op = n.op
        v = toint(n, val)
        if v is not None:
            b = memo[v]
            m = mag(t.frint(pos(mag(b)), "even"))
            sg = t.msb(b)
            if n in rel and can_be_zero(n, val):
                sg = t.band(sg, t.ne(m, t.const(0, m.w)))
            r = t.concat(sg, m)
        elif op in ("fmul", "fdiv"):
            x, y = mag(a[0]), mag(a[1])
            if op == "fmul" and before(n, x, y):
                x, y = y, x
            r = t.concat(t.bxor(t.msb(a[0]), t.msb(a[1])), mag(t.fop(op, pos(x), pos(y))))
        elif op in ("fadd", "fsub"):
            sa, sb = t.msb(a[0]), t.msb(a[1])
            if op == "fsub":
                sb = t.bnot(sb)
            x, y = mag(a[0]), mag(a[1])
            z = next((i for i in (0, 1) if is_zero(n.args[i], val) and not_nan(n.args[1 - i], val)), None)
            if z is not None:
                m, s = ((x, sa), (y, sb))[1 - z]
                if n in rel and can_be_zero(n.args[1 - z], val):
                    s = t.band(s, t.bor(t.ne(m, t.const(0, m.w)), (sa, sb)[z]))
                memo[n] = t.concat(s, m)
                continue
            if before(n, x, y):
                x, y, sa, sb = y, x, sb, sa
            d = t.bxor(sa, sb)
            m = mag(t.fadd(pos(x), t.concat(d, y)))
            s = t.bxor(sa, t.band(d, t.ult(x, y)))
            if n in rel and can_be_zero(n, val):
                s = t.ite(t.band(d, t.eq(x, y)), t.const(0, 1), s)
            r = t.concat(s, m)
        elif op == "ffma":
            x, y, z = (mag(v) for v in a)
            if x.id > y.id:
                x, y = y, x
            p = t.bxor(t.msb(a[0]), t.msb(a[1]))
            d = t.bxor(p, t.msb(a[2]))
            m = t.ffma(pos(x), pos(y), t.concat(d, z))
            s = t.bxor(p, t.msb(m))
            if n in rel and can_be_zero(n, val):
                s = t.ite(t.band(d, t.eq(mag(m), t.const(0, n.w - 1))), t.const(0, 1), s)
            r = t.concat(s, mag(m))
        elif op == "fcvt":
            r = t.concat(t.msb(a[0]), mag(t.fcvt(pos(mag(a[0])), n.w)))
        elif op == "frint" and n.k in SYM:
            r = t.concat(t.msb(a[0]), mag(t.frint(pos(mag(a[0])), n.k)))
        elif op == "f2si" and val and n.args[0] in val and n in val and ranges.signed(val[n], n.w)[0] > -(1 << (n.w - 1)) and ranges.signed(val[n], n.w)[1] < (1 << (n.w - 1)) - 1:
            p = t.f2i(pos(mag(a[0])), n.w, True)
            r = t.ite(t.msb(a[0]), t.neg(p), p)
        else:
            r = n if all(p is q for p, q in zip(a, n.args)) else t.rebuild(op, a, n.w, n.k)
        memo[n] = r
    return [memo[r] for r in roots]
