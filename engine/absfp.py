"""Abstraction of floating-point operations with sound axioms, refined on demand (CEGAR).

Every heavy operation (fadd fsub fmul fdiv fsqrt ffma) becomes a fresh variable constrained by axioms that hold for the
correctly rounded operation: NaN/infinity/zero behaviour, sign, exponent range, monotonicity facts.  A model is checked
against the exact semantics; operations it misrepresents are then encoded exactly and the query is repeated."""
import time

from . import fpblast as B, ranges, smt, softfp as S, term as t
from .term import band, bor, bnot, const, eq, extract, implies, ite, ule, ult

HEAVY = frozenset({"fadd", "fsub", "fmul", "fdiv", "fsqrt", "ffma"})


def parts(x):
    return t.fsign(x), extract(x, x.w - 2, 0)


def ax_common(r):
    return t.is_nan(r)


def exps(x, ew):
    """(max(1, exponent field), is normal)"""
    eb, sb, _ = S.params(x.w)
    e = t.fexp(x)
    z = eq(e, const(0, eb))
    return t.zext(ite(z, const(1, eb), e), ew), bnot(z)


def ax_mul(a, b, r):
    w = a.w
    eb, sb, bias = S.params(w)
    ew = eb + 3
    sa, ma = parts(a)
    sb_, mb = parts(b)
    sr, mr = parts(r)
    na, nb, nr = t.is_nan(a), t.is_nan(b), t.is_nan(r)
    ia, ib, za, zb = t.is_inf(a), t.is_inf(b), t.is_fzero(a), t.is_fzero(b)
    inv = bor(band(ia, zb), band(za, ib))
    ok = bnot(nr)
    ea, ua = exps(a, ew)
    eb_, ub = exps(b, ew)
    er = t.zext(t.fexp(r), ew)
    E = t.sub(t.add(ea, eb_), const(bias, ew))
    one = const(bias << sb, w - 1)
    fin = t.conj([bnot(ia), bnot(ib), ok])
    up = t.add(E, const(1, ew))
    ax = [
        eq(nr, t.disj([na, nb, inv])),
        implies(ok, eq(sr, t.bxor(sa, sb_))),
        implies(band(ok, bor(za, zb)), t.is_fzero(r)),
        implies(band(ok, bor(ia, ib)), t.is_inf(r)),
        implies(fin, t.sle(er, ite(t.slt(up, const(1, ew)), const(1, ew), up))),
        implies(t.conj([fin, ua, ub, t.sle(const(1, ew), E)]), t.sle(ite(t.slt(const((1 << eb) - 1, ew), E), const((1 << eb) - 1, ew), E), er)),
    ]
    for m, o in ((mb, ma), (ma, mb)):
        ax.append(implies(band(ok, ule(m, one)), ule(mr, o)))
        ax.append(implies(band(ok, ule(one, m)), ule(o, mr)))
    return ax


def ax_div(a, b, r):
    w = a.w
    eb, sb, bias = S.params(w)
    ew = eb + 3
    sa, ma = parts(a)
    sb_, mb = parts(b)
    sr, mr = parts(r)
    na, nb, nr = t.is_nan(a), t.is_nan(b), t.is_nan(r)
    ia, ib, za, zb = t.is_inf(a), t.is_inf(b), t.is_fzero(a), t.is_fzero(b)
    ok = bnot(nr)
    one = const(bias << sb, w - 1)
    ea, ua = exps(a, ew)
    eb_, ub = exps(b, ew)
    er = t.zext(t.fexp(r), ew)
    E = t.add(t.sub(ea, eb_), const(bias, ew))
    fin = t.conj([bnot(ia), bnot(ib), bnot(zb), ok])
    lo = t.sub(E, const(1, ew))
    c = lambda v: const(v, ew)
    return [
        eq(nr, t.disj([na, nb, band(ia, ib), band(za, zb)])),
        implies(ok, eq(sr, t.bxor(sa, sb_))),
        implies(band(ok, bor(za, ib)), t.is_fzero(r)),
        implies(band(ok, bor(ia, zb)), t.is_inf(r)),
        implies(band(fin, ub), t.sle(er, ite(t.slt(E, c(1)), c(1), E))),
        implies(t.conj([fin, ua, t.sle(c(1), lo)]), t.sle(ite(t.slt(c((1 << eb) - 1), lo), c((1 << eb) - 1), lo), er)),
        implies(band(ok, ule(mb, one)), ule(ma, mr)),
        implies(band(ok, ule(one, mb)), ule(mr, ma)),
        implies(band(ok, ule(ma, mb)), ule(mr, one)),
        implies(band(ok, ule(mb, ma)), ule(one, mr)),
    ]


def ax_add(a, b, r):
    w = a.w
    eb, sb, bias = S.params(w)
    ew = eb + 2
    sa, ma = parts(a)
    sb_, mb = parts(b)
    sr, mr = parts(r)
    na, nb, nr = t.is_nan(a), t.is_nan(b), t.is_nan(r)
    ia, ib, za, zb = t.is_inf(a), t.is_inf(b), t.is_fzero(a), t.is_fzero(b)
    diff = t.bxor(sa, sb_)
    ok = bnot(nr)
    agt, bgt = ult(mb, ma), ult(ma, mb)
    mx = ite(agt, ma, mb)
    mn = ite(agt, mb, ma)
    e = lambda m: t.zext(extract(m, w - 2, sb), ew)
    e1 = lambda m: ite(eq(e(m), const(0, ew)), const(1, ew), e(m))
    far = t.sle(t.add(e1(mn), const(sb + 3, ew)), e1(mx))
    sig = ite(agt, sa, sb_)
    fin = t.conj([ok, bnot(ia), bnot(ib)])
    ax = [
        eq(nr, t.disj([na, nb, t.conj([ia, ib, diff])])),
        implies(band(ok, ia), eq(r, a)),
        implies(band(ok, ib), eq(r, b)),
        implies(t.conj([ok, za, bnot(zb)]), eq(r, b)),
        implies(t.conj([ok, zb, bnot(za)]), eq(r, a)),
        implies(band(za, zb), eq(r, t.concat(band(sa, sb_), const(0, w - 1)))),
        implies(t.conj([ok, bnot(diff)]), t.conj([eq(sr, sa), ule(mx, mr)])),
        implies(band(fin, bnot(diff)), t.sle(e(mr), t.add(e1(mx), const(1, ew)))),
        implies(t.conj([ok, diff, bor(agt, bgt)]), t.conj([eq(sr, sig), ule(mr, mx), bnot(t.is_fzero(r))])),
        implies(t.conj([ok, diff, eq(ma, mb)]), eq(r, const(0, w))),
        implies(t.conj([fin, diff, t.sle(t.add(e1(mn), const(2, ew)), e1(mx))]), t.sle(t.sub(e1(mx), const(1, ew)), e(mr))),
        implies(band(fin, far), eq(r, t.concat(sig, mx))),
        # adding something at most half as large keeps more than half (exponents differ by at least one)
        implies(t.conj([fin, diff, ule(mn, mx), ult(e1(mn), e1(mx))]), t.sle(t.sub(t.sub(e1(mx), const(sb + 2, ew)), const(0, ew)), e(mr))),
    ]
    return ax


def ax_sub(a, b, r):
    return ax_add(a, t.fneg(b), r)


def ax_sqrt(a, r):
    w = a.w
    eb, sb, bias = S.params(w)
    sa, ma = parts(a)
    sr, mr = parts(r)
    nr, z = t.is_nan(r), t.is_fzero(a)
    one = const(bias << sb, w - 1)
    ok = bnot(nr)
    ew = eb + 2
    er, ea = t.zext(t.fexp(r), ew), t.zext(t.fexp(a), ew)
    norm = t.conj([ok, bnot(z), bnot(t.is_inf(a)), t.ne(t.fexp(a), const(0, eb))])
    two = t.add(er, er)
    return [
        eq(nr, bor(t.is_nan(a), band(sa, bnot(z)))),
        implies(z, eq(r, a)),
        implies(band(ok, t.is_inf(a)), eq(r, a)),
        implies(band(ok, bnot(z)), band(bnot(sr), bnot(t.is_fzero(r)))),
        implies(band(ok, bnot(t.is_inf(a))), bnot(t.is_inf(r))),
        implies(t.conj([ok, ule(one, ma)]), band(ule(one, mr), ule(mr, ma))),
        implies(t.conj([ok, ule(ma, one)]), band(ule(mr, one), ule(ma, mr))),
        implies(norm, band(ule(t.sub(t.add(ea, const(bias - 1, ew)), const(0, ew)), two), ule(two, t.add(ea, const(bias, ew))))),
    ]


def ax_fma(a, b, c, r):
    """NaN behaviour and the cases with a zero or infinite operand"""
    sa, ma = parts(a)
    sb_, mb = parts(b)
    sc, mc = parts(c)
    nr = t.is_nan(r)
    ia, ib, ic, za, zb, zc = t.is_inf(a), t.is_inf(b), t.is_inf(c), t.is_fzero(a), t.is_fzero(b), t.is_fzero(c)
    ps = t.bxor(sa, sb_)
    pinf = bor(ia, ib)
    ok = bnot(nr)
    return [
        eq(nr, t.disj([t.is_nan(a), t.is_nan(b), t.is_nan(c), band(ia, zb), band(za, ib), t.conj([pinf, ic, t.bxor(ps, sc)])])),
        implies(band(ok, pinf), band(t.is_inf(r), eq(t.fsign(r), ps))),
        implies(t.conj([ok, ic]), eq(r, c)),
        implies(t.conj([ok, bor(za, zb), bnot(zc)]), eq(r, c)),
        implies(t.conj([ok, eq(ps, sc)]), eq(t.fsign(r), ps)),
    ]


AX = {"fmul": ax_mul, "fdiv": ax_div, "fadd": ax_add, "fsub": ax_sub, "fsqrt": ax_sqrt, "ffma": ax_fma}


def abstract(roots, exact=frozenset(), ops=HEAVY, val=None):
    """-> (rewritten roots, side conditions, instances); instances: list of (original node, result variable)"""
    memo, side, inst = {}, [], []
    for n in t.topo(roots):
        a = [memo[x] for x in n.args]
        op = n.op
        if op.startswith("uf_"):
            # same operation on the same operands: same value (operands are hash-consed)
            memo[n] = t.var(f"{op}!{n.id}", n.w)
            continue
        if op in ops and n not in exact and not all(t.isc(x) for x in a):
            v = t.var(f"{op}!{n.id}", n.w)
            if any(t.isc(x) and S.is_nan(x.w, x.k) for x in a):
                memo[n] = const(S.qnan(n.w), n.w)
                continue
            side += AX[op](*a, v)
            if val is not None:
                side += ranges.axioms(n, v, val)
            inst.append((n, v))
            memo[n] = v
            continue
        memo[n] = n if all(x is y for x, y in zip(a, n.args)) else t.rebuild(op, a, n.w, n.k)
    return [memo[r] for r in roots], side, inst


def values(roots, env):
    """concrete value of every node under the exact semantics"""
    memo = {}
    for n in t.topo(roots):
        if n.op == "const":
            v = n
        elif n.op == "var":
            v = const(env.get(n.k, 0), n.w)
        elif n.op.startswith("uf_"):
            v = const(env.get(f"{n.op}!{n.id}", 0), n.w)
        else:
            v = t.rebuild(n.op, [memo[a] for a in n.args], n.w, n.k)
            if v.op != "const":
                v = const(0, n.w)
        memo[n] = v
    return memo


def relevant(root, val, stop):
    """nodes that decide the value of root under the valuation (one justification per and/or/ite)"""
    seen, todo = set(), [root]
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        if n in stop or not n.args:
            continue
        if n.op == "ite":
            todo.append(n.args[0])
            todo.append(n.args[1] if val(n.args[0]) else n.args[2])
        elif n.op == "and" and n.w == 1 and not val(n):
            todo.append(next(a for a in n.args if not val(a)))
        elif n.op == "or" and n.w == 1 and val(n):
            todo.append(next(a for a in n.args if val(a)))
        else:
            todo.extend(n.args)
    return seen


def decide(neg, timeout=60, backends=("kissat",), rounds=40, per_round=6, hooks=None, ops=HEAVY, exact=(), log=None, side=(), val=None):
    """is the width-1 term `neg` satisfiable?  -> ('unsat'|'sat'|'unknown', model, info)"""
    t0 = time.time()
    exact = set(exact)
    nref = 0
    for it in range(rounds):
        left = timeout - (time.time() - t0)
        if left <= 1:
            return "unknown", None, f"refinement ran out of time after {it} rounds"
        [g, *sd], ax, inst = abstract([neg, *side], exact, ops, val)
        q = B.lower([t.conj([g, *sd, *ax])], hooks=hooks)
        st, model, who = smt.solve(q, int(left) + 1, backends, lower=False)
        if st == "unsat":
            return "unsat", None, f"{who}, {len(inst)} operations abstract, {len(exact)} exact"
        if st == "unknown":
            return "unknown", None, f"no answer with {len(inst)} abstract and {len(exact)} exact operations"
        env = dict(model)
        true = values([neg, *side], env)
        if true[neg].k:
            return "sat", model, f"{who}, {len(exact)} operations exact"
        # values of the abstract model
        mv = {}
        isv = dict(inst)
        for n in t.topo([neg, *side]):
            if n in isv:
                mv[n] = const(env.get(isv[n].k, 0), n.w)
            elif n.op == "const":
                mv[n] = n
            elif n.op == "var":
                mv[n] = const(env.get(n.k, 0), n.w)
            elif n.op.startswith("uf_"):
                mv[n] = const(env.get(f"{n.op}!{n.id}", 0), n.w)
            else:
                v = t.rebuild(n.op, [mv[a] for a in n.args], n.w, n.k)
                mv[n] = v if v.op == "const" else const(0, n.w)
        rel = relevant(neg, lambda n: mv[n].k, isv and ())
        bad = []
        for n, v in inst:
            tv = t.rebuild(n.op, [mv[a] for a in n.args], n.w, n.k)
            if tv.k != mv[n].k and not (S.is_nan(n.w, tv.k) and S.is_nan(n.w, mv[n].k)):
                bad.append(n)
        br = [n for n in bad if n in rel] or bad
        if not br:
            return "unknown", None, "model differs from the exact semantics outside the abstracted operations"
        # cheap operations first
        cost = lambda n: (0 if any(t.isc(a) for a in n.args) else 1) + {"fadd": 0, "fsub": 0, "fmul": 2, "fsqrt": 6, "fdiv": 5, "ffma": 5}[n.op]
        br.sort(key=lambda n: (cost(n), n.id))
        new = br[:per_round]
        if log:
            log(f"round {it}: {len(bad)} inconsistent, {len(br)} relevant, exact {len(exact)}+{len(new)}")
        exact |= set(new)
    return "unknown", None, f"no answer after {rounds} refinement rounds"
