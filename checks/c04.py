"""C04: fused multiply-add rounds once.

The products of significands are abstracted: every product of two variables in the code and in the specification becomes
a fresh variable with functional consistency, so that the proof covers any product.  A model of the abstraction is
concretised with the real multiplication before it is replayed."""
import random

from common import *

EW = 20


def special(x):
    return t.disj([t.is_nan(x), t.is_inf(x), t.is_fzero(x)])


def distance(xs):
    """exponent of x*y minus exponent of z, for finite nonzero operands"""
    bias = S.params(xs[0].w)[2]
    e = [B.normalize(x, EW)[1] for x in xs]
    return t.sub(t.add(e[0], e[1]), t.add(e[2], t.const(bias, EW)))


def school(side_pairs):
    """products of limbs add up to the product of the whole operands"""
    out = []
    big = [q for q in side_pairs if q[0].w > 64]
    small = [q for q in side_pairs if q[0].w <= 64]
    for X_, Y, P in big:
        for cut in {q[0].w for q in small} | {q[1].w for q in small}:
            if not cut < X_.w:
                continue
            xl, xh, yl, yh = t.extract(X_, cut - 1, 0), t.extract(X_, X_.w - 1, cut), t.extract(Y, cut - 1, 0), t.extract(Y, Y.w - 1, cut)

            def find(a, b):
                for p, q, r in small:
                    if p.w == a.w and q.w == b.w:
                        yield t.band(t.eq(p, a), t.eq(q, b)), r
                    if p.w == b.w and q.w == a.w:
                        yield t.band(t.eq(p, b), t.eq(q, a)), r

            W = P.w
            z = lambda v, s: t.concat(*([t.const(0, W - v.w - s)] if W > v.w + s else []), v, *([t.const(0, s)] if s else []))
            for c1, ll in find(xl, yl):
                for c2, lh in find(xl, yh):
                    for c3, hl in find(xh, yl):
                        if hl is lh:
                            continue
                        for c4, hh in find(xh, yh):
                            s = t.add(t.add(z(ll, 0), z(hh, 2 * cut)), t.add(z(lh, cut), z(hl, cut)))
                            out.append(t.implies(t.conj([c1, c2, c3, c4]), t.eq(P, s)))
    return out


HOOKS = {"fmul": lambda n, a: None if t.isc(a[0]) or t.isc(a[1]) else B.fmul(a[0], a[1], norm=True)}


class Fma:
    """one exponent-distance class of one function in one configuration"""

    def __init__(self, name, config, neg, low, cls, low_cls, ob, timeout):
        self.__dict__.update(locals())
        self.label = ob.label
        self.config, self.checked = config, True
        self.encoded, self.nodes = ob.encoded, ob.nodes
        self.weight = len(ob.args) and {32: 1, 64: 3, 128: 9}[ob.args[0]] * (5 if isinstance(cls, int) and abs(cls) <= 1 else 1)

    def run(self):
        import time

        t0 = time.time()
        try:
            r = self.decide()
        except Exception as e:
            import traceback

            r = lib.Result(self, "error", f"{type(e).__name__}: {e} {traceback.format_exc()[-800:]}")
        r.secs = time.time() - t0
        return r

    def decide(self):
        ab, side = self.low
        st, model, who = smt.solve([ab, side, self.low_cls], self.timeout, ("kissat",), lower=False)
        if st == "unsat":
            return lib.Result(self, "holds", by=who)
        if st == "unknown" and self.cls == "search":
            return lib.Result(self, "searched", f"no counterexample found in {self.timeout}s")
        if st == "unknown":
            return lib.Result(self, "undecided", f"no answer in {self.timeout}s")
        v, txt = lib.replay(self.ob, model)
        if v:
            return lib.Result(self, "violated", txt, model, by=who)
        # concretise: same exponents and signs, real multiplication
        xs = [t.var(f"x{i}", k) for i, k in enumerate(self.ob.args)]
        w = xs[0].w
        eb, sb, _ = S.params(w)
        fix = [t.eq(t.extract(x, w - 1, sb), t.const(model.get(f"x{i}", 0) >> sb, eb + 1)) for i, x in enumerate(xs)]
        shapes = [1 << k for k in range(sb)] + [(1 << sb) - (1 << k) for k in range(sb)] + [0, (1 << (sb - 1)) + 1]
        few = t.disj([t.eq(t.extract(xs[0], sb - 1, 0), t.const(s, sb)) for s in shapes])
        if w == 64:
            hit = self.tails(model)
            if hit:
                return lib.Result(self, "violated", hit[1], hit[0])
        for extra, to in ((fix + [few], 25), (fix, 40), ([few], 40), ([], 60)):
            q = B.lower(extra)
            st, m2, who = smt.solve([self.neg, self.low_cls, *q], to, ("kissat",), lower=False)
            if st == "sat":
                v, txt = lib.replay(self.ob, m2)
                if v:
                    return lib.Result(self, "violated", txt, m2, by=who)
        return lib.Result(self, "spurious", "abstract counterexample not concretised: " + txt)


    def tails(self, model):
        """operands whose product ends like the product of the abstract model"""
        prods = [v for k, v in model.items() if k.startswith("prod") and v.bit_length() > 100]
        rnd = random.Random(1)
        w, calls = 64, []
        x, y, z = (model.get(f"x{i}", 0) for i in range(3))
        for P in prods[:1]:
            for k in range(52, 70):
                tail, n = P & ((1 << k) - 1), 0
                s = (tail & -tail).bit_length() - 1 if tail else 0
                if not tail & 1 and (tail == 0 or s > 12):
                    continue
                for _ in range(4000 if k < 60 else 30000):
                    na = rnd.getrandbits(52) | (1 << 52) | 1
                    nb = (tail >> s) * pow(na, -1, 1 << k) % (1 << (k - s)) << s
                    if (1 << 52) <= nb < (1 << 53):
                        n += 1
                        m = (1 << 52) - 1
                        for zz in (z, z ^ 1, z ^ (1 << 63), (z & ~m) | rnd.getrandbits(52), ((z ^ (1 << 63)) & ~m) | rnd.getrandbits(52)):
                            calls.append((self.ob.fn, ((x & ~m) | (na & m), (y & ~m) | (nb & m), zz)))
                        if n == 6:
                            break
        nat = build.native(self.config, True, key="n")
        for (f, a), (st, v) in zip(calls, nat.run(calls)):
            if st != "ok" or (v[0] != S.fma(w, *a) and not (S.is_nan(w, v[0]) and S.is_nan(w, S.fma(w, *a)))):
                m = {f"x{i}": q for i, q in enumerate(a)}
                ok, txt = lib.replay(self.ob, m)
                if ok:
                    return m, txt


def spec(x, r):
    if x[0].w == 32:
        return same(r[0], B.ffma(*[t.fcvt(v, 64) for v in x], out=32, norm=True))
    return same(r[0], B.ffma(*x, norm=True))


def classes(w, tier, xs):
    p = S.params(w)[1] + 1
    lim = 2 * p + 12
    sp = t.disj([special(x) for x in xs])
    d = distance(xs)
    yield "special operand", sp
    if w < 128 or tier == "thorough":
        yield f"distance > {lim}", t.band(t.bnot(sp), t.slt(t.const(lim, EW), d))
    if w < 128 or tier == "thorough":
        yield f"distance < -{lim}", t.band(t.bnot(sp), t.slt(d, t.const(-lim, EW)))
    ks = list(range(-lim, lim + 1))
    if tier == "quick":
        # a search over all distances at once, and the proof for some of them
        yield "search", t.TRUE
        rnd = random.Random(int(os.environ.get("VERIF_SEED", "1")))
        edge = {32: [-p, p, p + 1], 64: [-p], 128: []}[w]
        ks = sorted(set(edge) | set(rnd.sample([k for k in ks if abs(k) > 2], 2 if w != 128 else 0)))
    for k in ks:
        yield k, t.band(t.bnot(sp), t.eq(d, t.const(k, EW)))


def obligations(tier):
    obs, seen = [], {}
    for name, w in (("fmaf", 32), ("fma", 64), ("fmaf128", 128)):
        for cfg in CFGS if tier == "thorough" else ("arch",):
            xs = [t.var(f"x{i}", w) for i in range(3)]
            ob = Ob(f"{name}[{cfg}]", name, spec, config=cfg, max_iter=300)
            [neg] = lib.encode_ob(ob)
            if neg in seen:
                continue
            seen[neg] = 1
            [neg_l] = B.lower([neg], hooks=HOOKS)
            [ab], side, pairs = B.abstract_products([neg_l])
            side = t.conj([side, *school(pairs)])
            for cls, c in classes(w, tier, xs):
                [low_cls] = B.lower([c])
                o = Fma(name, cfg, neg_l, (ab, side), cls, low_cls, ob, 600 if tier == "thorough" else 25 if cls == "search" else 120)
                o.label = f"{name}[{cfg}] {cls if isinstance(cls, str) else f'exponent distance {cls}'}"
                obs.append(o)
    return obs


if __name__ == "__main__":
    sys.exit(lib.main("C04", obligations, "other", "all bit patterns of f32/f64/f128"))
