"""C15: results do not depend on the build configuration (architecture routines, soft fallback, compiler intrinsics)."""
from common import *


def stub_sqrt(ctx, args, mem, pc):
    return t.fsqrt(args[0]), mem, pc


# the software square roots are correctly rounded (C03): their contract stands for them, as the hardware instruction does elsewhere
SQRT = {"libm::math::sqrt::sqrt": stub_sqrt, "libm::math::sqrt::sqrtf": stub_sqrt}
LOOPY = {f + s for f in ("fmod", "remainder", "remquo", "jn", "yn") for s in SUF.values()}


class Pair:
    """one function in two configurations"""

    def __init__(self, f, a, b, timeout):
        self.f, self.a, self.b, self.timeout = f, a, b, timeout
        self.args = api.FUNCS[f][0]
        self.label = f"{f}: {a[0]}{'' if a[1] else ' release'} = {b[0]}{'' if b[1] else ' release'}"
        self.config, self.checked = b
        self.encoded, self.nodes = [], 0
        self.weight = 1

    def run(self):
        import time, traceback

        t0 = time.time()
        try:
            r = self.decide()
        except Exception as e:
            r = lib.Result(self, "error", f"{type(e).__name__}: {e} {traceback.format_exc()[-800:]}")
        r.secs = time.time() - t0
        r.encoded, r.nodes = self.encoded, self.nodes
        return r

    def decide(self):
        from engine import absfp

        f = self.f
        xs = [t.var(f"x{i}", api.width(k)) for i, k in enumerate(self.args)]
        res, cond, enc = [], t.TRUE, set()
        for cfg, ck in (self.a, self.b):
            m = build.build_ir(cfg, ck, key="n")
            r, c, ev, ctx = X.encode(m, f, xs, api.FUNCS[f][1], stubs={**STUBS, **({} if f.startswith("sqrt") else SQRT)}, max_iter=4 if f in LOOPY else 80)
            res.append(r)
            cond = t.band(cond, c)
            enc |= ctx.encoded
        neg = t.band(cond, t.bnot(t.conj([same(p, q, k) for p, q, k in zip(*res, api.FUNCS[f][1])])))
        self.encoded, self.nodes = sorted(enc), len(t.topo([neg]))
        if t.isc(neg) and neg.k == 0:
            smt.STATS["trivial"] += 1
            return lib.Result(self, "holds", by="simplifier")
        st, model, who = absfp.decide(neg, self.timeout, ("kissat", "z3"))
        if st == "unsat":
            return lib.Result(self, "holds", by=who)
        if st == "unknown":
            return lib.Result(self, "undecided", str(who))
        a = tuple(model.get(f"x{i}", 0) for i in range(len(xs)))
        outs = [build.native(cfg, ck, key="n").run([(f, a)], timeout=20)[0] for cfg, ck in (self.a, self.b)]
        txt = f"{f}({', '.join(map(hex, a))}) -> {outs[0]} and {outs[1]}"
        if outs[0] == outs[1]:
            return lib.Result(self, "spurious", txt)
        if outs[0][0] == outs[1][0] == "ok":
            if all(u == v or k != "i" and S.is_nan(k, u) and S.is_nan(k, v) for u, v, k in zip(outs[0][1], outs[1][1], api.FUNCS[f][1])):
                return lib.Result(self, "spurious", txt)
        return lib.Result(self, "violated", txt, model, by=who)


def obligations(tier):
    base = ("arch", True)
    others = [("soft", True), ("intrinsics", True)]
    for c in [base, *others]:
        build.build_ir(*c, key="n")
    return [Pair(f, base, o, 30 if tier == "quick" else 300) for f in api.FUNCS for o in others
            if not f.startswith("sqrt") and (f, o[0], tier) != ("cbrt", "intrinsics", "quick")]


if __name__ == "__main__":
    sys.exit(lib.main("C15", obligations, "other", "all arguments"))
