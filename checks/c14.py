"""C14: no public function panics, overflows an integer, divides by zero, reads out of bounds or runs into undefined behaviour.

The crate is compiled with debug assertions and overflow checks, which turns each of these into a reachable panic; the
executor adds out-of-bounds and `unreachable` events of its own."""
from common import *

# functions whose loops cannot be unrolled to the end within reach: explored up to the stated number of visits per block
LOOPS = {}
for s in SUF.values():
    LOOPS["fmod" + s] = 12
for s in ("", "f"):
    for f in ("remainder", "remquo"):
        LOOPS[f + s] = 12
    for f in ("jn", "yn"):
        LOOPS[f + s] = 12


# each way to fail is decided on its own, first with the results of floating-point operations left free
HARD = ("tgamma", "tgammaf", "pow", "powf")
HEAVY = ("fadd", "fsub", "fmul", "fdiv", "fsqrt", "ffma")


def stub_pow(ctx, args, mem, pc):
    ctx.encoded.add("pow (uninterpreted)")
    return t.mk("uf_pow", tuple(args), args[0].w), mem, pc


class Events:
    """all panics and out-of-bounds accesses of one function; exp and pow, which have obligations of their own, are uninterpreted in tgamma"""

    def __init__(self, f, cfg, timeout):
        self.label, self.f, self.config, self.checked, self.timeout = f"{f}[{cfg}]", f, cfg, True, timeout
        self.encoded, self.nodes, self.weight = [], 0, 10**6

    def run(self):
        import time, traceback

        t0 = time.time()
        try:
            r = self.decide(t0)
        except Exception as e:
            r = lib.Result(self, "error", f"{type(e).__name__}: {e} {traceback.format_exc()[-800:]}")
        r.secs, r.encoded, r.nodes = time.time() - t0, self.encoded, self.nodes
        return r

    def decide(self, t0):
        import time

        from engine import ranges

        f = self.f
        m = build.build_ir(self.config, True, key="n")
        xs = [t.var(f"x{i}", api.width(k)) for i, k in enumerate(api.FUNCS[f][0])]
        st = {**ufs("exp"), "libm::math::pow::pow": stub_pow} if f.startswith("tgamma") else STUBS
        res, cond, evs, ctx = X.encode(m, f, xs, api.FUNCS[f][1], stubs=st, max_iter=300)
        self.encoded = sorted(ctx.encoded)
        qs = [(str(e), e.cond) for e in evs if not (t.isc(e.cond) and not e.cond.k)]
        self.nodes = max([len(t.topo([q])) for _, q in qs] or [0])
        open_ = []
        for what, q in qs:
            ops = [n for n in t.topo([q]) if n.op in HEAVY or n.op.startswith("uf_")]
            [free] = t.substitute([q], {n: t.var(f"_f{i}", n.w) for i, n in enumerate(ops)})
            [low] = B.lower([free])
            v, model, _ = smt.solve([low], 20, ("kissat",), lower=False)
            if v != "unsat":
                v, model, _ = ranges.decide(q, max(5, min(self.timeout / 2, self.timeout - (time.time() - t0))), ("kissat", "z3"))
            if v == "sat":
                ob = Ob(self.label, f, lambda x, r: t.TRUE, config=self.config)
                bad, txt = lib.replay(ob, model)
                if bad:
                    return lib.Result(self, "violated", txt, model)
            if v != "unsat":
                open_.append(what)
        if open_:
            return lib.Result(self, "undecided", f"{len(open_)} of {len(qs)} events: " + "; ".join(open_))
        return lib.Result(self, "holds", f"{len(qs)} events", by="kissat; results of floating-point operations free or bounded by ranges")


def obligations(tier):
    obs = []
    sel = [a for a in sys.argv[1:] if a in api.FUNCS]
    for f in sel or api.FUNCS:
        for cfg in CFGS if tier == "thorough" else ("arch",):
            mi = LOOPS.get(f)
            if f in HARD:
                obs.append(Events(f, cfg, 100 if tier == "quick" else 800))
                continue
            obs.append(Ob(f"{f}[{cfg}]" + (f" (at most {mi} visits of a block)" if mi else ""), f, lambda x, r: t.TRUE, config=cfg, abstract=True, stubs=STUBS,
                          max_iter=mi or 300, complete=mi is None, timeout=60 if tier == "quick" else 600))
    return obs


if __name__ == "__main__":
    sys.exit(lib.main("C14", obligations, "other", "all arguments"))
