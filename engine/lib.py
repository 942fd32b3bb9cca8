"""Check runner: obligations -> solver -> native replay -> verdict, evidence and exit code."""
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

from . import api, build, exec as X, fpblast as B, smt, softfp as S, term as t, validate

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("VERIF_JOBS", "8"))


def same(r, s, k=None):
    """results agree: equal bits, or both NaN"""
    if k == "i" or r.w not in (16, 32, 64, 128):
        return t.eq(r, s)
    return t.bor(t.eq(r, s), t.band(t.is_nan(r), t.is_nan(s)))


def num_eq(r, s):
    """numerically equal (zero signs ignored), or both NaN"""
    return t.disj([t.eq(r, s), t.band(t.is_nan(r), t.is_nan(s)), t.band(t.is_fzero(r), t.is_fzero(s))])


class Ob:
    """one obligation: for all inputs satisfying `assume`, the call returns and `goal` holds.

    spec(x, r) -> width-1 term over argument terms x and result terms r (r: dict call-name -> list for multi-call
    obligations).  calls: list of (name, argument builder) evaluated symbolically; default one call f(*x)."""

    def __init__(self, label, fn, spec, assume=None, config="arch", checked=True, calls=None, args=None, timeout=60,
                 keep=frozenset(), backends=("kissat", "z3"), max_iter=None, stubs=None, bound=None, known=(), nopanic=True, prefix="w_", hooks=None, split=None, extra=None, post=None, complete=True, prune=False, abstract=False, rounds=40, per_round=6, side=None, sign=False, ranges=False, rk=None, given=None):
        self.__dict__.update(locals())
        self.args = args if args is not None else api.FUNCS[fn][0]
        self.calls = calls or [(fn, lambda *x: x)]


class Result:
    def __init__(self, ob, status, info="", model=None, secs=0.0, encoded=(), nodes=0, by=None, witness=None):
        self.__dict__.update(locals())
        self.label = ob.label
        del self.__dict__["ob"]


FSIG = dict(api.FUNCS)


def run_calls(ob, xs, module):
    """symbolic execution of the obligation's calls -> (results dict, condition that all return, encoded fns, bound events)"""
    out, cond, enc, bnd = {}, t.TRUE, set(), t.FALSE
    for i, (fn, build_args) in enumerate(ob.calls):
        a = build_args(*xs)
        kinds, rets = FSIG[fn]
        res, c, ev, ctx = X.encode(module, fn, list(a), rets, stubs=ob.stubs, max_iter=ob.max_iter, prefix=ob.prefix)
        out[i] = res
        if fn not in out:
            out[fn] = res
        cond = t.band(cond, c)
        enc |= ctx.encoded
        for e in ev:
            if e.kind == "bound":
                bnd = t.bor(bnd, e.cond)
            elif e.kind in ("oob", "ub", "unreachable"):
                cond = t.band(cond, t.bnot(e.cond))
    return out, cond, enc, bnd


def replay(ob, model):
    """run the real code on the model; -> (violated?, text)"""
    xs = [model.get(f"x{i}", 0) & ((1 << api.width(k)) - 1) for i, k in enumerate(ob.args)]
    consts = [t.const(v, api.width(k)) for v, k in zip(xs, ob.args)]
    if ob.assume is not None:
        a = ob.assume(*consts)
        [a] = B.lower([a])
        if not (t.isc(a) and a.k):
            return False, "assumption not met by replayed input"
    nat = build.native(ob.config, ob.checked, names=NATIVE_NAMES, extra=EXTRA, key="n")
    calls = []
    for fn, build_args in ob.calls:
        a = [x.k for x in build_args(*consts)]
        calls.append((fn, tuple(a)))
    outs = nat.run(calls, timeout=20)
    out, txt = {}, []
    for i, ((fn, a), (st, v)) in enumerate(zip(calls, outs)):
        txt.append(f"{fn}({', '.join(hex(q) for q in a)}) -> {st} {[hex(q) for q in v] if st == 'ok' else v}")
        if st != "ok":
            return ob.nopanic, "; ".join(txt)
        res = [t.const(q, api.width(k)) for q, k in zip(v, FSIG[fn][1])]
        out[i] = res
        out.setdefault(fn, res)
    if ob.given and not all(t.isc(c) and c.k == v for c, v in ob.given(*consts)):
        return False, "case condition not met by replayed input"
    g = ob.spec(consts, out if len(ob.calls) > 1 else out[0])
    [g] = B.lower([g])
    if not t.isc(g):
        return False, "; ".join(txt) + " [spec not concrete]"
    return g.k == 0, "; ".join(txt)


NATIVE_NAMES = None
EXTRA = []


def encode_ob(ob):
    """-> list of queries (terms whose satisfiability refutes the obligation)"""
    m = build.build_ir(ob.config, ob.checked, extra=EXTRA, key="n")
    xs = [t.var(f"x{i}", api.width(k)) for i, k in enumerate(ob.args)]
    out, cond, enc, bnd = run_calls(ob, xs, m)
    goal = ob.spec(xs, out if len(ob.calls) > 1 else out[0])
    if ob.complete:
        # the unrolling bound itself must be unreachable: the verdict then covers every execution
        goal, pre = t.band(goal, t.bnot(bnd)), []
    else:
        pre = [t.bnot(bnd)]
    if ob.nopanic:
        goal = t.band(goal, cond)
    else:
        pre.append(cond)
    if ob.assume is not None:
        pre.append(ob.assume(*xs))
    neg = t.conj(pre + [t.bnot(goal)])
    if ob.given:
        # conditions known in this case: (term, value) pairs, also assumed
        g = ob.given(*xs)
        [neg] = t.substitute([neg], {c: t.const(v, 1) for c, v in g})
        neg = t.conj([neg] + [c if v else t.bnot(c) for c, v in g])
    if ob.sign and not ob.ranges:
        from . import signnorm

        [neg] = signnorm.norm([neg])
    ob.encoded = sorted(enc)
    ob.nodes = len(t.topo([neg]))
    if ob.split:
        return [t.band(neg, c) for c in ob.split(*xs)]
    return [neg]


class Task:
    """one solver query, possibly shared by several obligations"""

    def __init__(self, q, ob):
        self.q, self.ob, self.users = q, ob, [ob]

    def run(self):
        ob, t0 = self.ob, time.time()
        try:
            if ob.ranges:
                from . import ranges

                st, model, who = ranges.decide(self.q, ob.timeout, ob.backends, sign=ob.sign, hooks=ob.hooks, rounds=ob.rounds, per_round=ob.per_round, **(ob.rk or {}))
            elif ob.abstract:
                from . import absfp

                st, model, who = absfp.decide(self.q, ob.timeout, ob.backends, rounds=ob.rounds, per_round=ob.per_round, hooks=ob.hooks)
            else:
                [low] = B.lower([self.q], keep=ob.keep, hooks=ob.hooks)
                st, model, who = smt.solve([low], ob.timeout, ob.backends, lower=False)
            if st == "unsat":
                return Result(ob, "holds", secs=time.time() - t0, by=who)
            if st == "unknown":
                return Result(ob, "undecided", f"solver gave no answer in {ob.timeout}s {who or ''}", secs=time.time() - t0)
            v, txt = replay(ob, model)
            if ob.post and not v:
                r = ob.post(ob, model)
                if r is not None:
                    return r
            return Result(ob, "violated" if v else "spurious", txt, model, time.time() - t0, by=who)
        except build.BuildError as e:
            return Result(ob, "error", "build: " + str(e)[-1500:], secs=time.time() - t0)
        except Exception as e:
            return Result(ob, "error", f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}", secs=time.time() - t0)


def run_obligations(obs, nproc=None):
    """-> one Result per obligation"""
    tasks, index, per = [], {}, []
    early = {}
    for i, ob in enumerate(obs):
        if hasattr(ob, "run"):
            per.append([len(tasks)])
            tasks.append(ob)
            continue
        try:
            qs = encode_ob(ob)
        except Exception as e:
            early[i] = Result(ob, "error", f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}")
            per.append([])
            continue
        mine = []
        for q in qs:
            if t.isc(q) and q.k == 0:
                smt.STATS["trivial"] += 1
                continue
            key = (q, ob.keep)
            if key not in index:
                index[key] = len(tasks)
                tasks.append(Task(q, ob))
            mine.append(index[key])
        per.append(mine)
    order = sorted(range(len(tasks)), key=lambda j: -getattr(tasks[j], "weight", getattr(getattr(tasks[j], "ob", None), "nodes", 0)))
    res = run_tasks([tasks[j] for j in order], nproc)
    byt = {}
    for pos, j in enumerate(order):
        byt[j] = res[pos]
    out = []
    rank = {"violated": 5, "error": 4, "spurious": 3, "undecided": 2, "holds": 1, "searched": 0}
    for i, ob in enumerate(obs):
        if i in early:
            r = early[i]
        else:
            rs = [byt[j] for j in per[i]]
            if any(r is None for r in rs) and not any(r is not None and r.status == "violated" for r in rs):
                out.append(None)
                continue
            rs = [r for r in rs if r is not None]
            if not rs:
                r = Result(ob, "holds", by=["simplifier"])
            else:
                w = max(rs, key=lambda r: rank[r.status])
                r = Result(ob, w.status, w.info, w.model, sum(x.secs for x in rs), by=sorted({str(x.by) for x in rs}))
                r.info = w.info
                if hasattr(w, "extra_stats"):
                    r.extra_stats = w.extra_stats
        r.encoded = getattr(ob, "encoded", [])
        r.nodes = getattr(ob, "nodes", 0)
        r.index = i
        out.append(r)
    return out, byt


_TASKS = []


def _work(i):
    t.reset_soft()
    before = dict(smt.STATS)
    r = _TASKS[i].run()
    r.stats = {k: smt.STATS[k] - before[k] for k in ("queries", "unsat", "sat", "unknown", "time", "trivial")}
    r.index = i
    return r


def run_tasks(tasks, nproc=None, stop_on_violation=True):
    global _TASKS
    _TASKS = tasks
    res = [None] * len(tasks)
    if not tasks:
        return res
    with mp.get_context("fork").Pool(min(nproc or NPROC, len(tasks)), maxtasksperchild=None) as pool:
        for r in pool.imap_unordered(_work, range(len(tasks)), chunksize=1):
            res[r.index] = r
            if stop_on_violation and r.status == "violated":
                pool.terminate()
                break
    return res


def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def main(prop, obligations, level, bounds, assumptions=(), note="", configs=None, checked=(True,), vacuity=None):
    """standard entry point of a check"""
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[1:]:
        if a in ("quick", "thorough"):
            tier = a
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        obs = obligations(tier)
        for cfg, ck in sorted({(o.config, o.checked) for o in obs if hasattr(o, "config")}):
            build.build_ir(cfg, ck, extra=EXTRA, key="n")
    except build.BuildError as e:
        print("BUILD FAILED\n" + str(e))
        return 2
    res, byt = run_obligations(obs)
    return finish(prop, tier, obs, res, byt, level, bounds, assumptions, note, t0)


TRUST = [
    "rustc/LLVM (nightly-2025-04-20) translate the crate to the LLVM IR that is executed symbolically; the native replay uses the same compiler",
    "engine/exec.py, engine/term.py and engine/fpblast.py encode LLVM IR and IEEE-754 arithmetic correctly (round to nearest even, cross-checked against hardware by engine/validate.py)",
    "the SAT/SMT solvers' unsat answers",
    "NaN payloads and the sign of NaN results are not constrained",
]


def explain(prop, n, cnt, agg, enc, bounds, t0):
    return (
        f"{n} obligations over {bounds}: {cnt.get('holds', 0)} shown to hold for every value (solver unsat or closed by the term simplifier), "
        f"{cnt.get('undecided', 0) + cnt.get('spurious', 0)} undecided within their time limit, {cnt.get('searched', 0)} searched for a counterexample only, "
        f"{cnt.get('error', 0)} not encodable, {cnt.get('violated', 0)} violated; {agg['queries']:.0f} solver queries ({agg['unsat']:.0f} unsat, {agg['sat']:.0f} sat, "
        f"{agg['unknown']:.0f} unknown), {agg['time']:.1f} s of solver time, {len(enc)} functions encoded from the LLVM IR of the current tree."
    )


def finish(prop, tier, obs, res, byt, level, bounds, assumptions, note, t0):
    done = [r for r in res if r is not None]
    kf = [k for k in known_findings() if k["property"] == prop and k.get("status") == "open"]
    viol, known = [], []
    for r in done:
        if r.status == "violated":
            viol.append(r)
    for k in kf:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    cnt = {}
    for r in done:
        cnt[r.status] = cnt.get(r.status, 0) + 1
    ran = [r for r in byt.values() if r is not None]
    agg = {k: round(sum(r.stats[k] for r in ran) + (smt.STATS[k] if k == "trivial" else 0), 2) for k in ("queries", "unsat", "sat", "unknown", "time", "trivial")}
    enc = sorted({e for r in done for e in r.encoded})
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": level,
        "coverage": {
            "explanation": explain(prop, len(obs), cnt, agg, enc, bounds, t0),
            "obligations": len(obs),
            "discharged": cnt.get("holds", 0),
            "status": cnt,
            "queries": agg,
            "bounds": bounds,
            "functions_encoded": enc,
            "per_obligation": [
                {"label": r.label, "status": r.status, "seconds": round(r.secs, 2), "dag_nodes": r.nodes, "decided_by": r.by, **({"info": r.info[:600]} if r.info else {})}
                for r in done
            ],
        },
        "assumptions": TRUST + list(assumptions),
        "violations": len(viol),
        "wall_s": round(time.time() - t0, 2),
    }
    if note:
        ev["coverage"]["note"] = note
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for r in done:
        if r.status in ("undecided", "spurious", "error"):
            print(f"UNDECIDED [{r.status}] {r.label}: {r.info[:1200]}")
    if viol:
        os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
        for r in viol:
            p = os.path.join(ROOT, "evidence", "replay", f"{prop}-{r.index}.json")
            with open(p, "w") as f:
                json.dump({"property": prop, "obligation": r.label, "model": {k: hex(v) for k, v in (r.model or {}).items()}, "replayed": r.info}, f, indent=1)
            print(f"violated: {r.label}: {r.info}")
            print(f"VIOLATION property={prop} replay={p}")
        return 1
    errs = [r for r in done if r.status == "error"]
    print(f"{prop}: {cnt} of {len(obs)} obligations, {agg['queries']:.0f} queries, solver {agg['time']:.1f}s, wall {time.time() - t0:.1f}s")
    if errs and len(errs) == len(done):
        return 2
    return 0
