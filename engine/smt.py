"""Deciding back ends: SMT-LIB export (z3, cvc5) and direct CNF (kissat / cadical), run as a portfolio."""
import glob
import os
import re
import shutil
import signal
import subprocess
import tempfile
import time

from . import build, fpblast, term as t

Z3 = shutil.which("z3-new") or shutil.which("z3")
CVC5 = shutil.which("cvc5")
KISSAT = shutil.which("kissat")
_c = sorted(glob.glob("/app/lean*/bin/cadical"))
CADICAL = shutil.which("cadical") or (_c[0] if _c else None)

STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "time": 0.0, "trivial": 0, "by": {}}


def name(n):
    return "n%d" % n.id


_OPS = {
    "add": "bvadd", "sub": "bvsub", "mul": "bvmul", "udiv": "bvudiv", "urem": "bvurem", "sdiv": "bvsdiv",
    "srem": "bvsrem", "shl": "bvshl", "lshr": "bvlshr", "ashr": "bvashr", "and": "bvand", "or": "bvor",
    "xor": "bvxor", "not": "bvnot", "concat": "concat",
}


def bvc(v, w):
    return "(_ bv%d %d)" % (v, w)


def smtlib(roots, uf=True):
    """roots: list of width-1 terms to assert"""
    out = []
    fns = {}
    nodes = t.topo(roots)
    refs = {}
    for n in nodes:
        op = n.op
        if op == "const":
            refs[n] = bvc(n.k, n.w)
            continue
        if op == "var":
            out.append("(declare-const |%s| (_ BitVec %d))" % (n.k, n.w))
            refs[n] = "|%s|" % n.k
            continue
        a = [refs[x] for x in n.args]
        if op == "extract":
            e = "((_ extract %d %d) %s)" % (n.k[0], n.k[1], a[0])
        elif op == "sext":
            e = "((_ sign_extend %d) %s)" % (n.w - n.args[0].w, a[0])
        elif op == "ite":
            e = "(ite (= %s #b1) %s %s)" % tuple(a)
        elif op == "eq":
            e = "(ite (= %s %s) #b1 #b0)" % tuple(a)
        elif op == "ult":
            e = "(ite (bvult %s %s) #b1 #b0)" % tuple(a)
        elif op == "slt":
            e = "(ite (bvslt %s %s) #b1 #b0)" % tuple(a)
        elif op in _OPS:
            e = "(%s %s)" % (_OPS[op], " ".join(a))
        else:
            if not uf:
                raise ValueError("no smt form for " + op)
            f = "%s_%s_%s%s" % (op, n.w, "_".join(str(x.w) for x in n.args), "" if n.k is None else "_" + str(n.k))
            if f not in fns:
                fns[f] = 1
                out.append("(declare-fun |%s| (%s) (_ BitVec %d))" % (f, " ".join("(_ BitVec %d)" % x.w for x in n.args), n.w))
            e = "(|%s| %s)" % (f, " ".join(a))
        out.append("(define-fun %s () (_ BitVec %d) %s)" % (name(n), n.w, e))
        refs[n] = name(n)
    for r in roots:
        out.append("(assert (= %s #b1))" % refs[r])
    logic = "QF_UFBV" if fns else "QF_BV"
    return "(set-logic %s)\n" % logic + "\n".join(out) + "\n"


# ------------------------------------------------------------------------------------------------ CNF
class Cnf:
    """and-inverter graph with structural hashing and Tseitin output"""

    def __init__(self):
        self.n = 1  # variable 1 = true
        self.cl = [(1,)]
        self.h = {}
        self.bits = {}
        self.vars = {}

    def new(self):
        self.n += 1
        return self.n

    def AND(self, a, b):
        if a == -1 or b == -1 or a == -b:
            return -1
        if a == 1 or a == b:
            return b
        if b == 1:
            return a
        if a > b:
            a, b = b, a
        k = ("a", a, b)
        v = self.h.get(k)
        if v is None:
            v = self.h[k] = self.new()
            self.cl += [(-v, a), (-v, b), (v, -a, -b)]
        return v

    def OR(self, a, b):
        return -self.AND(-a, -b)

    def XOR(self, a, b):
        if a == 1:
            return -b
        if a == -1:
            return b
        if b == 1:
            return -a
        if b == -1:
            return a
        if a == b:
            return -1
        if a == -b:
            return 1
        s = 1
        if a < 0:
            a, s = -a, -s
        if b < 0:
            b, s = -b, -s
        if a > b:
            a, b = b, a
        k = ("x", a, b)
        v = self.h.get(k)
        if v is None:
            v = self.h[k] = self.new()
            self.cl += [(-v, a, b), (-v, -a, -b), (v, -a, b), (v, a, -b)]
        return s * v

    def ITE(self, c, a, b):
        if c == 1:
            return a
        if c == -1:
            return b
        if a == b:
            return a
        if a == -b:
            return self.XOR(c, b)
        if c < 0:
            c, a, b = -c, b, a
        if a == 1 or a == c:
            return self.OR(c, b)
        if a == -1 or a == -c:
            return self.AND(-c, b)
        if b == 1 or b == -c:
            return self.OR(-c, a)
        if b == -1 or b == c:
            return self.AND(c, a)
        s = 1
        if b < 0:
            a, b, s = -a, -b, -1
        k = ("i", c, a, b)
        v = self.h.get(k)
        if v is None:
            v = self.h[k] = self.new()
            self.cl += [(-v, -c, a), (v, -c, -a), (-v, c, b), (v, c, -b), (-v, a, b), (v, -a, -b)]
        return s * v

    def MAJ(self, a, b, c):
        if a == b:
            return a
        if a == c:
            return a
        if b == c:
            return b
        if a == -b:
            return c
        if a == -c:
            return b
        if b == -c:
            return a
        for x, y, z in ((a, b, c), (b, a, c), (c, a, b)):
            if x == 1:
                return self.OR(y, z)
            if x == -1:
                return self.AND(y, z)
        l = sorted((a, b, c), key=abs)
        s = 1
        if sum(x < 0 for x in l) >= 2:
            l, s = [-x for x in l], -1
        k = ("m", *l)
        v = self.h.get(k)
        if v is None:
            v = self.h[k] = self.new()
            x, y, z = l
            self.cl += [(-v, x, y), (-v, x, z), (-v, y, z), (v, -x, -y), (v, -x, -z), (v, -y, -z)]
        return s * v

    def adder(self, a, b, c):
        out = []
        for x, y in zip(a, b):
            out.append(self.XOR(self.XOR(x, y), c))
            c = self.MAJ(x, y, c)
        return out, c

    def lt(self, a, b):
        """unsigned a < b"""
        r = -1
        for x, y in zip(a, b):
            # r' = (x==y)? r : y
            r = self.MAJ(-x, y, r)
        return r

    def mulbits(self, a, b, w):
        # carry-save accumulate rows
        acc = [-1] * w
        if sum(x in (1, -1) for x in a) > sum(x in (1, -1) for x in b):
            a, b = b, a
        for i, y in enumerate(b[:w]):
            if y == -1:
                continue
            row = [-1] * i + [self.AND(x, y) for x in a[: w - i]]
            row += [-1] * (w - len(row))
            acc, _ = self.adder(acc, row, -1)
        return acc

    def blast(self, roots):
        for n in t.topo(roots):
            if n in self.bits:
                continue
            op, w = n.op, n.w
            A = [self.bits[x] for x in n.args]
            if op == "const":
                r = [1 if n.k >> i & 1 else -1 for i in range(w)]
            elif op == "var":
                r = [self.new() for _ in range(w)]
                self.vars[n.k] = r
            elif op == "extract":
                r = A[0][n.k[1] : n.k[0] + 1]
            elif op == "concat":
                r = [b for x in reversed(A) for b in x]
            elif op == "sext":
                r = A[0] + [A[0][-1]] * (w - len(A[0]))
            elif op == "not":
                r = [-x for x in A[0]]
            elif op == "and":
                r = [self.AND(x, y) for x, y in zip(*A)]
            elif op == "or":
                r = [self.OR(x, y) for x, y in zip(*A)]
            elif op == "xor":
                r = [self.XOR(x, y) for x, y in zip(*A)]
            elif op == "ite":
                c = A[0][0]
                r = [self.ITE(c, x, y) for x, y in zip(A[1], A[2])]
            elif op == "add":
                r, _ = self.adder(A[0], A[1], -1)
            elif op == "sub":
                r, _ = self.adder(A[0], [-x for x in A[1]], 1)
            elif op == "mul":
                r = self.mulbits(A[0], A[1], w)
            elif op == "eq":
                v = 1
                for x, y in zip(*A):
                    v = self.AND(v, -self.XOR(x, y))
                r = [v]
            elif op == "ult":
                r = [self.lt(A[0], A[1])]
            elif op == "slt":
                a, b = list(A[0]), list(A[1])
                a[-1], b[-1] = -a[-1], -b[-1]
                r = [self.lt(a, b)]
            elif op in ("shl", "lshr", "ashr"):
                r = self.shift(op, A[0], A[1])
            elif op in ("udiv", "urem"):
                q, m = self.divide(A[0], A[1])
                key = ("q" if op == "udiv" else "r",)
                r = q if op == "udiv" else m
            elif op in ("sdiv", "srem"):
                sa, sb = A[0][-1], A[1][-1]
                neg = lambda x, s: [self.ITE(s, y, z) for y, z in zip(self.adder([-1] * w, [-k for k in x], 1)[0], x)]
                q, m = self.divide(neg(A[0], sa), neg(A[1], sb))
                r = neg(q, self.XOR(sa, sb)) if op == "sdiv" else neg(m, sa)
            else:
                raise ValueError("cannot bit-blast " + op)
            self.bits[n] = r
        return [self.bits[x] for x in roots]

    def shift(self, op, a, n):
        w = len(a)
        fill = a[-1] if op == "ashr" else -1
        k = (w - 1).bit_length()
        r = a
        for i in range(min(k, len(n))):
            m = 1 << i
            if op == "shl":
                s = ([-1] * m + r)[:w]
            else:
                s = (r[m:] + [fill] * m)[:w]
            r = [self.ITE(n[i], x, y) for x, y in zip(s, r)]
        ov = -1
        for b in n[k:]:
            ov = self.OR(ov, b)
        r = [self.ITE(ov, fill, x) for x in r]
        if w & (w - 1) and len(n) >= k:
            # amounts in [w, 2^k) already shift everything out
            pass
        return r

    def divide(self, a, b):
        key = ("div", tuple(a), tuple(b))
        if key in self.h:
            return self.h[key]
        w = len(a)
        rem = [-1] * w
        q = [-1] * w
        bx = list(b) + [-1]
        for i in range(w - 1, -1, -1):
            rem2 = [a[i]] + rem  # w+1 bits
            d, c = self.adder(rem2, [-x for x in bx], 1)
            q[i] = c  # no borrow
            rem = [self.ITE(c, x, y) for x, y in zip(d, rem2)][:w]
        self.h[key] = (q, rem)
        return q, rem

    def dimacs(self, asserts):
        cl = self.cl + [(a,) for a in asserts]
        return "p cnf %d %d\n" % (self.n, len(cl)) + "".join(" ".join(map(str, c)) + " 0\n" for c in cl)


def run_portfolio(jobs, timeout):
    """jobs: list of (tag, argv, parse) run concurrently; first definite answer wins"""
    procs = []
    t0 = time.time()
    for tag, argv, parse in jobs:
        f = tempfile.TemporaryFile()
        p = subprocess.Popen(argv, stdout=f, stderr=subprocess.DEVNULL, preexec_fn=os.setsid)
        procs.append((tag, p, f, parse))
    ans = ("unknown", None, None)
    try:
        live = list(procs)
        while live and time.time() - t0 < timeout:
            for e in list(live):
                tag, p, f, parse = e
                if p.poll() is not None:
                    live.remove(e)
                    f.seek(0)
                    r = parse(f.read().decode(errors="replace"))
                    if r[0] in ("sat", "unsat"):
                        return r[0], r[1], tag
            time.sleep(0.005 if time.time() - t0 < 1 else 0.05)
    finally:
        for _, p, f, _ in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
            f.close()
    return ans


def parse_smt(out):
    first = out.strip().split("\n", 1)[0].strip() if out.strip() else ""
    if "(error" in out and first not in ("sat", "unsat"):
        return "unknown", None
    if first == "unsat":
        return "unsat", None
    if first == "sat":
        m = {}
        for a, b in re.findall(r"\(define-fun \|?([^\s|]+)\|? \(\) \(_ BitVec \d+\)\s+(#[xb][0-9a-fA-F]+)\)", out):
            m[a] = int(b[2:], 16 if b[1] == "x" else 2)
        return "sat", m
    return "unknown", None


def parse_dimacs(cnf):
    def f(out):
        if "s UNSATISFIABLE" in out:
            return "unsat", None
        if "s SATISFIABLE" in out:
            val = set()
            for line in out.splitlines():
                if line.startswith("v "):
                    val.update(int(x) for x in line[2:].split())
            m = {}
            for k, bs in cnf.vars.items():
                v = 0
                for i, b in enumerate(bs):
                    if (b in val) if b > 0 else (-b not in val):
                        v |= 1 << i
                m[k] = v
            return "sat", m
        return "unknown", None

    return f


def solve(asserts, timeout=60, backends=("z3", "kissat"), lower=True, keep=frozenset(), dump=None):
    """is the conjunction of the width-1 terms satisfiable? -> (status, model, info)"""
    t0 = time.time()
    if lower:
        asserts = fpblast.lower(asserts, keep=keep)
    c = t.conj(asserts)
    STATS["queries"] += 1
    if t.isc(c):
        STATS["trivial"] += 1
        STATS["sat" if c.k else "unsat"] += 1
        STATS["by"]["simplifier"] = STATS["by"].get("simplifier", 0) + 1
        return ("sat", {}, "simplifier") if c.k else ("unsat", None, "simplifier")
    jobs = []
    d = tempfile.mkdtemp(dir=build.workdir())
    try:
        if any(b in ("z3", "cvc5") for b in backends):
            s = smtlib([c])
            with open(d + "/q.smt2", "w") as f:
                f.write(s + "(check-sat)\n(get-model)\n")
            if dump:
                shutil.copy(d + "/q.smt2", dump)
            if "z3" in backends:
                jobs.append(("z3", [Z3, "-T:%d" % (timeout + 1), d + "/q.smt2"], parse_smt))
            if "cvc5" in backends and CVC5:
                jobs.append(("cvc5", [CVC5, "--produce-models", "--tlimit=%d" % (1000 * timeout), d + "/q.smt2"], parse_smt))
        if any(b in ("kissat", "cadical") for b in backends):
            cnf = Cnf()
            try:
                [[r]] = cnf.blast([c])
            except ValueError:
                r = None
            if r == -1:
                jobs = []
                res = ("unsat", None, "aig")
                STATS["unsat"] += 1
                STATS["by"]["aig"] = STATS["by"].get("aig", 0) + 1
                return res
            if r is not None:
                with open(d + "/q.cnf", "w") as f:
                    f.write(cnf.dimacs([r]))
                if "kissat" in backends and KISSAT:
                    jobs.append(("kissat", [KISSAT, "-q", "--time=%d" % timeout, d + "/q.cnf"], parse_dimacs(cnf)))
                if "cadical" in backends and CADICAL:
                    jobs.append(("cadical", [CADICAL, "-q", "-t", str(timeout), d + "/q.cnf"], parse_dimacs(cnf)))
        r = run_portfolio(jobs, timeout)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        STATS["time"] += time.time() - t0
    STATS[r[0]] += 1
    if r[2]:
        STATS["by"][r[2]] = STATS["by"].get(r[2], 0) + 1
    return r
