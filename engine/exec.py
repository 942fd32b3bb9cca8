"""Symbolic execution of LLVM IR.

Two drivers share the instruction semantics:
  * `merge_run`  -- one pass over the control-flow graph, joining states with if-then-else (loops are unrolled
                    until the back edge's condition folds to false, or up to a stated bound);
  * `fork_run`   -- depth-first path enumeration; a path is extended only if the solver (FP arithmetic
                    uninterpreted) or a concrete witness says it may be feasible.
Panics, `unreachable`, out-of-bounds accesses and bounds overruns are reported as events with their condition.
"""
import heapq
import itertools

from . import term as t
from .ir import Unsupported, demangle, field_off, size_of
from .term import T


class Event:
    __slots__ = ("kind", "cond", "what")

    def __init__(self, kind, cond, what):
        self.kind, self.cond, self.what = kind, cond, what

    def __repr__(self):
        return f"{self.kind}:{self.what}"


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __repr__(self):
        return f"&{self.obj}+{self.off}"


class PIte:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Agg(tuple):
    pass


def val_ite(c, a, b):
    if a is b:
        return a
    if t.isc(c):
        return a if c.k else b
    if isinstance(a, T) and isinstance(b, T):
        return t.ite(c, a, b)
    if isinstance(a, Agg):
        return Agg(val_ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
        return Ptr(a.obj, t.ite(c, a.off, b.off))
    if isinstance(a, (Ptr, PIte)) and isinstance(b, (Ptr, PIte)):
        return PIte(c, a, b)
    if a is None:
        return b
    if b is None:
        return a
    raise Unsupported("merge of %r and %r" % (a, b))


NORETURN = ("panicking", "unwrap_failed", "expect_failed", "slice_", "_fail", "handle_alloc_error", "abort")


class Ctx:
    """what a run needs: module, stubs (demangled-name or exact-name -> python callable), limits"""

    def __init__(self, module, stubs=None, max_iter=None, solver=None):
        self.m = module
        self.stubs = stubs if stubs is not None else {}
        self.objc = itertools.count(1)
        self.sizes = {}
        self.ginit = {}
        self.events = []
        self.max_iter = max_iter  # per-loop-header unroll bound in merge mode
        self.encoded = set()
        self.loop_hook = None

    def new_obj(self, size, name):
        o = f"{name}#{next(self.objc)}"
        self.sizes[o] = size
        return o

    # ---- globals
    def global_bytes(self, name):
        o = "@" + name
        if o not in self.ginit:
            ty, v, const = self.m.global_init(name)
            cells = {}
            self.sizes[o] = size_of(ty)
            self._flatten(cells, 0, ty, v)
            self.ginit[o] = (cells, const)
        return o

    def _flatten(self, cells, off, ty, v):
        k = v[0] if v is not None else "undef"
        if k in ("zero", "undef", "null"):
            for i in range(size_of(ty)):
                cells[off + i] = (t.const(0, 8), 0)
        elif k == "str":
            for i, b in enumerate(v[1]):
                cells[off + i] = (t.const(b, 8), 0)
        elif k == "agg":
            if ty[0] == "s":
                for i, (et, ev) in enumerate(v[1]):
                    self._flatten(cells, off + field_off(ty, i), et, ev)
            else:
                es = size_of(ty[2])
                for i, (et, ev) in enumerate(v[1]):
                    self._flatten(cells, off + i * es, et, ev)
        elif k == "c":
            n = size_of(ty)
            c = t.const(v[1], n * 8)
            for i in range(n):
                cells[off + i] = (c, i)
        elif k in ("g", "gep", "inttoptr"):
            p = self.const_val(ty, v)
            for i in range(8):
                cells[off + i] = (p, i)
        else:
            raise Unsupported("global init " + k)

    def const_val(self, ty, v):
        k = v[0]
        if k == "c":
            w = ty[1]
            return t.const(v[1], w)
        if k == "undef" or k == "zero":
            return self.zero(ty)
        if k == "null":
            return Ptr(None, t.const(0, 64))
        if k == "g":
            n = v[1]
            if n in self.m.globals:
                return Ptr(self.global_bytes(n), t.const(0, 64))
            return Ptr("fn:" + n, t.const(0, 64))
        if k == "agg":
            return Agg(self.const_val(et, ev) for et, ev in v[1])
        if k == "gep":
            _, et, base, idx = v
            b = self.const_val(*base)
            return self.gep(et, b, [(it, self.const_val(it, iv)) for it, iv in idx])
        if k == "inttoptr":
            iv = self.const_val(*v[1])
            return Ptr(None, iv)
        raise Unsupported("constant " + str(v)[:80])

    def zero(self, ty):
        if ty[0] in ("i", "f"):
            return t.const(0, ty[1])
        if ty[0] == "p":
            return Ptr(None, t.const(0, 64))
        if ty[0] == "s":
            return Agg(self.zero(f) for f in ty[1])
        if ty[0] == "a":
            return Agg(self.zero(ty[2]) for _ in range(ty[1]))
        raise Unsupported("zero of " + str(ty))

    def gep(self, et, base, idx):
        if isinstance(base, PIte):
            return PIte(base.c, self.gep(et, base.a, idx), self.gep(et, base.b, idx))
        off = base.off
        ty = et
        for n, (it, iv) in enumerate(idx):
            if n == 0:
                sz = size_of(ty)
                off = t.add(off, t.mul(t.sext(iv, 64) if iv.w < 64 else iv, t.const(sz, 64)))
            elif ty[0] == "s":
                off = t.add(off, t.const(field_off(ty, iv.k), 64))
                ty = ty[1][iv.k]
            else:
                ty = ty[2]
                off = t.add(off, t.mul(t.sext(iv, 64) if iv.w < 64 else iv, t.const(size_of(ty), 64)))
        return Ptr(base.obj, off)

    # ---- memory
    def cells(self, mem, obj):
        c = mem.get(obj)
        if c is None:
            g = self.ginit.get(obj)
            if g is None:
                raise Unsupported(f"unknown object {obj}")
            c = g[0]
        return c

    def _gather(self, cells, off, n):
        first = cells.get(off)
        if first is None:
            bs = [None]
        else:
            src = first[0]
            if isinstance(src, (Ptr, PIte)):
                if n == 8 and all(cells.get(off + i, (0, 0)) == (src, i) for i in range(8)):
                    return src
                raise Unsupported("partial pointer load")
            if first[1] == 0 and isinstance(src, T) and src.w == 8 * n and all(cells.get(off + i) == (src, i) for i in range(1, n)):
                return src
            bs = [cells.get(off + i) for i in range(n)]
        if any(b is None for b in bs):
            bs = [cells.get(off + i) or (t.const(0, 8), 0) for i in range(n)]  # uninitialised: unused by defined programs
        parts = []
        for s, i in bs:
            if isinstance(s, (Ptr, PIte)):
                raise Unsupported("pointer bytes as integer")
            parts.append(t.extract(s, 8 * i + 7, 8 * i))
        return t.concat(*parts[::-1])

    def load(self, st, p, ty, pc):
        if isinstance(p, PIte):
            return val_ite(p.c, self.load(st, p.a, ty, t.band(pc, p.c)), self.load(st, p.b, ty, t.band(pc, t.bnot(p.c))))
        if ty[0] == "s":
            return Agg(self.load(st, Ptr(p.obj, t.add(p.off, t.const(field_off(ty, i), 64))), f, pc) for i, f in enumerate(ty[1]))
        if ty[0] == "a":
            es = size_of(ty[2])
            return Agg(self.load(st, Ptr(p.obj, t.add(p.off, t.const(i * es, 64))), ty[2], pc) for i in range(ty[1]))
        n = (ty[1] + 7) // 8 if ty[0] in ("i", "f") else 8
        w = ty[1] if ty[0] in ("i", "f") else 64
        if p.obj is None or p.obj not in self.sizes:
            self.event("oob", pc, f"load through invalid pointer {p}")
            return self.zero(ty)
        size = self.sizes[p.obj]
        cells = self.cells(st.mem, p.obj)
        if t.isc(p.off):
            o = p.off.k
            if o + n > size:
                self.event("oob", pc, f"load {n}@{o} of {p.obj}[{size}]")
                return self.zero(ty)
            v = self._gather(cells, o, n)
            if isinstance(v, T) and v.w != w:
                v = t.trunc(v, w)
            return v
        idx, stride, base = split_index(p.off, n)
        self.event("oob", t.band(pc, t.ult(t.const(size - n, 64), p.off)), f"load of {p.obj} at symbolic index")
        cnt = (size - n - base) // stride + 1
        vals = [self._gather(cells, base + i * stride, n) for i in range(cnt)]
        bits = max(1, (cnt - 1).bit_length())
        ix = t.trunc(idx, bits) if bits <= idx.w else t.zext(idx, bits)
        if all(isinstance(v, T) and t.isc(v) for v in vals):
            vals = [v.k for v in vals]
            vals += [vals[-1]] * ((1 << bits) - cnt)
            v = t.table(vals, ix, n * 8)
        else:
            v = vals[-1]
            for i in range(cnt - 2, -1, -1):
                v = val_ite(t.eq(ix, t.const(i, bits)), vals[i], v)
        if isinstance(v, T) and v.w != w:
            v = t.trunc(v, w)
        return v

    def store(self, st, p, ty, v, pc):
        if isinstance(p, PIte):
            for q, c in ((p.a, p.c), (p.b, t.bnot(p.c))):
                if isinstance(q, PIte):
                    raise Unsupported("nested pointer choice in store")
                old = self.load(st, q, ty, t.band(pc, c))
                self.store(st, q, ty, val_ite(c, v, old), t.band(pc, c))
            return
        if ty[0] == "s":
            for i, f in enumerate(ty[1]):
                self.store(st, Ptr(p.obj, t.add(p.off, t.const(field_off(ty, i), 64))), f, v[i], pc)
            return
        if ty[0] == "a":
            es = size_of(ty[2])
            for i in range(ty[1]):
                self.store(st, Ptr(p.obj, t.add(p.off, t.const(i * es, 64))), ty[2], v[i], pc)
            return
        if ty[0] in ("i", "f"):
            n = (ty[1] + 7) // 8
            if v.w != n * 8:
                v = t.zext(v, n * 8)
        else:
            n = 8
        if p.obj not in self.sizes:
            self.event("oob", pc, f"store through invalid pointer {p}")
            return
        size = self.sizes[p.obj]
        if p.obj.startswith("@"):
            g = self.ginit[p.obj]
            if g[1]:
                raise Unsupported("store to constant")
        cells = dict(self.cells(st.mem, p.obj))
        st.mem[p.obj] = cells
        if t.isc(p.off):
            o = p.off.k
            if o + n > size:
                self.event("oob", pc, f"store {n}@{o} of {p.obj}[{size}]")
                return
            for i in range(n):
                cells[o + i] = (v, i)
            return
        idx, stride, base = split_index(p.off, n)
        self.event("oob", t.band(pc, t.ult(t.const(size - n, 64), p.off)), f"store to {p.obj} at symbolic index")
        cnt = (size - n - base) // stride + 1
        for j in range(cnt):
            old = self._gather(cells, base + j * stride, n)
            nv = val_ite(t.eq(idx, t.const(j, idx.w)), v, old)
            for i in range(n):
                cells[base + j * stride + i] = (nv, i)

    def event(self, kind, cond, what):
        if t.isc(cond) and cond.k == 0:
            return
        self.events.append(Event(kind, cond, what))


def split_index(off, n):
    """off = base + stride*idx, with base a constant < stride"""
    base = 0
    o = off
    if o.op == "add" and t.isc(o.args[1]):
        pass
    # trailing constant part of a concat
    if o.op == "concat" and t.isc(o.args[-1]):
        lo = o.args[-1].w
        return t.extract(o, 63, lo), 1 << lo, o.args[-1].k
    if o.op == "mul" and t.isc(o.args[1]) and o.args[1].k % n == 0:
        return o.args[0], o.args[1].k, 0
    raise Unsupported("symbolic offset shape " + t.show(off, 3))


class State:
    __slots__ = ("mem", "env")

    def __init__(self, mem, env):
        self.mem, self.env = mem, env


_ICMP = {
    "eq": t.eq, "ne": t.ne, "ult": t.ult, "ule": t.ule, "ugt": t.ugt, "uge": t.uge,
    "slt": t.slt, "sle": t.sle, "sgt": t.sgt, "sge": t.sge,
}
_BIN = {
    "add": t.add, "sub": t.sub, "mul": t.mul, "udiv": t.udiv, "sdiv": t.sdiv, "urem": t.urem, "srem": t.srem,
    "shl": t.shl, "lshr": t.lshr, "ashr": t.ashr, "and": t.band, "or": t.bor, "xor": t.bxor,
    "fadd": t.fadd, "fsub": t.fsub, "fmul": t.fmul, "fdiv": t.fdiv,
}


def fcmp(pred, a, b):
    if pred == "true":
        return t.TRUE
    if pred == "false":
        return t.FALSE
    uno = lambda: t.bor(t.is_nan(a), t.is_nan(b))
    base = {
        "oeq": lambda: t.feq(a, b), "olt": lambda: t.flt(a, b), "ole": lambda: t.fle(a, b),
        "ogt": lambda: t.flt(b, a), "oge": lambda: t.fle(b, a), "ord": lambda: t.bnot(uno()), "uno": uno,
        "une": lambda: t.bnot(t.feq(a, b)), "uge": lambda: t.bnot(t.flt(a, b)), "ugt": lambda: t.bnot(t.fle(a, b)),
        "ule": lambda: t.bnot(t.flt(b, a)), "ult": lambda: t.bnot(t.fle(b, a)),
        "ueq": lambda: t.bor(uno(), t.feq(a, b)), "one": lambda: t.band(t.bnot(uno()), t.bnot(t.feq(a, b))),
    }
    return base[pred]()


def ovf(kind, signed, a, b):
    w = a.w
    if kind == "add":
        r = t.add(a, b)
        if not signed:
            o = t.ult(r, a)
        else:
            if t.isc(b):
                o = t.slt(r, a) if t.sx(b.k, w) >= 0 else t.slt(a, r)
            else:
                o = t.band(t.eq(t.msb(a), t.msb(b)), t.ne(t.msb(r), t.msb(a)))
        return r, o
    if kind == "sub":
        r = t.sub(a, b)
        if not signed:
            o = t.ult(a, b)
        else:
            o = t.band(t.ne(t.msb(a), t.msb(b)), t.ne(t.msb(r), t.msb(a)))
        return r, o
    r = t.mul(a, b)
    e = t.sext if signed else t.zext
    wide = t.mul(e(a, 2 * w), e(b, 2 * w))
    return r, t.ne(wide, e(r, 2 * w))


def intrinsic(ctx, st, name, args, rt, pc):
    """-> value, or NotImplemented"""
    p = name.split(".")
    base = p[1]
    if base in ("lifetime", "assume", "dbg", "experimental", "invariant", "donothing", "va_start"):
        return None
    if base == "fabs":
        return t.fabs(args[0])
    if base == "copysign":
        a, b = args
        return t.concat(t.msb(b), t.extract(a, a.w - 2, 0))
    if base in ("sadd", "uadd", "ssub", "usub", "smul", "umul") and p[2] == "with":
        r, o = ovf(base[1:], base[0] == "s", *args)
        return Agg((r, o))
    if base in ("fptosi", "fptoui"):
        return t.f2i(args[0], rt[1], base == "fptosi")
    if base == "ctlz":
        return t.ctlz(args[0])
    if base == "cttz":
        return t.cttz(args[0])
    if base == "ctpop":
        return t.ctpop(args[0])
    if base in ("umin", "umax", "smin", "smax"):
        a, b = args
        lt = (t.ult if base[0] == "u" else t.slt)(a, b)
        return t.ite(lt, a, b) if base.endswith("min") else t.ite(lt, b, a)
    if base in ("usub", "uadd", "ssub", "sadd") and p[2] == "sat":
        a, b = args
        r, o = ovf(base[1:], base[0] == "s", a, b)
        w = a.w
        if base == "usub":
            return t.ite(o, t.const(0, w), r)
        if base == "uadd":
            return t.ite(o, t.const(-1, w), r)
        return t.ite(o, t.ite(t.msb(a), t.const(1 << (w - 1), w), t.const((1 << (w - 1)) - 1, w)), r)
    if base in ("ucmp", "scmp"):
        a, b = args
        lt = t.ult if base[0] == "u" else t.slt
        w = rt[1]
        return t.ite(lt(a, b), t.const(-1, w), t.ite(t.eq(a, b), t.const(0, w), t.const(1, w)))
    if base in ("fshl", "fshr"):
        a, b, c = args
        w = a.w
        if t.isc(c):
            n = c.k % w
            cc = t.concat(a, b)
            if base == "fshl":
                return t.extract(cc, 2 * w - 1 - n, w - n) if n else a
            return t.extract(cc, w - 1 + n, n)
        if w & (w - 1):
            raise Unsupported("fshl width")
        n = t.zext(t.trunc(c, (w - 1).bit_length()), 2 * w)
        cc = t.concat(a, b)
        if base == "fshl":
            return t.extract(t.shl(cc, n), 2 * w - 1, w)
        return t.trunc(t.lshr(cc, n), w)
    if base == "abs":
        a = args[0]
        return t.ite(t.msb(a), t.neg(a), a)
    if base == "bitreverse":
        a = args[0]
        return t.concat(*[t.bit(a, i) for i in range(a.w)])
    if base == "bswap":
        a = args[0]
        return t.concat(*[t.extract(a, i + 7, i) for i in range(0, a.w, 8)])
    if base == "is":  # is.fpclass
        a, m = args[0], args[1].k
        eb, sb, _ = t.fparams(a.w)
        s = t.msb(a)
        r = t.FALSE
        nan, inf, zero = t.is_nan(a), t.is_inf(a), t.is_fzero(a)
        q = t.bit(a, sb - 1)
        sub = t.band(t.eq(t.fexp(a), t.const(0, eb)), t.bnot(zero))
        norm = t.band(t.ne(t.fexp(a), t.const(0, eb)), t.is_finite(a))
        ns, ps = s, t.bnot(s)
        cl = [t.band(nan, t.bnot(q)), t.band(nan, q), t.band(ns, inf), t.band(ns, norm), t.band(ns, sub), t.band(ns, zero),
              t.band(ps, zero), t.band(ps, sub), t.band(ps, norm), t.band(ps, inf)]
        for i, c in enumerate(cl):
            if m >> i & 1:
                r = t.bor(r, c)
        return r
    if base == "memset":
        p, v, n = args[:3]
        if not t.isc(n) or isinstance(p, PIte):
            raise Unsupported("memset")
        for i in range(n.k):
            ctx.store(st, Ptr(p.obj, t.add(p.off, t.const(i, 64))), ("i", 8), v, pc)
        return None
    if base in ("memcpy", "memmove"):
        d, s, n = args[:3]
        if not t.isc(n) or isinstance(d, PIte) or isinstance(s, PIte) or not t.isc(s.off) or not t.isc(d.off):
            raise Unsupported("memcpy")
        if s.obj not in ctx.sizes or d.obj not in ctx.sizes or s.off.k + n.k > ctx.sizes[s.obj] or d.off.k + n.k > ctx.sizes[d.obj]:
            if n.k:
                ctx.event("oob", pc, "memcpy out of bounds")
            return None
        src = ctx.cells(st.mem, s.obj)
        dst = dict(ctx.cells(st.mem, d.obj))
        for i in range(n.k):
            c = src.get(s.off.k + i)
            if c is None:
                dst.pop(d.off.k + i, None)
            else:
                dst[d.off.k + i] = c
        st.mem[d.obj] = dst
        return None
    if base == "sqrt":
        return t.fsqrt(args[0])
    if base == "fma":
        return t.ffma(*args)
    if base in ("ceil", "floor", "trunc", "rint", "nearbyint", "roundeven", "round"):
        mode = {"rint": "even", "nearbyint": "even", "roundeven": "even", "round": "away"}.get(base, base)
        return t.frint(args[0], mode)
    if base in ("minnum", "maxnum") or base in ("minimum", "maximum"):
        a, b = args
        lt = t.flt(a, b) if base.startswith("min") else t.flt(b, a)
        an, bn = t.is_nan(a), t.is_nan(b)
        if base.endswith("num"):
            # zero signs: either is allowed by LLVM; model the x86 lowering is out of scope -> keep choice symbolic
            ch = t.var(f"choice!{a.id}_{b.id}_{base}", 1)
            z = t.band(t.is_fzero(a), t.is_fzero(b))
            pick = t.ite(z, t.ite(ch, a, b), t.ite(lt, a, b))
            return t.ite(an, b, t.ite(bn, a, pick))
        raise Unsupported(name)
    raise Unsupported("intrinsic " + name)


class Done(Exception):
    pass


def operand(ctx, env, ty, v):
    if v[0] == "r":
        return env[v[1]]
    return ctx.const_val(ty, v)


def simple(ctx, st, ins, pc):
    """execute a non-control, non-call instruction"""
    op, dest = ins[0], ins[1]
    env = st.env
    if op in _BIN:
        a, b = operand(ctx, env, ins[2], ins[3]), operand(ctx, env, ins[2], ins[4])
        if op in ("sub", "and", "or") and not isinstance(a, T):
            raise Unsupported("pointer arithmetic")
        if op in ("udiv", "urem", "sdiv", "srem"):
            ctx.event("ub", t.band(pc, t.eq(b, t.const(0, b.w))), op + " by zero")
        r = _BIN[op](a, b)
    elif op == "icmp":
        a, b = operand(ctx, env, ins[2], ins[4]), operand(ctx, env, ins[2], ins[5])
        if not isinstance(a, T) or not isinstance(b, T):
            r = ptrcmp(ctx, ins[3], a, b)
        else:
            r = _ICMP[ins[3]](a, b)
    elif op == "fcmp":
        r = fcmp(ins[3], operand(ctx, env, ins[2], ins[4]), operand(ctx, env, ins[2], ins[5]))
    elif op == "select":
        c = operand(ctx, env, *ins[2])
        a, b = operand(ctx, env, *ins[3]), operand(ctx, env, *ins[4])
        r = val_ite(c, a, b)
    elif op in ("bitcast", "freeze"):
        r = operand(ctx, env, ins[2], ins[3])
    elif op == "fneg":
        r = t.fneg(operand(ctx, env, ins[2], ins[3]))
    elif op == "zext":
        r = t.zext(operand(ctx, env, ins[2], ins[3]), ins[4][1])
    elif op == "sext":
        r = t.sext(operand(ctx, env, ins[2], ins[3]), ins[4][1])
    elif op == "trunc":
        r = t.trunc(operand(ctx, env, ins[2], ins[3]), ins[4][1])
    elif op in ("fptrunc", "fpext"):
        r = t.fcvt(operand(ctx, env, ins[2], ins[3]), ins[4][1])
    elif op in ("sitofp", "uitofp"):
        r = t.i2f(operand(ctx, env, ins[2], ins[3]), ins[4][1], op == "sitofp")
    elif op in ("fptosi", "fptoui"):
        a = operand(ctx, env, ins[2], ins[3])
        r = t.f2i(a, ins[4][1], op == "fptosi")
    elif op == "getelementptr":
        b = operand(ctx, env, ("p",), ins[3])
        r = ctx.gep(ins[2], b, [(it, operand(ctx, env, it, iv)) for it, iv in ins[4]])
    elif op == "alloca":
        o = ctx.new_obj(ins[2], dest)
        st.mem[o] = {}
        r = Ptr(o, t.const(0, 64))
    elif op == "load":
        r = ctx.load(st, operand(ctx, env, ("p",), ins[3]), ins[2], pc)
    elif op == "store":
        ctx.store(st, operand(ctx, env, ("p",), ins[4]), ins[2], operand(ctx, env, ins[2], ins[3]), pc)
        return
    elif op == "extractvalue":
        r = operand(ctx, env, ins[2], ins[3])
        for i in ins[4]:
            r = r[i]
    elif op == "insertvalue":
        a = operand(ctx, env, ins[2], ins[3])
        e = operand(ctx, env, ins[4], ins[5])

        def ins_(x, idx):
            if not idx:
                return e
            l = list(x)
            l[idx[0]] = ins_(l[idx[0]], idx[1:])
            return Agg(l)

        r = ins_(a, ins[6])
    elif op == "ptrtoint":
        p = operand(ctx, env, ins[2], ins[3])
        if isinstance(p, PIte):
            raise Unsupported("ptrtoint")
        base = 0 if p.obj is None else 0x10000 + (sum(map(ord, p.obj)) << 20)
        r = t.add(p.off, t.const(base, 64))
        r = t.trunc(r, ins[4][1]) if ins[4][1] < 64 else r
    elif op == "inttoptr":
        r = Ptr(None, operand(ctx, env, ins[2], ins[3]))
    else:
        raise Unsupported("op " + op)
    env[dest] = r


def ptrcmp(ctx, pred, a, b):
    if isinstance(a, PIte):
        return t.ite(a.c, ptrcmp(ctx, pred, a.a, b), ptrcmp(ctx, pred, a.b, b))
    if isinstance(b, PIte):
        return t.ite(b.c, ptrcmp(ctx, pred, a, b.a), ptrcmp(ctx, pred, a, b.b))
    if a.obj == b.obj:
        return _ICMP[pred](a.off, b.off)
    if pred == "eq":
        return t.FALSE
    if pred == "ne":
        return t.TRUE
    raise Unsupported("pointer order")


def call_target(ctx, ins, env):
    callee = ins[3]
    if callee[0] == "asm":
        return callee
    if callee[0] == "r":
        p = env[callee[1]]
        if isinstance(p, Ptr) and p.obj and p.obj.startswith("fn:"):
            return ("g", p.obj[3:])
        raise Unsupported("indirect call")
    return callee


def asm_value(asm, args):
    a = asm.split()
    if a and a[0] in ("sqrtsd", "sqrtss"):
        return t.fsqrt(args[0])
    raise Unsupported("inline asm " + asm)


# ------------------------------------------------------------------------------------------ merging driver
class Bound(Exception):
    pass


def merge_call(ctx, fname, args, mem, pc, depth=0):
    """-> (return value, mem, pc of normal return)"""
    stub = ctx.stubs.get(fname) or ctx.stubs.get(demangle(fname))
    if stub is not None:
        return stub(ctx, args, mem, pc)
    f = ctx.m.find(fname)
    if f is None:
        raise Unsupported("no body for " + demangle(fname))
    ctx.encoded.add(demangle(f.name))
    blocks = f.blocks
    rpo, live = f.loop_rpo(), f.live_in()
    env0 = {n: a for (ty, n), a in zip(f.params, args)}
    heap, pend = [], {}
    seq = itertools.count()
    visits = {}

    def push(b, frm, st, cond):
        if t.isc(cond) and cond.k == 0:
            return
        # evaluate phis on the edge
        env = {n: st.env[n] for n in live[b] if n in st.env}
        for ins in blocks[b]:
            if ins[0] != "phi":
                break
            for pb, v in ins[3]:
                if pb == frm:
                    env[ins[1]] = operand(ctx, st.env, ins[2], v)
                    break
            else:
                raise Unsupported("phi without edge")
        if b in pend:
            c0, s0 = pend[b]
            pend[b] = (t.bor(c0, cond), merge_state(cond, env, st.mem, c0, s0))
        else:
            pend[b] = (cond, State(dict(st.mem), env))
            heapq.heappush(heap, (rpo[b], next(seq), b))

    rets = []
    push(f.entry, None, State(mem, env0), pc)
    while heap:
        _, _, b = heapq.heappop(heap)
        cond, st = pend.pop(b)
        visits[b] = visits.get(b, 0) + 1
        if ctx.max_iter is not None and visits[b] > ctx.max_iter:
            ctx.event("bound", cond, f"{demangle(fname)}:{b} visited more than {ctx.max_iter} times")
            continue
        if ctx.feasible is not None and visits[b] > 1 and not ctx.feasible(cond):
            continue
        dead = False
        for ins in blocks[b]:
            op = ins[0]
            if op == "phi":
                continue
            if op == "call":
                r, cond2 = do_call(ctx, st, ins, cond, depth)
                if cond2 is None:
                    dead = True
                    break
                cond = cond2
                if ins[1] is not None:
                    st.env[ins[1]] = r
                continue
            if op == "br":
                push(ins[2], b, st, cond)
                break
            if op == "condbr":
                c = operand(ctx, st.env, *ins[2])
                push(ins[3], b, st, t.band(cond, c))
                push(ins[4], b, st, t.band(cond, t.bnot(c)))
                break
            if op == "switch":
                v = operand(ctx, st.env, ins[2], ins[3])
                rest = t.TRUE
                groups = {}
                for cv, lb in ins[5]:
                    e = t.eq(v, t.const(cv, v.w))
                    groups[lb] = t.bor(groups.get(lb, t.FALSE), e)
                    rest = t.band(rest, t.bnot(e))
                groups[ins[4]] = t.bor(groups.get(ins[4], t.FALSE), rest)
                for lb, e in groups.items():
                    push(lb, b, st, t.band(cond, e))
                break
            if op == "ret":
                v = operand(ctx, st.env, ins[2], ins[3]) if ins[2] is not None else None
                rets.append((cond, v, st.mem))
                break
            if op == "unreachable":
                ctx.event("unreachable", cond, demangle(fname) + ":" + b)
                break
            simple(ctx, st, ins, cond)
        if dead:
            continue
    if not rets:
        return None, mem, t.FALSE
    c, v, m = rets[0]
    for c2, v2, m2 in rets[1:]:
        v = val_ite(c2, v2, v) if v2 is not None else None
        m = merge_mem(c2, m2, m)
        c = t.bor(c, c2)
    return v, m, c


Ctx.feasible = None


def merge_mem(c, ma, mb):
    """values of ma where c holds, else mb"""
    if ma is mb:
        return ma
    out = {}
    for o in set(ma) | set(mb):
        a, b = ma.get(o), mb.get(o)
        if a is b:
            out[o] = a
            continue
        if a is None or b is None:
            out[o] = a if b is None else b
            continue
        r = {}
        done = {}
        for off in set(a) | set(b):
            x, y = a.get(off), b.get(off)
            if x is None or y is None or x == y:
                r[off] = x if y is None else y
                continue
            (xs, xi), (ys, yi) = x, y
            if xi == yi and isinstance(xs, T) and isinstance(ys, T) and xs.w == ys.w or not isinstance(xs, T) and not isinstance(ys, T):
                key = (id(xs), id(ys))
                if key not in done:
                    done[key] = val_ite(c, xs, ys)
                r[off] = (done[key], xi)
            else:
                r[off] = (t.ite(c, t.extract(xs, 8 * xi + 7, 8 * xi), t.extract(ys, 8 * yi + 7, 8 * yi)), 0)
        out[o] = r
    return out


def merge_state(cond, env, mem, c0, s0):
    ne = {}
    for n in set(env) & set(s0.env):
        ne[n] = val_ite(cond, env[n], s0.env[n])
    for n in set(env) ^ set(s0.env):
        ne[n] = env.get(n, s0.env.get(n))
    return State(merge_mem(cond, mem, s0.mem), ne)


def do_call(ctx, st, ins, pc, depth):
    callee = call_target(ctx, ins, st.env)
    args = [operand(ctx, st.env, ty, v) if ty[0] != "meta" else None for ty, v in ins[4]]
    if callee[0] == "asm":
        return asm_value(callee[1], args), pc
    n = callee[1]
    if n.startswith("llvm."):
        return intrinsic(ctx, st, n, args, ins[2], pc), pc
    stub = ctx.stubs.get(n) or ctx.stubs.get(demangle(n))
    dm = demangle(n)
    if stub is None and is_panic(ctx, n):
        ctx.event("panic", pc, dm)
        return None, None
    if depth > 40:
        raise Unsupported("call depth")
    if n in ctx.stack:
        # recursion: stop where the solver shows that the call cannot happen
        if infeasible(pc):
            return None, None
        if ctx.stack.count(n) > 8:
            ctx.event("bound", pc, "recursion of " + dm)
            return None, None
    ctx.stack.append(n)
    v, mem, c = merge_call(ctx, n, args, st.mem, pc, depth + 1)
    ctx.stack.pop()
    st.mem = dict(mem)
    if t.isc(c) and c.k == 0:
        return None, None
    return v, c


def infeasible(pc, timeout=20):
    from . import smt

    return smt.solve([pc], timeout, ("kissat", "z3"))[0] == "unsat"


def is_panic(ctx, n):
    dm = demangle(n)
    if dm.startswith("core::") or dm.startswith("std::"):
        if any(x in dm for x in NORETURN):
            return True
    return False


def run_wrapper(ctx, name, args, pc=t.TRUE):
    """call harness wrapper w_<name>; -> (out1 reader, cond)"""
    out = ctx.new_obj(32, "out")
    mem = {out: {}}
    v, mem, c = merge_call(ctx, name, [*args, Ptr(out, t.const(0, 64))], mem, pc)
    return mem[out], c


def encode(module, name, args, rets, stubs=None, max_iter=None, prefix="w_", pc=t.TRUE, feasible=None, fn=None):
    """merge-mode encoding of a public function -> (result terms, return condition, events, ctx)"""
    ctx = Ctx(module, stubs, max_iter)
    ctx.feasible = feasible
    ctx.stack = []
    cells, c = run_wrapper(ctx, prefix + name, args, pc)
    st = State({}, {})
    from .api import width

    res = []
    for i, k in enumerate(rets):
        w = width(k)
        res.append(ctx._gather(cells, 16 * i, w // 8))
    return res, c, ctx.events, ctx
