"""Parser for the textual LLVM IR that rustc emits (LLVM 20 syntax).

Functions are parsed lazily.  Only what rustc produces for this crate is supported; anything else raises
`Unsupported`, which a check reports as "no answer" rather than passing over it.
"""
import re


class Unsupported(Exception):
    pass


TOK = re.compile(
    r'%"(?:[^"])*"|%[\w.$\-]+|@"(?:[^"])*"|@[\w.$\-]+|c"(?:[^"])*"|"(?:[^"])*"|![\w.]*|\#\d+'
    r"|0x[HLKMR]?[0-9A-Fa-f]+|[-+]?\d+\.\d*(?:e[+-]?\d+)?|-?\d+|[A-Za-z_][\w.]*|\.\.\.|[<>{}()\[\],=*:|]"
)

FW = {"half": 16, "float": 32, "double": 64, "fp128": 128}


def int_ty(w):
    return ("i", w)


PTR = ("p",)


class Toks:
    __slots__ = ("t", "i")

    def __init__(self, s):
        self.t = TOK.findall(s)
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ""

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        v = self.next()
        if v != x:
            raise Unsupported(f"expected {x} got {v} in {' '.join(self.t)[:200]}")


def is_type_start(t):
    return (
        t in FW or t in ("ptr", "void", "metadata", "{", "[", "<", "label") or (len(t) > 1 and t[0] == "i" and t[1:].isdigit())
    )


def parse_type(k):
    t = k.next()
    if t in FW:
        return ("f", FW[t])
    if t == "ptr":
        if k.peek() == "addrspace":
            raise Unsupported("addrspace")
        return PTR
    if t == "void":
        return ("v",)
    if t == "label":
        return ("label",)
    if t == "metadata":
        return ("meta",)
    if t[0] == "i" and t[1:].isdigit():
        return ("i", int(t[1:]))
    if t == "{":
        fs = []
        if not k.eat("}"):
            while True:
                fs.append(parse_type(k))
                if k.eat("}"):
                    break
                k.expect(",")
        return ("s", tuple(fs), False)
    if t == "[":
        n = int(k.next())
        k.expect("x")
        e = parse_type(k)
        k.expect("]")
        return ("a", n, e)
    if t == "<":
        if k.eat("{"):
            fs = []
            if not k.eat("}"):
                while True:
                    fs.append(parse_type(k))
                    if k.eat("}"):
                        break
                    k.expect(",")
            k.expect(">")
            return ("s", tuple(fs), True)
        n = int(k.next())
        k.expect("x")
        e = parse_type(k)
        k.expect(">")
        return ("vec", n, e)
    raise Unsupported("type " + t)


def align_of(t):
    if t[0] == "i":
        b = (t[1] + 7) // 8
        p = 1
        while p < b:
            p *= 2
        return min(p, 16)
    if t[0] == "f":
        return t[1] // 8
    if t[0] == "p":
        return 8
    if t[0] == "a":
        return align_of(t[2])
    if t[0] == "s":
        return 1 if t[2] else max([align_of(f) for f in t[1]] or [1])
    if t[0] == "vec":
        return size_of(t)
    raise Unsupported("align " + str(t))


def size_of(t):
    """allocation size in bytes"""
    if t[0] == "i":
        b = (t[1] + 7) // 8
        a = align_of(t)
        return (b + a - 1) // a * a
    if t[0] == "f":
        return t[1] // 8
    if t[0] == "p":
        return 8
    if t[0] == "a":
        return t[1] * size_of(t[2])
    if t[0] == "s":
        o = 0
        for f in t[1]:
            if not t[2]:
                a = align_of(f)
                o = (o + a - 1) // a * a
            o += size_of(f)
        if not t[2]:
            a = align_of(t)
            o = (o + a - 1) // a * a
        return o
    if t[0] == "vec":
        return t[1] * size_of(t[2])
    raise Unsupported("size " + str(t))


def field_off(t, i):
    o = 0
    for j, f in enumerate(t[1]):
        if not t[2]:
            a = align_of(f)
            o = (o + a - 1) // a * a
        if j == i:
            return o
        o += size_of(f)
    raise Unsupported("field")


def _name(t):
    """strip sigil and quotes"""
    n = t[1:]
    return n[1:-1] if n.startswith('"') else n


ATTR_PAREN = {"dereferenceable", "dereferenceable_or_null", "range", "sret", "byval", "captures", "initializes", "nofpclass", "memory", "elementtype", "align", "allocsize"}


def skip_attrs(k):
    """skip parameter/return attributes"""
    while True:
        t = k.peek()
        if t == "align":
            k.next()
            if not k.eat("("):
                k.next()
            else:
                k.next()
                k.expect(")")
            continue
        if t and (t[0].isalpha() or t[0] == '"') and not t.startswith('c"') and not is_type_start(t) and t[0] not in "%@":
            if t in ("null", "undef", "poison", "zeroinitializer", "true", "false", "getelementptr", "inttoptr", "ptrtoint", "bitcast", "asm"):
                return
            k.next()
            if t[0] == '"' and k.eat("="):
                k.next()
            if k.peek() == "(" and t in ATTR_PAREN:
                skip_parens(k)
            continue
        return


def skip_parens(k):
    d = 0
    while True:
        t = k.next()
        if t == "(":
            d += 1
        elif t == ")":
            d -= 1
            if d == 0:
                return


def float_const(tok, w):
    """bit pattern of an LLVM float literal"""
    import struct
    from fractions import Fraction

    if tok.startswith("0xH"):
        return int(tok[3:], 16)
    if tok.startswith("0xL"):
        h = tok[3:].rjust(32, "0")
        return int(h[:16], 16) | (int(h[16:], 16) << 64)
    if tok.startswith("0x"):
        v = int(tok[2:], 16)
        if w == 64:
            return v
        if w == 32:
            from . import softfp as S

            r = S.convert(64, v, 32)
            if S.is_nan(64, v):
                # keep sign and payload
                return ((v >> 63) << 31) | 0x7F800000 | ((v >> 29) & 0x7FFFFF)
            return r
        raise Unsupported("float literal " + tok)
    d = struct.unpack("<Q", struct.pack("<d", float(tok)))[0]
    if w == 64:
        return d
    from . import softfp as S

    return S.convert(64, d, w)


def cstring(tok):
    s = tok[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\" and s[i + 1] == "\\":
            out.append(92)
            i += 2
        elif s[i] == "\\":
            out.append(int(s[i + 1 : i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


# operand forms: ("r", name) local; ("g", name) global; ("c", int) ; ("agg", [..]); ("undef",) ; ("zero",); ("null",)
# ("gep", ty, base, idx list) constant expression; ("str", bytes)
def parse_value(k, ty):
    t = k.next()
    if t[0] == "%":
        return ("r", _name(t))
    if t[0] == "@":
        return ("g", _name(t))
    if t == "true":
        return ("c", 1)
    if t == "false":
        return ("c", 0)
    if t in ("undef", "poison"):
        return ("undef",)
    if t == "null":
        return ("null",)
    if t == "zeroinitializer":
        return ("zero",)
    if t.startswith('c"'):
        return ("str", cstring(t))
    if t == "getelementptr":
        while k.peek() != "(":
            k.next()
        k.expect("(")
        et = parse_type(k)
        k.expect(",")
        base = parse_tv(k)
        idx = []
        while k.eat(","):
            k.eat("inrange")
            idx.append(parse_tv(k))
        k.expect(")")
        return ("gep", et, base, idx)
    if t in ("inttoptr", "ptrtoint"):
        k.expect("(")
        v = parse_tv(k)
        k.expect("to")
        ty2 = parse_type(k)
        k.expect(")")
        return (t, v, ty2)
    if t in ("{", "["):
        end = "}" if t == "{" else "]"
        vs = []
        if not k.eat(end):
            while True:
                vs.append(parse_tv(k))
                if k.eat(end):
                    break
                k.expect(",")
        return ("agg", vs)
    if t == "<":
        br = k.eat("{")
        vs = []
        end = "}" if br else ">"
        while not k.eat(end):
            vs.append(parse_tv(k))
            k.eat(",")
        if br:
            k.expect(">")
        return ("agg", vs)
    if ty[0] == "f":
        return ("c", float_const(t, ty[1]))
    if ty[0] == "i":
        return ("c", int(t))
    raise Unsupported(f"value {t} of type {ty}")


def parse_tv(k):
    ty = parse_type(k)
    skip_attrs(k)
    return ty, parse_value(k, ty)


FLAGS = {"nuw", "nsw", "exact", "nneg", "disjoint", "samesign", "inbounds", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "volatile", "nusw"}
FASTMATH = {"fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"}

BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint", "inttoptr", "bitcast"}


def flags(k):
    while k.peek() in FLAGS:
        f = k.next()
        if f in FASTMATH:
            raise Unsupported("fast-math flag " + f)


def parse_instr(line):
    k = Toks(line)
    dest = None
    if k.peek() and k.peek()[0] == "%" and k.peek(1) == "=":
        dest = _name(k.next())
        k.next()
    op = k.next()
    if op in ("tail", "musttail", "notail"):
        op = k.next()
    if op in BIN:
        flags(k)
        ty = parse_type(k)
        a = parse_value(k, ty)
        k.expect(",")
        b = parse_value(k, ty)
        return (op, dest, ty, a, b)
    if op == "fneg":
        flags(k)
        ty, a = parse_tv(k)
        return (op, dest, ty, a)
    if op in ("icmp", "fcmp"):
        flags(k)
        pred = k.next()
        ty = parse_type(k)
        a = parse_value(k, ty)
        k.expect(",")
        b = parse_value(k, ty)
        return (op, dest, ty, pred, a, b)
    if op in CAST:
        flags(k)
        ty, a = parse_tv(k)
        k.expect("to")
        t2 = parse_type(k)
        return (op, dest, ty, a, t2)
    if op == "select":
        flags(k)
        c = parse_tv(k)
        k.expect(",")
        a = parse_tv(k)
        k.expect(",")
        b = parse_tv(k)
        return (op, dest, c, a, b)
    if op == "freeze":
        ty, a = parse_tv(k)
        return (op, dest, ty, a)
    if op == "phi":
        flags(k)
        ty = parse_type(k)
        inc = []
        while True:
            k.expect("[")
            v = parse_value(k, ty)
            k.expect(",")
            b = _name(k.next())
            k.expect("]")
            inc.append((b, v))
            if not k.eat(","):
                break
        return (op, dest, ty, inc)
    if op == "br":
        if k.eat("label"):
            return (op, None, _name(k.next()))
        ty, c = parse_tv(k)
        k.expect(",")
        k.expect("label")
        a = _name(k.next())
        k.expect(",")
        k.expect("label")
        b = _name(k.next())
        return ("condbr", None, (ty, c), a, b)
    if op == "switch":
        ty, v = parse_tv(k)
        k.expect(",")
        k.expect("label")
        d = _name(k.next())
        k.expect("[")
        cases = []
        while not k.eat("]"):
            ct, cv = parse_tv(k)
            k.expect(",")
            k.expect("label")
            cases.append((cv[1], _name(k.next())))
        return (op, None, ty, v, d, cases)
    if op == "ret":
        if k.eat("void"):
            return (op, None, None, None)
        ty, v = parse_tv(k)
        return (op, None, ty, v)
    if op == "unreachable":
        return (op, None)
    if op == "alloca":
        ty = parse_type(k)
        return (op, dest, size_of(ty))
    if op == "load":
        flags(k)
        ty = parse_type(k)
        k.expect(",")
        pt, p = parse_tv(k)
        return (op, dest, ty, p)
    if op == "store":
        flags(k)
        ty, v = parse_tv(k)
        k.expect(",")
        pt, p = parse_tv(k)
        return (op, None, ty, v, p)
    if op == "getelementptr":
        while k.peek() in ("inbounds", "nuw", "nusw"):
            k.next()
        et = parse_type(k)
        k.expect(",")
        base = parse_tv(k)
        idx = []
        while k.eat(","):
            if k.peek().startswith("!"):
                break
            idx.append(parse_tv(k))
        return (op, dest, et, base[1], idx)
    if op == "extractvalue":
        ty, v = parse_tv(k)
        idx = []
        while k.eat(","):
            if k.peek().startswith("!"):
                break
            idx.append(int(k.next()))
        return (op, dest, ty, v, idx)
    if op == "insertvalue":
        ty, v = parse_tv(k)
        k.expect(",")
        et, e = parse_tv(k)
        idx = []
        while k.eat(","):
            if k.peek().startswith("!"):
                break
            idx.append(int(k.next()))
        return (op, dest, ty, v, et, e, idx)
    if op == "call":
        flags(k)
        while k.peek() in ("fastcc", "coldcc", "ccc"):
            k.next()
        skip_attrs(k)
        rt = parse_type(k)
        if k.peek() == "(":  # function type in varargs calls
            skip_parens(k)
        if k.peek() == "asm":
            k.next()
            while not k.peek().startswith('"'):
                k.next()
            asm = k.next()[1:-1]
            k.expect(",")
            cons = k.next()[1:-1]
            callee = ("asm", asm, cons)
        else:
            t = k.next()
            callee = ("g", _name(t)) if t[0] == "@" else ("r", _name(t))
        k.expect("(")
        args = []
        if not k.eat(")"):
            while True:
                ty = parse_type(k)
                skip_attrs(k)
                if ty[0] == "meta":
                    while k.peek() not in (",", ")"):
                        k.next()
                    args.append((ty, ("undef",)))
                else:
                    args.append((ty, parse_value(k, ty)))
                if k.eat(")"):
                    break
                k.expect(",")
        return (op, dest, rt, callee, args)
    raise Unsupported("instruction " + line[:120])


class Function:
    __slots__ = ("name", "params", "ret", "lines", "_blocks", "_rpo", "_live", "entry", "_preds")

    def __init__(self, name, ret, params, lines):
        self.name, self.ret, self.params, self.lines = name, ret, params, lines
        self._blocks = None
        self._rpo = None
        self._live = None

    @property
    def blocks(self):
        if self._blocks is None:
            self._parse()
        return self._blocks

    def _parse(self):
        bl, cur, name = {}, None, None
        lines, i = self.lines, 0
        self.entry = None
        while i < len(lines):
            s = lines[i].strip()
            i += 1
            if not s or s[0] == ";":
                continue
            m = re.match(r'^("[^"]*"|[\w.$\-]+):', lines[i - 1])
            if m and not lines[i - 1].startswith(" "):
                name = m.group(1).strip('"')
                cur = bl[name] = []
                if self.entry is None:
                    self.entry = name
                continue
            if s.startswith("switch") and "]" not in s.split("[", 1)[-1]:
                while True:
                    n = lines[i].strip()
                    i += 1
                    s += " " + n
                    if n.startswith("]"):
                        break
            if cur is None:
                self.entry = name = "%entry"
                cur = bl[name] = []
            # strip comments / metadata suffix
            s = s.split(" ;", 1)[0] if " ;" in s and '"' not in s else s
            s = re.sub(r"(, ![\w.]+ ![\w.]+)+$", "", s)
            cur.append(parse_instr(s))
        self._blocks = bl

    def succs(self, b):
        t = self.blocks[b][-1]
        if t[0] == "br":
            return [t[2]]
        if t[0] == "condbr":
            return [t[3], t[4]]
        if t[0] == "switch":
            return list(dict.fromkeys([t[4]] + [c[1] for c in t[5]]))
        return []

    def loop_rpo(self):
        """block -> priority; blocks of a loop are contiguous and precede the loop's exits"""
        if self._rpo is None:
            self.blocks
            self._rpo = {b: i for i, b in enumerate(self._layout())}
        return self._rpo

    def _layout(self):
        # weak topological order (Bourdoncle)
        succ = {b: self.succs(b) for b in self.blocks}
        import sys

        sys.setrecursionlimit(100000)
        dfn, num, stack, part = {}, [0], [], []
        INF = 10**9

        def component(v):
            p = []
            for w in succ[v]:
                if dfn.get(w, 0) == 0:
                    visit(w, p)
            p.insert(0, v)
            return p

        def visit(v, p):
            stack.append(v)
            num[0] += 1
            dfn[v] = num[0]
            head, loop = dfn[v], False
            for w in succ[v]:
                m = visit(w, p) if dfn.get(w, 0) == 0 else dfn[w]
                if m <= head:
                    head, loop = m, True
            if head == dfn[v]:
                dfn[v] = INF
                e = stack.pop()
                if loop:
                    while e != v:
                        dfn[e] = 0
                        e = stack.pop()
                    p.insert(0, component(v))
                else:
                    p.insert(0, v)
            return head

        visit(self.entry, part)

        def flat(p):
            for x in p:
                if isinstance(x, list):
                    yield from flat(x)
                else:
                    yield x

        return list(flat(part))

    def uses_of(self, ins):
        out = []

        def val(v):
            if isinstance(v, tuple) and v:
                if v[0] == "r" and len(v) == 2 and isinstance(v[1], str):
                    out.append(v[1])
                else:
                    for x in v:
                        if isinstance(x, (tuple, list)):
                            val(x)
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, (tuple, list)):
                        val(x)

        if ins[0] == "phi":
            return out
        val(ins[2:])
        return out

    def live_in(self):
        """block -> set of SSA names live on entry (phi operands excluded: they are read on the edge)"""
        if self._live is None:
            blocks = self.blocks
            use, dfs_, phiuse = {}, {}, {b: set() for b in blocks}
            for b, ins in blocks.items():
                u, d = set(), set()
                for x in ins:
                    if x[0] == "phi":
                        for pb, v in x[3]:
                            if v[0] == "r" and pb in phiuse:
                                phiuse[pb].add(v[1])
                    else:
                        for n in self.uses_of(x):
                            if n not in d:
                                u.add(n)
                    if x[1] is not None:
                        d.add(x[1])
                use[b], dfs_[b] = u, d
            live = {b: set() for b in blocks}
            ch = True
            order = list(blocks)[::-1]
            while ch:
                ch = False
                for b in order:
                    out = set(phiuse[b])
                    for s in self.succs(b):
                        out |= live[s]
                    # phi destinations are defined at the head
                    n = use[b] | (out - dfs_[b])
                    if n != live[b]:
                        live[b] = n
                        ch = True
            # remove phi dests from live-in
            for b, ins in blocks.items():
                live[b] -= {x[1] for x in ins if x[0] == "phi"}
            self._live = live
        return self._live


class Module:
    def __init__(self):
        self.funcs, self.globals, self.decls, self.alias = {}, {}, {}, {}

    def load(self, path):
        with open(path) as f:
            lines = f.read().split("\n")
        i = 0
        while i < len(lines):
            s = lines[i]
            if s.startswith("define"):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                fn = self._define(s, lines[i + 1 : j])
                self.funcs[fn.name] = fn
                i = j
            elif s.startswith("@"):
                self._global(s)
            i += 1
        return self

    def _define(self, head, body):
        m = re.search(r' (@"[^"]*"|@[\w.$\-]+)\(', head)
        name = _name(m.group(1))
        k = Toks(head[: m.start()])
        # return type: last type before the name
        rt = None
        while k.i < len(k.t):
            t = k.peek()
            if is_type_start(t) and k.t[k.i - 1] not in ("(",):
                try:
                    rt = parse_type(k)
                    continue
                except Unsupported:
                    pass
            if t == "(":
                skip_parens(k)
                continue
            k.next()
        k = Toks(head[m.end() - 1 :])
        k.expect("(")
        params = []
        if not k.eat(")"):
            while True:
                ty = parse_type(k)
                skip_attrs(k)
                params.append((ty, _name(k.next())))
                if k.eat(")"):
                    break
                k.expect(",")
        return Function(name, rt, params, body)

    def _global(self, s):
        m = re.match(r'^(@"[^"]*"|@[\w.$\-]+) = (.*)$', s)
        name, rest = _name(m.group(1)), m.group(2)
        if " alias " in " " + rest.split("{")[0]:
            k = Toks(rest)
            self.alias[name] = _name([t for t in k.t if t[0] == "@"][-1])
            return
        self.globals[name] = rest  # parsed on demand

    def global_init(self, name):
        g = self.globals[name]
        if isinstance(g, str):
            k = Toks(g)
            while k.peek() not in ("constant", "global"):
                k.next()
            const = k.next() == "constant"
            ty = parse_type(k)
            v = parse_value(k, ty) if k.peek() and not k.peek() == "," else None
            g = self.globals[name] = (ty, v, const)
        return g

    def find(self, name):
        return self.funcs.get(self.alias.get(name, name))


def demangle(n):
    """legacy mangling -> path string without the hash"""
    if not n.startswith("_ZN"):
        return n
    i, out = 3, []
    while i < len(n) and n[i].isdigit():
        j = i
        while n[j].isdigit():
            j += 1
        ln = int(n[i:j])
        out.append(n[j : j + ln])
        i = j + ln
    if out and re.match(r"h[0-9a-f]{16}$", out[-1]):
        out.pop()
    return "::".join(out)
