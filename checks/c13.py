"""C13: functions that compute the same thing agree bit for bit."""
from common import *


def allsame(pairs):
    return t.conj([same(a, b) for a, b in pairs])


def numeq(a, b):
    return t.bor(t.feq(a, b), t.band(t.is_nan(a), t.is_nan(b)))


HELPER = """acos acosh asin asinh atan atan2 atanh cbrt ceil copysign cos cosh erf erfc exp exp10 exp2 expm1 fabs fdim floor fma fmax
fmin fmod frexp hypot ilogb j0 j1 jn ldexp lgamma lgamma_r log log10 log1p log2 modf nextafter pow remainder remquo rint round
scalbn sin sincos sinh sqrt tan tanh tgamma trunc y0 y1 yn""".split()
HELPER16 = {"f16": "ceil copysign fabs fdim floor fmax fmin fminimum fminimum_num fmaximum_num fmod ldexp rint round roundeven scalbn",
            "f128": "ceil copysign fabs fdim floor fma fmax fmin fminimum fminimum_num fmaximum_num fmod ldexp rint round roundeven scalbn"}
HELPER64 = "fmaximum fmaximum_num fminimum fminimum_num".split()


def base(n, s):
    """name of the free function for helper method n in the format with suffix s"""
    if n == "lgamma_r":
        return "lgamma" + s + "_r"
    return n + s


def extra():
    out = []
    for ty, s, ns in [("f32", "f", HELPER + ["roundeven"]), ("f64", "", HELPER + HELPER64), *[(k, k, v.split()) for k, v in HELPER16.items()]]:
        for n in ns:
            b = base(n, s)
            out.append((f"L_{b}", f"libm::Libm::<{ty}>::{n}", *api.FUNCS[b]))
    return out


class Opaque(dict):
    """functions of the crate as uninterpreted functions of their arguments (a call that passes pointers is followed);
    all of them, or those given by name"""

    def __init__(self, names=None):
        self.names = names

    def get(self, mangled, d=None):
        name = X.demangle(mangled)
        if not name.startswith("libm::math") or "generic" in name:
            return None
        if self.names is not None and name.rsplit("::", 1)[1] not in self.names:
            return STUBS.get(name)

        def stub(ctx, args, mem, pc):
            f = ctx.m.find(mangled)
            tag = X.demangle(f.name)
            if any(not isinstance(a, t.T) for a in args):
                ctx.stubs = STUBS
                try:
                    return X.merge_call(ctx, f.name, args, mem, pc, 1)
                finally:
                    ctx.stubs = self
            ctx.encoded.add(tag)

            def val(ty, tag):
                if ty[0] == "s":
                    return X.Agg(val(x, f"{tag}.{i}") for i, x in enumerate(ty[1]))
                return t.mk("uf_" + tag, tuple(args), ty[1])

            return val(f.ret, tag), mem, pc

        return stub


def real_bodies(ob, model):
    """the uninterpreted callees gave a model the real code does not follow: decide with the bodies"""
    k = {a: getattr(ob, a) for a in "label fn spec calls args nopanic complete assume".split()}
    o = Ob(**k, stubs=STUBS, max_iter=60, ranges=True, timeout=60)
    for q in lib.encode_ob(o):
        r = lib.Task(q, o).run()
        if r.status != "holds":
            return r
    return r


def obligations(tier):
    obs = []
    O = lambda label, args, calls, spec, **k: obs.append(
        Ob(label, calls[0][0], spec, args=args, calls=calls, abstract=True, nopanic=False, complete=False, **{"stubs": STUBS, "max_iter": 60, "timeout": 30, "post": real_bodies if "stubs" in k else None, **k}))
    for w in (32, 64):
        s = SUF[w]
        one = (w,)
        O(f"sincos{s} = (sin, cos)", one, [("sincos" + s, lambda x: (x,)), ("sin" + s, lambda x: (x,)), ("cos" + s, lambda x: (x,))],
          lambda x, r, eq=numeq if w == 32 else same: t.band(eq(r[0][0], r[1][0]), eq(r[0][1], r[2][0])), timeout=120, sign=True, ranges=True)
        O(f"sincos{s}(+-0) = (sin, cos)", one, [("sincos" + s, lambda x: (x,)), ("sin" + s, lambda x: (x,)), ("cos" + s, lambda x: (x,))],
          lambda x, r: allsame([(r[0][0], r[1][0]), (r[0][1], r[2][0])]), assume=lambda x: t.is_fzero(x))
        O(f"lgamma{s} = lgamma_r.0", one, [("lgamma" + s, lambda x: (x,)), (f"lgamma{s}_r", lambda x: (x,))], lambda x, r: same(r[0][0], r[1][0]))
        O(f"remainder{s} = remquo.0", (w, w), [("remainder" + s, lambda *x: x), (f"remquo{s}", lambda *x: x)], lambda x, r: same(r[0][0], r[1][0]), max_iter=8)
        for f in ("j", "y"):
            for n in (0, 1):
                # the zeroth and first order functions stay uninterpreted: arguments where both sides are NaN by C10 and C11 are left out
                O(f"{f}n{s}({n}, x) = {f}{n}", one, [(f"{f}n{s}", lambda x, n=n: (t.const(n, 32), x)), (f"{f}{n}{s}", lambda x: (x,))], lambda x, r: same(r[0][0], r[1][0]),
                  ranges=True, stubs=Opaque({"y0" + s, "y1" + s} if f == "y" else {"common"}), assume=lambda x, f=f: t.band(t.is_finite(x), t.bnot(t.msb(x)) if f == "y" else t.TRUE))
    for w, s in SUF.items():
        O(f"ldexp{s} = scalbn", (w, "i"), [("ldexp" + s, lambda *x: x), ("scalbn" + s, lambda *x: x)], lambda x, r: same(r[0][0], r[1][0]), max_iter=None)
        O(f"rint{s} = roundeven", (w,), [("rint" + s, lambda *x: x), ("roundeven" + s, lambda *x: x)], lambda x, r: same(r[0][0], r[1][0]), max_iter=None)
    for n, c, a, r in lib.EXTRA:
        b = n[2:]
        obs.append(Ob(f"{c} = {b}", b, lambda x, q: t.conj([t.eq(u, v) for u, v in zip(q[0], q[1])]),
                      calls=[(n, lambda *x: x), (b, lambda *x: x)], args=a, nopanic=False, complete=False, stubs=OPAQUE, max_iter=8, post=real_bodies))
    return obs


lib.EXTRA = extra()
for n, c, a, r in lib.EXTRA:
    lib.FSIG[n] = (a, r)
OPAQUE = Opaque()
if __name__ == "__main__":
    sys.exit(lib.main("C13", obligations, "other", "all bit patterns"))
