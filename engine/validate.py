"""Translator validation: evaluate encodings on concrete inputs and compare with the native build."""
import random
import struct

from . import api, softfp as S, term as t

SPEC = {}


def specials(w):
    if w in SPEC:
        return SPEC[w]
    eb, sb, bias = S.params(w)
    sgn = 1 << (w - 1)
    m = (1 << sb) - 1
    v = [0, 1, m, m + 1, (bias << sb), (bias << sb) + 1, (bias << sb) - 1, ((bias - 1) << sb), ((bias + sb) << sb) + 5,
         ((bias + sb - 1) << sb) + 3, (((1 << eb) - 2) << sb) | m, ((1 << eb) - 1) << sb, (((1 << eb) - 1) << sb) | (1 << (sb - 1)), ((bias + 1) << sb) | (m >> 1)]
    SPEC[w] = v + [x | sgn for x in v]
    return SPEC[w]


def rnd(k, r):
    if k == "i":
        return r.choice([0, 1, 2, 3, 5, 30, 127, 128, 1000, 2000, 40000, 2**31 - 1]) * r.choice([1, -1]) & 0xFFFFFFFF
    w = k
    if r.random() < 0.25:
        return r.choice(specials(w))
    eb, sb, bias = S.params(w)
    if r.random() < 0.6:
        e = bias + r.randint(-8, 12)
        e = max(0, min((1 << eb) - 2, e))
    else:
        e = r.randint(0, (1 << eb) - 2)
    return (r.getrandbits(1) << (w - 1)) | (e << sb) | r.getrandbits(sb)


def inputs(args, n, seed=1):
    r = random.Random(seed)
    return [tuple(rnd(k, r) for k in args) for _ in range(n)]


def compare(name, args, rets, res, cond, nat, n=60, seed=1, extra=()):
    """-> list of mismatches (input, encoded, native)"""
    ins = list(extra) + inputs(args, n, seed)
    outs = nat.run([(name, i) for i in ins])
    bad = []
    for i, (st, o) in zip(ins, outs):
        env = {f"x{j}": v for j, v in enumerate(i)}
        v = t.evaluate(list(res) + [cond], env)
        if v[-1] == 0:
            if st == "ok":
                bad.append((i, "no return", o))
            continue
        if st != "ok":
            bad.append((i, v, st))
            continue
        for k, x, y in zip(rets, v, o):
            if x != y and not (k != "i" and S.is_nan(k, x) and S.is_nan(k, y)):
                bad.append((i, v[:-1], o))
                break
    return bad
