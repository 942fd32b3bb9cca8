"""The public functions of libm (argument kinds -> result kinds) and the generated harness crate.

kinds: 16/32/64/128 = a float of that width (passed as its bits), 'i' = i32.
"""


def _gen():
    d = {}
    allf = {16: "f16", 32: "f", 64: "", 128: "f128"}
    for n in "ceil floor trunc round roundeven rint fabs sqrt".split():
        for w, s in allf.items():
            d[n + s] = ((w,), (w,))
    for n in "copysign fdim fmax fmin fmaximum fminimum fmaximum_num fminimum_num fmod".split():
        for w, s in allf.items():
            d[n + s] = ((w, w), (w,))
    for w, s in allf.items():
        d["ldexp" + s] = d["scalbn" + s] = ((w, "i"), (w,))
    for w, s in allf.items():
        if w != 16:
            d["fma" + s] = ((w, w, w), (w,))
    u = """acos acosh asin asinh atan atanh cbrt cos cosh erf erfc exp exp10 exp2 expm1 j0 j1 lgamma log log10 log1p log2
    sin sinh tan tanh tgamma y0 y1""".split()
    for n in u:
        for w in (32, 64):
            d[n + allf[w]] = ((w,), (w,))
    for n in "atan2 hypot nextafter pow remainder".split():
        for w in (32, 64):
            d[n + allf[w]] = ((w, w), (w,))
    for w in (32, 64):
        s = allf[w]
        d["frexp" + s] = ((w,), (w, "i"))
        d["ilogb" + s] = ((w,), ("i",))
        d["lgamma" + s + "_r"] = ((w,), (w, "i"))
        d["modf" + s] = ((w,), (w, w))
        d["sincos" + s] = ((w,), (w, w))
        d["remquo" + s] = ((w, w), (w, "i"))
        d["jn" + s] = d["yn" + s] = (("i", w), (w,))
    return d


FUNCS = _gen()
RT = {16: "f16", 32: "f32", 64: "f64", 128: "f128", "i": "i32"}
BT = {16: "u16", 32: "u32", 64: "u64", 128: "u128", "i": "i32"}


def width(k):
    return 32 if k == "i" else k


def wrapper(name, callee, args, rets, prefix="w_"):
    ps = ", ".join(f"a{i}: {BT[k]}" for i, k in enumerate(args))
    call = ", ".join(f"a{i}" if k == "i" else f"{RT[k]}::from_bits(a{i})" for i, k in enumerate(args))

    def bits(e, k):
        return e if k == "i" else f"{e}.to_bits()"

    if len(rets) == 1:
        st = f"(o as *mut {BT[rets[0]]}).write_unaligned({bits('r', rets[0])});"
    else:
        st = f"(o as *mut {BT[rets[0]]}).write_unaligned({bits('r.0', rets[0])}); ((o as *mut u8).add(16) as *mut {BT[rets[1]]}).write_unaligned({bits('r.1', rets[1])});"
    run_args = ", ".join(f"*a.add({i}) as {BT[k]}" for i, k in enumerate(args))
    return (
        f"#[no_mangle] pub unsafe extern \"C-unwind\" fn {prefix}{name}({ps}, o: *mut u128) {{ let r = {callee}({call}); {st} }}\n",
        f'        "{name}" => {prefix}{name}({run_args}, o),\n',
    )


def harness(names=None, extra=None):
    """rust source of the harness crate; extra: list of (name, callee expression, args, rets)"""
    ws, rs = [], []
    items = [(n, "libm::" + n, a, r) for n, (a, r) in FUNCS.items() if names is None or n in names]
    items += list(extra or [])
    for n, c, a, r in items:
        w, m = wrapper(n, c, a, r)
        ws.append(w)
        rs.append(m)
    return (
        "#![feature(f16, f128)]\n#![allow(unused)]\n"
        + "".join(ws)
        + "#[cfg(native)]\nunsafe fn dispatch(n: &str, a: *const u128, o: *mut u128) {\n    match n {\n"
        + "".join(rs)
        + "        _ => panic!(\"unknown\"),\n    }\n}\n"
        + """#[cfg(native)]
fn main() {
    use std::io::BufRead;
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    for l in stdin.lock().lines() {
        let l = l.unwrap();
        let mut it = l.split_whitespace();
        let n = match it.next() { Some(n) => n.to_string(), None => continue };
        let a: Vec<u128> = it.map(|x| u128::from_str_radix(x, 16).unwrap()).collect();
        let mut o = [0u128; 4];
        let op = o.as_mut_ptr() as usize;
        let r = std::panic::catch_unwind(|| unsafe { dispatch(&n, a.as_ptr(), op as *mut u128) });
        match r {
            Ok(()) => println!("ok {:x} {:x}", o[0], o[1]),
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                println!("panic {}", m.replace('\\n', " "))
            }
        }
    }
}
"""
    )
