"""Planted bugs: id -> property, edits (path under libm/src, old, new), demonstration, what it needs."""

BUGS = {}


def bug(id, property, edits, demo, needs, breaks, **k):
    BUGS[id] = dict(property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **k)


RNG = '''
struct R(u64);
impl R { fn n(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) } }
'''

bug("fmaf-exactness-test", "C04",
    [("math/fma_wide.rs", "(result - xy == zb && result - zb == xy)", "result - xy == zb")],
    RNG + '''fn main() {
    let mut r = R(5);
    let mut bad = 0;
    for _ in 0..20_000_000 {
        // x*y just below a quarter ulp of z, so that the wide sum is exactly half way
        let x = f32::from_bits(0x27800000 | (r.n() % 8) as u32);
        let y = f32::from_bits(0x3f3ffff8 | (r.n() % 8) as u32);
        let z = f32::from_bits(0x33000000 + ((r.n() % 64) << 23) as u32);
        let (a, b) = (libm::fmaf(-x, y, z), (-x).mul_add(y, z));
        if a.to_bits() != b.to_bits() { bad += 1; if bad < 3 { println!("fmaf({x:e}, {y:e}, {z:e}) = {a:e} instead of {b:e}"); } }
    }
    if bad > 0 { std::process::exit(1) }
}''', "a sum that is a tie in the wide format although the product adds low bits", "fmaf rounds twice")

bug("sincos-small-threshold", "C13",
    [("math/sincos.rs", "if ix < 0x3e46a09e {", "if ix < 0x3e500000 {")],
    RNG + '''fn main() {
    let mut r = R(77);
    for _ in 0..3_000_000 {
        let x = f64::from_bits((r.n() >> 12) | ((0x3e4 + r.n() % 3) << 52));
        let (s, c) = libm::sincos(x);
        if s.to_bits() != libm::sin(x).to_bits() || c.to_bits() != libm::cos(x).to_bits() { println!("{x:e}"); std::process::exit(1) }
    }
}''', "|x| between 2**-26.5 and 2**-26", "sincos(x).1 differs from cos(x) in the last bit")

bug("asin-one-low-word", "C10",
    [("math/asin.rs", "lx = get_low_word(x);", "lx = get_low_word(x) & 0x0fffffff;")],
    '''fn main() {
    for k in 0..52 {
        let x = f64::from_bits((1023u64 << 52) | (1 << k));
        if !libm::asin(x).is_nan() || !libm::asin(-x).is_nan() { println!("asin({x}) = {}", libm::asin(x)); std::process::exit(1) }
    }
}''', "one of fifteen arguments just above one", "asin returns a number outside its domain")

bug("tgamma-table-end", "C14",
    [("math/tgamma.rs", "if x <= FACT.len() as f64 {", "if x < (FACT.len() + 2) as f64 {")],
    '''fn main() {
    for n in 1..200 {
        let r = std::panic::catch_unwind(|| libm::tgamma(n as f64));
        if r.is_err() { println!("tgamma({n}) panics"); std::process::exit(1) }
    }
}''', "the single argument 24.0", "tgamma indexes one past the end of its factorial table", flags="-C debug-assertions -C overflow-checks")

bug("scalbn-prescale", "C05",
    [("math/generic/scalbn.rs", "let add = -exp_min - sig_total_bits as i32;", "let add = -exp_min - sig_total_bits as i32 + 2;"),
     ("math/generic/scalbn.rs", "let mul = f_exp_min * f_pow_subnorm;", "let mul = f_exp_min * f_pow_subnorm * F::from_parts(true, F::EXP_BIAS - 2, zero) * F::from_parts(true, F::EXP_BIAS, zero);")],
    RNG + '''fn main() {
    let mut r = R(99);
    let mut bad = 0;
    for _ in 0..20_000_000 {
        let e = 1850 + r.n() % 190;
        let x = f64::from_bits((r.n() >> 12) & ((!0u64 << (r.n() % 52)) | 1) | (e << 52));
        let n = -(e as i32) - (r.n() % 60) as i32;
        // reference: one multiplication after an exact scaling to the normal range
        let got = libm::scalbn(x, n);
        let m = if e == 0 { continue } else { f64::from_bits((x.to_bits() & ((1 << 52) - 1)) | (1023 << 52)) };
        let k = e as i32 - 1023 + n; // x*2^n = m*2^k
        if k >= -1022 { continue }
        let sh = (-1022 - k) as u32;
        let mi = (m.to_bits() & ((1 << 52) - 1)) | (1 << 52);
        let want = if sh > 60 { 0 } else { let q = mi >> sh; let rem = mi & ((1 << sh) - 1); let h = 1u64 << (sh - 1); q + ((rem > h || (rem == h && q & 1 == 1)) as u64) };
        if got.to_bits() != want { bad += 1; if bad < 3 { println!("scalbn({x:e}, {n}) = {got:e}, want {:e}", f64::from_bits(want)); } }
    }
    if bad > 0 { std::process::exit(1) }
}''', "a subnormal result from an exponent below the minimum", "scalbn rounds twice")

bug("libm-f64-fmaximum-route", "C13",
    [("libm_helper.rs", "(fn fmaximum(x: f64, y: f64) -> (f64);      => fmaximum);", "(fn fmaximum(x: f64, y: f64) -> (f64);      => fmaximum_num);")],
    '''fn main() {
    let a = libm::Libm::<f64>::fmaximum(1.0, f64::NAN);
    if a.is_nan() != libm::fmaximum(1.0, f64::NAN).is_nan() { println!("{a}"); std::process::exit(1) }
}''', "exactly one NaN operand, through the Libm<f64> helper", "Libm::<f64>::fmaximum is routed to fmaximum_num")


bug("rem-pio2-3pi2-word", "C16",
    [("math/rem_pio2.rs", "if ix == 0x4012d97c {", "if ix == 0x4012d97b {")],
    '''fn main() {
    let x = 3.0 * core::f64::consts::FRAC_PI_2; // 4.71238898038469
    let want = -1.8369701987210297e-16; // cos(x)
    for (a, w) in [(x, want), (-x, want)] {
        let c = libm::cos(a);
        if (c - w).abs() > 1e-30 { println!("cos({a}) = {c:e}"); std::process::exit(1) }
    }
}''', "an argument within about 2**-32 of 3*pi/2", "the range reduction loses its digits to cancellation next to 3*pi/2")

bug("tgamma-18-factorial", "C16",
    [("math/tgamma.rs", "6402373705728000.0,", "6402373705278000.0,")],
    '''fn main() {
    let mut f = 1u64;
    for n in 1..21u64 {
        if n > 1 { f *= n - 1 }
        let g = libm::tgamma(n as f64);
        if (g / f as f64 - 1.0).abs() > 1e-14 { println!("tgamma({n}) = {g}"); std::process::exit(1) }
    }
}''', "the single argument 19.0", "one entry of the factorial table has two digits swapped")

bug("rem-pio2-lost-tail", "C12",
    [("math/rem_pio2.rs", "let y1 = (z - y0) + 4.0 * PIO2_1T;", "let y1 = (z + 4.0 * PIO2_1T) - y0;")],
    RNG + '''fn main() {
    let mut r = R(3);
    for _ in 0..2_000_000 {
        let x = 5.6 + 1.4 * ((r.n() >> 11) as f64 / 9007199254740992.0);
        if libm::sin(-x).to_bits() != (-libm::sin(x)).to_bits() { println!("sin(-{x}) != -sin({x})"); std::process::exit(1) }
    }
}''', "an argument between -9*pi/4 and -7*pi/4", "the tail of the reduced argument is dropped for negative arguments in one octant")

bug("nextafter-high-word", "C07",
    [("math/nextafter.rs", "} else if ax > ay ||", "} else if (ax >> 32) > (ay >> 32) ||")],
    '''fn main() {
    let f = |k: u64| f64::from_bits(0x3ff0000000000000 + k);
    for (a, b) in [(5, 2), (9, 1), (2, 5)] {
        let w = if a > b { f(a - 1) } else { f(a + 1) };
        if libm::nextafter(f(a), f(b)) != w || libm::nextafter(-f(a), -f(b)) != -w { println!("{a} {b}"); std::process::exit(1) }
    }
}''', "two operands that share their upper 32 bits", "nextafter steps away from its target")

bug("pow-parity-binade", "C11",
    [("math/pow.rs", "if iy >= 0x43400000 {", "if iy >= 0x43300000 {")],
    '''fn main() {
    for y in [4503599627370497.0, 9007199254740991.0, 6000000000000001.0] {
        if libm::pow(-1.0, y) != -1.0 || !libm::pow(-0.0, y).is_sign_negative() || libm::pow(-2.0, y) != f64::NEG_INFINITY { println!("pow(-1, {y})"); std::process::exit(1) }
    }
}''', "a negative base and an odd exponent between 2**52 and 2**53", "odd exponents of the last binade with odd integers count as even")

bug("hypot-order-exponent", "C17",
    [("math/hypot.rs", "if uxi < uyi {", "if (uxi >> 52) < (uyi >> 52) {")],
    RNG + '''fn main() {
    let mut r = R(11);
    for _ in 0..4_000_000 {
        let (x, y) = (f64::from_bits((r.n() >> 12) | (1023 << 52)), f64::from_bits((r.n() >> 12) | (1023 << 52)));
        if libm::hypot(x, y).to_bits() != libm::hypot(y, x).to_bits() { println!("hypot({x:e}, {y:e})"); std::process::exit(1) }
    }
}''', "two operands that share their exponent", "hypot(x, y) differs from hypot(y, x) in the last bit")
