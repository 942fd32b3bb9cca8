"""The properties: one table from which properties.jsonl and MANIFEST.json are written (python3 tools/props.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "libm/src/math/"
TESTS = "the existing tests compare a sample of inputs (edge cases, a logspace sweep and random values) with MPFR; at 2^32 to 2^256 inputs per function they"

P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, na=na, observe=observe))


SMT = "symbolic execution of the LLVM IR to bit-vector/floating-point terms, bit-blasted to SAT (kissat, z3)"
ABS = "symbolic execution of the LLVM IR; floating-point operations abstracted by sound axioms and refined on demand (CEGAR) over SAT"
TRUSTN = " Trusts rustc's LLVM IR, the executor and encoder in /verif/engine, and the solvers' unsat answers."

prop("C01", "Round-to-integer functions return the exact nearest integer of their mode",
     "For every input, ceil, floor, trunc, round, rint and roundeven (f16, f32, f64, f128) return exactly the integer their definition prescribes "
     "(up, down, toward zero, nearest with ties away, nearest with ties to even), keep the sign of zero results, return infinities and integers unchanged and NaN for NaN.",
     ["inputs", "configurations"], "all bit patterns of the four formats, in the arch, soft and intrinsics builds",
     TESTS + " cannot reach every exponent/fraction pattern, least of all in f64 and f128.",
     [M + "generic/ceil.rs", M + "generic/floor.rs", M + "generic/trunc.rs", M + "generic/round.rs", M + "generic/rint.rs", M + "ceil.rs", M + "floor.rs", M + "trunc.rs", M + "round.rs", M + "rint.rs", M + "roundeven.rs"],
     [("bit masking of the fraction and carry into the integer part", M + "generic/ceil.rs"), ("adding and subtracting 1/epsilon", M + "generic/rint.rs")],
     SMT, "Unsat for every bit pattern: no bound is left except the encoding itself." + TRUSTN)
prop("C02", "Sign operations, the minimum/maximum families and fdim are exact",
     "fabs and copysign change nothing but the sign bit; fmax/fmin and fmaximum_num/fminimum_num return the other operand when one is NaN while fmaximum/fminimum return NaN, "
     "and the maximum families that order zeros treat -0 as less than +0; fdim is the correctly rounded positive difference or +0. This holds for every operand pair of every format.",
     ["inputs", "configurations"], "all pairs of bit patterns of f16, f32, f64 and f128 in the arch, soft and intrinsics builds",
     TESTS + " miss operand combinations such as a signalling NaN beside -0.",
     [M + "fmin_fmax.rs", M + "fminimum_fmaximum.rs", M + "fminimum_fmaximum_num.rs", M + "generic/fmax.rs", M + "generic/fmaximum_num.rs", M + "fdim.rs", M + "copysign.rs", M + "fabs.rs"],
     [("comparison chains with NaN canonicalisation", M + "generic/fmaximum_num.rs")],
     SMT, "Unsat for every operand pair; NaN payloads are not constrained." + TRUSTN)
prop("C04", "fma rounds exactly once",
     "For all finite operands, fma, fmaf and fmaf128 return x*y+z rounded once to nearest even, including subnormal results, overflow and total cancellation, and IEEE special values for zero, infinite and NaN operands.",
     ["inputs"], "all operand triples of f32, f64 and f128, by exponent-distance class",
     TESTS + " practically never meet the ties and sticky bits that separate single from double rounding (two such defects were found here).",
     [M + "fma.rs", M + "fma_wide.rs", M + "support/big.rs"],
     [("wide product, alignment with sticky bit, one final rounding", M + "fma.rs"), ("f64 arithmetic with correction of the double rounding", M + "fma_wide.rs")],
     "symbolic execution of the LLVM IR; significand products abstracted to fresh variables; SAT per exponent-distance class",
     "Quick: a counterexample search over all operands (time-limited) and proofs of selected exponent distances of fmaf and fma. Thorough: proofs of every exponent distance, all three functions and configurations." + TRUSTN)
prop("C05", "scalbn and ldexp scale by a power of two with a single rounding",
     "scalbn(x, n) and ldexp(x, n) return x*2^n rounded once to nearest even for every x and every n, including results that become subnormal, underflow or overflow; special values pass through unchanged.",
     ["inputs", "configurations"], "all bit patterns of f16, f32, f64 and f128 with every i32 exponent",
     TESTS + " try few of the 2^32 exponents, and double rounding shows up only for rare fractions.",
     [M + "generic/scalbn.rs", M + "scalbn.rs", M + "ldexp.rs"], [("stepwise multiplication by powers of two that avoids double rounding", M + "generic/scalbn.rs")],
     SMT, "Unsat for every input." + TRUSTN)
prop("C06", "frexp, modf and ilogb take a number apart exactly",
     "frexp returns a fraction in [0.5, 1) and an exponent that recombine to the argument, modf splits into integer and fraction of the argument's sign that add up exactly, "
     "ilogb returns the exact binary exponent; zeros, subnormals, infinities and NaN follow their conventions.",
     ["inputs", "configurations"], "all bit patterns of f32 and f64",
     TESTS + " sample few subnormals, where the normalising loops and recursion work.",
     [M + "frexp.rs", M + "frexpf.rs", M + "modf.rs", M + "modff.rs", M + "ilogb.rs", M + "ilogbf.rs"],
     [("subnormal normalisation by multiplication and recursion", M + "frexp.rs"), ("shift loop", M + "ilogb.rs")],
     SMT, "Unsat for every input; loops unrolled to their end, which is part of what is shown." + TRUSTN)
prop("C07", "nextafter steps to the adjacent representable value",
     "nextafter(x, y) returns the representable value next to x in the direction of y, y itself when they compare equal, and NaN if either operand is NaN, across zero, subnormal, power-of-two and overflow boundaries.",
     ["inputs", "configurations"], "all operand pairs of f32 and f64",
     TESTS + " leave most boundary pairs out.",
     [M + "nextafter.rs", M + "nextafterf.rs"], [("integer step on the bit pattern", M + "nextafter.rs")],
     SMT, "Unsat for every pair." + TRUSTN)
prop("C08", "fmod, remainder and remquo compute exact remainders",
     "For finite x and nonzero y, fmod(x, y) is exactly x - n*y for the integer n obtained by truncating x/y, with the sign of x; remainder(x, y) and remquo(x, y) return exactly x - n*y for n the integer nearest to x/y (ties to even), "
     "also when operands or results are subnormal, and remquo's integer has the sign of x/y and agrees with n in its three lowest bits.",
     ["inputs"], "all significands and signs of f16, f32, f64 (fmod also f128), for the exponent combinations and exponent differences listed in the evidence",
     TESTS + " meet a remainder that is half the divisor, or one that cancels to a subnormal, by accident only.",
     [M + "generic/fmod.rs", M + "remquo.rs", M + "remquof.rs", M + "remainder.rs", M + "remainderf.rs"],
     [("shift-and-subtract loop with early exit", M + "generic/fmod.rs"), ("scaling back, decision between |x| and |x| - |y|", M + "remquo.rs")],
     SMT, "Exponent differences from -2 to between 3 (f128) and 10 (f16) in the quick tier, to 8 (f128) and 30 (f16: all normal operands) in the thorough tier; for f16, f32 and f64 with all exponents up to 2 or 3 (thorough 6 to 12). Larger exponent differences, which repeat the same loop body, are outside." + TRUSTN)
prop("C10", "Special values and domain errors of the one-argument functions",
     "Each one-argument elementary or special function returns NaN for NaN and for arguments outside its domain, and the exact conventional value "
     "(signed zero, one, infinity, the argument itself) at zeros, poles and infinities. Inside the domain it returns a number, never a spurious NaN.",
     ["inputs"], "all bit patterns of f32 and f64 of 28 functions (acos ... y1)",
     TESTS + " cannot visit every argument outside a domain (acosh was wrong for arguments below -2, sinhf returned NaN just below overflow).",
     [M + f for f in "acosh.rs asin.rs atanh.rs log.rs log1p.rs log2.rs log10.rs exp.rs expm1.rs erf.rs lgamma_r.rs tgamma.rs j0.rs j1.rs".split()],
     [("early returns on the high word", M + "log1p.rs"), ("NaN by x - x, 0/0 or division by zero", M + "asin.rs")],
     ABS, "Every special-value and domain statement is decided for all arguments (lgamma at the negative integers only by a time-limited search); 'no spurious NaN' is decided for the functions listed in the evidence and attempted for the others in thorough runs." + TRUSTN)
prop("C11", "Special values and domain errors of the two-argument functions",
     "pow, atan2, hypot, fmod, remainder, remquo, jn, yn and lgamma_r return the results the C standard (Annex F) prescribes at zeros, infinities, NaN and outside their domains: pow(x, 0) = pow(1, y) = 1 even for NaN, "
     "signed zeros and infinities of pow by the parity of y, NaN for a negative base with a non-integer exponent, the quadrant values and result sign of atan2, hypot(inf, NaN) = inf, NaN for fmod, remainder and remquo with a zero divisor "
     "or an infinite dividend, x for an infinite divisor, NaN of yn for negative arguments.",
     ["inputs"], "all pairs of bit patterns of f32 and f64 (fmod also f16 and f128)",
     TESTS + " cannot visit all combinations of special and ordinary operands (every odd integer exponent, every NaN payload).",
     [M + f for f in "pow.rs powf.rs atan2.rs atan2f.rs hypot.rs hypotf.rs generic/fmod.rs remquo.rs remquof.rs remainder.rs jn.rs jnf.rs lgamma_r.rs".split()],
     [("early returns on the high and low words", M + "pow.rs"), ("classification of the exponent as even, odd or fractional", M + "powf.rs"), ("quadrant table", M + "atan2.rs")],
     ABS, "Decided for all arguments; in atan2's sign statement atan is represented by its range (decided here) and oddness (C12). Loops of fmod, remainder, remquo, jn and yn up to 12 visits of a block." + TRUSTN)
prop("C12", "Odd and even functions are exactly symmetric",
     "asin, asinh, atan, atanh, cbrt, erf, sin, sinh, tan, tanh and j1 satisfy f(-x) = -f(x), and cos, cosh and j0 satisfy f(-x) = f(x), bit for bit, for every x that is not NaN (j1 at infinity excepted).",
     ["inputs"], "all bit patterns of f32 and f64",
     TESTS + " never compare f(x) with f(-x), and a branch that mistreats one sign can stay inside the error bound.",
     [M + f for f in "asin.rs atan.rs asinh.rs atanh.rs cbrtf.rs erf.rs sinh.rs tanh.rs j1.rs cosh.rs j0.rs".split()],
     [("work on |x| and restore the sign", M + "tanh.rs"), ("odd polynomials times x", M + "asin.rs")],
     "symbolic execution of two calls; operations normalised to sign and magnitude, abstracted (CEGAR), SAT",
     "Decided for all arguments of the functions listed as holding in the evidence." + TRUSTN)
prop("C13", "Functions that compute the same thing agree bit for bit",
     "sincos returns the results of sin and cos, lgamma that of lgamma_r, ldexp that of scalbn, rint that of roundeven, remainder that of remquo, jn and yn of order 0 and 1 those of j0, j1, y0 and y1, "
     "and every method of Libm<T> returns what the free function it stands for returns.",
     ["inputs"], "all arguments of the functions named",
     "the existing tests check each function on its own against a tolerance and do not call the Libm<T> methods at all.",
     ["libm/src/libm_helper.rs", M + "sincos.rs", M + "sincosf.rs", M + "jn.rs", M + "jnf.rs", M + "lgamma.rs", M + "remainder.rs", M + "ldexp.rs"],
     [("table of method names", "libm/src/libm_helper.rs"), ("separate copies of the range reduction", M + "sincosf.rs")],
     "symbolic execution of both calls; equivalence of the terms by simplification, uninterpreted functions and CEGAR over SAT",
     "Functions that both sides call are left uninterpreted where that suffices." + TRUSTN)
prop("C14", "No public function panics, overflows or leaves its memory",
     "For every argument, every public function returns: no panic, arithmetic overflow, out-of-range shift, index or conversion, out-of-bounds access or undefined behaviour, in builds with debug checks on.",
     ["inputs"], "all arguments of all public functions; fmod, remainder, remquo, jn and yn up to a stated number of loop iterations",
     TESTS + " reach few of the extreme integer and float argument combinations.",
     [M + f for f in "jn.rs rem_pio2.rs scalbn.rs pow.rs fma.rs generic/fmod.rs remquo.rs exp2.rs k_tan.rs".split()],
     [("wrapping and saturating integer arithmetic, bounded table indices", M + "exp2.rs")],
     ABS, "The multi-word argument reduction for huge trigonometric arguments is represented by its results; loops of fmod, remainder, remquo, jn and yn are covered up to 12 visits of a block; in pow one of nine overflow checks, the addition of the exponent to the result, stays undecided." + TRUSTN)
prop("C15", "Results do not depend on the build configuration",
     "Every public function returns the same bits (or NaN in both) whether the crate is built with the architecture-specific routines, with the portable software fallbacks, or with the compiler-intrinsics feature.",
     ["inputs", "configurations"], "all arguments of all public functions but sqrt, in three configurations on x86_64",
     "the existing tests compare each configuration with a tolerance, not with each other.",
     [M + "arch/i686.rs", M + "arch/mod.rs", M + "support/macros.rs", M + "generic/mod.rs"],
     [("selection of implementations", M + "support/macros.rs")],
     "symbolic execution under each configuration; equivalence by term simplification and CEGAR over SAT",
     "The software square root stands for its contract (correct rounding). Loops of fmod, remainder, remquo, jn and yn up to 4 visits of a block." + TRUSTN)
prop("C16", "Results stay within the stated error bound",
     "The results of the one-argument elementary functions, erf, erfc, lgamma and tgamma (f32 and f64) differ from the exact mathematical value by at most n + 1/2 units in the last place, for every argument in the intervals checked: "
     "n = 1 for exp, exp2, expm1, log, log2, log10, log1p, sin, cos, tan, asin, acos, atan, erf and cbrtf; 2 for sinh, cosh, tanh, asinh, atanh; 4 for acosh; 6 for exp10 and erfcf; 7 for erfc; 16 for lgamma(f) of positive arguments; 1 for tgammaf and 20 for tgamma of positive arguments. "
     "The intervals are in DESIGN.md; f32 is covered over nearly its whole range, trigonometric functions for |x| up to 32 (f32), 12 (f64 sin, cos) and 3 (f64 tan).",
     ["inputs"], "every f32/f64 argument in the listed intervals (up to 2^32 and about 2^61 arguments per function)",
     TESTS + " leave all but a sliver of the arguments out: an accuracy loss in a narrow interval (a table entry, a branch threshold, a reduction boundary) goes unseen.",
     [M + f for f in "exp.rs exp2.rs expm1.rs log.rs log2.rs log1p.rs k_sin.rs k_cos.rs k_tan.rs rem_pio2.rs asin.rs acos.rs atan.rs sinh.rs cosh.rs tanh.rs asinh.rs acosh.rs atanh.rs erf.rs cbrtf.rs lgamma_r.rs lgammaf_r.rs tgamma.rs exp10.rs".split()],
     [("argument reduction and polynomial kernels", M + "exp.rs"), ("table look-up and correction term", M + "exp2.rs"), ("two-part sums that keep the rounding error", M + "log.rs"), ("Lanczos sum", M + "tgamma.rs")],
     "symbolic execution of the LLVM IR; per box of arguments the rounding errors become bounded unknowns around a Taylor model and z3 (linear real arithmetic) refutes that the error exceeds the bound; boxes are split until all are refuted",
     "Every argument of the intervals is inside a box that z3 decided. The reference's Taylor coefficients come from mpmath at 400 bits with remainder bounds from Cauchy's estimate. Not covered: f64 cbrt, Bessel functions, pow, hypot, atan2 (no one-argument series), arguments beyond the intervals." + TRUSTN)
prop("C17", "Two-argument functions respect swaps and sign changes of operands",
     "hypot(x, y) = hypot(y, x) and does not depend on operand signs; atan2(-y, x) = -atan2(y, x); fmod, remainder and remquo change the sign of the remainder with x and not with y, and remquo's quotient bits change sign with either; "
     "jn(n, -x) = (-1)^n jn(n, x). All hold exactly, for every operand.",
     ["inputs"], "all operands of f32 and f64 (fmod also f16 and f128)",
     TESTS + " never compare two results with each other.",
     [M + f for f in "hypot.rs hypotf.rs atan2.rs atan2f.rs generic/fmod.rs remquo.rs remquof.rs jn.rs jnf.rs".split()],
     [("ordering of the operands by magnitude", M + "hypot.rs"), ("sign restored at the end", M + "generic/fmod.rs")],
     "symbolic execution of two calls over shared magnitudes with constant signs; terms normalised, ranges, CEGAR over SAT",
     "hypot and atan2 unbounded; loops of the others up to 6 visits of a block (thorough 16). The callees of jn, and atan in atan2, are represented by uninterpreted functions of their parity (C12)." + TRUSTN)


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                 "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                                                        "observe_at": ["the public functions of the libm crate"], "hook_needed": None}}
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(d) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "python3-vt -c \"import sys; sys.path.insert(0, '.'); from engine import build; build.build_ir('arch', True, key='n'); print('ok')\"",
        "checks": [
            {"property": p["id"], "quick_cmd": f"python3-vt checks/{p['id'].lower()}.py quick", "thorough_cmd": f"python3-vt checks/{p['id'].lower()}.py thorough",
             "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "other", "level_note": p["note"]}
            for p in P if not p["na"]
        ],
        "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
        "notes": "Solver-based checking of the LLVM IR of /repo's current tree; see DESIGN.md. No hooks in /repo.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
