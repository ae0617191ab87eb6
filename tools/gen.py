#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json (the single place where the statements live)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/gcem_incl/"
EPSN = " (eps: the type's machine epsilon; long double counts over double's range and with double's epsilon)"
P = []


def prop(id, title, statement, text, why, files, mech, level_note, technique, over=("inputs",), na=None):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech, level_note=level_note, technique=technique, over=list(over), na=na))


SMT = "contract-based deductive verification: symbolic execution of the extracted IR, postconditions and loop/recursion contracts discharged by z3 over IEEE-754 and bit-vector theories"
TM = "contract-based deductive verification: accuracy postconditions per function, callees answered by their contracts, obligations discharged by a Taylor-model branch-and-bound prover over the extracted IR"
NOTE_SMT = "every obligation is discharged for all bit patterns; trusts clang's front end (IR read as the meaning of the source), the IR reader and symbolic executor in /verif/tools, and z3"
NOTE_TM = "every input of the stated domains is covered by boxes on which the prover derives the bound from the current IR; trusts clang's front end, the prover in /verif/engine, MPFR for reference values; long double to double precision only"
T0 = "the existing tests compare a few dozen sample arguments with std:: to a fixed tolerance; "

prop("C01", "Rounding functions are exact",
     "floor, ceil, trunc and round of a floating-point argument of any type return exactly the integer-valued result defined by IEEE-754 (toward minus infinity, plus infinity, zero, and to nearest with halves away from zero), keep the sign of a zero argument, return infinities and integers unchanged, and return NaN exactly for NaN. For integral arguments they return the argument converted to double.",
     "every bit pattern of float, double and long double; every int, unsigned, long long and unsigned long long",
     T0 + "the binades near 2^mantissa, subnormals and ties are not sampled", ["floor", "ceil", "trunc", "round", "find_whole", "find_fraction"],
     ["threshold above which the argument is returned unchanged", "truncation through an integer conversion corrected by comparison"], NOTE_SMT, SMT)
prop("C02", "Sign, magnitude and ordering primitives are exact",
     "abs, sgn, signbit and copysign agree with their mathematical or IEEE-754 meaning for every argument including signed zeros, infinities and NaN (sgn of NaN is zero), and copysign combines magnitude and sign across argument types. max and min return the larger or smaller of two arguments after conversion to their common type, for every ordered pair. abs of the most negative integer is excluded.",
     "every bit pattern of the floating-point types, every integer (and every pair) of int, unsigned, long long, unsigned long long and mixed pairs",
     T0 + "NaN, signed zeros and mixed types hardly occur", ["abs", "sgn", "signbit", "copysign", "max", "min", "neg_zero"], ["sign-bit extraction", "comparison and selection"], NOTE_SMT, SMT)
prop("C03", "gcd and lcm are correct for all integers",
     "gcd(a,b) is the non-negative greatest common divisor of the two integers, with gcd(a,0) = |a| and gcd(0,0) = 0, for every pair whose magnitudes are representable in the common type. lcm(a,b) is the non-negative least common multiple, zero when either argument is zero, for every pair whose result is representable in the common type. Both are independent of argument signs and of mixed signed widths.",
     "every pair of int, unsigned, long long, unsigned long long and mixed pairs whose magnitudes and result are representable",
     T0 + "a handful of small positive pairs", ["gcd", "lcm"], ["Euclid's recursion", "division by gcd before multiplication"], NOTE_SMT, SMT)
prop("C04", "factorial and binomial coefficients are exact",
     "factorial(n) of an integer n is exactly n! whenever that is representable in the type, and for a floating-point argument x in [0, 99] (29 for float) it is gamma(x+1) to within 600 eps relative up to 9 and 80 eps (1 + lgamma(x+1)) above" + EPSN + ". binomial_coef(n,k) of integers with 0 <= k <= n is exactly the number of k-subsets (and 0 for k > n) whenever every coefficient up to n is representable.",
     "every n and k for which the result is representable, in int, unsigned, long long and unsigned long long",
     T0 + "only a few table entries are sampled", ["factorial", "binomial_coef"], ["lookup table for integers up to 16, recursion above", "Pascal recursion with shortcuts for k = 0, k = n"], NOTE_SMT, SMT)
prop("C05", "pow with an integral exponent is the repeated product",
     "pow(base, n) with integral base and exponent is the exact power modulo the type's width (or whenever representable, for signed types), with n = 0 giving 1 and negative n giving the truncated reciprocal. With a floating-point base it is, for every exponent value of the type, base^n to within (|n|+1) eps relative (to first order), as long as base^|n| neither overflows nor is subnormal" + EPSN + ".",
     "every integral base and exponent whose power is representable; every floating-point base and integral exponent for which base^|n| is a normal number",
     T0 + "exponents beyond 10 and limits of the exponent type are not sampled", ["pow", "pow_integral"], ["square-and-multiply recursion on the parity of the exponent"], NOTE_SMT, SMT)
prop("C06", "sqrt, inv_sqrt and hypot are accurate over their whole range",
     "sqrt is within a relative error of 8 eps for every normal argument up to 1e16 and 40 eps above, and inv_sqrt within 16 eps for every positive normal argument" + EPSN + ". hypot is within 16 eps, in all sign quadrants, when both magnitudes lie in [1e-3, 1e3], and also at extreme scales (double: larger magnitude within three decades of 1e290 or 1e150 or within two of 1e-150 or 1e-290; float: around 1e30 and 1e-30), without overflow or underflow.",
     "every positive normal argument of float and double (long double over double's range); pairs in the stated boxes",
     T0 + "no very large or very small argument", ["sqrt", "inv_sqrt", "hypot"], ["Newton iteration with a stopping rule", "scaling of large and small arguments"], NOTE_TM, TM)
prop("C07", "exp, expm1 and real powers are accurate",
     "exp is within 32 eps relative for |x| <= 708 (87 for float)" + EPSN + "; expm1 is within 8 eps relative for |x| <= 1e-4, 120 eps absolute up to 0.5, 200 eps relative above and 80 eps absolute below -0.5. pow(x,y) of floating-point arguments is within 48 eps + 32 eps |y log x| relative for x in [0.01, 100] and 0.001 <= |y| <= 8.",
     "every argument in the stated ranges",
     T0 + "range-reduction boundaries (half-integers, integer parts, continued-fraction branch limits) are not covered", ["exp", "expm1", "pow"], ["split into integral and fractional part", "continued fraction on [-0.5, 0.5]", "series for small arguments"], NOTE_TM, TM)
prop("C08", "Logarithms are accurate for every positive argument",
     "log is within 12 eps relative and log2 and log10 within 16 eps relative for every positive normal argument" + EPSN + ". log1p is within 8 eps relative for |x| <= 1e-4, within 80 eps absolute up to 0.5 and 80 eps relative for every larger argument, and within 80 eps/(1+x) on [-0.999, -0.5].",
     "every positive normal argument; log1p on [-0.999, largest finite]",
     T0 + "arguments next to powers of ten and at the range ends are not sampled", ["log", "log1p", "log2", "log10", "mantissa", "find_exponent"], ["decimal mantissa and exponent split", "continued fraction of log(1+x)-type on the mantissa", "table of logarithms of integers"], NOTE_TM, TM)
prop("C09", "sin, cos and tan are accurate",
     "sin and cos are within 32 eps max(1,|x|/4) absolute... ", "", "", ["sin", "cos", "tan"], ["half-angle formula through tan", "reduction by whole multiples of pi", "continued fraction and series near the pole"], NOTE_TM, TM)
P.pop()
prop("C09", "sin, cos and tan are accurate for arguments up to 200",
     "sin and cos are within 32 eps absolute for |x| <= 4 and within 32 eps |x| absolute for |x| <= 200" + EPSN + ". tan is within 64 eps (1+|x|)/cos(x)^2 absolute for |x| < 98.9 at distance at least 0.001 from its poles.",
     "every argument in the stated ranges", T0 + "branch limits of the reduction and near-pole series are not covered",
     ["sin", "cos", "tan"], ["half-angle formula through tan", "reduction by whole multiples of pi", "continued fraction, and series near the pole"], NOTE_TM, TM)
prop("C10", "Inverse trigonometric functions are accurate",
     "atan is within 16 eps relative for every normal argument, however large" + EPSN + ". asin is within 64 eps relative and acos within 64 eps absolute up to |x| = 0.5 and both within 64 eps/(1-x^2) absolute up to |x| = 0.9999. atan2(y,x) is within 24 eps relative, in the correct quadrant, for magnitudes of both arguments in [0.01, 100].",
     "every argument in the stated ranges, in all sign quadrants", T0 + "branch limits and large arguments are not covered",
     ["asin", "acos", "atan", "atan2"], ["argument reduction of atan into six ranges", "series at 0.., continued fraction, and asymptotic series", "quadrant correction"], NOTE_TM, TM)
prop("C11", "Hyperbolic functions and their inverses are accurate",
     "sinh is within 200 eps absolute up to |x| = 1 and 100 eps relative beyond, cosh within 100 eps relative, for |x| <= 708 (87 for float), and tanh within 32 eps relative for every normal argument in that range" + EPSN + ". asinh is within 200 eps absolute up to |x| = 1, 100 eps relative for every larger x and 100 eps relative for every x < -1; acosh is within 200 eps absolute on [1.01, 2] and 100 eps relative for every larger x. atanh is within 100 eps absolute up to |x| = 0.5 and within 100 eps/(1-x^2) absolute up to |x| = 0.999.",
     "every argument in the stated ranges", T0 + "large arguments and cancellation on the negative side are not covered",
     ["sinh", "cosh", "tanh", "asinh", "acosh", "atanh"], ["formulas through exp, log and sqrt", "recursion of tanh"], NOTE_TM, TM)
prop("C12", "The gamma function family is accurate",
     "lgamma is within 32 eps relative for normal arguments up to 0.001, 160 eps absolute on [0.001, 2], 400 eps absolute on [2, 10] and 48 eps relative on [10, 1e10]; tgamma is within (240 + 40 lgamma(x)) eps relative for positive arguments (from four times the smallest normal number) up to 0.05, 240 eps relative on [0.05, 2], 500 eps on [2, 10] and 64 eps (1 + lgamma(x)) up to 100 (30 for float), and within 600 eps relative for negative arguments in (-12, 0) at least 2^-12 away from the integers" + EPSN + ". beta is within 8000 eps relative and lbeta within 5000 eps absolute on [0.1, 10]^2, and log_binomial_coef(n,k) within 30000 eps absolute for n in [10, 40] and k in [0.001, 9]. lmgamma(a,p) is within 4000 eps absolute for p = 1..4 and a in [p, 10].",
     "every argument in the stated ranges", T0 + "only a dozen arguments per function",
     ["lgamma", "tgamma", "beta", "lbeta", "lmgamma", "log_binomial_coef"], ["Lanczos-type coefficient sum", "recursion of tgamma", "sums of lgamma"], NOTE_TM, TM)
prop("C13", "The error function and its inverse are accurate",
     "erf is within 64 eps relative for |x| <= 1 and, for larger |x|, within 400 eps absolute up to 1.5, 100 eps up to 2 and 16 eps for every larger argument" + EPSN + ". erf_inv(p) returns a value whose true error function differs from p by at most 2 eps for |p| <= eps, 8 eps up to 0.01, 100 eps up to 0.84, 800 eps up to 0.97 and 200 eps up to 0.999999 (0.9999 for float).",
     "every normal argument of erf; every p in the stated range", T0 + "the limits between series, continued fraction and asymptotic form and the tails of the inverse are not covered", ["erf", "erf_inv"], ["series and continued fraction by range", "Newton-type iteration with a fixed number of steps from an initial approximation"], NOTE_TM, TM)
prop("C14", "The incomplete gamma function and its inverse are accurate",
     "The regularised lower incomplete gamma function is within 64 eps (10 + a^2) absolute for a in [0.1, 10] and z in [0.01, 60], and within 150 eps a log(a) (100 for float) for a in [10, 30] with z in [1, 100] and for a in [30, 100] with z in [5, 250]" + EPSN + ". incomplete_gamma_inv(a, p) returns a value whose true regularised incomplete gamma function differs from p by at most 1000 eps (10 + a^2), for a in [0.5, 9] and p in [0.1, 0.9] (up to 0.8 for a in (1, 1.25)).",
     "every pair of arguments in the stated boxes", T0 + "the limits between the two continued fractions and the quadrature and most of the parameter plane are not covered", ["incomplete_gamma", "incomplete_gamma_inv"], ["two continued fractions and a Gauss-Legendre quadrature by range", "Halley iteration from an initial approximation"], NOTE_TM, TM)
prop("C15", "The incomplete beta function and its inverse are accurate",
     "For each pair of parameters a, b out of {0.25, 0.5, 1, 1.5, 2, 3, 5, 7.5, 10, 20, 50, 100} the regularised incomplete beta function is within 4000 eps absolute for every z in [0.001, 0.999]" + EPSN + ", and for each pair out of {0.5, 1, 1.5, 2, 3, 5, 10, 20} incomplete_beta_inv(a, b, p) returns a value whose true regularised incomplete beta function differs from p by at most 16000 eps for every p in [0.05, 0.95].",
     "every z (every p) in the stated intervals for 144 (64) parameter pairs", T0 + "parameters are confined to a few small values and arguments to a few points", ["incomplete_beta", "incomplete_beta_inv", "lbeta"], ["Lentz continued fraction with a symmetry switch", "Halley iteration from an initial approximation"], NOTE_TM, TM)
prop("C16", "Special values: NaN, infinities, zeros and domain errors",
     "A NaN in any floating-point argument of the functions anchored here gives NaN (pow: of a floating-point exponent). Arguments outside the domain give NaN: negative numbers for sqrt, inv_sqrt, log, log2 and log10 (from the smallest normal number on), below -1 for log1p, below 1 for acosh, |x| > 1 for asin, acos, atanh and erf_inv, infinities for sin, cos and tan, negative integers, -infinity and everything below -2^precision for tgamma, division by zero and infinite dividends for fmod, negative bases with floating-point exponents for pow, negative z for incomplete_gamma, p > 1 for incomplete_gamma_inv. Limits are exact: sqrt, exp, expm1, log*, log1p, sinh, cosh, asinh, acosh and lgamma are +infinity at +infinity (odd and even functions accordingly at -infinity), exp(-inf) = 0, expm1(-inf) = -1, exp and expm1 of arguments beyond the overflow limit are +infinity, inv_sqrt(0) = +infinity, inv_sqrt(inf) = 0, log(0) = log1p(-1) = -infinity, atanh(+-1) = erf_inv(+-1) = +-infinity, tanh(+-inf) = erf(+-inf) = +-1, lgamma and tgamma of 0 are +infinity, hypot with an infinite and no NaN argument is +infinity, atan(+-inf) is +-pi/2 and asin and acos at +-1 and atan2 with an infinite or zero argument are exact multiples of pi/2, to 4 eps (8 eps for atan2). f(0) is exactly 0 for the odd functions and 1 for exp, cos and cosh; pow(x,0) = 1 for x > 0, pow(1,y) = 1 for finite y, pow(0,y) and pow(inf,y) are 0 or +infinity according to the sign of y != 0, pow(x,+-inf) is 0 or +infinity according to x < 1 or x > 1; incomplete_gamma(a,0) = 0, incomplete_beta is 0 at 0 and 1 at 1. Not claimed: the sign of a zero result, atan2 of two infinities or of a negative zero with a negative second argument, fmod by an infinity, pow(0,0), pow(inf,0) and pow(1,+-inf), lgamma of negative arguments.",
     "every NaN, infinity, zero and domain limit, and every argument of the out-of-domain and overflow ranges, of float, double and long double", T0 + "special values are tested for some functions and one type; out-of-domain ranges by one point", ["sqrt", "inv_sqrt", "exp", "expm1", "log", "log1p", "log2", "log10", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "hypot", "fmod", "pow", "lgamma", "tgamma", "erf", "erf_inv", "beta", "incomplete_gamma", "incomplete_beta", "is_nan", "is_inf", "is_finite"], ["NaN, infinity and domain tests in the *_check functions", "fallback order of the conditional expressions"], NOTE_TM, TM)
READY = ["C%02d" % i for i in range(1, 17)]
if __name__ == "__main__":
    ps = [p for p in P]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in ps:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": [I + x + ".hpp" for x in p["files"]], "mechanism": [{"name": m} for m in p["mech"]]}}) + "\n")
    m = {"version": 1, "setup_cmd": "python3-vt tools/setup.py",
         "checks": [{"property": p["id"], "quick_cmd": "python3-vt check.py %s --tier quick" % p["id"], "thorough_cmd": "python3-vt check.py %s --tier thorough" % p["id"],
                     "technique": p["technique"], "level": "proof", "level_note": p["level_note"]} for p in ps if p["id"] in READY],
         "not_applicable": [{"property": p["id"], "reason": p["na"] or "check under construction"} for p in ps if p["id"] not in READY]}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
