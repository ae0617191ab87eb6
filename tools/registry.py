import common, smtprove

SMT_TB = ["tools/symex.py verification condition generator", "z3 (theory of floating point, bit-vectors)"]
SMT_ASSUME = ["IEEE-754 round-to-nearest-even for +,-,*,/ and conversions (x87 80-bit format for long double, canonical encodings)",
              "the code is compiled without -ffast-math and without FP contraction",
              "clang's -O0 IR for the driver instantiations has the meaning of the C++ source"]
TM_TB = ["engine/ Taylor-model verifier (branch and bound, contracts for public callees)", "MPFR (reference values at points)", "x87 extended arithmetic of the host"]
TM_ASSUME = SMT_ASSUME + ["long double is proved on double's range and to double's precision only"]
ACC = {
    "C06": ["sqrt", "inv_sqrt", "hypot"],
    "C07": ["exp", "expm1", "pow"],
    "C08": ["log", "log1p", "log2", "log10"],
    "C09": ["sin", "cos", "tan"],
    "C10": ["asin", "acos", "atan", "atan2"],
    "C11": ["sinh", "cosh", "tanh", "asinh", "acosh", "atanh"],
    "C12": ["lgamma", "tgamma", "beta", "lbeta", "lmgamma", "log_binomial_coef"],
    "C13": ["erf", "erf_inv"],
    "C14": ["incomplete_gamma", "incomplete_gamma_inv"],
    "C15": ["incomplete_beta", "incomplete_beta_inv"],
}


def run(pid, tier, t0):
    for s in common.STDS:
        common.module(s)
    if pid in ("C01", "C02"):
        import p_basic
        res, fns = getattr(p_basic, pid.lower())(tier)
        return common.finish(pid, tier, res, t0, SMT_TB, fns, SMT_ASSUME)
    if pid == "C03":
        import p_int
        res, fns = p_int.c03(tier)
        return common.finish(pid, tier, res, t0, SMT_TB, fns, SMT_ASSUME)
    if pid == "C04":
        import p_int, p_num
        res, fns = p_int.c04(tier)
        r3, f3, st = p_num.decide(p_num.spec_jobs("factorial"), 200 if tier == "quick" else 2000)
        return common.finish(pid, tier, res + r3, t0, SMT_TB + TM_TB, fns + sorted(f3), TM_ASSUME, {"engine": st})
    if pid == "C05":
        import p_int, p_num
        res, fns = p_int.c05_int(tier)
        r2, f2 = p_int.c05_fp(tier)
        r3, f3, st = p_num.decide(p_num.powi_jobs(tier), 200 if tier == "quick" else 2000)
        return common.finish(pid, tier, res + r2 + r3, t0, SMT_TB + TM_TB, fns + f2 + sorted(f3), TM_ASSUME + ["the rounding-count contract of pow covers bases and exponents for which base^|n| neither overflows nor is subnormal"], {"engine": st})
    if pid in ACC:
        import p_num
        jobs = [j for f in ACC[pid] for j in p_num.spec_jobs(f)]
        res, fns, st = p_num.decide(jobs, 400 if tier == "quick" else 3000)
        return common.finish(pid, tier, res, t0, TM_TB, fns, TM_ASSUME, {"engine": st})
    if pid == "C16":
        import p_num, p_spec
        res, fns, st = p_num.decide(p_spec.jobs(), 400 if tier == "quick" else 3000, contracts=False)
        return common.finish(pid, tier, res, t0, TM_TB, fns, SMT_ASSUME, {"engine": st})
    print("unknown property", pid)
    return 2
