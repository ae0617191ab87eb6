"""C01 rounding, C02 sign and ordering primitives (exact SMT proofs over all bit patterns)"""
from smtprove import *


def isnan(x):
    return z3.fpIsNaN(x)


# ------------------------------------------------------------------ C01
RM = {"floor": z3.RTN(), "ceil": z3.RTP(), "trunc": z3.RTZ(), "round": z3.RNA()}


def spec_round(fnname):
    def spec(sem, args, r):
        x = args[0]
        s = z3.fpRoundToIntegral(RM[fnname], x)
        post = z3.And(z3.Implies(isnan(x), isnan(r)), z3.Implies(z3.Not(isnan(x)), z3.fpEQ(r, s)),
                      z3.Implies(z3.fpIsZero(x), z3.fpIsNegative(x) == z3.fpIsNegative(r)))
        return z3.BoolVal(True), post
    return spec


def cases_exp(w):
    """partition of all bit patterns by exponent field: every binade that has a fractional part on its own"""
    e, m = SORTS[w]
    bias = (1 << (e - 1)) - 1

    def cases(sem, args):
        b = z3.BitVec("a0", e + m)
        ex = z3.Extract(e + m - 2, m - 1, b)
        sg, fr = z3.BitVec("sgn0", 1), z3.BitVec("frac0", m - 1)
        out = [("|x| < 1/2", z3.ULT(ex, z3.BitVecVal(bias - 1, e)), {}), ("|x| >= 2^%d, inf or NaN" % (m + 2), z3.UGE(ex, z3.BitVecVal(bias + m + 2, e)), {})]
        for k in range(-1, m + 2):
            out.append(("2^%d <= |x| < 2^%d" % (k, k + 1), z3.BoolVal(True), {b: z3.Concat(sg, z3.BitVecVal(bias + k, e), fr)}))
        return out
    return cases


def ncases(w):
    return 2 + SORTS[w][1] + 3


def c01(tier):
    tasks, fns, notes = [], [], []
    for f in RM:
        for t in "fdl":
            ent = "%s_%s" % (t, f)
            stds, same = stds_for("@" + ent)
            for s in stds:
                n = ncases(W[t])
                step = 12
                for i in range(0, n, step):
                    tasks.append((prove, ent, s, spec_round(f), cases_exp(W[t]), 200, None, None, list(range(i, min(i + step, n)))))
            fns.append("gcem::%s<%s>" % (f, CT[W[t]]))
        # integral arguments: the identity on the converted value
        for t in "iujv":
            ent = "%s_%s" % (t, f)
            stds, same = stds_for("@" + ent)
            for s in stds:
                tasks.append((prove, ent, s, spec_int_identity(t), None, 100))
            fns.append("gcem::%s<%s>" % (f, {"i": "int", "u": "unsigned", "j": "long long", "v": "unsigned long long"}[t]))
    tasks.sort(key=lambda t: -{"l": 3, "d": 2}.get(t[1][0], 1))
    return run_tasks(tasks), fns


def spec_int_identity(t):
    def spec(sem, args, r):
        x = args[0]
        v = z3.fpSignedToFP(RNE, x, fpsort("f64")) if t in "ij" else z3.fpUnsignedToFP(RNE, x, fpsort("f64"))
        return z3.BoolVal(True), z3.fpEQ(r, v)
    return spec


# ------------------------------------------------------------------ C02
def sp_abs(sem, a, r):
    x = a[0]
    return z3.BoolVal(True), z3.And(z3.Implies(isnan(x), isnan(r)), z3.Implies(z3.Not(isnan(x)), z3.And(z3.fpEQ(r, z3.fpAbs(x)), z3.Not(z3.fpIsNegative(r)))))


def sp_sgn(sem, a, r):
    x = a[0]
    z = z3.FPVal(0, x.sort())
    n = r.size()
    v = z3.If(z3.fpGT(x, z), z3.BitVecVal(1, n), z3.If(z3.fpLT(x, z), z3.BitVecVal(-1, n), z3.BitVecVal(0, n)))
    return z3.BoolVal(True), r == v


def sp_isgn(signed):
    def f(sem, a, r):
        x = a[0]
        n = r.size()
        neg = x < 0 if signed else z3.BoolVal(False)
        return z3.BoolVal(True), r == z3.If(x == 0, z3.BitVecVal(0, n), z3.If(neg, z3.BitVecVal(-1, n), z3.BitVecVal(1, n)))
    return f


def sbit(sem, x, w):
    b = sem.ieee(x, w)
    return z3.Extract(b.size() - 1, b.size() - 1, b) == 1


def sp_signbit(w):
    def f(sem, a, r):
        return z3.BoolVal(True), r == sbit(sem, a[0], w)
    return f


def sp_copysign(w1, w2):
    def f(sem, a, r):
        x, y = a
        return z3.BoolVal(True), z3.And(z3.Implies(isnan(x), isnan(r)),
                                        z3.Implies(z3.Not(isnan(x)), z3.And(z3.fpEQ(z3.fpAbs(r), z3.fpAbs(x)), z3.fpIsNegative(r) == sbit(sem, y, w2))))
    return f


def sp_iabs(signed):
    def f(sem, a, r):
        x = a[0]
        n = x.size()
        if not signed:
            return z3.BoolVal(True), r == x
        return x != z3.BitVecVal(1 << (n - 1), n), z3.And(r >= 0, z3.Or(r == x, r == -x))
    return f


def tofp(v, w, signed=True):
    if z3.is_fp(v):
        return z3.fpToFP(RNE, v, fpsort(w))
    return z3.fpSignedToFP(RNE, v, fpsort(w)) if signed else z3.fpUnsignedToFP(RNE, v, fpsort(w))


def sp_fmax(which):
    def f(sem, a, r):
        s = r.sort()
        w = [k for k in SORTS if fpsort(k) == s][0]
        x, y = tofp(a[0], w), tofp(a[1], w)
        pre = z3.And(z3.Not(isnan(x)), z3.Not(isnan(y)))
        ge = z3.fpGEQ if which == "max" else z3.fpLEQ
        return pre, z3.And(ge(r, x), ge(r, y), z3.Or(z3.fpEQ(r, x), z3.fpEQ(r, y)))
    return f


def sp_imax(which, signed):
    def f(sem, a, r):
        n = r.size()
        ext = lambda v: v if v.size() == n else z3.SignExt(n - v.size(), v)
        x, y = ext(a[0]), ext(a[1])
        if which == "max":
            ge = (lambda p, q: p >= q) if signed else z3.UGE
        else:
            ge = (lambda p, q: p <= q) if signed else z3.ULE
        return z3.BoolVal(True), z3.And(ge(r, x), ge(r, y), z3.Or(r == x, r == y))
    return f


def c02(tier):
    jobs = []
    for t in "fdl":
        jobs += [(t + "_abs", sp_abs), (t + "_sgn", sp_sgn), (t + "_signbit", sp_signbit(W[t])), (t + "_copysign", sp_copysign(W[t], W[t])),
                 (t + "_max", sp_fmax("max")), (t + "_min", sp_fmax("min"))]
    jobs += [("df_copysign", sp_copysign("f64", "f32")), ("fl_copysign", sp_copysign("f32", "f80")), ("ld_copysign", sp_copysign("f80", "f64")),
             ("id_max", sp_fmax("max")), ("di_min", sp_fmax("min")), ("fd_max", sp_fmax("max")), ("df_min", sp_fmax("min"))]
    for t, sg in (("i", True), ("u", False), ("j", True), ("v", False)):
        jobs += [(t + "_abs", sp_iabs(sg)), (t + "_sgn", sp_isgn(sg)), (t + "_max", sp_imax("max", sg)), (t + "_min", sp_imax("min", sg))]
    jobs += [("ij_max", sp_imax("max", True)), ("ij_min", sp_imax("min", True))]
    tasks, fns = [], []
    for ent, sp in jobs:
        for s in stds_for("@" + ent)[0]:
            tasks.append((prove, ent, s, sp, None, 200))
        fns.append(ent)
    return run_tasks(tasks), fns
