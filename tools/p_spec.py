"""C16: special values.  Postconditions at NaN, infinities, zeros and domain limits, and over whole out-of-domain ranges"""
from p_num import *
import specs

NAN, INF = float("nan"), float("inf")
MX = {"f32": "0x1.fffffep+127", "f64": "0x1.fffffffffffffp+1023", "f80": "0x1.fffffffffffffffep+16383"}
DN = {"f32": "0x1p-149", "f64": "0x1p-1074", "f80": "0x1p-16445"}
MNS = {"f32": "0x1p-126", "f64": "0x1p-1022", "f80": "0x1p-16382"}
PREC = {"f32": 24, "f64": 53, "f80": 64}
XOV = {"f32": 89.0, "f64": 710.0, "f80": 11357.0}
XUN = {"f32": -104.0, "f64": -746.0, "f80": -11514.0}


def one_minus(ty):
    n = PREC[ty]
    h = "%x" % (((1 << n) - 1) << ((-n) % 4))
    return "0x0.%sp+0" % h


def one_plus(ty):
    n = PREC[ty] - 1
    h = "%0*x" % ((n + 3) // 4, 1 << ((-n) % 4))
    return "0x1.%sp+0" % h


def neg(s):
    return s[1:] if isinstance(s, str) and s.startswith("-") else "-" + s if isinstance(s, str) else -s


def at(kind, x, A=0):
    return (kind, A, 0, 0, [(x, x)])


def rng(kind, lo, hi, A=0):
    return (kind, A, 0, 0, [(lo, hi)])


def unary(ty):
    """function -> list of (reference or None, pieces)"""
    mx, dn, mn = MX[ty], DN[ty], MNS[ty]
    nx, ndn = neg(mx), neg(dn)
    o1, op = one_minus(ty), one_plus(ty)
    e = 4 * EPS[ty]
    nan = at("nan", NAN)
    big = "0x1p+%d" % PREC[ty]
    neg_nan = [rng("nan", nx, ndn), at("nan", -INF)]
    U = {}
    U["sqrt"] = [nan, at("inf", INF), at("eq", 0.0), at("eq", -0.0), at("eq", 1.0, 1)] + neg_nan
    U["inv_sqrt"] = [nan, at("eq", INF, 0), at("inf", 0.0), at("inf", -0.0), at("eq", 1.0, 1)] + neg_nan
    U["exp"] = [nan, at("inf", INF), at("eq", -INF, 0), at("eq", 0.0, 1), at("eq", -0.0, 1), rng("inf", XOV[ty], mx), rng("range2", nx, XUN[ty])]
    U["expm1"] = [nan, at("inf", INF), at("eq", -INF, -1), at("eq", 0.0, 0), rng("inf", XOV[ty], mx)]
    for f in ("log", "log2", "log10"):
        U[f] = [nan, at("inf", INF), at("ninf", 0.0), at("ninf", -0.0), at("eq", 1.0, 0), rng("nan", nx, neg(mn)), at("nan", -INF)]
    U["log1p"] = [nan, at("inf", INF), at("ninf", -1.0), at("eq", 0.0, 0), rng("nan", nx, neg(op)), at("nan", -INF)]
    for f in ("sin", "cos", "tan"):
        U[f] = [nan, at("nan", INF), at("nan", -INF), at("eq", 0.0, 1 if f == "cos" else 0), at("eq", -0.0, 1 if f == "cos" else 0)]
    out = [nan, rng("nan", op, mx), rng("nan", nx, neg(op)), at("nan", INF), at("nan", -INF)]
    U["asin"] = out + [at("eq", 0.0, 0), at("eq", -0.0, 0), ("err", "(/ pi 2)", e, 1.0), ("err", "(- (/ pi 2))", e, -1.0)]
    U["acos"] = out + [at("eq", 1.0, 0), ("err", "(/ pi 2)", e, 0.0), ("err", "pi", e, -1.0)]
    U["atan"] = [nan, at("eq", 0.0, 0), at("eq", -0.0, 0), ("err", "(/ pi 2)", e, INF), ("err", "(- (/ pi 2))", e, -INF), ("err", "(/ pi 2)", e, mx), ("err", "(- (/ pi 2))", e, nx)]
    U["sinh"] = [nan, at("inf", INF), at("ninf", -INF), at("eq", 0.0, 0), at("eq", -0.0, 0)]
    U["cosh"] = [nan, at("inf", INF), at("inf", -INF), at("eq", 0.0, 1), at("eq", -0.0, 1)]
    U["tanh"] = [nan, at("eq", INF, 1), at("eq", -INF, -1), at("eq", 0.0, 0), at("eq", -0.0, 0), rng("eq", XOV[ty], mx, 1), rng("eq", nx, -XOV[ty], -1)]
    U["asinh"] = [nan, at("inf", INF), at("ninf", -INF), at("eq", 0.0, 0), at("eq", -0.0, 0)]
    U["acosh"] = [nan, at("inf", INF), at("eq", 1.0, 0), rng("nan", nx, o1), at("nan", -INF)]
    U["atanh"] = out + [at("inf", 1.0), at("ninf", -1.0), at("eq", 0.0, 0), at("eq", -0.0, 0)]
    U["lgamma"] = [nan, at("inf", INF), at("inf", 0.0), at("inf", -0.0), at("eq", 1.0, 0), ("err", "0", e, 2.0)]
    U["tgamma"] = [nan, at("inf", INF), at("inf", 0.0), at("inf", -0.0), at("nan", -INF), at("eq", 1.0, 1), ("err", "1", 4 * e, 2.0), rng("nan", nx, neg(big))] + [at("nan", -float(k)) for k in (1, 2, 3, 5, 10, 20, 33)]
    U["erf"] = [nan, at("eq", INF, 1), at("eq", -INF, -1), at("eq", 0.0, 0), at("eq", -0.0, 0)]
    U["erf_inv"] = out + [at("inf", 1.0), at("ninf", -1.0), at("eq", 0.0, 0), at("eq", -0.0, 0)]
    return U


def binary(ty):
    """function -> list of (constant argument index, its value, pieces in the other argument)"""
    mx, dn, mn = MX[ty], DN[ty], MNS[ty]
    nx = neg(mx)
    e = 8 * EPS[ty]
    PX = mx if ty == "f32" else "0x1p+250"
    PN = mn if ty == "f32" else "0x1p-250"
    allx = [rng("nan", nx, mx), at("nan", INF), at("nan", -INF), at("nan", NAN)]
    B = {}
    for f in ("hypot", "atan2", "fmod", "pow", "beta", "lbeta", "log_binomial_coef", "incomplete_gamma", "incomplete_gamma_inv"):
        pos = [rng("nan", 1.0, 40.0), at("nan", NAN)]
        B[f] = [(0, NAN, pos if f in ("beta", "lbeta", "log_binomial_coef") else allx), (1, NAN, pos if f in ("beta", "lbeta", "log_binomial_coef") else allx)]
    B["pow"] = [(0, NAN, allx), (1, NAN, [rng("nan", neg(PX), neg(PN)), rng("nan", PN, PX), at("nan", INF), at("nan", -INF), at("nan", NAN), at("nan", 0.0)])]
    fin = lambda k, A=0: [rng(k, nx, mx, A)]
    B["hypot"] += [(0, INF, fin("inf") + [at("inf", INF), at("inf", -INF)]), (0, -INF, fin("inf")), (1, INF, fin("inf")), (1, -INF, fin("inf"))]
    p, n = (mn, mx), (nx, neg(mn))
    B["atan2"] += [(0, INF, [("err", "(/ pi 2)", e) + t for t in ((nx, mx),)]), (0, -INF, [("err", "(- (/ pi 2))", e, nx, mx)]),
                   (1, INF, fin("eq")), (1, -INF, [("err", "pi", e, mn, mx), ("err", "(- pi)", e, nx, neg(mn))]),
                   (0, 0.0, [rng("eq", mn, mx, 0), ("err", "pi", e, nx, neg(mn)), at("eq", 0.0, 0)]), (1, 0.0, [("err", "(/ pi 2)", e, mn, mx), ("err", "(- (/ pi 2))", e, nx, neg(mn))])]
    B["fmod"] += [(0, INF, allx), (0, -INF, allx), (1, 0.0, allx), (1, -0.0, allx)]
    B["pow"] += [(1, 0.0, [rng("eq", PN, PX, 1)]), (0, 1.0, [rng("eq", nx, mx, 1)]), (0, 0.0, [rng("eq", mn, mx, 0), rng("inf", nx, neg(mn)), at("eq", INF, 0), at("inf", -INF)]), (0, INF, [rng("inf", mn, mx), rng("eq", nx, neg(mn), 0), at("inf", INF), at("eq", -INF, 0)]),
                 (0, -2.0, allx), (0, -0.5, allx), (0, -INF, allx), (0, neg(mn), allx), (0, nx, allx), (1, INF, [rng("inf", 1.5, PX), rng("eq", PN, 0.75, 0)]), (1, -INF, [rng("eq", 1.5, PX, 0), rng("inf", PN, 0.75)])]
    nanneg = [rng("nan", nx, neg(mn))]
    B["incomplete_gamma"] += [(1, 0.0, [rng("eq", mn, mx, 0), at("eq", 0.0, 0)]), (1, 1.0, nanneg), (1, 50.0, nanneg), (0, 0.0, [rng("eq", mn, mx, 1)])]
    B["incomplete_gamma_inv"] += [(1, 0.0, [rng("eq", mn, mx, 0)]), (1, 1.0, [rng("inf", mn, mx)]), (1, one_plus(ty), [rng("nan", mn, mx)]), (1, 2.0, [rng("nan", mn, mx)]), (0, 2.0, [rng("nan", one_plus(ty), mx), at("nan", INF)]), (0, 0.5, [rng("nan", one_plus(ty), mx)])]
    return B


def ternary(ty):
    mx = MX[ty]
    T = {}
    an = [rng("nan", neg(mx), mx), at("nan", INF), at("nan", NAN)]
    for f in ("incomplete_beta", "incomplete_beta_inv"):
        T[f] = [((0, NAN), (1, 2.0), an), ((0, 2.0), (1, NAN), an), ((0, 0.5), (1, 3.0), [at("nan", NAN), at("eq", 0.0, 0), at("eq", -0.0, 0), at("eq", 1.0, 1)]), ((0, 7.5), (1, 0.75), [at("nan", NAN), at("eq", 0.0, 0), at("eq", 1.0, 1)])]
    return T


def split(pieces):
    """group pieces by reference"""
    plain, refs = [], []
    for p in pieces:
        if p[0] == "err" and isinstance(p[1], str):
            lo, hi = (p[3], p[3]) if len(p) == 4 else (p[3], p[4])
            refs.append((p[1], [("err", p[2], 0, 0, [(lo, hi)])]))
        elif p[0] == "range2":
            plain.append(p)
        else:
            plain.append(p)
    return ([(None, plain)] if plain else []) + refs


def jobs():
    out = []
    for t in "fdl":
        ty = TYL[t]
        for f, pcs in unary(ty).items():
            pcs = [("range", 0, MNS[ty], 0, p[4]) if p[0] == "range2" else p for p in pcs]
            for i, (ref, ps) in enumerate(split(pcs)):
                out.append(Job("%s.%s.special%d" % (f, t, i), "%s_%s" % (t, f), f, ty, ref or "0", ps))
        for f, rows in binary(ty).items():
            for k, (ci, v, pcs) in enumerate(rows):
                for i, (ref, ps) in enumerate(split(pcs)):
                    out.append(Job("%s.%s.special%d_%d" % (f, t, k, i), "%s_%s" % (t, f), f, ty, ref or "0", ps, iargs=((ci, None, fl(v)),), nv=1, opts={"inl": "gcem::exp"} if f == "pow" else None))
        mx, mn = MX[ty], MNS[ty]
        out.append(Job("pow.%s.negbase" % t, "%s_pow" % t, "pow", ty, "0", [("nan", 0, 0, 0, [(neg(mx), neg(mn)), (neg(mx), mx)])], nv=2))
        for f, rows in ternary(ty).items():
            for k, (a, b, ps) in enumerate(rows):
                out.append(Job("%s.%s.special%d" % (f, t, k), "%s_%s" % (t, f), f, ty, "0", ps, iargs=((a[0], None, a[1]), (b[0], None, b[1])), nv=1))
    return out


class fl(float):
    """a constant argument given as text keeps its exact spelling"""
    def __new__(cls, v):
        x = float.__new__(cls, v if not isinstance(v, str) else (float.fromhex(v) if len(v) < 26 and "16383" not in v and "16382" not in v else float("inf")))
        x.txt = v if isinstance(v, str) else None
        return x
