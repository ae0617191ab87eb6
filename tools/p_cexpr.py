"""C17: every call is a constant expression.  No undefined operation, no overflow, no division by zero, bounded nesting on the whole domain"""
from p_num import *
from p_spec import MX, MNS, neg

BIG = {"f32": "0x1.fffffep+127", "f64": "0x1.fffffffffffffp+1023", "f80": "0x1.fffffffffffffp+1023"}
SML = {"f32": "0x1p-126", "f64": "0x1p-1022", "f80": "0x1p-1022"}
XE = {"f32": 88.0, "f64": 709.0, "f80": 709.0}
XG = {"f32": 34.0, "f64": 170.0, "f80": 170.0}


def dom(ty):
    mx, mn = BIG[ty], SML[ty]
    every = [(neg(mx), neg(mn)), (0.0, 0.0), (mn, mx)]
    pos = [(0.0, 0.0), (mn, mx)]
    e, g = XE[ty], XG[ty]
    D = {f: every for f in ("floor", "ceil", "trunc", "round", "abs", "sgn", "atan", "asinh", "erf", "tanh", "sin", "cos", "sqrt", "inv_sqrt", "log", "log2", "log10", "log1p", "acosh", "asin", "acos", "atanh", "erf_inv")}
    D["exp"] = D["expm1"] = [(-e, e)]
    D["sinh"] = D["cosh"] = [(-e, e)]
    D["tan"] = every
    D["lgamma"] = [(mn, 1e30 if ty == "f32" else 1e300)]
    D["tgamma"] = [(mn, g)]
    return D


def jobs(tier="quick"):
    out = []
    for t in "fdl":
        ty = TYL[t]
        for f, bs in dom(ty).items():
            out.append(Job("%s.%s.cexpr" % (f, t), "%s_%s" % (t, f), f, ty, "0", [("any", 0, 0, 0, [b]) for b in bs], opts={"ord": 1, "noev": 1, "dlim": 513, "stubs": 0}))
    return out
