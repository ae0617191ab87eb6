"""the accuracy contracts (relative/absolute error bounds per domain piece), in units of the type's epsilon"""
import math
from p_num import Spec, EPS

# the engine's own arithmetic carries 64 bits: long double arguments are confined to double's range and its bounds are stated in double's epsilon
MINN = {"f32": 2.0 ** -126, "f64": 2.0 ** -1022, "f80": 1e-300}
MAXF = {"f32": 3.4028234663852886e38, "f64": 1.7976931348623157e308, "f80": 1e300}
S = {}


def add(*a, **k):
    s = Spec(*a, **k)
    S[s.name + s.part] = s
    return s


def sym(f):
    """mirror the pieces of a one-argument function to negative arguments"""
    def g(ty):
        out = []
        for k, A, B, C, box in f(ty):
            (lo, hi), = box
            out.append((k, A, B, C, box))
            n = lambda v: ("-" + v if isinstance(v, str) else -v)
            out.append((k, A, B, C, [(n(hi), n(lo))]))
        return out
    return g


def e(ty):
    return EPS["f64"] if ty == "f80" else EPS[ty]


def rel(m, lo, hi):
    return lambda ty: [("err", 0, m * e(ty), 0, [(lo(ty) if callable(lo) else lo, hi(ty) if callable(hi) else hi)])]


def ab(m, lo, hi):
    return lambda ty: [("err", m * e(ty), 0, 0, [(lo(ty) if callable(lo) else lo, hi(ty) if callable(hi) else hi)])]


def cat(*fs):
    return lambda ty: sum([f(ty) for f in fs], [])


mn = lambda ty: MINN[ty]
mx = lambda ty: MAXF[ty]
# results for subnormal arguments may be those for zero
zero = lambda ty: [("err", 1.25 * MINN[ty], 0, 0, [(-MINN[ty], MINN[ty])])]
zero2 = lambda ty: [("err", 3 * MINN[ty], 0, 0, [(-2 * MINN[ty], 2 * MINN[ty])])]
mn2 = lambda ty: 2 * MINN[ty]
zero1 = lambda ty: [("err", 8 * e(ty), 0, 0, [(-MINN[ty], MINN[ty])])]
small = lambda ty: {"f32": 1e-30, "f64": 1e-290, "f80": 1e-290}[ty]
XMAX = {"f32": 87.0, "f64": 708.0, "f80": 708.0}
xm = lambda ty: XMAX[ty]
add("sqrt", "(sqrt x0)", cat(lambda ty: [("err", 1.001 * MINN[ty] ** 0.5, 0, 0, [(0.0, 0.0 if ty == "f80" else MINN[ty])])], rel(8, mn, 1e16), rel(40, 1e16, mx)), depth=160, noise=1)
add("inv_sqrt", "(/ 1 (sqrt x0))", rel(16, mn, mx), depth=130, noise=1)
add("exp", "(exp x0)", cat(rel(32, lambda ty: -xm(ty), xm), lambda ty: [("err", 2 * MINN[ty], 0, 0, [(-1e4, -XMAX[ty])])]), depth=40)
add("expm1", "(expm1 x0)", cat(zero, sym(rel(8, mn, 1e-4)), sym(ab(120, 1e-4, 0.5)), rel(200, 0.5, xm), lambda ty: [("err", 80 * e(ty), 0, 0, [(-xm(ty), -0.5)])]), depth=60)
add("log", "(log x0)", rel(12, mn, mx), depth=340)
add("log2", "(/ (log x0) ln2)", rel(16, mn, mx), depth=345)
add("log10", "(/ (log x0) ln10)", rel(16, mn, mx), depth=345)
add("log1p", "(log1p x0)", cat(zero, sym(rel(8, mn, 1e-4)), sym(ab(80, 1e-4, 0.5)), rel(80, 0.5, mx), lambda ty: [("err", 0, 0, 80 * e(ty), [(-0.999, -0.5)])]), g="(/ 1 (+ 1 x0))", depth=345)
trig = lambda ty: [("err", 32 * e(ty), 0, 0, [(small(ty), 4.0)]), ("err", 0, 0, 32 * e(ty), [(4.0, 200.0)])]
add("sin", "(sin x0)", cat(lambda ty: [("err", small(ty), 0, 0, [(-small(ty), small(ty))])], sym(trig)), g="x0", depth=60, noise=1, inl="gcem::tan")
add("cos", "(cos x0)", cat(lambda ty: [("err", 8 * e(ty), 0, 0, [(-small(ty), small(ty))])], sym(trig)), g="x0", depth=60, noise=1, inl="gcem::tan")


def tanp(ty):
    d = 1e-3
    out = [("err", 0, 0, 64 * e(ty), [(small(ty), math.pi / 2 - d)])]
    for k in range(1, 32):
        out.append(("err", 0, 0, 64 * e(ty), [(k * math.pi - math.pi / 2 + d, k * math.pi + math.pi / 2 - d)]))
    return out


add("tan", "(/ (sin x0) (cos x0))", cat(lambda ty: [("err", small(ty), 0, 0, [(-small(ty), small(ty))])], sym(tanp)), g="(* (+ 1 (abs x0)) (/ 1 (sq (cos x0))))", depth=60)
add("atan", "(atan x0)", cat(zero, sym(rel(16, mn, mx))), depth=60)
add("asin", "(atan (/ x0 (sqrt (- 1 (sq x0)))))", cat(zero2, sym(cat(rel(64, mn2, 0.5), lambda ty: [("err", 0, 0, 64 * e(ty), [(0.5, 0.9999)])]))), g="(/ 1 (- 1 (sq x0)))", depth=200)
add("acos", "(- (/ pi 2) (atan (/ x0 (sqrt (- 1 (sq x0))))))", cat(zero1, sym(cat(ab(64, mn, 0.5), lambda ty: [("err", 0, 0, 64 * e(ty), [(0.5, 0.9999)])]))), g="(/ 1 (- 1 (sq x0)))", depth=200)
add("sinh", "(/ (- (exp x0) (exp (- x0))) 2)", cat(ab(200, -1.0, 1.0), sym(rel(100, 1.0, xm))), depth=60)
add("cosh", "(/ (+ (exp x0) (exp (- x0))) 2)", rel(100, lambda ty: -xm(ty), xm), depth=60)
add("tanh", "(/ (expm1 (* 2 x0)) (+ 2 (expm1 (* 2 x0))))", cat(zero, sym(rel(32, mn, xm))), depth=70)
add("asinh", "(log (+ x0 (sqrt (+ 1 (sq x0)))))", ab(200, -1.0, 1.0), depth=360)
add("asinh", "(+ (log x0) (log (+ 1 (sqrt (+ 1 (/ 1 (sq x0)))))))", rel(100, 1.0, mx), depth=360, part=".pos")
add("asinh", "(- (+ (log (- x0)) (log (+ 1 (sqrt (+ 1 (/ 1 (sq x0))))))))", lambda ty: [("err", 0, 100 * e(ty), 0, [(-MAXF[ty], -1.0)])], depth=360, part=".neg")
add("acosh", "(+ (log x0) (log (+ 1 (sqrt (- 1 (/ 1 (sq x0)))))))", cat(ab(200, 1.01, 2.0), rel(100, 2.0, mx)), depth=360)
add("atanh", "(/ (log (/ (+ 1 x0) (- 1 x0))) 2)", cat(ab(100, -0.5, 0.5), sym(cat(lambda ty: [("err", 0, 0, 100 * e(ty), [(0.5, 0.999)])]))), g="(/ 1 (- 1 (sq x0)))", depth=360)
add("erf", "(erf x0)", cat(zero, sym(cat(rel(64, mn, 1.0), ab(400, 1.0, 1.5), ab(100, 1.5, 2.0), ab(16, 2.0, mx)))), depth=80, noise=1)
add("lgamma", "(lgamma x0)", cat(rel(32, mn, 0.001), ab(160, 0.001, 2.0), ab(400, 2.0, 10.0), rel(48, 10.0, 1e10)), depth=360)
# negative non-integers: one unit interval at a time, through the recurrence
for _n in range(1, 13):
    _r = "(/ (exp (lgamma (+ x0 %d))) (* %s))" % (_n, " ".join(["x0"] + ["(+ x0 %d)" % j for j in range(1, _n)])) if _n > 1 else "(/ (exp (lgamma (+ x0 1))) x0)"
    add("tgamma", _r, lambda ty, n=_n: [("err", 0, 600 * e(ty), 0, [(-n + 2.0 ** -12, -n + 1 - 2.0 ** -12)])], depth=440, part=".n%d" % _n)
add("tgamma", "(exp (lgamma x0))", cat(lambda ty: [("err", 0, 240 * e(ty), 40 * e(ty), [(4 * mn(ty), 0.05)])], rel(240, 0.05, 2.0), rel(500, 2.0, 10.0), lambda ty: [("err", 0, 64 * e(ty), 64 * e(ty), [(10.0, 30.0 if ty == "f32" else 100.0)])]), g="(* (lgamma x0) (exp (lgamma x0)))", depth=420)

add("factorial", "(exp (lgamma (+ x0 1)))", cat(rel(300, 0.0, 1.0), rel(600, 1.0, 9.0), lambda ty: [("err", 0, 80 * e(ty), 80 * e(ty), [(9.0, 29.0 if ty == "f32" else 99.0)])]), g="(* (lgamma (+ x0 1)) (exp (lgamma (+ x0 1))))", depth=440)


def quad(pieces, xs=(1, -1), ys=(1, -1)):
    """mirror two-argument pieces into sign quadrants"""
    def g(ty):
        out = []
        for k, A, B, C, (bx, by) in pieces(ty):
            for sx in xs:
                for sy in ys:
                    m = lambda b, s: b if s > 0 else (-b[1], -b[0])
                    out.append((k, A, B, C, [m(bx, sx), m(by, sy)]))
        return out
    return g


H = lambda ty, a, b: ("err", 0, 16 * e(ty), 0, [a, b])
hyp = lambda ty: [H(ty, a, b) for a in ((1e-3, 1.0), (1.0, 1e3)) for b in ((1e-3, 1.0), (1.0, 1e3))]


def hypx(ty):
    """extreme scales: the larger argument first"""
    out = []
    for big in ((1e30, 1e33),) if ty == "f32" else ((1e290, 1e293), (1e150, 1e153)):
        for sm in ((big[0] / 1e3, big[0]), (1e-3, 1.0), (1e-30, 1e-27) if ty == "f32" else (1e-290, 1e-287)):
            out.append(H(ty, big, sm))
    for k in (1e-30,) if ty == "f32" else (1e-290, 1e-150):
        out.append(H(ty, (10 * k, 1e3 * k), (k, 10 * k)))
    return out


add("hypot", "(sqrt (+ (sq x0) (sq x1)))", quad(hyp), nargs=2, depth=170, ord=12)
add("hypot", "(* (abs x0) (sqrt (+ 1 (sq (/ x1 x0)))))", quad(hypx), nargs=2, depth=170, ord=12, part=".x")
add("hypot", "(* (abs x1) (sqrt (+ 1 (sq (/ x0 x1)))))", lambda ty: [(k, A, B, C, [b, a]) for k, A, B, C, (a, b) in quad(hypx)(ty)], nargs=2, depth=170, ord=12, part=".y")
at1 = lambda ty: [("err", 0, 24 * e(ty), 0, [(0.01, 100.0), (0.01, 100.0)])]
add("atan2", "(atan (/ x0 x1))", quad(at1, ys=(1,)), nargs=2, depth=80, ord=12)
add("atan2", "(+ (atan (/ x0 x1)) pi)", quad(at1, xs=(1,), ys=(-1,)), nargs=2, depth=80, ord=12, part=".q2")
add("atan2", "(- (atan (/ x0 x1)) pi)", quad(at1, xs=(-1,), ys=(-1,)), nargs=2, depth=80, ord=12, part=".q3")
add("beta", "(exp (- (+ (lgamma x0) (lgamma x1)) (lgamma (+ x0 x1))))", lambda ty: [("err", 0, 8000 * e(ty), 0, [(0.1, 10.0), (0.1, 10.0)])], nargs=2, depth=420)
add("lbeta", "(- (+ (lgamma x0) (lgamma x1)) (lgamma (+ x0 x1)))", lambda ty: [("err", 5000 * e(ty), 0, 0, [(0.1, 10.0), (0.1, 10.0)])], nargs=2, depth=400)
add("log_binomial_coef", "(- (lgamma (+ x0 1)) (+ (lgamma (+ x1 1)) (lgamma (+ 1 (- x0 x1)))))", lambda ty: [("err", 30000 * e(ty), 0, 0, [(10.0, 40.0), (0.001, 9.0)])], nargs=2, depth=400)
pw = lambda ty: [("err", 0, 48 * e(ty), 32 * e(ty), [(0.01, 100.0), y]) for y in ((1e-3, 8.0), (-8.0, -1e-3))]
add("pow", "(exp (* x1 (log x0)))", pw, g="(* x1 (* (log x0) (exp (* x1 (log x0)))))", nargs=2, depth=400, ord=12)

for _p in (1, 2, 3, 4):
    _r = "(lgamma x0)" if _p == 1 else "(+ (* %s (log pi)) %s)" % (_p * (_p - 1) / 4, " ".join("(lgamma %s)" % ("(- x0 %s)" % (j / 2) if j else "x0") for j in range(_p)))
    add("lmgamma", _r, lambda ty, p=_p: [("err", 4000 * e(ty), 0, 0, [(float(p), 10.0)])], depth=400, part=".p%d" % _p, iargs=((1, 32, _p),), entry="%si_lmgamma")
_ei = lambda ty: [("err", 2 * e(ty), 0, 0, [(-e(ty), e(ty))])] + [("err", m * e(ty), 0, 0, [b]) for m, lo, hi in ((8, e(ty), 0.01), (100, 0.01, 0.84), (800, 0.84, 0.97), (200, 0.97, 0.9999 if ty == "f32" else 0.999999)) for b in ((lo, hi), (-hi, -lo))]
add("erf_inv", None, _ei, resid="(- (erf r) x0)", depth=512, noise=1)
G = lambda ty, m, a, b: ("err", 0, 0, m * e(ty), [a, b])
# incomplete gamma: continued fractions below a = 10, quadrature above
_ig = lambda ty: [G(ty, 64, (0.1, 10.0), b) for b in ((0.01, 3.0), (3.0, 14.0), (14.0, 60.0))]
add("incomplete_gamma", "(gammap x0 x1)", _ig, g="(+ 10 (* x0 x0))", nargs=2, depth=400, ord=10)
add("incomplete_gamma", "(gammap x0 x1)", lambda ty: [G(ty, 100 if ty == "f32" else 150, *b) for b in (((10.0, 30.0), (1.0, 100.0)), ((30.0, 100.0), (5.0, 250.0)))], g="(* x0 (log x0))", nargs=2, depth=512, ord=16, part=".q")
_igi = lambda ty: [G(ty, 1000, a, p) for a, p in (((0.5, 1.0), (0.1, 0.9)), ((1.0, 1.25), (0.1, 0.8)), ((1.25, 9.0), (0.1, 0.9)))]
add("incomplete_gamma_inv", None, _igi, resid="(- (gammap x0 r) x1)", g="(+ 10 (* x0 x0))", nargs=2, depth=512, noise=1, ord=8)
# incomplete beta: one-argument obligations in z for each pair of parameters
IBG = (0.25, 0.5, 1.0, 1.5, 2.0, 3.0, 5.0, 7.5, 10.0, 20.0, 50.0, 100.0)
add("incomplete_beta", "(ibeta x0 x1 x2)", lambda ty: [("err", 4000 * e(ty), 0, 0, [(a, a), (b, b), (0.001, 0.999)]) for a in IBG for b in IBG], nargs=3, depth=417, byparts=True)
for _a in IBG:
    for _b in IBG:
        add("incomplete_beta", "(ibeta %r %r x0)" % (_a, _b), lambda ty: [("err", 4000 * e(ty), 0, 0, [(0.001, 0.999)])], nargs=1, depth=512, part=".%g_%g" % (_a, _b), iargs=((0, None, _a), (1, None, _b)), inl="gcem::lbeta")
IBI = (0.5, 1.0, 1.5, 2.0, 3.0, 5.0, 10.0, 20.0)
for _a in IBI:
    for _b in IBI:
        add("incomplete_beta_inv", None, lambda ty: [("err", 16000 * e(ty), 0, 0, [(0.05, 0.95)])], resid="(- (ibeta %r %r r) x0)" % (_a, _b), nargs=1, depth=512, part=".%g_%g" % (_a, _b), iargs=((0, None, _a), (1, None, _b)), inl="gcem::lbeta", noise=1)
