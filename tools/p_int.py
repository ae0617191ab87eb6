"""C03 gcd/lcm, C04 factorial/binomial coefficients, C05 integer powers: contracts on the recursive functions, discharged by z3"""
import math
from smtprove import *

ITY = {"i": (32, True), "u": (32, False), "j": (64, True), "v": (64, False), "n": (64, True)}
CNAME = {"i": "int", "u": "unsigned", "j": "long long", "v": "unsigned long long", "n": "long"}


def rec_targets(mod, entry, pred):
    """the recursive functions reachable from an entry (the contracts go on these, whatever their name)"""
    out = []
    for f in irx.callees(mod, "@" + entry):
        fn = mod.funcs[f]
        direct = {i.a[0] for b in fn.order for i in fn.blocks[b] if i.op == "call"}
        reach = set()
        for d in direct:
            if d in mod.funcs:
                reach |= set(irx.callees(mod, d))
        if f in reach and pred(fn):
            out.append(f)
    return out


def intsig(fn):
    return fn.ret.kind == "int" and all(t.kind == "int" for t, n in fn.params)


def sgn_of(v, bits):
    return v - (1 << bits) if v >= 1 << (bits - 1) else v


# ------------------------------------------------------------------ abstraction of multiplication and division
class Abstractor:
    """multiplication, division and their overflow predicates become uninterpreted (sound: fewer facts)"""
    K = None

    def __init__(self):
        self.cache, self.fns, self.keep = {}, {}, []
        self.terms, self.comm = [], []

    def run(self, e):
        k = e.get_id()
        if k in self.cache:
            return self.cache[k]
        stack = [e]
        while stack:
            t = stack[-1]
            if t.get_id() in self.cache:
                stack.pop()
                continue
            todo = [c for c in t.children() if c.get_id() not in self.cache]
            if todo:
                stack += todo
                continue
            stack.pop()
            ch = [self.cache[c.get_id()] for c in t.children()]
            nm = t.decl().name()
            if nm in ("bvmul", "bvsdiv", "bvudiv", "bvsdiv_i", "bvudiv_i", "bvsrem", "bvurem", "bvsrem_i", "bvurem_i", "bvumul_noovfl", "bvsmul_noovfl", "bvsmul_noudfl") and not (all if "div" in nm or "rem" in nm else any)(z3.is_bv_value(c) for c in ch):
                nm = nm.replace("_i", "")
                if nm.startswith("bvmul"):
                    r = ch[0]
                    for c in ch[1:]:
                        r = self.app("bvmul", t.sort(), *sorted((r, c), key=lambda z: z.get_id()))
                        self.comm.append(r == self.app("bvmul", t.sort(), r.arg(1), r.arg(0)))
                elif nm.endswith("fl"):
                    r = self.app(nm, t.sort(), *sorted(ch, key=lambda z: z.get_id()))
                    self.comm.append(r == self.app(nm, t.sort(), r.arg(1), r.arg(0)))
                else:
                    r = self.app(nm, t.sort(), *ch)
                    self.terms.append((nm, ch[0], ch[1], r))
            else:
                r = t.decl()(*ch) if ch else t
            self.keep += [t, r]
            self.cache[t.get_id()] = r
        return self.cache[k]

    def app(self, nm, sort, a, b):
        k = (nm, a.sort().sexpr())
        if k not in self.fns:
            self.fns[k] = z3.Function("U%s%d" % (nm, a.size()), a.sort(), b.sort(), sort)
        return self.fns[k](a, b)


class GcdSem:
    """G(x,y): the value returned for (x,y); D(v): an arbitrary fixed positive number divides v"""

    def __init__(self):
        self.facts, self.calls = [], []

    def G(self, x, y):
        s = x.sort()
        g = z3.Function("G%d" % x.size(), s, s, s)(x, y)
        return g

    def D(self, x):
        return z3.Function("D%d" % x.size(), x.sort(), z3.BoolSort())(x)

    def ih(self, x, y, signed):
        """the contract's postcondition at (x,y)"""
        g = self.G(x, y)
        z = z3.BitVecVal(0, x.size())
        f = [self.D(g) == z3.And(self.D(x), self.D(y)), (g == z) == z3.And(x == z, y == z), z3.Implies(y == z, g == x), z3.Implies(x == z, g == y)]
        if signed:
            f.append(g >= 0)
        return f


def gcd_contract(gs, ctx, signed):
    def apply(ex, fn, args, pc):
        x, y = args
        if signed:
            ex.oblige("precondition", "non-negative arguments of " + fn.demangled, pc, z3.And(x >= 0, y >= 0), fn.demangled)
        if ctx.get("params") is not None:
            a, b = ctx["params"]
            ex.oblige("measure", "the second argument decreases in " + fn.demangled, pc, z3.Or(z3.ULT(y, b), z3.And(y == b, z3.ULT(x, a))), fn.demangled)
        gs.facts += gs.ih(x, y, signed)
        gs.calls.append((x, y))
        return gs.G(x, y)
    return Contract(apply)


def gcd_check(goals, gs, extra, label, fnname, timeout=60):
    """goals: [(name, hyp, goal)] -> Results, with the division lemma instantiated for every remainder in sight"""
    out = []
    for name, hyp, goal in goals:
        t1 = time.time()
        ab = Abstractor()
        fs = [ab.run(f) for f in list(hyp) + gs.facts + extra + [z3.Not(goal)]]
        lem = []
        for nm, x, y, r in list(ab.terms):
            z = z3.BitVecVal(0, x.size())
            if nm in ("bvudiv", "bvsdiv"):
                # quotient and remainder: x = y*q + x%y, y*q <= x without overflow; trivial divisors and dividends
                sg = nm == "bvsdiv"
                ok = z3.And(y != z, z3.And(x >= 0, y >= 0) if sg else z3.BoolVal(True))
                m = ab.app("bvmul", x.sort(), *sorted((y, r), key=lambda t: t.get_id()))
                rem = ab.app("bvsrem" if sg else "bvurem", x.sort(), x, y)
                ab.terms.append(("bvsrem" if sg else "bvurem", x, y, rem))
                lem.append(z3.Implies(ok, z3.And(x == m + rem, z3.ULE(m, x), z3.ULE(r, x), z3.ULT(rem, y), m + rem - m == rem, x - m == rem)))
                lem.append(z3.Implies(z3.And(ok, x == z), z3.And(r == z, m == z)))
                lem.append(z3.Implies(z3.And(ok, y == 1), r == x))
                for a, b in ((y, r), (r, y)):
                    lem += [ab.app("bvmul", x.sort(), a, b) == m]
                    if sg:
                        lem += [z3.Implies(ok, ab.app(q, z3.BoolSort(), a, b)) for q in ("bvsmul_noovfl", "bvsmul_noudfl")]
                lem += [gs.D(z)]
        for t in list(ab.keep):
            if t.num_args() == 2 and t.decl().name().startswith("Ubvmul"):
                a, b = t.children()
                z = z3.BitVecVal(0, a.size())
                lem += [z3.Implies(z3.Or(a == z, b == z), t == z), z3.Implies(a == 1, t == b), z3.Implies(b == 1, t == a)]
            if t.num_args() == 2 and t.decl().name().startswith("Ubvsmul_no"):
                a, b = t.children()
                lem += [z3.Implies(z3.Or(z3.And(a >= 0, a <= 1), z3.And(b >= 0, b <= 1)), t)]
        for nm, x, y, r in ab.terms:
            z = z3.BitVecVal(0, x.size())
            if nm in ("bvurem", "bvsrem"):
                nn = z3.BoolVal(True) if nm == "bvurem" else z3.And(x >= 0, y >= 0)
                ok = z3.And(y != z, nn)
                lem.append(z3.Implies(ok, z3.And(z3.Implies(gs.D(y), gs.D(x) == gs.D(r)), z3.ULT(r, y), z3.ULE(r, x), r >= 0 if nm == "bvsrem" else z3.BoolVal(True))))
        seen = {}
        for f in fs:
            for t in subterms(f):
                if t.decl().name() == "bvadd" and t.num_args() == 2:
                    lem += addlemma(gs, t)
                if z3.is_bv_value(t) and t.as_long() == 0:
                    lem.append(gs.D(t))
        s = z3.Solver()
        s.set("timeout", timeout * 1000)
        s.add(*fs, *lem, *ab.comm)
        r = str(s.check())
        st = {"unsat": "proved", "sat": "failed"}.get(r, "undecided")
        out.append(Result("%s: %s" % (label, name), st, "z3 " + z3.get_version_string(), time.time() - t1, fnname, "" if st == "proved" else "not derivable from the contract"))
    return out


def addlemma(gs, t):
    """x - y with x >= y >= 0: a common divisor of two of x, y, x-y divides the third"""
    out = []
    a, b = t.children()
    for x, m in ((a, b), (b, a)):
        y = z3.simplify(-m)
        out.append(z3.Implies(z3.And(z3.UGE(x, y)), z3.Implies(gs.D(y), gs.D(x) == gs.D(t))))
    return out


def subterms(e):
    seen, st = set(), [e]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        yield t
        st += t.children()


def int_lemmas():
    """the arithmetic facts the contracts of gcd and lcm use, over the integers"""
    d, k, m, q, x, y, r, g, p, a, b = z3.Ints("d k m q x y r g p a b")
    L = [("division lemma: d|y and d|r imply d | q*y+r", [y == k * d, r == m * d, x == q * y + r], x == (q * k + m) * d),
         ("division lemma: d|y and d | q*y+r imply d|r", [r == x - q * y, y == k * d, x == m * d], r == (m - q * k) * d),
         ("lcm lemma: both orders of dividing by the gcd give the same product", [a == g * p, b == g * q], z3.And(a * q == g * p * q, p * b == g * p * q, (a * q) * g == a * b))]
    out = []
    for nm, hyp, goal in L:
        t1 = time.time()
        s = z3.Solver()
        s.set("timeout", 30000)
        # substitute the definitions, leaving a polynomial identity
        sub = [(h.arg(0), h.arg(1)) for h in hyp]
        gl = goal
        for _ in range(4):
            gl = z3.substitute(gl, *sub)
        s.add(z3.Not(z3.simplify(gl, som=True)))
        st = "proved" if s.check() == z3.unsat else "undecided"
        out.append(Result(nm, st, "z3 integers", time.time() - t1))
    return out


def oracle_search(entry, std, gen, oracle, n=3000, seed=1):
    """run the real code on structured inputs and compare with exact integer arithmetic"""
    rng = random.Random(int(os.environ.get("VERIF_SEED", "1")) * 1000 + seed)
    cand = []
    while len(cand) < n:
        c = gen(rng)
        w = oracle(*c)
        if w is not None:
            cand.append((c, w))
    fn = module(std).funcs["@" + entry]
    sz = [t.w for t, _ in fn.params]
    lines = [entry + " " + " ".join("%x" % (v & ((1 << w) - 1)) for v, w in zip(c, sz)) for c, _ in cand]
    exe = build_native(std)
    outp = []
    for i in range(0, len(lines), 500):
        try:
            p = subprocess.run([exe], input="\n".join(lines[i:i + 500]) + "\n", capture_output=True, text=True, timeout=60)
            got = p.stdout.split()
            crash = p.returncode
        except subprocess.TimeoutExpired as e:
            got = (e.stdout or b"").decode().split() if isinstance(e.stdout, bytes) else (e.stdout or "").split()
            crash = "timeout"
        for (c, w), g in zip(cand[i:i + 500], got):
            if int(g, 16) != w & ((1 << fn.ret.w) - 1):
                return {"entry": entry, "std": std, "args": list(c), "result": int(g, 16), "expected": w, "confirmed": True}
        if len(got) < len(cand[i:i + 500]):
            return {"entry": entry, "std": std, "args": list(cand[i + len(got)][0]), "result": "no answer (%s)" % crash, "expected": cand[i + len(got)][1], "confirmed": True}
    return None


def settle(results, entry, std, gen, oracle, tag):
    """give an undischarged entry a concrete failing input; where the shape of the code is out of reach, a bounded stand-in"""
    bad = [r for r in results if r.status in ("failed", "undecided")]
    if not bad:
        return results
    hit = oracle_search(entry, std, gen, oracle)
    if hit:
        for r in bad:
            r.status, r.cex = "failed", hit
    else:
        for r in bad:
            if r.status == "undecided":
                r.status, r.bound = "bounded", "3000 structured inputs against exact integer arithmetic"
    return results


def safe(f, nm, entry):
    try:
        return f()
    except Undecided as e:
        return [Result("%s: postcondition" % nm, "undecided", "symex", 0, entry, str(e))]


def ext(v, n, signed):
    return v if v.size() == n else (z3.SignExt(n - v.size(), v) if signed else z3.ZeroExt(n - v.size(), v))


def absx(v, signed):
    return z3.If(v < 0, -v, v) if signed else v


def two_int(fn):
    return intsig(fn) and len(fn.params) == 2 and fn.params[0][0].w == fn.params[1][0].w == fn.ret.w


def is_signed_rec(fn):
    """signedness of an integer function from the demangled name's template argument"""
    m = re.search(r"<(.*?)[,>]", fn.demangled)
    d = fn.demangled
    return "unsigned" not in d


def gcd_gen(w0, s0, w1, s1):
    def gen(rng):
        def val(w, s):
            lim = (1 << (w - 1)) - 1 if s else (1 << w) - 1
            b = rng.randrange(1, w + 1)
            v = min(lim, rng.getrandbits(b))
            return -v if s and rng.random() < 0.3 else v
        if rng.random() < 0.5:
            m = min((1 << (w0 - 1)) - 1, (1 << (w1 - 1)) - 1)
            g = rng.getrandbits(rng.randrange(1, m.bit_length()))
            a, b = (g * (1 + rng.getrandbits(rng.randrange(1, 20)))), (g * (1 + rng.getrandbits(rng.randrange(1, 20))))
            if a <= m and b <= m:
                return (-a if s0 and rng.random() < .3 else a, -b if s1 and rng.random() < .3 else b)
        if rng.random() < 0.1:
            return rng.choice([(0, 0), (0, 5), (5, 0), (1, 1), (0, 7), (6, 4)])
        return (val(w0, s0), val(w1, s1))
    return gen


def prove_gcd_rec(std, target, label):
    mod = module(std)
    fn = mod.funcs[target]
    sg = is_signed_rec(fn)
    gs, ctx = GcdSem(), {}
    n = fn.ret.w
    a, b = z3.BitVec("a0", n), z3.BitVec("a1", n)
    ctx["params"] = (a, b)
    con = gcd_contract(gs, ctx, sg)
    con.only_recursive = True
    ex = Exec(mod, FPSem(), lambda f, rec: con if f.name == target or f is fn else None)
    r = ex.call(target, [a, b], ())
    pre = [a >= 0, b >= 0] if sg else []
    post = z3.And(gs.D(r) == z3.And(gs.D(a), gs.D(b)), (r == 0) == z3.And(a == 0, b == 0), z3.Implies(b == 0, r == a), z3.Implies(a == 0, r == b), r >= 0 if sg else z3.BoolVal(True))
    goals = [("postcondition", pre, post)] + [("%s #%d" % (o.desc, k), pre + list(o.pc), o.cond) for k, o in enumerate(ex.obls)]
    return gcd_check(goals, gs, [], label, fn.demangled)


def prove_gcd(entry, std, t0, t1, kind):
    mod = module(std)
    fn = mod.funcs["@" + entry]
    (w0, s0), (w1, s1) = ITY[t0], ITY[t1]
    n = fn.ret.w
    label = "%s[%s]" % (entry, std)
    gen = gcd_gen(w0, s0, w1, s1)
    rs = (n == 32 and (s0 and s1)) or (n == 64 and not ((not s0 and w0 == 64) or (not s1 and w1 == 64)))
    lim = (1 << (n - 1)) - 1 if rs else (1 << n) - 1
    mn0, mn1 = -(1 << (w0 - 1)) if s0 else -1, -(1 << (w1 - 1)) if s1 else -1

    def oracle(x, y):
        if (s0 and x == mn0) or (s1 and y == mn1):
            return None
        v = math.gcd(x, y) if kind == "gcd" else (abs(x * y) // math.gcd(x, y) if x and y else 0)
        return v if v <= lim else None

    def go():
        targets = rec_targets(mod, entry, two_int)
        if not targets:
            raise Undecided("no recursive function to put the contract on")
        out = []
        for t in targets:
            out += prove_gcd_rec(std, t, "%s, recursive function" % label)
        gs = GcdSem()
        cons = {t: gcd_contract(gs, {}, is_signed_rec(mod.funcs[t])) for t in targets}
        ex = Exec(mod, FPSem(), lambda f, rec: cons.get(f.name) or next((c for t, c in cons.items() if mod.funcs[t] is f), None))
        a, b = z3.BitVec("a0", w0), z3.BitVec("a1", w1)
        r = ex.call("@" + entry, [a, b], ())
        pre = []
        if s0:
            pre.append(a != z3.BitVecVal(1 << (w0 - 1), w0))
        if s1:
            pre.append(b != z3.BitVecVal(1 << (w1 - 1), w1))
        x, y = ext(absx(a, s0), n, False), ext(absx(b, s1), n, False)
        facts = []
        if kind == "gcd":
            post = z3.And(gs.D(r) == z3.And(gs.D(x), gs.D(y)), (r == 0) == z3.And(x == 0, y == 0), r >= 0 if rs else z3.BoolVal(True))
        else:
            g = gs.G(x, y)
            z = z3.BitVecVal(0, n)
            dv = (lambda p, q: p / q) if rs else z3.UDiv
            L = x * dv(y, g)
            nz = z3.And(x != z, y != z)
            facts += gs.ih(x, y, rs) + [g == gs.G(y, x)]
            pos = (lambda v: v >= 0) if rs else (lambda v: z3.BoolVal(True))
            # representability of |a||b|/g, and the lcm lemma at this instance
            for p, q in ((x, dv(y, g)), (dv(x, g), y)):
                facts.append(z3.Implies(nz, z3.And(p * q == L, pos(p), pos(q), p != z, q != z)))
                if rs:
                    for u, v in ((p, q), (q, p)):
                        facts.append(z3.Implies(nz, z3.And(z3.BVMulNoOverflow(u, v, True), z3.BVMulNoUnderflow(u, v))))
            facts.append(z3.Implies(nz, pos(L)))
            post = r == z3.If(nz, L, z)
        goals = [("postcondition", pre, post)] + [("%s #%d" % (o.desc, k), pre + list(o.pc), o.cond) for k, o in enumerate(ex.obls)]
        return out + gcd_check(goals, gs, facts, label, fn.demangled)
    return settle(safe(go, label, entry), entry, std, gen, oracle, "")


def c03(tier):
    tasks, fns = [], []
    for kind in ("gcd", "lcm"):
        for pr in ("ii", "jj", "uu", "vv", "ij", "iu") + (("in",) if kind == "gcd" else ()):
            ent = (pr[0] if pr[0] == pr[1] else pr) + "_" + kind
            for s in stds_for("@" + ent)[0]:
                tasks.append((prove_gcd, ent, s, pr[0], pr[1], kind))
            fns.append("gcem::%s<%s, %s>" % (kind, CNAME[pr[0]], CNAME[pr[1]]))
    tasks.append((int_lemmas,))
    return run_tasks(tasks), fns


# ------------------------------------------------------------------ C04
def top(w, s):
    return (1 << (w - 1)) - 1 if s else (1 << w) - 1


def prove_fact(entry, std, t):
    """the precondition (n! representable) leaves finitely many n: each is a closed obligation"""
    mod = module(std)
    fn = mod.funcs["@" + entry]
    w, s = ITY[t]
    label = "%s[%s]" % (entry, std)
    out, n = [], 0
    while math.factorial(n) <= top(w, s):
        t1 = time.time()
        want = math.factorial(n)
        try:
            ex = Exec(mod, FPSem())
            r = z3.simplify(ex.call("@" + entry, [z3.BitVecVal(n, w)], ()))
            ub = [o for o in ex.obls if not z3.is_true(z3.simplify(z3.Implies(z3.And(*o.pc) if o.pc else z3.BoolVal(True), o.cond)))]
            ok = z3.is_bv_value(r) and r.as_long() == want and not ub
            st, det = ("proved", "") if ok else ("failed", "value %s%s" % (r, ", " + ub[0].desc if ub else ""))
        except Undecided as e:
            st, det = "undecided", str(e)
        cex = None
        if st != "proved":
            g = native_call(entry, [n], std)
            if g == want and st == "undecided":
                st = "proved"
                det = "executed natively (closed term)"
            elif g != want:
                st, cex = "failed", {"entry": entry, "std": std, "args": [n], "result": g, "expected": want, "confirmed": True}
        out.append(Result("%s: factorial(%d) = %d" % (label, n, want), st, "symex", time.time() - t1, entry, det, cex))
        n += 1
    return out


def bmax(lim):
    n = 0
    while math.comb(n + 1, (n + 1) // 2) <= lim:
        n += 1
    return n


def bchain(n, k, w):
    """C(n,k) for a concrete n and a symbolic k >= 0"""
    r = z3.BitVecVal(0, w)
    for i in range(n, -1, -1):
        r = z3.If(k == i, z3.BitVecVal(math.comb(n, i) & ((1 << w) - 1), w), r)
    return r


def prove_binom_rec(std, target, label, lim, lo, hi):
    """the recursion computes C(n,k), by induction on n (each n with a symbolic k)"""
    mod = module(std)
    fn = mod.funcs[target]
    w = fn.ret.w
    sg = is_signed_rec(fn)
    out = []
    for n in range(lo, hi):
        t1 = time.time()
        k = z3.BitVec("k", w)

        def apply(ex, f, args, pc):
            m, kk = z3.simplify(args[0]), args[1]
            if not z3.is_bv_value(m):
                raise Undecided("recursive call with a first argument that is not determined by n")
            m = sgn_of(m.as_long(), w) if sg else m.as_long()
            dec = 0 <= m < n
            # smaller n, or the same n and a smaller second argument
            ex.oblige("measure", "recursion decreases", pc, z3.BoolVal(dec) if m != n else z3.ULT(kk, k), fn.demangled)
            if sg:
                ex.oblige("precondition", "second argument non-negative", pc, kk >= 0, fn.demangled)
            if not 0 <= m <= n:
                return z3.BitVecVal(0, w)
            return bchain(m, kk, w)
        con = Contract(apply, only_recursive=True)
        try:
            ex = Exec(mod, FPSem(), lambda f, rec: con if f is fn else None)
            pre = [k >= 0] if sg else []
            ex.pre = pre
            r = ex.call(target, [z3.BitVecVal(n, w), k], ())
            goals = [z3.And(*pre, r != bchain(n, k, w)), ] + [z3.And(*pre, *o.pc, z3.Not(o.cond)) for o in ex.obls]
            s = z3.Solver()
            s.set("timeout", 60000)
            s.add(z3.Or(*goals))
            c = str(s.check())
            st = {"unsat": "proved", "sat": "failed"}.get(c, "undecided")
            det = "k = %s" % s.model()[k] if c == "sat" else ""
        except Undecided as e:
            st, det = "undecided", str(e)
        out.append(Result("%s: C(%d,k) for all k" % (label, n), st, "z3", time.time() - t1, fn.demangled, det))
    return out


def prove_binom(entry, std, t0, t1_):
    mod = module(std)
    fn = mod.funcs["@" + entry]
    (w0, s0), (w1, s1) = ITY[t0], ITY[t1_]
    w = fn.ret.w
    s = s0 and s1
    N = bmax(top(w, s))
    label = "%s[%s]" % (entry, std)

    def go():
        tg = rec_targets(mod, entry, two_int)
        if not tg:
            raise Undecided("no recursive function to put the contract on")
        out = []
        for t in tg:
            out += prove_binom_rec(std, t, label + " recursion", top(w, s), 0, N + 1)
        k = z3.BitVec("k", w1)
        for n in range(N + 1):
            tt = time.time()

            def apply(ex, f, args, pc):
                m = z3.simplify(args[0])
                if not z3.is_bv_value(m):
                    raise Undecided("first argument not determined by n")
                sg = is_signed_rec(f)
                if sg:
                    ex.oblige("precondition", "second argument non-negative", pc, args[1] >= 0, f.demangled)
                v = m.as_long()
                if v > N:
                    raise Undecided("argument grows")
                return bchain(v, args[1], f.ret.w)
            con = Contract(apply)
            ex = Exec(mod, FPSem(), lambda f, rec: con if any(f is mod.funcs[t] for t in tg) else None)
            pre = [k >= 0] if s1 else []
            ex.pre = pre
            r = ex.call("@" + entry, [z3.BitVecVal(n, w0), k], ())
            sv = z3.Solver()
            sv.set("timeout", 60000)
            sv.add(z3.Or(z3.And(*pre, r != bchain(n, ext(k, w, s1), w)), *[z3.And(*pre, *o.pc, z3.Not(o.cond)) for o in ex.obls]))
            c = str(sv.check())
            out.append(Result("%s: C(%d,k) for all k" % (label, n), {"unsat": "proved", "sat": "failed"}.get(c, "undecided"), "z3", time.time() - tt, entry, "k = %s" % sv.model()[k] if c == "sat" else ""))
        return out

    small = [(n, k) for n in range(19) for k in range(n + 3)]
    it = iter(range(10 ** 9))

    def gen(rng):
        i = next(it)
        if i < len(small):
            return small[i]
        n = rng.randrange(0, N + 1)
        # the recursion takes about C(n,k) steps: keep that small
        k = rng.randrange(0, 4)
        if rng.random() < 0.5 and n >= k:
            k = n - k
        return (n, k)
    res = settle(safe(go, label, entry), entry, std, gen, lambda n, k: math.comb(n, k) if n >= 0 and k >= 0 and math.comb(n, min(k, n)) < 400000 else None, "")
    return res


def c04(tier):
    tasks, fns = [], []
    for t in "iujv":
        for s in stds_for("@%s_factorial" % t)[0]:
            tasks.append((prove_fact, "%s_factorial" % t, s, t))
        for s in stds_for("@%s_binomial_coef" % t)[0]:
            tasks.append((prove_binom, "%s_binomial_coef" % t, s, t, t))
        fns += ["gcem::factorial<%s>" % CNAME[t], "gcem::binomial_coef<%s>" % CNAME[t]]
    for s in stds_for("@ij_binomial_coef")[0]:
        tasks.append((prove_binom, "ij_binomial_coef", s, "i", "j"))
    return run_tasks(tasks), fns


# ------------------------------------------------------------------ C05 (integers)
def ipow(b, e, w, s):
    """expected value or None where it is not representable"""
    if e < 0:
        if b == 0:
            return None
        return 1 if b == 1 else ((-1) ** (e & 1) if b == -1 else 0)
    if s and abs(b) > 1 and e > 200:
        return None
    if s:
        v = b ** e if abs(b) > 1 else (1 if e == 0 or b == 1 else (0 if b == 0 else (-1 if e & 1 else 1)))
        return v if -(1 << (w - 1)) <= v <= top(w, True) else None
    return pow(b, e, 1 << w)


def iroot(lim, e):
    """largest r with r^e <= lim"""
    lo, hi = 0, lim
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** e <= lim if e * m.bit_length() < 4 * lim.bit_length() + 8 else False:
            lo = m
        else:
            hi = m - 1
    return lo


def prove_ipow_exp(entry, std, t0, t1_, exps):
    """signed: for a concrete exponent, every base whose power is representable"""
    mod = module(std)
    fn = mod.funcs["@" + entry]
    (w0, s0), (w1, s1) = ITY[t0], ITY[t1_]
    w = fn.ret.w
    out = []
    label = "%s[%s]" % (entry, std)
    for e in exps:
        t1 = time.time()
        hi = min(iroot(top(w, True), e), top(w0, True)) if e > 0 else top(w0, True)
        lo = -min(iroot(top(w, True) + 1, e), top(w0, True) + 1) if e % 2 else -hi
        if e == 0:
            lo, hi = -(1 << (w0 - 1)), top(w0, True)
        b = z3.BitVec("a0", w0)
        pre = [b >= lo, b <= hi]
        try:
            ex = Exec(mod, FPSem())
            ex.pre = pre
            r = ex.call("@" + entry, [b, z3.BitVecVal(e, w1)], ())
            bb = ext(b, w, True)
            want = z3.BitVecVal(1, w)
            for _ in range(e):
                want = want * bb
            st, cex, det = "proved", None, ""
            for name, hyp, goal in [("value", [], r == want)] + [(o.desc, list(o.pc), o.cond) for o in ex.obls]:
                s = z3.Solver()
                s.set("timeout", 100000)
                if name == "value":
                    f = z3.simplify(z3.Not(goal), som=True)
                else:
                    f = z3.Not(goal)
                if hi - lo <= 64:
                    # a handful of bases: closed terms
                    bad = None
                    for v in range(lo, hi + 1):
                        c = z3.simplify(z3.substitute(z3.And(*hyp, z3.Not(goal)), (b, z3.BitVecVal(v, w0))))
                        if not z3.is_false(c):
                            bad = v
                            break
                    c = "unsat" if bad is None else "sat"
                    m = bad
                else:
                    bound = noovf(name, goal, hyp, b, lo, hi, w)
                    if bound:
                        c = "unsat"
                    else:
                        s.add(*pre, *hyp, f)
                        c = str(s.check())
                        m = sgn_of(s.model().eval(b, model_completion=True).as_long(), w0) if c == "sat" else None
                if c != "unsat":
                    st = "failed" if c == "sat" else "undecided"
                    det = name
                    if c == "sat":
                        g = native_call(entry, [m & ((1 << w0) - 1), e], std)
                        wv = ipow(m, e, w, True)
                        ub = "" if name == "value" else ubsan_call(entry, [m & ((1 << w0) - 1), e], std)
                        cex = {"entry": entry, "std": std, "args": [m, e], "result": g, "expected": wv, "ubsan": ub[:200], "confirmed": (wv is not None and g != wv & ((1 << w) - 1)) or "runtime error" in ub}
                    break
        except Undecided as x:
            st, cex, det = "undecided", None, str(x)
        out.append(Result("%s: base^%d exact for every base in [%d, %d]" % (label, e, lo, hi), st, "z3", time.time() - t1, entry, det, cex))
    return out


def noovf(name, goal, hyp, b, lo, hi, w):
    """overflow obligation of a product of powers of the base: decided by interval evaluation over the integers"""
    try:
        for c in (goal.children() if z3.is_and(goal) else [goal]):
            if not c.decl().name().startswith("bvsmul_no"):
                return False
            if not monoint(c.arg(0), b, lo, hi, w, c.arg(1)):
                return False
        return True
    except ValueError:
        return False


def powform(t, b):
    """t = coefficient * base^k  as a mathematical integer (no wrap: the factors were checked before)"""
    if z3.is_bv_value(t):
        return sgn_of(t.as_long(), t.size()), 0
    if t.eq(b):
        return 1, 1
    if t.size() > b.size() and t.eq(z3.simplify(z3.SignExt(t.size() - b.size(), b))):
        return 1, 1
    nm = t.decl().name()
    if nm == "bvmul":
        c, k = 1, 0
        for x in t.children():
            c2, k2 = powform(x, b)
            c, k = c * c2, k + k2
        return c, k
    if nm == "sign_extend":
        return powform(t.arg(0), b)
    raise ValueError


def monoint(x, b, lo, hi, w, y):
    c1, k1 = powform(x, b)
    c2, k2 = powform(y, b)
    c, k = c1 * c2, k1 + k2
    v = [c * lo ** k, c * hi ** k] + ([0] if lo < 0 < hi else [])
    # the factors themselves must not wrap (their own obligations say so)
    return all(-(1 << (w - 1)) <= z <= top(w, True) for z in v)


def P_(w, we):
    return z3.Function("P%d_%d" % (w, we), z3.BitVecSort(w), z3.BitVecSort(we), z3.BitVecSort(w))


def p_axioms(b, e, w, uns=True):
    """b^e as a function of the exponent: P(b,0)=1, P(b,1)=b, P(b,e)=P(b*b,e/2)*(odd ? b : 1)"""
    P = P_(w, e.size())
    one = z3.BitVecVal(1, w)
    h = z3.LShR(e, 1)
    return [z3.Implies(e == 0, P(b, e) == one), z3.Implies(e == 1, P(b, e) == b),
            z3.Implies(e == 2, P(b, e) == b * b), z3.Implies(e == 3, P(b, e) == b * b * b),
            P(b, e) == z3.If(z3.Extract(0, 0, e) == 1, P(b * b, h) * b, P(b * b, h))]


def norm_mul(f):
    return z3.simplify(f, som=True, mul_to_power=False)


def rec_exp_sig(fn):
    return intsig(fn) and len(fn.params) in (2, 3) and all(t.w == fn.ret.w for t, n in fn.params[:-1])


def prove_upow(entry, std, t0, t1_):
    """unsigned: every base and every exponent, modulo the width"""
    mod = module(std)
    fn = mod.funcs["@" + entry]
    (w0, s0), (w1, s1) = ITY[t0], ITY[t1_]
    w = fn.ret.w
    label = "%s[%s]" % (entry, std)

    def con(t, facts, measure):
        def apply(ex, f, args, pc):
            b, e = args[0], args[-1]
            P = P_(w, e.size())
            if measure is not None:
                ex.oblige("measure", "the exponent decreases in " + f.demangled, pc, z3.ULT(e, measure), f.demangled)
            facts.extend(p_axioms(b, e, w))
            return P(b, e) * args[1] if len(args) == 3 else P(b, e)
        return Contract(apply, only_recursive=measure is not None)

    def discharge(goals, facts, nm):
        out = []
        for name, hyp, goal in goals:
            t1 = time.time()
            ab = Abstractor2()
            fs = [ab.run(norm_mul(f)) for f in list(hyp) + facts + [z3.Not(goal)]]
            s = z3.Solver()
            s.set("timeout", 60000)
            s.add(*fs, *ab.lemmas())
            c = str(s.check())
            out.append(Result("%s: %s" % (label, name), {"unsat": "proved", "sat": "failed"}.get(c, "undecided"), "z3", time.time() - t1, nm, "" if c == "unsat" else "not derivable from the contract"))
        return out

    def go():
        tg = rec_targets(mod, entry, rec_exp_sig)
        if not tg:
            raise Undecided("no recursive function to put the contract on")
        out = []
        for t in tg:
            f = mod.funcs[t]
            facts = []
            args = [z3.BitVec("p%d" % i, ty.w) for i, (ty, n) in enumerate(f.params)]
            c = con(t, facts, args[-1])
            others = {u: con(u, facts, None) for u in tg if u != t}
            ex = Exec(mod, FPSem(), lambda g, rec: c if g is f else next((o for u, o in others.items() if mod.funcs[u] is g), None))
            r = ex.call(t, args, ())
            P = P_(w, args[-1].size())
            b0, e0, v0 = args[0], args[-1], args[1] if len(args) == 3 else z3.BitVecVal(1, w)
            odd = z3.Extract(0, 0, e0) == 1
            h = z3.LShR(e0, 1)
            # the unfolding of b^e, case by case
            cs = [("exponent 0", e0 == 0, v0), ("exponent 1", e0 == 1, b0 * v0), ("exponent 2", e0 == 2, b0 * b0 * v0), ("exponent 3", e0 == 3, b0 * b0 * b0 * v0),
                  ("odd exponent", z3.And(z3.UGT(e0, 3), odd), P(b0 * b0, h) * b0 * v0), ("even exponent", z3.And(z3.UGT(e0, 3), z3.Not(odd)), P(b0 * b0, h) * v0)]
            # (b*b)^1 = b*b for the exponents 2 and 3
            facts += [z3.Implies(h == 1, P(b0 * b0, h) == b0 * b0)]
            goals = []
            for nm, hy, want in cs:
                rr = r
                if nm in ("exponent 2", "exponent 3"):
                    rr = z3.simplify(z3.substitute(r, (e0, z3.BitVecVal(int(nm[-1]), e0.size()))))
                    rr = z3.substitute(rr, (P(z3.simplify(b0 * b0), z3.BitVecVal(1, e0.size())), b0 * b0))
                goals.append(("recursion %s: postcondition, %s" % (f.demangled[:60], nm), [hy], rr == want))
            out += discharge(goals + [("recursion: %s #%d" % (o.desc, i), list(o.pc), o.cond) for i, o in enumerate(ex.obls)], facts, f.demangled)
        facts = []
        cons = {t: con(t, facts, None) for t in tg}
        ex = Exec(mod, FPSem(), lambda g, rec: next((o for u, o in cons.items() if mod.funcs[u] is g), None))
        b, e = z3.BitVec("a0", w0), z3.BitVec("a1", w1)
        pre = [e >= 0] if s1 else []
        r = ex.call("@" + entry, [b, e], ())
        bb = ext(b, w, s0)
        facts += p_axioms(bb, e, w)
        out += discharge([("postcondition", pre, r == P_(w, w1)(bb, e))] + [("%s #%d" % (o.desc, i), pre + list(o.pc), o.cond) for i, o in enumerate(ex.obls)], facts, entry)
        return out
    gen = pow_gen(w0, s0, w1, s1)
    return settle(safe(go, label, entry), entry, std, gen, lambda b, e: ipow(b, e, w, False) if e >= 0 else None, "")


def pow_gen(w0, s0, w1, s1):
    def gen(rng):
        b = rng.choice([rng.randrange(-12, 13), rng.getrandbits(rng.randrange(1, w0))])
        b = abs(b) if not s0 else max(-(1 << (w0 - 1)), min(top(w0, True), b))
        e = rng.choice([rng.randrange(0, 70), rng.randrange(-5, 10), rng.getrandbits(rng.randrange(1, w1)), top(w1, s1), top(w1, s1) - 1])
        if not s1:
            e = abs(e)
        return (b, e)
    return gen


class Abstractor2(Abstractor):
    """like Abstractor, with products normalised to flat sorted argument lists"""

    def run(self, e):
        if e.get_id() in self.cache:
            return self.cache[e.get_id()]
        ch = [self.run(c) for c in e.children()]
        if e.decl().name() == "bvmul":
            flat = []
            for c in ch:
                flat += self.parts.get(c.get_id(), [c]) if hasattr(self, "parts") else [c]
            if not hasattr(self, "parts"):
                self.parts = {}
            coef = 1
            rest = []
            for c in flat:
                if z3.is_bv_value(c):
                    coef = coef * c.as_long() & ((1 << c.size()) - 1)
                else:
                    rest.append(c)
            rest.sort(key=lambda z: z.get_id())
            if coef != 1 or not rest:
                rest = [z3.BitVecVal(coef, e.size())] + rest
            if len(rest) == 1:
                r = rest[0]
            else:
                r = z3.Function("M%d_%d" % (e.size(), len(rest)), *[c.sort() for c in rest], e.sort())(*rest)
                self.parts[r.get_id()] = rest
        else:
            r = e.decl()(*ch) if ch else e
        self.keep += [e, r]
        self.cache[e.get_id()] = r
        return r

    def lemmas(self):
        return []


def prove_ipow_unit(entry, std, t0, t1_):
    """signed: bases -1, 0, 1 with every exponent (negative ones included), and every base with a negative exponent"""
    mod = module(std)
    fn = mod.funcs["@" + entry]
    (w0, s0), (w1, s1) = ITY[t0], ITY[t1_]
    w = fn.ret.w
    label = "%s[%s]" % (entry, std)

    def value(b, e, n):
        one = z3.BitVecVal(1, n)
        odd = z3.Extract(0, 0, e) == 1
        return z3.If(e == 0, one, z3.If(b == 0, z3.BitVecVal(0, n), z3.If(b == 1, one, z3.If(odd, -one, one))))

    def unit(v):
        return z3.And(v >= -1, v <= 1)

    def con(measure):
        def apply(ex, f, args, pc):
            b, e = args[0], args[-1]
            if measure is not None:
                ex.oblige("measure", "the exponent decreases in " + f.demangled, pc, z3.And(e >= 0, e < measure), f.demangled)
            ex.oblige("precondition", "unit base and non-negative exponent in " + f.demangled, pc, z3.And(unit(b), e >= 0, *([unit(args[1])] if len(args) == 3 else [])), f.demangled)
            n = f.ret.w
            return value(b, e, n) * args[1] if len(args) == 3 else value(b, e, n)
        return Contract(apply, only_recursive=measure is not None)

    def isrec(f):
        return rec_exp_sig(f) and sel(f)

    def sel(f):
        # the square-and-multiply recursion itself: directly recursive
        return any(i.op == "call" and i.a[0] == f.name for b in f.order for i in f.blocks[b])

    def discharge(goals, nm):
        out = []
        for name, hyp, goal in goals:
            t1 = time.time()
            c, m = check_formula(z3.And(*hyp, z3.Not(goal)), 100)
            out.append(Result("%s: %s" % (label, name), {"unsat": "proved", "sat": "failed"}.get(c, "undecided"), "z3", time.time() - t1, nm, str(m)[:200] if m else ""))
        return out

    def go():
        tg = [t for t in irx.callees(mod, "@" + entry) if isrec(mod.funcs[t])]
        if not tg:
            raise Undecided("no recursive function to put the contract on")
        out = []
        for t in tg:
            f = mod.funcs[t]
            args = [z3.BitVec("p%d" % i, ty.w) for i, (ty, n) in enumerate(f.params)]
            c = con(args[-1])
            ex = Exec(mod, FPSem(), lambda g, rec: c if g is f else None)
            pre = [unit(args[0]), args[-1] >= 0] + ([unit(args[1])] if len(args) == 3 else [])
            ex.pre = pre
            r = ex.call(t, args, ())
            n = f.ret.w
            want = value(args[0], args[-1], n) * args[1] if len(args) == 3 else value(args[0], args[-1], n)
            out += discharge([("recursion at unit bases: postcondition", pre, r == want)] + [("recursion: %s #%d" % (o.desc, i), pre + list(o.pc), o.cond) for i, o in enumerate(ex.obls)], f.demangled)
        b, e = z3.BitVec("a0", w0), z3.BitVec("a1", w1)
        bb = ext(b, w, True)
        for nm, pre, want in (("bases -1, 0, 1 and every non-negative exponent", [unit(b), e >= 0], value(bb, e, w)),
                              ("bases -1, 1 and every negative exponent", [unit(b), b != 0, e < 0], value(bb, e, w))):
            cons = con(None)
            ex = Exec(mod, FPSem(), lambda g, rec: cons if any(mod.funcs[t] is g for t in tg) else None)
            ex.pre = pre
            r = ex.call("@" + entry, [b, e], ())
            out += discharge([(nm, pre, r == want)] + [("%s: %s #%d" % (nm, o.desc, i), pre + list(o.pc), o.cond) for i, o in enumerate(ex.obls)], entry)
        # |base| >= 2 and a negative exponent: the recursion is not entered
        pre = [z3.Or(b > 1, b < -1), e < 0]

        def never(ex, f, args, pc):
            ex.oblige("precondition", "the recursion is not entered", pc, z3.BoolVal(False), f.demangled)
            return z3.BitVecVal(0, f.ret.w)
        cn = Contract(never)
        ex = Exec(mod, FPSem(), lambda g, rec: cn if any(mod.funcs[t] is g for t in tg) else None)
        ex.pre = pre
        r = ex.call("@" + entry, [b, e], ())
        out += discharge([("negative exponent, other bases", pre, r == 0)] + [("negative exponent: %s #%d" % (o.desc, i), pre + list(o.pc), o.cond) for i, o in enumerate(ex.obls)], entry)
        return out
    return settle(safe(go, label, entry), entry, std, pow_gen(w0, s0, w1, s1), lambda b, e: ipow(b, e, w, True), "")


def c05_int(tier):
    tasks, fns = [], []
    for pr in ("ii", "jj", "ji", "ij"):
        ent = pr + "_pow"
        w = 64 if "j" in pr else 32
        for s in stds_for("@" + ent)[0]:
            es = list(range(0, w))
            for k in range(4):
                tasks.append((prove_ipow_exp, ent, s, pr[0], pr[1], es[k::4]))
            tasks.append((prove_ipow_unit, ent, s, pr[0], pr[1]))
        fns.append("gcem::pow<%s, %s>" % (CNAME[pr[0]], CNAME[pr[1]]))
    for pr in ("uu", "vv", "vu", "iu"):
        ent = pr + "_pow"
        for s in stds_for("@" + ent)[0]:
            tasks.append((prove_upow, ent, s, pr[0], pr[1]))
        fns.append("gcem::pow<%s, %s>" % (CNAME[pr[0]], CNAME[pr[1]]))
    return run_tasks(tasks), fns


# ------------------------------------------------------------------ C05 (floating-point base, integral exponent)
NBITS = 80


class RoundSem(FPSem):
    """a floating-point value is base^p * val^q times k rounding factors (1+d)^(+-1), |d| <= u: one bit-vector p.q.k"""
    name = "round"

    def sort(self, w):
        return z3.BitVecSort(3 * NBITS)

    def mk(self, p, q, k):
        c = lambda v: z3.BitVecVal(v, NBITS) if isinstance(v, int) else v
        return z3.simplify(z3.Concat(c(p), c(q), c(k)))

    def parts(self, v):
        return [z3.simplify(z3.Extract(NBITS * (3 - i) - 1, NBITS * (2 - i), v)) for i in range(3)]

    def const(self, w, bits):
        if fpconst(w, bits).eq(fpconst(w, {"f32": 0x3F800000, "f64": 0x3FF0000000000000, "f80": 0x3FFF8000000000000000}[w])):
            return self.mk(0, 0, 0)
        return z3.BitVec("const%x" % bits, 3 * NBITS)

    def one(self, v):
        return v.eq(self.mk(0, 0, 0))

    def ok(self, *vs):
        for v in vs:
            for t in subterms(v):
                if t.decl().name().startswith("const"):
                    raise Undecided("constant other than one")

    def bin(self, op, w, a, b):
        self.ok(a, b)
        pa, pb = self.parts(a), self.parts(b)
        if op == "fmul":
            if self.one(a) or self.one(b):
                return b if self.one(a) else a
            return self.mk(pa[0] + pb[0], pa[1] + pb[1], pa[2] + pb[2] + 1)
        if op == "fdiv":
            if self.one(b):
                return a
            return self.mk(pa[0] - pb[0], pa[1] - pb[1], pa[2] + pb[2] + 1)
        raise Undecided(op)

    def neg(self, w, a):
        raise Undecided("negation")

    fabs = copysign = sitofp = fptosi = fpcast = isnan = storage_bits = from_bits = lambda self, *a: (_ for _ in ()).throw(Undecided("operation outside the power fragment"))

    def cmp(self, pred, w, a, b):
        raise Undecided("comparison of the base")


def fpow_oracle(entry, std, ty, t1_, n=1500):
    """native search: the power against mpmath where no intermediate power leaves the normal range"""
    import mpmath as M
    from p_num import bits_to_mp, EPS
    M.mp.prec = 300
    w1, s1 = ITY[t1_]
    rng = random.Random(int(os.environ.get("VERIF_SEED", "1")) * 77 + 5)
    lim = {"f32": 125, "f64": 1020, "f80": 16380}[ty]
    eps = M.mpf(2) ** {"f32": -23, "f64": -52, "f80": -63}[ty]
    cand = []
    while len(cand) < n:
        e = rng.choice([rng.randrange(0, 70), rng.randrange(-70, 70), rng.getrandbits(rng.randrange(1, w1)), -rng.getrandbits(rng.randrange(1, w1)), top(w1, s1), -(1 << (w1 - 1)), top(w1, s1) - 1])
        if (e < 0 and not s1) or e > top(w1, s1) or (s1 and e < -(1 << (w1 - 1))):
            continue
        r = lim / max(1, abs(e)) * (1 if rng.random() < .8 else .3)
        l2 = rng.uniform(-min(r, 30), min(r, 30))
        v = 2.0 ** l2 * rng.choice([1, 1, -1])
        if abs(e) > 1 << 40 or rng.random() < .05:
            v = rng.choice([1.0, -1.0, 1.0 + 2.0 ** -22])
        import struct
        if ty == "f32":
            v = struct.unpack("<f", struct.pack("<f", v))[0]
            b = struct.unpack("<I", struct.pack("<f", v))[0]
        elif ty == "f64":
            b = struct.unpack("<Q", struct.pack("<d", v))[0]
        else:
            m, x = math.frexp(abs(v))
            b = (1 << 79 if v < 0 else 0) | (x - 1 + 16383) << 64 | int(m * 2 ** 53) << 11
        if v == 0 or abs(e) * abs(math.log2(abs(v))) > lim:
            continue
        cand.append((b, e))
    exe = build_native(std)
    for i in range(0, n, 250):
        ch = cand[i:i + 250]
        try:
            p = subprocess.run([exe], input="".join("%s %x %x\n" % (entry, b, e & ((1 << w1) - 1)) for b, e in ch), capture_output=True, text=True, timeout=60)
            got = p.stdout.split()
        except subprocess.TimeoutExpired as x:
            got = (x.stdout or b"").decode().split() if isinstance(x.stdout, bytes) else []
        for (b, e), g in zip(ch, got):
            x, r = bits_to_mp(ty, b), bits_to_mp(ty, int(g, 16))
            want = x ** e
            if not abs(r - want) <= (abs(e) + 1) * eps * abs(want) * (1 + (abs(e) + 1) * eps):
                return {"entry": entry, "std": std, "args": [M.nstr(x, 21), e], "arg_bits": ["%x" % b, "%x" % (e & ((1 << w1) - 1))], "result": M.nstr(r, 21), "expected": M.nstr(want, 21), "confirmed": True}
        if len(got) < len(ch):
            return {"entry": entry, "std": std, "args": [M.nstr(bits_to_mp(ty, ch[len(got)][0]), 21), ch[len(got)][1]], "result": "no answer", "confirmed": True}
    return None


def fp_rec_sig(fn):
    return fn.ret.kind == "fp" and len(fn.params) in (2, 3) and fn.params[-1][0].kind == "int" and all(t.kind == "fp" and t.w == fn.ret.w for t, n in fn.params[:-1])


def prove_fpow(entry, std, ty, t1_):
    """every base and every exponent: base^n with at most 2(|n|+1) rounding factors (no power overflowing or underflowing)"""
    mod = module(std)
    fn = mod.funcs["@" + entry]
    w1, s1 = ITY[t1_]
    label = "%s[%s]" % (entry, std)

    def wide(e, signed):
        return z3.SignExt(NBITS - e.size(), e) if signed else z3.ZeroExt(NBITS - e.size(), e)

    def con(sem, measure):
        def apply(ex, f, args, pc):
            b, e = args[0], args[-1]
            v = args[1] if len(args) == 3 else sem.mk(0, 0, 0)
            sem.ok(b, v)
            if measure is not None:
                ex.oblige("measure", "the exponent decreases in " + f.demangled, pc, z3.ULT(e, measure), f.demangled)
            if s1:
                ex.oblige("precondition", "non-negative exponent in " + f.demangled, pc, e >= 0, f.demangled)
            n = z3.ZeroExt(NBITS - e.size(), e)
            pb, pv = sem.parts(b), sem.parts(v)
            return sem.mk(pb[0] * n + pv[0], pb[1] * n + pv[1], pb[2] * n + pv[2] + n)
        return Contract(apply, only_recursive=measure is not None)

    def discharge(goals, nm):
        out = []
        for name, hyp, goal in goals:
            t1 = time.time()
            c, m = check_formula(z3.And(*hyp, z3.Not(goal)), 100)
            out.append(Result("%s: %s" % (label, name), {"unsat": "proved", "sat": "failed"}.get(c, "undecided"), "z3", time.time() - t1, nm, str(m)[:200] if m else ""))
        return out

    def go():
        tg = [t for t in irx.callees(mod, "@" + entry) if fp_rec_sig(mod.funcs[t]) and any(i.op == "call" and i.a[0] == t for b in mod.funcs[t].order for i in mod.funcs[t].blocks[b])]
        if not tg:
            raise Undecided("no recursive function to put the contract on")
        out = []
        for t in tg:
            f, sem = mod.funcs[t], RoundSem()
            e = z3.BitVec("e", f.params[-1][0].w)
            c = con(sem, e)
            args = [sem.mk(1, 0, 0)] + ([sem.mk(0, 1, 0)] if len(f.params) == 3 else []) + [e]
            ex = Exec(mod, sem, lambda g, rec: c if g is f else None)
            pre = [e >= 0] if s1 else []
            ex.pre = pre
            p, q, k = sem.parts(ex.call(t, args, ()))
            n = z3.ZeroExt(NBITS - e.size(), e)
            post = z3.And(p == n, q == (1 if len(f.params) == 3 else 0), z3.ULE(k, n))
            out += discharge([("recursion: postcondition", pre, post)] + [("recursion: %s #%d" % (o.desc, i), pre + list(o.pc), o.cond) for i, o in enumerate(ex.obls)], f.demangled)
        sem = RoundSem()
        e = z3.BitVec("a1", w1)
        cc = con(sem, None)
        ex = Exec(mod, sem, lambda g, rec: cc if any(mod.funcs[t] is g for t in tg) else None)
        p, q, k = sem.parts(ex.call("@" + entry, [sem.mk(1, 0, 0), e], ()))
        n = wide(e, s1)
        na = z3.If(n < 0, -n, n)
        out += discharge([("postcondition", [], z3.And(p == n, q == 0, z3.ULE(k, 2 * na)))] + [("%s #%d" % (o.desc, i), list(o.pc), o.cond) for i, o in enumerate(ex.obls)], entry)
        return out
    res = safe(go, label, entry)
    bad = [r for r in res if r.status in ("failed", "undecided")]
    if bad:
        hit = fpow_oracle(entry, std, ty, t1_)
        for r in bad:
            if hit:
                r.status, r.cex = "failed", hit
            elif r.status == "undecided":
                r.status, r.bound = "bounded", "1500 structured inputs against mpmath"
    return res


def c05_fp(tier):
    tasks, fns = [], []
    for pr in ("di", "dj", "du", "dv", "fi", "li", "lj"):
        ent = pr + "_pow"
        for s in stds_for("@" + ent)[0]:
            tasks.append((prove_fpow, ent, s, {"d": "f64", "f": "f32", "l": "f80"}[pr[0]], pr[1]))
        fns.append("gcem::pow<%s, %s>" % ({"d": "double", "f": "float", "l": "long double"}[pr[0]], CNAME[pr[1]]))
    return run_tasks(tasks), fns
