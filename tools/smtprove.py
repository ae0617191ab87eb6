"""prove a postcondition of one driver entry for every input (case-split by the caller), with z3"""
import time, os, sys, random, subprocess, tempfile
from common import *
from symex import *
import z3

W = {"f": "f32", "d": "f64", "l": "f80"}
NB = {"f32": 32, "f64": 64, "f80": 79}


def mkargs(sem, fn):
    out = []
    for i, (t, n) in enumerate(fn.params):
        if t.kind == "fp":
            out.append(sem.arg("a%d" % i, t.w))
        elif t.w == 1:
            out.append(z3.Bool("a%d" % i))
        else:
            out.append(z3.BitVec("a%d" % i, t.w))
    return out


def ieee_to_storage(w, b):
    if w != "f80":
        return b
    s, e, f = b >> 78, (b >> 63) & 0x7FFF, b & ((1 << 63) - 1)
    return (s << 79) | (e << 64) | ((1 if e else 0) << 63) | f


def storage_to_val(w, bits):
    return fpconst(w, bits)


def fpstr(w, bits):
    """human readable"""
    import struct
    if w == "f32":
        return "%r (0x%08x)" % (struct.unpack("<f", struct.pack("<I", bits))[0], bits)
    if w == "f64":
        return "%r (0x%016x)" % (struct.unpack("<d", struct.pack("<Q", bits))[0], bits)
    s, e, m = bits >> 79, (bits >> 64) & 0x7FFF, bits & ((1 << 64) - 1)
    if e == 0x7FFF:
        v = "nan" if m & ((1 << 63) - 1) else "inf"
    else:
        import mpmath
        mpmath.mp.prec = 80
        v = mpmath.nstr(mpmath.mpf(m) * mpmath.mpf(2) ** (max(e, 1) - 16383 - 63), 21)
    return "%s%s (0x%020x)" % ("-" if s else "", v, bits)


def arg_bits_from_model(model, fn):
    bits = []
    for i, (t, n) in enumerate(fn.params):
        if t.kind == "fp":
            e, m = SORTS[t.w]
            v = model.eval(z3.BitVec("a%d" % i, e + m), model_completion=True).as_long()
            bits.append(ieee_to_storage(t.w, v))
        elif t.w == 1:
            bits.append(1 if z3.is_true(model.eval(z3.Bool("a%d" % i), model_completion=True)) else 0)
        else:
            bits.append(model.eval(z3.BitVec("a%d" % i, t.w), model_completion=True).as_long())
    return bits


def concrete(fn, bits):
    vals = []
    for (t, n), b in zip(fn.params, bits):
        if t.kind == "fp":
            vals.append(fpconst(t.w, b))
        elif t.w == 1:
            vals.append(z3.BoolVal(bool(b)))
        else:
            vals.append(z3.BitVecVal(b, t.w))
    return vals


def concrete_ret(fn, b):
    t = fn.ret
    if t.kind == "fp":
        return fpconst(t.w, b)
    if t.w == 1:
        return z3.BoolVal(bool(b & 1))
    return z3.BitVecVal(b, t.w)


def replay(entry, fn, spec, bits, std, bitsof=None):
    """run the real code on the counterexample; is the postcondition false there?"""
    r = native_call(entry, bits, std)
    cex = {"entry": entry, "std": std, "args": [fpstr(t.w, b) if t.kind == "fp" else b for (t, n), b in zip(fn.params, bits)], "arg_bits": ["%x" % b for b in bits]}
    if isinstance(r, str):
        cex["result"] = r
        cex["confirmed"] = True
        return cex
    cex["result_bits"] = "%x" % r
    cex["result"] = fpstr(fn.ret.w, r) if fn.ret.kind == "fp" else r
    sem = FPSem()
    cargs = concrete(fn, bits)
    rv = concrete_ret(fn, r)
    # remember exact bit patterns for sign queries on NaN
    for (t, n), v, b in zip(fn.params, cargs, bits):
        if t.kind == "fp":
            sem.bits[v.get_id()] = (z3.BitVecVal(b if t.w != "f80" else ((b >> 79) << 78) | (((b >> 64) & 0x7FFF) << 63) | (b & ((1 << 63) - 1)), NB[t.w] if t.w != "f80" else 79), t.w)
            sem.keep.append(v)
    if fn.ret.kind == "fp":
        t = fn.ret
        sem.bits[rv.get_id()] = (z3.BitVecVal(r if t.w != "f80" else ((r >> 79) << 78) | (((r >> 64) & 0x7FFF) << 63) | (r & ((1 << 63) - 1)), NB[t.w]), t.w)
    pre, post = spec(sem, cargs, rv)
    s = z3.Solver()
    s.add(*sem.side)
    s.add(pre)
    s.add(z3.Not(post))
    cex["confirmed"] = s.check() == z3.sat
    return cex


def prove(entry, std, spec, cases=None, timeout=100, contract_for=None, label=None, case_index=None, ub=True):
    """spec(sem, args, ret) -> (pre, post).  cases(sem,args) -> [(name, assumption)].  Returns [Result]"""
    mod = module(std)
    fn = mod.funcs["@" + entry]
    out = []
    t0 = time.time()
    sem = FPSem()
    ex = Exec(mod, sem, contract_for)
    args = mkargs(sem, fn)
    cl = cases(sem, args) if cases else [("all inputs", z3.BoolVal(True), {})]
    if case_index is not None:
        cl = [cl[i] for i in case_index if i < len(cl)]
    nm = label or "%s[%s]" % (entry, std)
    try:
        r = ex.call("@" + entry, args, ())
    except Undecided as e:
        return [Result("%s: postcondition" % nm, "undecided", "symex", time.time() - t0, fn.demangled, str(e))]
    pre, post = spec(sem, args, r)
    goals = []
    for c in cl:
        goals.append((nm + ": postcondition, " + c[0], [pre, c[1]], post, c[2] if len(c) > 2 else {}))
    seen = {}
    if ub and (case_index is None or 0 in case_index):
        for o in ex.obls:
            k = (o.kind, o.fn)
            seen[k] = seen.get(k, 0) + 1
            goals.append(("%s: %s (%s #%d)" % (nm, o.kind, o.fn, seen[k]), [pre] + list(o.pc), o.cond, {}))
    for name, hyp, goal, sub in goals:
        t1 = time.time()
        f = z3.And(*hyp, *sem.side, z3.Not(goal))
        if sub:
            f = z3.substitute(f, *[(k, v) for k, v in sub.items()])
            f = z3.simplify(f)
        st, model = check_formula(f, timeout)
        dt = time.time() - t1
        if st == "unsat":
            out.append(Result(name, "proved", "z3 " + z3.get_version_string(), dt, entry))
        elif st == "sat":
            # rebuild argument values: substituted variables are reconstructed from the pieces
            if sub:
                s2 = z3.Solver()
                s2.set("timeout", 20000)
                for k, v in sub.items():
                    s2.add(k == v)
                for d in model.decls():
                    if d.arity() == 0:
                        s2.add(d() == model[d]) if not z3.is_fp_sort(d.range()) else None
                if s2.check() == z3.sat:
                    model = s2.model()
            bits = arg_bits_from_model(model, fn)
            cex = replay(entry, fn, spec, bits, std) if "postcondition" in name else replay_ub(entry, fn, spec, bits, std, name)
            out.append(Result(name, "failed", "z3 " + z3.get_version_string(), dt, entry, "solver model", cex))
        else:
            # undecided by the solver: search for a concrete failing input
            hit = search(entry, fn, spec, std, 4000)
            if hit:
                out.append(Result(name, "failed", "native search", dt, entry, "found while the solver was undecided", hit))
            else:
                out.append(Result(name, "undecided", "z3", dt, entry, "solver timeout"))
    return out


def replay_ub(entry, fn, spec, bits, std, name):
    """undefined behaviour: run the real code under UBSan on the counterexample"""
    cex = {"entry": entry, "std": std, "args": [fpstr(t.w, b) if t.kind == "fp" else b for (t, n), b in zip(fn.params, bits)], "arg_bits": ["%x" % b for b in bits]}
    out = ubsan_call(entry, bits, std)
    cex["ubsan"] = out[:300]
    cex["confirmed"] = "runtime error" in out
    return cex


_ubsan = {}


def ubsan_call(entry, bits, std):
    k = std
    if k not in _ubsan:
        exe = build_native(std)
        src = os.path.join(scratch(), "native_%s.cpp" % std.replace("+", "p"))
        o = exe + "_ub%d" % os.getpid()
        p = subprocess.run(["g++", "-std=" + std, "-O1", "-w", "-fsanitize=undefined,float-cast-overflow,float-divide-by-zero", "-I" + os.path.join(REPO, "include"), src, "-o", o], capture_output=True, text=True)
        _ubsan[k] = o if p.returncode == 0 else None
    if not _ubsan[k]:
        return ""
    try:
        p = subprocess.run([_ubsan[k]], input=entry + " " + " ".join("%x" % b for b in bits) + "\n", capture_output=True, text=True, timeout=60)
    except subprocess.TimeoutExpired:
        return "runtime error: no answer within 60 s"
    return p.stderr + (" runtime error: killed by signal" if p.returncode < 0 else "")


def rnd_bits(t, rng):
    if t.kind != "fp":
        n = t.w
        c = rng.random()
        if c < 0.4:
            return rng.randrange(-30, 31) % (1 << n)
        if c < 0.6:
            return (rng.choice([0, 1, -1, (1 << (n - 1)) - 1, -(1 << (n - 1)), (1 << (n - 1)) - 2])) % (1 << n)
        return rng.getrandbits(n)
    e, m = SORTS[t.w]
    c = rng.random()
    s = rng.getrandbits(1)
    bias = (1 << (e - 1)) - 1
    if c < 0.05:
        ex, fr = (1 << e) - 1, rng.choice([0, 0, rng.getrandbits(m - 1)])
    elif c < 0.1:
        ex, fr = 0, rng.choice([0, 1, rng.getrandbits(m - 1)])
    elif c < 0.7:
        ex, fr = bias + rng.randrange(-4, m + 6), rng.choice([0, 1, (1 << (m - 1)) - 1, rng.getrandbits(m - 1), rng.getrandbits(m - 1) & ~((1 << rng.randrange(1, m - 1)) - 1)])
    else:
        ex, fr = rng.randrange(0, (1 << e) - 1), rng.getrandbits(m - 1)
    return ieee_to_storage(t.w, (s << (e + m - 1)) | (ex << (m - 1)) | fr)


def search(entry, fn, spec, std, n, seed=1, pre_filter=None):
    rng = random.Random(seed)
    cand = [[rnd_bits(t, rng) for t, _ in fn.params] for _ in range(n)]
    sem = FPSem()
    lines = [entry + " " + " ".join("%x" % b for b in c) for c in cand]
    try:
        res = native_many(lines, std, 60)
    except Exception:
        return None
    t0 = time.time()
    for c, r in zip(cand, res):
        if time.time() - t0 > 30:
            break
        x = replay_eval(entry, fn, spec, c, int(r, 16), std)
        if x:
            return x
    return None


def replay_eval(entry, fn, spec, bits, r, std):
    sem = FPSem()
    cargs = concrete(fn, bits)
    rv = concrete_ret(fn, r)
    pre, post = spec(sem, cargs, rv)
    if sem.side:
        return None
    a, b = z3.simplify(pre), z3.simplify(post)
    if z3.is_true(a) and z3.is_false(b):
        return {"entry": entry, "std": std, "args": [fpstr(t.w, x) if t.kind == "fp" else x for (t, n), x in zip(fn.params, bits)],
                "arg_bits": ["%x" % x for x in bits], "result": fpstr(fn.ret.w, r) if fn.ret.kind == "fp" else r, "confirmed": True}
    return None


TASKS = []


def run_tasks(tasks, nproc=8):
    """tasks: [(callable, args)] -> flat list of Result (process pool, forked after the modules are loaded)"""
    import concurrent.futures, multiprocessing as mp
    global TASKS
    TASKS = list(tasks)
    scratch()
    out = []
    with concurrent.futures.ProcessPoolExecutor(max_workers=nproc, mp_context=mp.get_context("fork")) as ex:
        futs = [ex.submit(_call, i) for i in range(len(TASKS))]
        for f in futs:
            try:
                out += f.result()
            except Exception as e:
                out.append(Result("internal", "undecided", "internal", 0, "", repr(e)[:300]))
    return out


def _call(i):
    t = TASKS[i]
    return t[0](*t[1:])
