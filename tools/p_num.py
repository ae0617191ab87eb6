"""accuracy contracts, discharged by the Taylor-model engine (engine/) over the extracted code"""
import os, subprocess, json, time, fcntl, struct
from common import *
import smtprove

EPS = {"f32": 2.0 ** -23, "f64": 2.0 ** -52, "f80": 2.0 ** -63}
TYL = {"f": "f32", "d": "f64", "l": "f80"}
LOG2MAX = {"f32": 127, "f64": 1023, "f80": 16383}
ENGINE = os.path.join(BUILD, "tmv")


def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    src = [os.path.join(VERIF, "engine", f) for f in ("engine.cpp", "tm.hpp", "mp.hpp")]
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()
    tag = ENGINE + ".sha"
    with open(os.path.join(BUILD, "engine.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not (os.path.exists(ENGINE) and os.path.exists(tag) and open(tag).read() == h):
            p = subprocess.run(["g++", "-std=c++17", "-O2", "-ffp-contract=off", "-w", "-pthread", src[0], "/usr/lib/x86_64-linux-gnu/libmpfr.so.6", "-o", ENGINE], capture_output=True, text=True)
            if p.returncode:
                raise RuntimeError("engine build failed: " + p.stderr[:500])
            open(tag, "w").write(h)
    return ENGINE


class Spec:
    """accuracy contract of one public function: |result - ref| <= A + B*|ref| + C*|g| on each piece"""

    def __init__(self, name, ref, pieces, g=None, nargs=1, depth=60, part="", **opts):
        self.name, self.ref, self.pieces, self.g, self.nargs, self.depth, self.part, self.opts = name, ref, pieces, g, nargs, depth, part, opts


def num(v):
    if isinstance(v, str):
        return v
    if getattr(v, "txt", None):
        return v.txt
    return float(v).hex() if not isinstance(v, int) else str(v)


def contract_text(sp, ty):
    L = ["contract gcem::%s %s %d %d" % (sp.name, ty, sp.nargs, sp.depth), "ref " + sp.ref]
    if sp.g:
        L.append("g " + sp.g)
    for k, A, B, C, box in sp.pieces(ty):
        if k == "err":
            L.append("piece %s %s %s %s" % (num(A), num(B), num(C), " ".join("%s %s" % (num(a), num(b)) for a, b in box)))
    return "\n".join(L)


def job_text(jid, entry, root, ty, ref, pieces, g=None, resid=None, iargs=(), nv=1, opts=None):
    """iargs: [(index,width,value)] or [(index,type or None,float)]; other args are fp variables of type ty (or a list of types)"""
    L = ["job %s %s %s %s" % (jid, entry, root, " ".join("%s=%s" % kv for kv in (opts or {}).items()))]
    ii = {i: (w, v) for i, w, v in iargs}
    n = nv + len(ii)
    for i in range(n):
        if i in ii and isinstance(ii[i][1], float):
            L.append("argf %d %s %s" % (i, ii[i][0] or ty, num(ii[i][1])))
        elif i in ii:
            L.append("argi %d %d %d" % (i, ii[i][0], ii[i][1]))
        else:
            L.append("argv %d %s" % (i, ty if isinstance(ty, str) else ty[i]))
    if ref:
        L.append("ref " + ref)
    if g:
        L.append("g " + g)
    if resid:
        L.append("resid " + resid)
    for k, A, B, C, box in pieces:
        L.append("piece %s %s %s %s %s" % (k, num(A), num(B), num(C), " ".join("%s %s" % (num(a), num(b)) for a, b in box)))
    return "\n".join(L)


def run_engine(std, texts, contracts, seconds, threads=8):
    exe = build_engine()
    jf = os.path.join(scratch(), "jobs_%d_%d.txt" % (os.getpid(), int(time.time() * 1e6) % 10 ** 9))
    open(jf, "w").write("\n".join(contracts) + "\n" + "\n".join(texts) + "\n")
    out = jf + ".json"
    p = subprocess.run([exe, bytecode(std), jf, out, str(threads), str(seconds), os.environ.get("VERIF_SEED", "1")], capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError("engine: rc %d %s" % (p.returncode, p.stderr[:500]))
    return json.load(open(out))


# ------------------------------------------------------------------ obligations
class Job:
    """one entry of the driver with its postcondition, on a list of domain pieces"""

    def __init__(self, jid, entry, fn, ty, ref, pieces, g=None, resid=None, iargs=(), nv=1, opts=None, depth=512):
        self.id, self.entry, self.fn, self.ty, self.ref, self.pieces = jid, entry, fn, ty, ref, pieces
        self.g, self.resid, self.iargs, self.nv, self.opts, self.depth = g, resid, iargs, nv, dict(opts or {}), depth

    def text(self, tag, inl=()):
        o = dict(self.opts)
        if inl:
            o["inl"] = ",".join(([o["inl"]] if o.get("inl") else []) + list(inl))
        return job_text(tag, self.entry, "gcem::" + self.fn, self.ty, self.ref, self.pieces, self.g, self.resid, self.iargs, self.nv, o)


def frontier_hash(mod, root, stop):
    """hash of the code a job is verified on: everything reachable without entering a function answered by its contract"""
    h = hashlib.sha256()
    seen, todo = set(), [root]
    while todo:
        f = todo.pop()
        if f in seen or f not in mod.funcs:
            continue
        seen.add(f)
        fn = mod.funcs[f]
        if f != root and irx.simple_name(fn.demangled) in stop:
            continue
        for b in fn.order:
            for ins in fn.blocks[b]:
                if ins.op == "call":
                    todo.append(ins.a[0])
    for f in sorted(seen):
        fn = mod.funcs[f]
        h.update(f.encode())
        if f != root and irx.simple_name(fn.demangled) in stop:
            continue
        for b in fn.order:
            h.update(b.encode())
            for i in fn.blocks[b]:
                h.update(i.text.encode() + b"\n")
                for g in re.findall(r"@[\w.$]+", i.text):
                    if g in mod.globals:
                        h.update(repr([(o, v) for o, t, v in mod.globals[g][1]]).encode())
    return h.hexdigest()


def mpref(src, xs, r=None):
    """independent evaluation of a reference expression (mpmath), for replaying counterexamples"""
    import mpmath as M
    M.mp.prec = 300
    tok = re.findall(r"[()]|[^\s()]+", src)
    pos = [0]

    def ev():
        t = tok[pos[0]]
        pos[0] += 1
        if t != "(":
            if re.fullmatch(r"x\d", t):
                return xs[int(t[1])]
            if t == "r":
                return r
            return {"pi": lambda: M.pi(), "ln2": lambda: M.log(2), "ln10": lambda: M.log(10)}.get(t, lambda: M.mpf(t))()
        op = tok[pos[0]]
        pos[0] += 1
        a = []
        while tok[pos[0]] != ")":
            a.append(ev())
        pos[0] += 1
        if op == "+":
            return sum(a[1:], a[0])
        if op == "-":
            return -a[0] if len(a) == 1 else a[0] - a[1]
        if op == "*":
            v = a[0]
            for z in a[1:]:
                v = v * z
            return v
        if op == "/":
            return a[0] / a[1]
        if op == "sq":
            return a[0] * a[0]
        if op == "abs":
            return abs(a[0])
        if op == "powi":
            return a[0] ** int(a[1])
        if op == "lgamma":
            return M.loggamma(a[0])
        if op == "gammap":
            return M.gammainc(a[0], 0, a[1], regularized=True)
        if op == "ibeta":
            return M.betainc(a[0], a[1], 0, a[2], regularized=True)
        return getattr(M, op)(*a)
    return ev()


def bits_to_mp(w, b):
    import mpmath as M
    M.mp.prec = 300
    if w == "f32":
        return M.mpf(struct.unpack("<f", struct.pack("<I", b))[0])
    if w == "f64":
        return M.mpf(struct.unpack("<d", struct.pack("<Q", b))[0])
    s, e, m = b >> 79, (b >> 64) & 0x7FFF, b & ((1 << 64) - 1)
    if e == 0x7FFF:
        return M.nan if m & ((1 << 63) - 1) else (-M.inf if s else M.inf)
    v = M.mpf(m) * M.mpf(2) ** (max(e, 1) - 16383 - 63)
    return -v if s else v


def replay(job, std, cex):
    """run the real code on the failing input and judge the result with mpmath"""
    import mpmath as M
    bits = [int(b, 16) for b in cex["bits"]]
    out = {"function": "gcem::" + job.fn, "entry": job.entry, "std": std, "arguments_bits": cex["bits"], "arguments": cex["x"], "why": cex["why"], "engine_error": cex["err"], "bound": cex["bound"], "confirmed": False}
    got = native_call(job.entry, bits, std)
    if isinstance(got, str):
        out.update(native=got, confirmed=True)
        return out
    ii = {i for i, w, v in job.iargs}
    tys = [job.ty] * job.nv if isinstance(job.ty, str) else job.ty
    fpb = [b for i, b in enumerate(bits) if i not in ii]
    xs = [bits_to_mp(t, b) for t, b in zip(tys, fpb)]
    rty = module(std).funcs["@" + job.entry].ret.w
    r = bits_to_mp(rty, got)
    out["native"] = M.nstr(r, 25)
    out["native_bits"] = "%x" % got
    try:
        for k, A, B, C, box in job.pieces:
            fl = lambda v: M.mpf(float.fromhex(v)) if isinstance(v, str) else M.mpf(v)
            if not all(fl(a) <= x <= fl(b) for x, (a, b) in zip(xs, box)):
                continue
            bad = None
            if k == "nan":
                bad = not M.isnan(r)
            elif k in ("inf", "ninf"):
                bad = r != (M.inf if k == "inf" else -M.inf)
            elif k == "eq":
                bad = r != fl(A)
            elif k == "range":
                bad = not (fl(A) <= r <= fl(B))
            elif k == "err":
                if not M.isfinite(r):
                    bad = True
                else:
                    ref = mpref(job.ref, xs, r) if job.ref else M.mpf(0)
                    err = abs(mpref(job.resid, xs, r)) if job.resid else abs(r - ref)
                    bound = fl(A) + fl(B) * abs(ref) + (fl(C) * abs(mpref(job.g, xs, r)) if job.g else 0)
                    out.update(reference=M.nstr(ref, 25), error=M.nstr(err, 6), bound=M.nstr(bound, 6))
                    bad = err > bound
            if bad:
                out["confirmed"] = True
    except Exception as ex:
        out["replay_note"] = repr(ex)[:200]
    return out


def spec_jobs(name, types="fdl"):
    import specs
    out = []
    for key, sp in specs.S.items():
        if sp.name != name or sp.opts.get("byparts"):
            continue
        for t in types:
            ty = TYL[t]
            pc = sp.pieces(ty)
            if pc:
                o = dict(sp.opts)
                iargs, rs, en = o.pop("iargs", ()), o.pop("resid", None), o.pop("entry", None)
                out.append(Job("%s.%s" % (key, t), en % t if en else "%s_%s" % (t, sp.name), sp.name, ty, sp.ref, pc, sp.g, rs, iargs, sp.nargs, o, sp.depth))
    return out


def powi_jobs(tier):
    """base^n end to end for a few exponents"""
    out = []
    for pr, ty, es in (("di", "f64", (-16, -7, -3, -2, -1, 0, 1, 2, 3, 4, 5, 7, 10, 16, 31)), ("fi", "f32", (-16, -5, -2, -1, 0, 1, 2, 3, 6, 11)), ("li", "f80", (-7, -1, 0, 2, 3, 5, 16)), ("du", "f64", (0, 1, 2, 3, 9, 16)), ("dj", "f64", (-3, 0, 5, 12))):
        for n in es:
            B = (abs(n) + 1) * EPS["f64" if ty == "f80" else ty]
            w = 64 if pr[1] == "j" else 32
            pc = [("err", 0, B, 0, [(0.01, 100.0)]), ("err", 0, B, 0, [(-100.0, -0.01)])]
            out.append(Job("pow.%s.%d" % (pr, n), pr + "_pow", "pow", ty, "(powi x0 %d)" % n, pc, iargs=((1, w, n),), depth=80))
    return out


def decide(jobs, budget, helper_budget=None, contracts=True):
    """discharge the jobs and, transitively, the contracts of the callees they were answered with"""
    import specs
    names = {c.name for c in specs.S.values() if not c.part and c.ref} if contracts else set()
    cons = [contract_text(c, ty) for c in specs.S.values() if not c.part and c.ref for ty in ("f32", "f64", "f80") if c.pieces(ty)] if contracts else []
    stop0 = {"gcem::" + n for n in names}
    results, functions, stats = [], set(), {"boxes": 0, "paths": 0, "points": 0, "engine_cpu_s": 0.0}
    done, todo = {}, [(j, True) for j in jobs]
    queue = list(todo)
    mods = {s: module(s) for s in STDS}

    def stds(job, inl):
        st = (stop0 - {"gcem::" + job.fn}) - set(inl) - set((job.opts.get("inl") or "").split(","))
        a, b = (frontier_hash(mods[s], "@" + job.entry, st) for s in STDS)
        return ["c++17"] if a == b else list(STDS)

    def batch(items, inl=()):
        by = {}
        for job, main in items:
            for s in stds(job, inl):
                by.setdefault(s, []).append((job, main))
        out = []
        for s, its in by.items():
            t0 = time.time()
            res = run_engine(s, [j.text("j%d" % i, inl) for i, (j, m) in enumerate(its)], cons, budget)
            for (j, m), r in zip(its, res):
                r["wall"] = time.time() - t0
                out.append((j, m, s, r))
        return out

    def verdict(j, s, r, note=""):
        nm = "%s [%s] %s post" % (j.entry, s, j.id)
        det = "%d boxes, %d paths, %d points, worst %.3g of the bound" % (r["accepted"], r["paths"], r["points"], float(r["worst"]))
        if r.get("cex"):
            return Result(nm, "failed", "tm-engine", r["secs"], "gcem::" + j.fn, r["cex"]["why"], replay(j, s, r["cex"]))
        if r["timeout"] or r["fails"] or r["failed"]:
            return Result(nm, "failed", "tm-engine", r["secs"], "gcem::" + j.fn, ("no proof within the budget; " if r["timeout"] else "") + "unproved boxes: %s" % json.dumps(r["failed"])[:600])
        return Result(nm, "proved", "tm-engine", r["secs"], "gcem::" + j.fn, det + note)

    helper_fail, mainres = {}, []
    seen = {(j.fn, j.ty if isinstance(j.ty, str) else tuple(j.ty)) for j in jobs}
    while queue:
        outs = batch(queue)
        queue = []
        for j, main, s, r in outs:
            for k in ("boxes", "paths", "points"):
                stats[k] += r[k]
            stats["engine_cpu_s"] = round(stats["engine_cpu_s"] + r["secs"], 2)
            v = verdict(j, s, r)
            functions.add("gcem::%s (%s)" % (j.fn, j.entry))
            for u in r["used"]:
                functions.add(u)
                cn, cty = parse_used(u)
                if cn in names and (cn, cty) not in seen:
                    seen.add((cn, cty))
                    hj = [h for h in spec_jobs(cn, [t for t in "fdl" if TYL[t] == cty]) if "." not in h.id.rsplit(".", 1)[0] or specs.S[cn].opts.get("byparts")]
                    queue += [(h, False) for h in hj]
            if main:
                mainres.append([j, s, r, v])
            else:
                if v.status == "failed":
                    helper_fail.setdefault((j.fn, j.ty), []).append(v)
                results.append(v)
    if helper_fail:
        # a callee no longer meets its contract: decide the callers with the callee's body instead
        inl = sorted({"gcem::" + fn for fn, ty in helper_fail})
        bad = set(helper_fail)
        redo = [(j, True) for j, s, r, v in mainres if v.status == "proved" and any(parse_used(u) in bad for u in r["used"])]
        ids = {j.id for j, m in redo}
        outs = batch(list({j.id: (j, m) for j, m in redo}.values()), inl) if redo else []
        mainres = [m for m in mainres if m[0].id not in ids] + [[j, s, r, verdict(j, s, r, " (inlining %s)" % ", ".join(inl))] for j, m, s, r in outs]
        for v in results:
            if v.status == "failed":
                v.status, v.detail = "undecided", "callee contract not established; callers decided with its body instead. " + v.detail
    for j, s, r, v in mainres:
        results.append(v)
        dep = r["maxdepth"]
        ok = dep <= j.depth
        if v.status == "proved":
            results.append(Result("%s [%s] %s nesting <= %d" % (j.entry, s, j.id, j.depth), "proved" if ok else "undecided", "tm-engine", 0, "gcem::" + j.fn, "nesting %d" % dep))
    return results, functions, stats


def parse_used(u):
    """name and type of a contract application reported by the engine"""
    m = re.match(r"^contract gcem::(\w+) (f32|f64|f80)$", u)
    return (m.group(1), m.group(2)) if m else (None, None)
