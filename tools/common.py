"""shared plumbing: extraction, native runner, evidence and reporting"""
import os, sys, json, time, subprocess, hashlib, re, fcntl, shutil, tempfile, atexit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GCEM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
REPLAY = os.path.join(VERIF, "replay")
sys.path.insert(0, os.path.join(VERIF, "tools"))
import irx

STDS = ("c++11", "c++17")
SCRATCH = None


def scratch():
    global SCRATCH
    if SCRATCH is None:
        os.makedirs(BUILD, exist_ok=True)
        SCRATCH = tempfile.mkdtemp(prefix="run-", dir=BUILD)
        pid = os.getpid()

        def rm():
            if os.getpid() == pid:
                shutil.rmtree(SCRATCH, ignore_errors=True)
        atexit.register(rm)
    return SCRATCH


_mods = {}


def module(std):
    """the IR of the driver, extracted from /repo's working tree on this run"""
    if std not in _mods:
        out = os.path.join(scratch(), "drv_%s.ll" % std.replace("+", "p"))
        irx.compile_ir(os.path.join(VERIF, "driver", "driver.cpp"), std, REPO, out)
        _mods[std] = irx.parse_module(out)
        _mods[std].ll = out
    return _mods[std]


def bytecode(std):
    m = module(std)
    p = os.path.join(scratch(), "drv_%s.bc" % std.replace("+", "p"))
    if not os.path.exists(p):
        irx.emit_bytecode(m, p)
    return p


def closure_hash(mod, root):
    h = hashlib.sha256()
    for f in sorted(irx.callees(mod, root)):
        fn = mod.funcs[f]
        h.update(f.encode())
        for b in fn.order:
            h.update(b.encode())
            for i in fn.blocks[b]:
                h.update(i.text.encode() + b"\n")
                for g in re.findall(r"@[\w.$]+", i.text):
                    if g in mod.globals:
                        h.update(repr([(o, v) for o, t, v in mod.globals[g][1]]).encode())
    return h.hexdigest()


def stds_for(root):
    """the standards in which this instantiation has different code (proved once where the IR is identical)"""
    a, b = module("c++11"), module("c++17")
    if closure_hash(a, root) == closure_hash(b, root):
        return ["c++17"], True
    return list(STDS), False


# ------------------------------------------------------------------ native execution of the real code
CT = {"f32": "float", "f64": "double", "f80": "long double"}


def ctype(t, signed=True):
    if t.kind == "fp":
        return CT[t.w]
    if t.w == 1:
        return "bool"
    return {8: "signed char", 16: "short", 32: "int", 64: "long long"}[t.w]


_native = {}


def build_native(std="c++17", cxx="g++", opt="-O1"):
    """a program that runs the real code on given bit patterns"""
    k = (std, cxx, opt)
    if k in _native:
        return _native[k]
    with open(os.path.join(scratch(), "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build_native(k, std, cxx, opt)


def _build_native(k, std, cxx, opt):
    mod = module(std)
    src = os.path.join(scratch(), "native_%s.cpp" % std.replace("+", "p"))
    exe = src[:-4] + "_" + cxx.replace("+", "p") + opt
    if os.path.exists(exe):
        _native[k] = exe
        return exe
    names = [f for f in mod.funcs if re.match(r"^@[a-zA-Z]+_[a-z0-9_]+$", f) and not f.startswith("@_Z")]
    with open(src, "w") as o:
        o.write('#include "%s/driver/driver.cpp"\n#include <cstdio>\n#include <cstring>\n#include <cstdlib>\n' % VERIF)
        o.write("typedef unsigned __int128 W;\n")
        o.write("static W rd(const char*s){W r=0;for(;*s;s++){int c=*s;int d=c<='9'?c-'0':c-'a'+10;r=r*16+d;}return r;}\n")
        o.write("template<class T> T mk(W w){T t; memset(&t,0,sizeof t); size_t n=sizeof(T)==16?10:sizeof(T); memcpy(&t,&w,n); return t;}\n")
        o.write("template<class T> void pr(T t){unsigned char b[16]={0}; size_t n=sizeof(T)==16?10:sizeof(T); memcpy(b,&t,n); for(int i=(int)n-1;i>=0;i--)printf(\"%02x\",b[i]); printf(\"\\n\");}\n")
        o.write("int main(){char nm[128],a[4][64];char line[512];while(fgets(line,sizeof line,stdin)){int n=sscanf(line,\"%127s %63s %63s %63s %63s\",nm,a[0],a[1],a[2],a[3]);if(n<1)continue;\n")
        for f in names:
            fn = mod.funcs[f]
            ar = ",".join("mk<%s>(rd(a[%d]))" % (ctype(t), i) for i, (t, n) in enumerate(fn.params))
            o.write(' if(!strcmp(nm,"%s")){pr(%s(%s));fflush(stdout);continue;}\n' % (f[1:], f[1:], ar))
        o.write(' printf("?\\n");fflush(stdout);}}\n')
    p = subprocess.run([cxx, "-std=" + std, opt, "-w", "-ffp-contract=off", "-I" + os.path.join(REPO, "include"), src, "-o", exe], capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError("native build failed: " + p.stderr[:1000])
    _native[k] = exe
    return exe


def native_call(fn, argbits, std="c++17", timeout=20):
    """bits of the result of the real code, or a string describing a crash"""
    exe = build_native(std)
    line = fn + " " + " ".join("%x" % b for b in argbits) + "\n"
    try:
        p = subprocess.run([exe], input=line, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "timeout"
    if p.returncode:
        return "crash %d" % p.returncode
    return int(p.stdout.strip(), 16)


def native_many(lines, std="c++17", timeout=300):
    exe = build_native(std)
    p = subprocess.run([exe], input="\n".join(lines) + "\n", capture_output=True, text=True, timeout=timeout)
    return p.stdout.split()


# ------------------------------------------------------------------ reporting
class Result:
    """one obligation: status in proved, failed, undecided, bounded"""

    def __init__(self, name, status, backend, secs=0.0, fn="", detail="", cex=None, bound=""):
        self.name, self.status, self.backend, self.secs = name, status, backend, secs
        self.fn, self.detail, self.cex, self.bound = fn, detail, cex, bound

    def d(self):
        return {k: v for k, v in self.__dict__.items() if v not in ("", None)}


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"known": [], "fixed": []}


def finish(pid, tier, results, t0, technique, functions, assumptions, extra=None, checker_cmd=None):
    """write the evidence file, print the verdict, return the exit status"""
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(REPLAY, exist_ok=True)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    kf = [k for k in known_findings()["known"] if k["property"] == pid]
    viol, hit = [], {}
    for r in results:
        if r.status == "failed":
            k = next((k for k in kf if k["match"] in r.name or (r.cex and k["match"] in json.dumps(r.cex))), None)
            if k:
                hit[k["match"]] = k
            else:
                viol.append(r)
    proved = [r for r in results if r.status == "proved"]
    bounded = [r for r in results if r.status == "bounded"]
    undec = [r for r in results if r.status == "undecided"]
    backends = {}
    for r in results:
        b = backends.setdefault(r.backend, {"obligations": 0, "discharged": 0, "seconds": 0.0})
        b["obligations"] += 1
        b["discharged"] += r.status == "proved"
        b["seconds"] = round(b["seconds"] + r.secs, 3)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "proof", "wall_s": round(time.time() - t0, 2),
          "violations": len(viol), "assumptions": assumptions,
          "coverage": {"obligations": len(results) - len(bounded), "discharged": len(proved), "bounded_stand_ins": len(bounded), "undecided": len(undec),
                       "checker_cmd": checker_cmd or ("python3-vt check.py %s --tier %s" % (pid, tier)),
                       "trusted_base": ["clang 18 front end (IR is read as the meaning of the source)", "tools/irx.py IR reader"] + technique,
                       "functions_under_contract": sorted(functions), "by_back_end": backends,
                       "samples": [r.d() for r in proved[:6]] + [r.d() for r in bounded[:6]] + [r.d() for r in undec[:10]]}}
    if extra:
        ev["coverage"].update(extra)
    if not results:
        print("no obligation was generated: vacuous run")
        json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
        return 2
    rc = 0
    for k in hit.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if viol:
        rc = 1
        viol.sort(key=lambda r: (r.cex is None,))
        path = os.path.join(REPLAY, "%s.json" % pid)
        json.dump({"property": pid, "failed_obligations": [r.d() for r in viol[:50]], "count": len(viol)}, open(path, "w"), indent=1, default=str)
        confirmed = any(r.cex and r.cex.get("confirmed") for r in viol)
        for r in viol[:8]:
            print("  failed: %s [%s] %s" % (r.name, r.backend, (json.dumps(r.cex, default=str) if r.cex else r.detail)[:400]))
        print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if confirmed else " no-failing-input-found"))
        ev["coverage"]["failed"] = [r.d() for r in viol[:20]]
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1, default=str)
    print("%s: %d obligations, %d discharged, %d bounded stand-ins, %d undecided, %d violated in %.1f s" %
          (pid, len(results), len(proved), len(bounded), len(undec), len(viol), time.time() - t0))
    return rc
