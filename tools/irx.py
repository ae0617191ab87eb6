"""irx: mechanical extraction of the verified text.

Compiles a driver translation unit that includes /repo/include/gcem.hpp with clang at -O0
(no optimisation, no FP contraction) and reads the textual LLVM IR into Python objects.
Nothing is rewritten by hand: every function body that the verifiers see is the IR clang
emitted for the template instantiation that the driver names.

What the extraction drops: debug info, attributes, alignment, linkage, exception tables
(-fno-exceptions; every gcem function is noexcept and calls only noexcept functions).
"""
import re, subprocess, os, struct, sys, hashlib

CLANG = "clang++"
BASEFLAGS = ["-O0", "-ffp-contract=off", "-fno-exceptions", "-w", "-S", "-emit-llvm"]


class IRError(Exception):
    pass


def compile_ir(src, std, repo="/repo", out=None, extra=()):
    out = out or (src + ".%s.ll" % std)
    cmd = [CLANG, "-std=" + std] + BASEFLAGS + ["-I" + os.path.join(repo, "include")] + list(extra) + [src, "-o", out]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise IRError("clang failed: " + p.stderr[:2000])
    return out


INTRE = re.compile(r"^i(\d+)$")
FPW = {"float": "f32", "double": "f64", "x86_fp80": "f80"}


class Ty:
    """first class type: kind in int,fp,ptr,void,arr,struct"""
    __slots__ = ("kind", "w", "elt", "n", "fields")

    def __init__(self, kind, w=0, elt=None, n=0, fields=None):
        self.kind, self.w, self.elt, self.n, self.fields = kind, w, elt, n, fields

    def code(self):
        if self.kind == "int":
            return "i%d" % self.w
        if self.kind == "fp":
            return self.w
        if self.kind == "ptr":
            return "ptr"
        if self.kind == "void":
            return "void"
        raise IRError("aggregate type used as a scalar")

    def size(self):
        if self.kind == "int":
            return max(1, (self.w + 7) // 8)
        if self.kind == "fp":
            return {"f32": 4, "f64": 8, "f80": 16}[self.w]
        if self.kind == "ptr":
            return 8
        if self.kind == "arr":
            return self.n * self.elt.size()
        if self.kind == "struct":
            return self.layout()[1]
        raise IRError("size of void")

    def align(self):
        if self.kind == "arr":
            return self.elt.align()
        if self.kind == "struct":
            return max([f.align() for f in self.fields] or [1])
        return self.size()

    def layout(self):
        off, offs = 0, []
        for f in self.fields:
            a = f.align()
            off = (off + a - 1) // a * a
            offs.append(off)
            off += f.size()
        a = self.align()
        return offs, (off + a - 1) // a * a


class Parser:
    """cursor over one line of IR"""

    def __init__(self, s, mod):
        self.s, self.i, self.mod = s, 0, mod

    def ws(self):
        while self.i < len(self.s) and self.s[self.i] in " \t":
            self.i += 1

    def peek(self, t):
        self.ws()
        return self.s.startswith(t, self.i)

    def eat(self, t):
        self.ws()
        if self.s.startswith(t, self.i):
            self.i += len(t)
            return True
        return False

    def need(self, t):
        if not self.eat(t):
            raise IRError("expected %r at %r" % (t, self.s[self.i:self.i + 60]))

    def rx(self, r):
        self.ws()
        m = re.compile(r).match(self.s, self.i)
        if m:
            self.i = m.end()
            return m.group(0)
        return None

    def word(self):
        return self.rx(r"[A-Za-z_][\w.]*")

    def type(self):
        self.ws()
        if self.eat("["):
            n = int(self.rx(r"\d+"))
            self.need("x")
            e = self.type()
            self.need("]")
            return Ty("arr", elt=e, n=n)
        if self.eat("{"):
            fs = []
            if not self.eat("}"):
                while True:
                    fs.append(self.type())
                    if self.eat("}"):
                        break
                    self.need(",")
            return Ty("struct", fields=fs)
        if self.peek("%"):
            nm = self.rx(r'%("[^"]*"|[\w.$:]+)')
            if nm in self.mod.types:
                return self.mod.types[nm]
            raise IRError("unknown type " + nm)
        w = self.word()
        if w is None:
            raise IRError("type expected at %r" % self.s[self.i:self.i + 40])
        m = INTRE.match(w)
        if m:
            return Ty("int", int(m.group(1)))
        if w in FPW:
            return Ty("fp", FPW[w])
        if w == "ptr":
            return Ty("ptr")
        if w == "void":
            return Ty("void")
        raise IRError("unsupported type " + w)

    def skip_attrs(self):
        while True:
            self.ws()
            if self.rx(r"(noundef|nonnull|signext|zeroext|noalias|nocapture|readonly|writeonly|immarg|returned|inreg|readnone)\b"):
                continue
            if self.rx(r"(align|dereferenceable|dereferenceable_or_null|captures)\s*(\(\s*[\w]+\s*\)|\d+)"):
                continue
            return

    def value(self, ty):
        """operand of type ty -> tuple"""
        self.ws()
        if self.peek("%"):
            return ("r", self.rx(r'%("[^"]*"|[\w.$-]+)'))
        if self.peek("@"):
            return ("g", self.rx(r'@("[^"]*"|[\w.$-]+)'), 0)
        if self.peek("getelementptr"):
            self.word()
            self.rx(r"(inbounds|nuw|nusw)\b")
            self.need("(")
            et = self.type()
            self.need(",")
            self.type()
            base = self.value(Ty("ptr"))
            off = 0
            first = True
            cur = et
            while self.eat(","):
                it = self.type()
                iv = self.value(it)
                if iv[0] != "i":
                    raise IRError("non-constant gep expr")
                k = iv[1]
                if first:
                    off += k * et.size()
                    first = False
                elif cur.kind == "arr":
                    off += k * cur.elt.size()
                    cur = cur.elt
                else:
                    off += cur.layout()[0][k]
                    cur = cur.fields[k]
            self.need(")")
            return ("g", base[1], base[2] + off)
        if ty.kind == "int":
            if self.rx(r"true\b"):
                return ("i", 1, ty.w)
            if self.rx(r"false\b"):
                return ("i", 0, ty.w)
            v = self.rx(r"-?\d+")
            if v is not None:
                return ("i", int(v), ty.w)
            if self.rx(r"(undef|poison)\b"):
                return ("undef", ty.code())
            if self.rx(r"zeroinitializer\b"):
                return ("i", 0, ty.w)
        if ty.kind == "fp":
            h = self.rx(r"0x[KLMHR]?[0-9A-Fa-f]+")
            if h is not None:
                return ("f", ty.w, fpbits_from_hex(h, ty.w))
            d = self.rx(r"-?\d+\.\d*(e[+-]?\d+)?")
            if d is not None:
                # printed decimal literals are exact doubles
                return ("f", ty.w, fpbits_from_double(float(d), ty.w))
            if self.rx(r"(undef|poison)\b"):
                return ("undef", ty.code())
            if self.rx(r"zeroinitializer\b"):
                return ("f", ty.w, 0)
        if ty.kind == "ptr":
            if self.rx(r"(null|undef|poison|zeroinitializer)\b"):
                return ("undef", "ptr")
        raise IRError("unsupported operand %r" % self.s[self.i:self.i + 60])


def fpbits_from_double(d, w):
    if w == "f64":
        return struct.unpack("<Q", struct.pack("<d", d))[0]
    if w == "f32":
        f = struct.unpack("<I", struct.pack("<f", d))[0]
        return f
    raise IRError("decimal fp80")


def fpbits_from_hex(h, w):
    if h.startswith("0xK"):
        return int(h[3:], 16)
    v = int(h[2:], 16)
    if w == "f64":
        return v
    if w == "f32":  # floats are printed as the double with the same value
        d = struct.unpack("<d", struct.pack("<Q", v))[0]
        if d != d:
            s = (v >> 63) & 1
            return (s << 31) | 0x7FC00000
        return struct.unpack("<I", struct.pack("<f", d))[0]
    raise IRError("hex const for " + w)


class Instr:
    __slots__ = ("op", "dst", "ty", "a", "text")

    def __init__(self, op, dst=None, ty=None, a=None, text=""):
        self.op, self.dst, self.ty, self.a, self.text = op, dst, ty, a, text


class Func:
    def __init__(self, name):
        self.name, self.params, self.ret, self.blocks, self.order = name, [], None, {}, []
        self.demangled = name


class Module:
    def __init__(self):
        self.types, self.globals, self.funcs, self.decls = {}, {}, {}, set()


FCMP = {"false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une", "uno", "true"}


def parse_initializer(p, ty, mod):
    """flatten to list of (byte offset, scalar type, operand)"""
    p.ws()
    if ty.kind == "arr":
        if p.rx(r"zeroinitializer\b"):
            out = []
            for k in range(ty.n):
                for (o, t, v) in zero_init(ty.elt):
                    out.append((k * ty.elt.size() + o, t, v))
            return out
        if p.peek("c\""):
            p.eat("c")
            s = p.rx(r'"[^"]*"')[1:-1]
            bs, i = [], 0
            while i < len(s):
                if s[i] == "\\":
                    bs.append(int(s[i + 1:i + 3], 16))
                    i += 3
                else:
                    bs.append(ord(s[i]))
                    i += 1
            return [(k, ty.elt, ("i", b, 8)) for k, b in enumerate(bs)]
        p.need("[")
        out = []
        for k in range(ty.n):
            if k:
                p.need(",")
            et = p.type()
            for (o, t, v) in parse_initializer(p, et, mod):
                out.append((k * et.size() + o, t, v))
        p.need("]")
        return out
    if ty.kind == "struct":
        if p.rx(r"zeroinitializer\b"):
            return zero_init(ty)
        p.need("{")
        out = []
        offs = ty.layout()[0]
        for k in range(len(ty.fields)):
            if k:
                p.need(",")
            et = p.type()
            for (o, t, v) in parse_initializer(p, et, mod):
                out.append((offs[k] + o, t, v))
        p.need("}")
        return out
    return [(0, ty, p.value(ty))]


def zero_init(ty):
    if ty.kind == "arr":
        out = []
        for k in range(ty.n):
            out += [(k * ty.elt.size() + o, t, v) for (o, t, v) in zero_init(ty.elt)]
        return out
    if ty.kind == "struct":
        out = []
        offs = ty.layout()[0]
        for k, f in enumerate(ty.fields):
            out += [(offs[k] + o, t, v) for (o, t, v) in zero_init(f)]
        return out
    if ty.kind == "int":
        return [(0, ty, ("i", 0, ty.w))]
    if ty.kind == "fp":
        return [(0, ty, ("f", ty.w, 0))]
    return [(0, ty, ("undef", "ptr"))]


def parse_module(path):
    mod = Module()
    fn = None
    blk = None
    raw = open(path).read().split("\n")
    lines = []
    k = 0
    while k < len(raw):  # join multi-line switch
        l = raw[k]
        if re.match(r"\s*switch ", l) and "]" not in l:
            while "]" not in raw[k]:
                k += 1
                l += " " + raw[k]
        lines.append(l)
        k += 1
    # types first
    for l in lines:
        m = re.match(r'^(%("[^"]*"|[\w.$:]+)) = type (.*)$', l)
        if m:
            try:
                mod.types[m.group(1)] = Parser(m.group(3), mod).type()
            except IRError:
                pass
    for l in lines:
        if fn is None:
            m = re.match(r'^(@("[^"]*"|[\w.$-]+)) = (.*)$', l)
            if m and not m.group(3).startswith("comdat"):
                rest = m.group(3)
                mm = re.search(r"\b(constant|global)\s", rest)
                if mm and "external" not in rest[:mm.start()]:
                    p = Parser(rest[mm.end():], mod)
                    try:
                        t = p.type()
                        init = parse_initializer(p, t, mod)
                        mod.globals[m.group(1)] = (t, init, mm.group(1) == "constant")
                    except IRError:
                        pass
                continue
            if l.startswith("define "):
                fn, blk = parse_define(l, mod)
                mod.funcs[fn.name] = fn
                continue
            if l.startswith("declare "):
                m = re.search(r'(@("[^"]*"|[\w.$-]+))\(', l)
                mod.decls.add(m.group(1))
            continue
        if l.startswith("}"):
            fn = None
            continue
        s = l.strip()
        if not s or s.startswith(";"):
            continue
        m = re.match(r'^("[^"]*"|[\w.$-]+):', l)
        if m and not l.startswith(" "):
            blk = "%" + m.group(1)
            fn.blocks[blk] = []
            fn.order.append(blk)
            continue
        s = re.sub(r",?\s*!\w+(\.\w+)*\s*!?\d*", "", s)
        try:
            ins = parse_instr(s, mod)
        except IRError as e:
            ins = Instr("unsupported", a=str(e), text=s)
        if ins is not None:
            ins.text = s
            fn.blocks[blk].append(ins)
    demangle(mod)
    return mod


def parse_define(l, mod):
    m = re.search(r'(@("[^"]*"|[\w.$-]+))\(', l)
    fn = Func(m.group(1))
    pre = l[len("define "):m.start()]
    # return type is the last type token(s) before the name
    p = Parser(pre, mod)
    toks = pre.split()
    rt = None
    for t in reversed(toks):
        if INTRE.match(t) or t in FPW or t in ("ptr", "void"):
            rt = Parser(t, mod).type()
            break
    fn.ret = rt
    p = Parser(l[m.end():], mod)
    idx = 0
    if not p.eat(")"):
        while True:
            t = p.type()
            p.skip_attrs()
            nm = p.rx(r'%("[^"]*"|[\w.$-]+)')
            if nm is None:
                nm = "%%%d" % idx
            fn.params.append((t, nm))
            idx += 1
            if p.eat(")"):
                break
            p.need(",")
    first = "%%%d" % len(fn.params)
    fn.blocks[first] = []
    fn.order.append(first)
    return fn, first


def parse_instr(s, mod):
    p = Parser(s, mod)
    dst = None
    m = re.match(r'(%("[^"]*"|[\w.$-]+)) = ', s)
    if m:
        dst = m.group(1)
        p.i = m.end()
    op = p.word()
    if op in ("tail", "musttail", "notail"):
        op = p.word()
    if op == "alloca":
        t = p.type()
        return Instr("alloca", dst, t)
    if op == "load":
        p.rx(r"volatile\b")
        t = p.type()
        p.need(",")
        p.type()
        return Instr("load", dst, t, [p.value(Ty("ptr"))])
    if op == "store":
        p.rx(r"volatile\b")
        t = p.type()
        v = p.value(t)
        p.need(",")
        p.type()
        return Instr("store", None, t, [v, p.value(Ty("ptr"))])
    if op == "getelementptr":
        while p.rx(r"(inbounds|nuw|nusw)\b"):
            pass
        et = p.type()
        p.need(",")
        p.type()
        base = p.value(Ty("ptr"))
        idx = []
        first, cur = True, et
        while p.eat(","):
            it = p.type()
            iv = p.value(it)
            if first:
                idx.append((et.size(), iv, it))
                first = False
            elif cur.kind == "arr":
                idx.append((cur.elt.size(), iv, it))
                cur = cur.elt
            else:
                if iv[0] != "i":
                    raise IRError("struct gep")
                idx.append((1, ("i", cur.layout()[0][iv[1]], 64), Ty("int", 64)))
                cur = cur.fields[iv[1]]
        return Instr("gep", dst, Ty("ptr"), [base, idx])
    if op in ("fadd", "fsub", "fmul", "fdiv", "frem", "add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor"):
        flags = []
        while True:
            f = p.rx(r"(nsw|nuw|exact|disjoint|fast|nnan|ninf|nsz|arcp|contract|afn|reassoc)\b")
            if not f:
                break
            flags.append(f)
        if any(f in ("fast", "nnan", "ninf", "nsz", "arcp", "afn", "reassoc") for f in flags):
            raise IRError("fast-math")
        t = p.type()
        a = p.value(t)
        p.need(",")
        b = p.value(t)
        return Instr(op, dst, t, [a, b, flags])
    if op == "fneg":
        t = p.type()
        return Instr("fneg", dst, t, [p.value(t)])
    if op in ("fcmp", "icmp"):
        pred = p.word()
        t = p.type()
        a = p.value(t)
        p.need(",")
        b = p.value(t)
        return Instr(op, dst, t, [pred, a, b])
    if op in ("zext", "sext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "bitcast"):
        p.rx(r"(nneg|nuw|nsw)\b")
        t = p.type()
        a = p.value(t)
        p.need("to")
        t2 = p.type()
        return Instr(op, dst, t2, [a, t])
    if op == "freeze":
        t = p.type()
        return Instr("freeze", dst, t, [p.value(t)])
    if op == "br":
        if p.eat("label"):
            return Instr("br", a=[p.rx(r'%("[^"]*"|[\w.$-]+)')])
        p.type()
        c = p.value(Ty("int", 1))
        p.need(",")
        p.need("label")
        x = p.rx(r'%("[^"]*"|[\w.$-]+)')
        p.need(",")
        p.need("label")
        y = p.rx(r'%("[^"]*"|[\w.$-]+)')
        return Instr("condbr", a=[c, x, y])
    if op == "switch":
        t = p.type()
        v = p.value(t)
        p.need(",")
        p.need("label")
        d = p.rx(r'%("[^"]*"|[\w.$-]+)')
        p.need("[")
        cs = []
        while not p.eat("]"):
            ct = p.type()
            cv = p.value(ct)
            p.need(",")
            p.need("label")
            cs.append((cv[1], p.rx(r'%("[^"]*"|[\w.$-]+)')))
        return Instr("switch", ty=t, a=[v, d, cs])
    if op == "phi":
        t = p.type()
        inc = []
        while True:
            p.need("[")
            v = p.value(t)
            p.need(",")
            b = p.rx(r'%("[^"]*"|[\w.$-]+)')
            p.need("]")
            inc.append((v, b))
            if not p.eat(","):
                break
        return Instr("phi", dst, t, inc)
    if op == "select":
        p.type()
        c = p.value(Ty("int", 1))
        p.need(",")
        t = p.type()
        a = p.value(t)
        p.need(",")
        t = p.type()
        b = p.value(t)
        return Instr("select", dst, t, [c, a, b])
    if op == "ret":
        if p.rx(r"void\b"):
            return Instr("ret", a=[None])
        t = p.type()
        return Instr("ret", ty=t, a=[p.value(t)])
    if op == "unreachable":
        return Instr("unreachable")
    if op == "call":
        p.rx(r"(fastcc|ccc)\b")
        p.skip_attrs()
        t = p.type()
        p.skip_attrs()
        callee = p.rx(r'@("[^"]*"|[\w.$-]+)')
        if callee is None:
            raise IRError("indirect call")
        p.need("(")
        args = []
        if callee.startswith("@llvm.dbg"):
            return None
        if not p.eat(")"):
            while True:
                at = p.type()
                p.skip_attrs()
                args.append((at, p.value(at)))
                if p.eat(")"):
                    break
                p.need(",")
        return Instr("call", dst, t, [callee, args])
    if op in ("fence",):
        return None
    raise IRError("unsupported instruction " + str(op))


def demangle(mod):
    names = [n[1:].strip('"') for n in mod.funcs]
    p = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True)
    for n, d in zip(list(mod.funcs), p.stdout.split("\n")):
        mod.funcs[n].demangled = d


def callees(mod, root, stop=()):
    """transitive closure of functions reachable from root"""
    seen, todo = set(), [root]
    while todo:
        f = todo.pop()
        if f in seen or f not in mod.funcs:
            continue
        seen.add(f)
        for b in mod.funcs[f].order:
            for ins in mod.funcs[f].blocks[b]:
                if ins.op == "call":
                    todo.append(ins.a[0])
    return seen


def simple_name(dem):
    """'double gcem::internal::exp_check<double>(double)' -> 'gcem::internal::exp_check'"""
    depth = 0
    # cut the parameter list: the last top-level '('
    s = dem
    out = []
    ang = par = 0
    # strip return type & template args
    i = 0
    while i < len(s):
        c = s[i]
        if c == "<":
            ang += 1
        elif c == ">":
            ang -= 1
        elif ang == 0 and c == "(":
            break
        elif ang == 0:
            out.append(c)
        i += 1
    w = "".join(out).split()
    return w[-1] if w else dem


# ---------------------------------------------------------------- bytecode for the C++ engine

def emit_bytecode(mod, path, roots=None):
    funcs = list(mod.funcs) if roots is None else sorted(set().union(*[callees(mod, r) for r in roots]))
    gl = list(mod.globals)
    fid = {f: i for i, f in enumerate(funcs)}
    gid = {g: i for i, g in enumerate(gl)}
    L = []
    L.append("module %d %d" % (len(gl), len(funcs)))

    def operand(v, regs):
        if v[0] == "r":
            if v[1] not in regs:
                regs[v[1]] = len(regs)
            return "r%d" % regs[v[1]]
        if v[0] == "i":
            return "i%d:%d" % (v[2], v[1])
        if v[0] == "f":
            return "%s:%x" % (v[1], v[2])
        if v[0] == "g":
            if v[1] in gid:
                return "g%d:%d" % (gid[v[1]], v[2])
            return "undef"
        return "undef"

    for g in gl:
        t, init, const = mod.globals[g]
        L.append("global %s %d %d %d" % (g.replace(" ", "_"), t.size(), len(init), 1 if const else 0))
        for (o, et, v) in init:
            L.append("%d %s %s" % (o, et.code(), operand(v, {})))
    for f in funcs:
        fn = mod.funcs[f]
        regs = {}
        for t, n in fn.params:
            regs[n] = len(regs)
        bid = {b: i for i, b in enumerate(fn.order)}
        body = []
        for b in fn.order:
            ins_out = []
            for ins in fn.blocks[b]:
                d = "-"
                if ins.dst is not None:
                    d = operand(("r", ins.dst), regs)
                O = lambda v: operand(v, regs)
                op, a = ins.op, ins.a
                if op == "alloca":
                    ins_out.append("alloca %s %d" % (d, ins.ty.size()))
                elif op == "load":
                    ins_out.append("load %s %s %s" % (d, ins.ty.code(), O(a[0])))
                elif op == "store":
                    ins_out.append("store %s %s %s" % (ins.ty.code(), O(a[0]), O(a[1])))
                elif op == "gep":
                    ins_out.append("gep %s %s %d %s" % (d, O(a[0]), len(a[1]), " ".join("%d %s" % (sz, O(v)) for sz, v, t in a[1])))
                elif op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
                    ins_out.append("%s %s %s %s %s" % (op, d, ins.ty.code(), O(a[0]), O(a[1])))
                elif op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor"):
                    fl = (1 if "nsw" in a[2] else 0) + (2 if "nuw" in a[2] else 0)
                    ins_out.append("iop %s %s %s %s %s %d" % (op, d, ins.ty.code(), O(a[0]), O(a[1]), fl))
                elif op == "fneg":
                    ins_out.append("fneg %s %s %s" % (d, ins.ty.code(), O(a[0])))
                elif op in ("fcmp", "icmp"):
                    ins_out.append("%s %s %s %s %s %s" % (op, d, a[0], ins.ty.code(), O(a[1]), O(a[2])))
                elif op in ("zext", "sext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "bitcast"):
                    ins_out.append("cast %s %s %s %s %s" % (op, d, a[1].code(), ins.ty.code(), O(a[0])))
                elif op == "freeze":
                    ins_out.append("mov %s %s" % (d, O(a[0])))
                elif op == "br":
                    ins_out.append("br %d" % bid[a[0]])
                elif op == "condbr":
                    ins_out.append("condbr %s %d %d" % (O(a[0]), bid[a[1]], bid[a[2]]))
                elif op == "switch":
                    ins_out.append("switch %s %d %d %s" % (O(a[0]), bid[a[1]], len(a[2]), " ".join("%d %d" % (c, bid[b2]) for c, b2 in a[2])))
                elif op == "phi":
                    ins_out.append("phi %s %d %s" % (d, len(a), " ".join("%s %d" % (O(v), bid[b2]) for v, b2 in a)))
                elif op == "select":
                    ins_out.append("select %s %s %s %s" % (d, O(a[0]), O(a[1]), O(a[2])))
                elif op == "ret":
                    ins_out.append("ret %s" % (O(a[0]) if a[0] is not None else "-"))
                elif op == "unreachable":
                    ins_out.append("unreachable")
                elif op == "call":
                    cal = a[0]
                    tgt = "f%d" % fid[cal] if cal in fid else "x" + cal[1:].strip('"')
                    ins_out.append("call %s %s %s %d %s" % (d, ins.ty.code() if ins.ty.kind != "struct" else "void", tgt, len(a[1]), " ".join(O(v) for t, v in a[1])))
                else:
                    ins_out.append("unsupported %s" % op)
            body.append(ins_out)
        L.append("func %s %d %d %d" % (f[1:].strip('"'), len(fn.params), len(regs), len(fn.order)))
        L.append("dem " + fn.demangled)
        for ins_out in body:
            L.append("block %d" % len(ins_out))
            L += ins_out
    with open(path, "w") as fo:
        fo.write("\n".join(L) + "\n")


if __name__ == "__main__":
    m = parse_module(sys.argv[1])
    emit_bytecode(m, sys.argv[2])
    bad = [(f, i.text) for f in m.funcs for b in m.funcs[f].order for i in m.funcs[f].blocks[b] if i.op == "unsupported"]
    print(len(m.funcs), "functions;", len(bad), "unsupported", bad[:5])
