"""symex: symbolic executor / verification-condition generator over the extracted IR.

Two semantics for floating point:
  FPSem  exact IEEE semantics (SMT theory FloatingPoint, bit-blasted by the solver)
  UFSem  every floating point operation is an uninterpreted function (sound for proving that two
         executions compute the same bits; constants are folded exactly)
Functions are executed inline unless a contract is supplied for them; a recursive call is only ever
answered by a contract (the induction hypothesis), and a call that is answered by a contract adds
its precondition and, where the contract has a measure, its decrease as proof obligations.
"""
import z3, irx, re

z3.set_param("smt.random_seed", 1)

SORTS = {"f32": (8, 24), "f64": (11, 53), "f80": (15, 64)}
RNE = z3.RNE()


class Undecided(Exception):
    """the generator cannot produce obligations for this shape of code"""


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj, self.off = obj, off


class UndefV:
    pass


UNDEF = UndefV()


def fpsort(w):
    return z3.FPSort(*SORTS[w])


def fpconst(w, bits):
    e, m = SORTS[w]
    if w == "f80":
        s = bits >> 79
        ex = (bits >> 64) & 0x7FFF
        fr = bits & ((1 << 63) - 1)
        b = (s << 78) | (ex << 63) | fr
        return z3.simplify(z3.fpBVToFP(z3.BitVecVal(b, 79), fpsort(w)))
    return z3.simplify(z3.fpBVToFP(z3.BitVecVal(bits, 32 if w == "f32" else 64), fpsort(w)))


class FPSem:
    name = "fp"

    def __init__(self):
        self.bits = {}  # ast id -> bv bits (storage format width)
        self.keep = []
        self.side = []  # definitional constraints
        self.n = 0

    def sort(self, w):
        return fpsort(w)

    def const(self, w, bits):
        v = fpconst(w, bits)
        return v

    def arg(self, name, w):
        """an argument is an arbitrary bit pattern of the storage format"""
        e, m = SORTS[w]
        b = z3.BitVec(name, e + m)
        v = z3.fpBVToFP(b, fpsort(w))
        self.bits[v.get_id()] = (b, w)
        self.keep.append(v)
        return v

    def ieee(self, v, w):
        if v.get_id() in self.bits:
            return self.bits[v.get_id()][0]
        if z3.is_fp_value(v) and not v.isNaN():
            return z3.simplify(z3.fpToIEEEBV(v))
        self.n += 1
        e, m = SORTS[w]
        b = z3.BitVec("bits!%d" % self.n, e + m)
        self.side.append(z3.fpBVToFP(b, fpsort(w)) == v)
        self.bits[v.get_id()] = (b, w)
        self.keep.append(v)
        return b

    def storage_bits(self, v, w):
        b = self.ieee(v, w)
        if w != "f80":
            return b
        ex = z3.Extract(77, 63, b)
        ib = z3.If(ex == 0, z3.BitVecVal(0, 1), z3.BitVecVal(1, 1))
        return z3.Concat(z3.Extract(78, 78, b), ex, ib, z3.Extract(62, 0, b))

    def from_bits(self, b, w):
        if w == "f80":
            b = z3.Concat(z3.Extract(79, 79, b), z3.Extract(78, 64, b), z3.Extract(62, 0, b))
        v = z3.fpBVToFP(b, fpsort(w))
        self.bits[v.get_id()] = (b, w)
        self.keep.append(v)
        return v

    def bin(self, op, w, a, b):
        f = {"fadd": z3.fpAdd, "fsub": z3.fpSub, "fmul": z3.fpMul, "fdiv": z3.fpDiv}.get(op)
        if f is None:
            raise Undecided("frem")
        r = f(RNE, a, b)
        return self.fold(r, a, b)

    def fold(self, r, *ops):
        if all(z3.is_fp_value(o) for o in ops):
            return z3.simplify(r)
        return r

    def neg(self, w, a):
        r = z3.fpNeg(a)
        if a.get_id() in self.bits:
            b, _ = self.bits[a.get_id()]
            n = b.size()
            nb = z3.Concat(~z3.Extract(n - 1, n - 1, b), z3.Extract(n - 2, 0, b))
            self.bits[r.get_id()] = (nb, w)
            self.keep.append(r)
        return self.fold(r, a)

    def fabs(self, w, a):
        r = z3.fpAbs(a)
        if a.get_id() in self.bits:
            b, _ = self.bits[a.get_id()]
            n = b.size()
            self.bits[r.get_id()] = (z3.Concat(z3.BitVecVal(0, 1), z3.Extract(n - 2, 0, b)), w)
            self.keep.append(r)
        return self.fold(r, a)

    def copysign(self, w, a, b):
        x, y = self.ieee(a, w), self.ieee(b, w)
        n = x.size()
        nb = z3.Concat(z3.Extract(n - 1, n - 1, y), z3.Extract(n - 2, 0, x))
        v = z3.fpBVToFP(nb, fpsort(w))
        self.bits[v.get_id()] = (nb, w)
        self.keep.append(v)
        return self.fold(v, a, b)

    def cmp(self, pred, w, a, b):
        unord = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        base = {"eq": z3.fpEQ(a, b), "gt": z3.fpGT(a, b), "ge": z3.fpGEQ(a, b), "lt": z3.fpLT(a, b), "le": z3.fpLEQ(a, b)}
        if pred == "ord":
            r = z3.Not(unord)
        elif pred == "uno":
            r = unord
        elif pred == "true":
            return z3.BoolVal(True)
        elif pred == "false":
            return z3.BoolVal(False)
        elif pred == "one":
            r = z3.And(z3.Not(unord), z3.Not(base["eq"]))
        elif pred == "une":
            r = z3.Not(base["eq"])
        elif pred[0] == "o":
            r = base[pred[1:]]
        else:
            r = z3.Or(unord, base[pred[1:]])
        if z3.is_fp_value(a) and z3.is_fp_value(b):
            return z3.simplify(r)
        return r

    def sitofp(self, v, w, signed):
        r = z3.fpSignedToFP(RNE, v, fpsort(w)) if signed else z3.fpUnsignedToFP(RNE, v, fpsort(w))
        if z3.is_bv_value(v):
            return z3.simplify(r)
        return r

    def fptosi(self, a, n, signed):
        """value, in-range condition"""
        s = a.sort()
        if signed:
            lo = z3.fpToFP(z3.RTN(), z3.RealVal(-(2 ** (n - 1)) - 1), s)
            hi = z3.fpToFP(z3.RTP(), z3.RealVal(2 ** (n - 1)), s)
            # trunc(a) in [-2^(n-1), 2^(n-1)-1]
            t = z3.fpRoundToIntegral(z3.RTZ(), a)
            ok = z3.And(z3.Not(z3.fpIsNaN(a)), z3.fpLEQ(z3.fpToFP(RNE, z3.RealVal(-(2 ** (n - 1))), s), t),
                        z3.fpLT(t, z3.fpToFP(RNE, z3.RealVal(2 ** (n - 1)), s)))
            r = z3.fpToSBV(z3.RTZ(), a, z3.BitVecSort(n))
        else:
            t = z3.fpRoundToIntegral(z3.RTZ(), a)
            ok = z3.And(z3.Not(z3.fpIsNaN(a)), z3.fpLEQ(z3.FPVal(0, s), t),
                        z3.fpLT(t, z3.fpToFP(RNE, z3.RealVal(2 ** n), s)))
            r = z3.fpToUBV(z3.RTZ(), a, z3.BitVecSort(n))
        if z3.is_fp_value(a):
            return z3.simplify(r), z3.simplify(ok)
        return r, ok

    def fpcast(self, a, w):
        r = z3.fpToFP(RNE, a, fpsort(w))
        return self.fold(r, a)

    def isnan(self, a, w):
        return z3.fpIsNaN(a)


class UFSem:
    """floating point operations are uninterpreted; constants are exact and folded"""
    name = "uf"

    def __init__(self, axioms=False):
        self.fp = FPSem()
        self.sorts = {w: z3.DeclareSort("F_" + w) for w in SORTS}
        self.consts = {}
        self.cval = {}
        self.keep = []
        self.side = []
        self.fns = {}
        self.axioms = axioms

    def sort(self, w):
        return self.sorts[w]

    def fn(self, name, *sorts):
        k = (name,) + tuple(str(s) for s in sorts)
        if k not in self.fns:
            self.fns[k] = z3.Function("%s_%s" % (name, "_".join(str(s).replace(" ", "").replace("(", "").replace(")", "") for s in sorts)), *sorts)
        return self.fns[k]

    def lift(self, w, v):
        """exact fp value -> named constant"""
        k = (w, v.sexpr())
        if k not in self.consts:
            c = z3.Const("c_%s_%d" % (w, len(self.consts)), self.sorts[w])
            self.consts[k] = c
            self.cval[c.get_id()] = v
            self.keep.append(c)
        return self.consts[k]

    def isc(self, *xs):
        return all(x.get_id() in self.cval for x in xs)

    def const(self, w, bits):
        return self.lift(w, fpconst(w, bits))

    def arg(self, name, w):
        return z3.Const(name, self.sorts[w])

    def bin(self, op, w, a, b):
        if self.isc(a, b) and op != "frem":
            return self.lift(w, self.fp.bin(op, w, self.cval[a.get_id()], self.cval[b.get_id()]))
        S = self.sorts[w]
        if op in ("fadd", "fmul") and a.get_id() > b.get_id():
            a, b = b, a  # IEEE addition and multiplication commute (NaN payloads are not observed)
        return self.fn(op, S, S, S)(a, b)

    def neg(self, w, a):
        if self.isc(a):
            return self.lift(w, self.fp.neg(w, self.cval[a.get_id()]))
        S = self.sorts[w]
        f = self.fn("fneg", S, S)
        if z3.is_app(a) and a.decl().eq(f):
            return a.arg(0)
        return f(a)

    def fabs(self, w, a):
        if self.isc(a):
            return self.lift(w, self.fp.fabs(w, self.cval[a.get_id()]))
        S = self.sorts[w]
        return self.fn("fabs", S, S)(a)

    def copysign(self, w, a, b):
        S = self.sorts[w]
        return self.fn("copysign", S, S, S)(a, b)

    def cmp(self, pred, w, a, b):
        if self.isc(a, b):
            return self.fp.cmp(pred, w, self.cval[a.get_id()], self.cval[b.get_id()])
        S = self.sorts[w]
        # normalise: gt -> lt swapped, u* -> not of the opposite o*
        neg = False
        if pred in ("ord", "uno"):
            r = z3.Or(self.nan(w, a), self.nan(w, b))
            return z3.Not(r) if pred == "ord" else r
        if pred[0] == "u":
            opp = {"ueq": "one", "ugt": "ole", "uge": "olt", "ult": "oge", "ule": "ogt", "une": "oeq"}
            pred, neg = opp[pred], True
        if pred in ("ogt", "oge"):
            a, b = b, a
            pred = {"ogt": "olt", "oge": "ole"}[pred]
        if pred in ("oeq", "one") and a.get_id() > b.get_id():
            a, b = b, a
        if pred == "oeq" and a.eq(b):
            r = z3.Not(self.nan(w, a))
        else:
            r = self.fn(pred, S, S, z3.BoolSort())(a, b)
        return z3.Not(r) if neg else r

    def nan(self, w, a):
        if self.isc(a):
            return z3.simplify(z3.fpIsNaN(self.cval[a.get_id()]))
        return self.fn("isnan", self.sorts[w], z3.BoolSort())(a)

    isnan = lambda self, a, w: self.nan(w, a)

    def sitofp(self, v, w, signed):
        if z3.is_bv_value(v):
            return self.lift(w, self.fp.sitofp(v, w, signed))
        return self.fn("sitofp" if signed else "uitofp", v.sort(), self.sorts[w])(v)

    def fptosi(self, a, n, signed):
        if self.isc(a):
            return self.fp.fptosi(self.cval[a.get_id()], n, signed)
        S = a.sort()
        B = z3.BitVecSort(n)
        return self.fn("fptosi" if signed else "fptoui", S, B)(a), z3.BoolVal(True)

    def fpcast(self, a, w):
        if self.isc(a):
            return self.lift(w, self.fp.fpcast(self.cval[a.get_id()], w))
        if a.sort() == self.sorts[w]:
            return a
        return self.fn("fpcast", a.sort(), self.sorts[w])(a)

    def storage_bits(self, a, w):
        n = {"f32": 32, "f64": 64, "f80": 80}[w]
        if self.isc(a):
            return z3.simplify(self.fp.storage_bits(self.cval[a.get_id()], w))
        return self.fn("bits", a.sort(), z3.BitVecSort(n))(a)

    def from_bits(self, b, w):
        return self.fn("frombits", b.sort(), self.sorts[w])(b)


class Obl:
    def __init__(self, kind, desc, pc, cond, fn):
        self.kind, self.desc, self.pc, self.cond, self.fn = kind, desc, pc, cond, fn

    def formula(self):
        return z3.And(*self.pc, z3.Not(self.cond)) if self.pc else z3.Not(self.cond)


class Contract:
    """apply(ex, fn, args, pc) -> value (or None to inline); may add obligations via ex.oblige"""

    def __init__(self, apply, only_recursive=False):
        self.apply, self.only_recursive = apply, only_recursive


def as_bool(v):
    if z3.is_bool(v):
        return v
    return v == z3.BitVecVal(1, 1)


class Exec:
    def __init__(self, mod, sem, contract_for=None, check_ub=True, max_unroll=700, max_depth=600, prune=True):
        self.mod, self.sem = mod, sem
        self.contract_for = contract_for or (lambda fn, rec: None)
        self.obls = []
        self.check_ub = check_ub
        self.max_unroll, self.max_depth = max_unroll, max_depth
        self.stack = []
        self.used = set()      # functions executed inline
        self.contracted = set()  # functions answered by contract
        self.unknown_calls = {}
        self.pre = []  # global assumptions, used for pruning
        self.prune = prune
        self.prune_solver = None
        self.steps = 0
        self.max_steps = 400000

    def oblige(self, kind, desc, pc, cond, fn):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            self.obls.append(Obl(kind, desc, (), z3.BoolVal(True), fn))
            return
        self.obls.append(Obl(kind, desc, tuple(pc), cond, fn))

    def feasible(self, pc):
        s = z3.Solver()
        s.set("timeout", 3000)
        s.add(*self.pre)
        s.add(*self.sem.side)
        s.add(*pc)
        return s.check() != z3.unsat

    # ---- values
    def val(self, v, ty, frame):
        k = v[0]
        if k == "r":
            if v[1] not in frame:
                raise Undecided("undefined register " + v[1])
            return frame[v[1]]
        if k == "i":
            if v[2] == 1:
                return z3.BoolVal(v[1] & 1 == 1)
            return z3.BitVecVal(v[1], v[2])
        if k == "f":
            return self.sem.const(v[1], v[2])
        if k == "g":
            return Ptr(("g", v[1]), v[2])
        return UNDEF

    def run(self, fname, args, pc=()):
        outs = self.call(fname, args, tuple(pc))
        return outs

    def call(self, fname, args, pc):
        """returns merged value"""
        fn = self.mod.funcs.get(fname)
        if fn is None:
            raise Undecided("external function " + fname)
        rec = fname in self.stack
        c = self.contract_for(fn, rec)
        if c is not None and (rec or not c.only_recursive):
            r = c.apply(self, fn, args, pc)
            if r is not None:
                self.contracted.add(fn.demangled)
                return r
        if len(self.stack) > self.max_depth:
            raise Undecided("recursion deeper than %d" % self.max_depth)
        if rec and self.prune and self.stack.count(fname) >= 1 and pc:
            if not self.feasible(pc):
                return UNDEF
        self.stack.append(fname)
        self.used.add(fn.demangled)
        try:
            outs = self.body(fn, args, pc)
        finally:
            self.stack.pop()
        outs = [(p, v) for p, v in outs if v is not UNDEF]
        if not outs:
            return UNDEF
        base = len(pc)
        res = outs[-1][1]
        for p, v in reversed(outs[:-1]):
            cond = z3.And(*p[base:]) if len(p) > base else z3.BoolVal(True)
            res = self.ite(cond, v, res)
        return res

    def ite(self, c, a, b):
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.off == b.off:
                return a
            raise Undecided("merge of pointers")
        if a is None and b is None:
            return None
        if a.eq(b):
            return a
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        return z3.If(c, a, b)

    def body(self, fn, args, pc):
        frame0 = {n: a for (t, n), a in zip(fn.params, args)}
        outs = []
        # work item: block, prev, frame, mem, pc, counts
        work = [(fn.order[0], None, frame0, {}, pc, {})]
        nal = [0]
        while work:
            blk, prev, frame, mem, pc, cnt = work.pop()
            while True:
                cnt[blk] = cnt.get(blk, 0) + 1
                if cnt[blk] > self.max_unroll:
                    raise Undecided("loop in %s not bounded" % fn.demangled)
                if cnt[blk] > 2 and pc and cnt[blk] % 4 == 3 and self.prune and not self.feasible(pc):
                    break
                nxt = None
                for ins in fn.blocks[blk]:
                    self.steps += 1
                    if self.steps > self.max_steps:
                        raise Undecided("too many steps")
                    op = ins.op
                    if op == "phi":
                        for v, b in ins.a:
                            if b == prev:
                                frame[ins.dst] = self.val(v, ins.ty, frame)
                                break
                        continue
                    if op == "br":
                        nxt = ins.a[0]
                        break
                    if op == "condbr":
                        c = as_bool(self.val(ins.a[0], None, frame))
                        c = z3.simplify(c)
                        if z3.is_true(c):
                            nxt = ins.a[1]
                        elif z3.is_false(c):
                            nxt = ins.a[2]
                        else:
                            work.append((ins.a[2], blk, dict(frame), {k: dict(m) for k, m in mem.items()}, pc + (z3.Not(c),), dict(cnt)))
                            pc = pc + (c,)
                            nxt = ins.a[1]
                        break
                    if op == "switch":
                        v = self.val(ins.a[0], ins.ty, frame)
                        vs = z3.simplify(v)
                        if z3.is_bv_value(vs):
                            nxt = ins.a[1]
                            for cv, b in ins.a[2]:
                                if vs.as_long() == cv % (1 << vs.size()):
                                    nxt = b
                                    break
                        else:
                            nots = []
                            for cv, b in ins.a[2]:
                                e = v == z3.BitVecVal(cv, v.size())
                                work.append((b, blk, dict(frame), {k: dict(m) for k, m in mem.items()}, pc + tuple(nots) + (e,), dict(cnt)))
                                nots.append(z3.Not(e))
                            pc = pc + tuple(nots)
                            nxt = ins.a[1]
                        break
                    if op == "ret":
                        v = None if ins.a[0] is None else self.val(ins.a[0], ins.ty, frame)
                        outs.append((pc, v))
                        nxt = None
                        break
                    if op == "unreachable":
                        self.oblige("reach", "unreachable code in " + fn.demangled, pc, z3.BoolVal(False), fn.demangled)
                        nxt = None
                        break
                    self.step(ins, fn, frame, mem, pc, nal)
                if nxt is None:
                    break
                prev, blk = blk, nxt
        return outs

    def step(self, ins, fn, frame, mem, pc, nal):
        op, sem = ins.op, self.sem
        V = lambda v, t=ins.ty: self.val(v, t, frame)
        if op == "alloca":
            nal[0] += 1
            obj = ("a", len(self.stack), nal[0])
            mem[obj] = {}
            frame[ins.dst] = Ptr(obj, 0)
        elif op == "load":
            p = V(ins.a[0])
            if not isinstance(p, Ptr):
                raise Undecided("load through unknown pointer")
            if p.obj[0] == "g":
                g = self.mod.globals.get(p.obj[1])
                if g is None:
                    raise Undecided("unknown global")
                if not g[2]:
                    raise Undecided("mutable global")
                for o, t, v in g[1]:
                    if o == p.off:
                        frame[ins.dst] = self.val(v, t, frame)
                        return
                self.oblige("bounds", "out of bounds read in " + fn.demangled, pc, z3.BoolVal(False), fn.demangled)
                frame[ins.dst] = UNDEF
                return
            if p.obj not in mem:
                raise Undecided("load from caller memory")
            if p.off not in mem[p.obj]:
                frame[ins.dst] = UNDEF
                return
            frame[ins.dst] = mem[p.obj][p.off]
        elif op == "store":
            v, p = V(ins.a[0]), V(ins.a[1])
            if not isinstance(p, Ptr) or p.obj not in mem:
                raise Undecided("store through unknown pointer")
            mem[p.obj][p.off] = v
        elif op == "gep":
            p = V(ins.a[0])
            if not isinstance(p, Ptr):
                raise Undecided("gep on unknown pointer")
            off = p.off
            for sz, v, t in ins.a[1]:
                k = z3.simplify(self.val(v, t, frame))
                if not z3.is_bv_value(k):
                    raise Undecided("symbolic index")
                off += sz * k.as_signed_long()
            frame[ins.dst] = Ptr(p.obj, off)
        elif op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            a, b = V(ins.a[0]), V(ins.a[1])
            if a is UNDEF or b is UNDEF:
                frame[ins.dst] = UNDEF
                return
            frame[ins.dst] = sem.bin(op, ins.ty.w, a, b)
        elif op == "fneg":
            a = V(ins.a[0])
            frame[ins.dst] = UNDEF if a is UNDEF else sem.neg(ins.ty.w, a)
        elif op == "fcmp":
            a, b = V(ins.a[1]), V(ins.a[2])
            frame[ins.dst] = UNDEF if (a is UNDEF or b is UNDEF) else sem.cmp(ins.a[0], ins.ty.w, a, b)
        elif op == "icmp":
            a, b = V(ins.a[1]), V(ins.a[2])
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                raise Undecided("pointer comparison")
            if a is UNDEF or b is UNDEF:
                frame[ins.dst] = UNDEF
                return
            if z3.is_bool(a):
                a = z3.If(a, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            if z3.is_bool(b):
                b = z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            f = {"eq": lambda: a == b, "ne": lambda: a != b, "slt": lambda: a < b, "sle": lambda: a <= b, "sgt": lambda: a > b, "sge": lambda: a >= b,
                 "ult": lambda: z3.ULT(a, b), "ule": lambda: z3.ULE(a, b), "ugt": lambda: z3.UGT(a, b), "uge": lambda: z3.UGE(a, b)}[ins.a[0]]
            frame[ins.dst] = z3.simplify(f())
        elif op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor"):
            a, b = V(ins.a[0]), V(ins.a[1])
            if a is UNDEF or b is UNDEF:
                frame[ins.dst] = UNDEF
                return
            if ins.ty.w == 1:
                a, b = as_bool(a), as_bool(b)
                r = {"and": z3.And, "or": z3.Or, "xor": z3.Xor, "add": z3.Xor, "sub": z3.Xor, "mul": z3.And}[op](a, b)
                frame[ins.dst] = z3.simplify(r)
                return
            fl = ins.a[2]
            if self.check_ub:
                if "nsw" in fl:
                    if op == "add":
                        ok = z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b))
                    elif op == "sub":
                        ok = z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True))
                    elif op == "mul":
                        ok = z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b))
                    else:
                        ok = z3.BoolVal(True)
                    self.oblige("overflow", "signed overflow of %s in %s" % (op, fn.demangled), pc, ok, fn.demangled)
                if op in ("sdiv", "udiv", "srem", "urem"):
                    ok = b != 0
                    if op in ("sdiv", "srem"):
                        n = a.size()
                        ok = z3.And(ok, z3.Not(z3.And(a == z3.BitVecVal(1 << (n - 1), n), b == z3.BitVecVal(-1, n))))
                    self.oblige("division", "integer division by zero or overflow in " + fn.demangled, pc, ok, fn.demangled)
            r = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "sdiv": lambda: a / b, "udiv": lambda: z3.UDiv(a, b),
                 "srem": lambda: z3.SRem(a, b), "urem": lambda: z3.URem(a, b), "shl": lambda: a << b, "lshr": lambda: z3.LShR(a, b),
                 "ashr": lambda: a >> b, "and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b}[op]()
            frame[ins.dst] = z3.simplify(r)
        elif op in ("zext", "sext", "trunc"):
            a = V(ins.a[0])
            if a is UNDEF:
                frame[ins.dst] = UNDEF
                return
            n = ins.ty.w
            if z3.is_bool(a):
                one = z3.BitVecVal(1 if op == "zext" else -1, n)
                frame[ins.dst] = z3.simplify(z3.If(a, one, z3.BitVecVal(0, n)))
            elif op == "trunc":
                r = z3.Extract(n - 1, 0, a)
                frame[ins.dst] = z3.simplify(r == 1) if n == 1 else z3.simplify(r)
            else:
                k = n - a.size()
                frame[ins.dst] = z3.simplify(z3.ZeroExt(k, a) if op == "zext" else z3.SignExt(k, a))
        elif op in ("sitofp", "uitofp"):
            a = V(ins.a[0])
            if z3.is_bool(a):
                a = z3.If(a, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)) if op == "uitofp" else z3.If(a, z3.BitVecVal(-1, 2), z3.BitVecVal(0, 2))
            a = z3.simplify(a)
            frame[ins.dst] = sem.sitofp(a, ins.ty.w, op == "sitofp")
        elif op in ("fptosi", "fptoui"):
            a = V(ins.a[0])
            r, ok = sem.fptosi(a, ins.ty.w, op == "fptosi")
            if self.check_ub and sem.name == "fp":
                self.oblige("conversion", "out of range float to integer conversion in " + fn.demangled, pc, ok, fn.demangled)
            frame[ins.dst] = r
        elif op in ("fpext", "fptrunc"):
            frame[ins.dst] = sem.fpcast(V(ins.a[0]), ins.ty.w)
        elif op == "bitcast":
            a = V(ins.a[0])
            st = ins.a[1]
            if st.kind == "fp" and ins.ty.kind == "int":
                frame[ins.dst] = sem.storage_bits(a, st.w)
            elif st.kind == "int" and ins.ty.kind == "fp":
                frame[ins.dst] = sem.from_bits(a, ins.ty.w)
            else:
                frame[ins.dst] = a
        elif op == "freeze":
            frame[ins.dst] = V(ins.a[0])
        elif op == "select":
            c = z3.simplify(as_bool(V(ins.a[0])))
            frame[ins.dst] = self.ite(c, V(ins.a[1]), V(ins.a[2]))
        elif op == "call":
            name = ins.a[0]
            args = [self.val(v, t, frame) for t, v in ins.a[1]]
            m = re.match(r"@llvm\.(fabs|copysign|is\.fpclass)\.(f32|f64|f80)", name)
            if m:
                if m.group(1) == "fabs":
                    r = sem.fabs(m.group(2), args[0])
                elif m.group(1) == "copysign":
                    r = sem.copysign(m.group(2), args[0], args[1])
                else:
                    raise Undecided("fpclass")
            elif name in self.mod.funcs:
                r = self.call(name, args, pc)
            else:
                raise Undecided("external call " + name)
            if ins.dst is not None:
                frame[ins.dst] = r
        else:
            raise Undecided("unsupported instruction: " + (ins.text or op))


# ------------------------------------------------------------------ solving

def check_formula(f, timeout_s=120, extra=()):
    """portfolio-free in-process z3 check -> ('unsat'|'sat'|'unknown', model)"""
    s = z3.Solver()
    s.set("timeout", int(timeout_s * 1000))
    s.add(*extra)
    s.add(f)
    r = s.check()
    if r == z3.sat:
        return "sat", s.model()
    return str(r), None
