"""Symbolic VC generator over LLVM IR.

Executes one proof function (a contract: assume pre, call the real function, assert
post) on all paths, generating one obligation per assertion / memory access / UB trap
per path and discharging each with z3.  Loops whose exit test is symbolic are cut by an
inferred-and-checked inductive invariant (class LoopCut), or unrolled completely when
bounded by operand width.
"""
import time, re, math, struct, sys
import subprocess
import z3
from values import *
import ir

sys.setrecursionlimit(100000)

def Z(v, w):
    """z3 bit-vector of width w from value v"""
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if w == 1 and z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    return v

def B(v):
    """z3 Bool from an i1 value"""
    if isinstance(v, int):
        return z3.BoolVal(bool(v))
    return v

def mask(w):
    return (1 << w) - 1

def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


class Frame:
    __slots__ = ("fn", "loc", "blk", "ip", "prev", "allocas", "hooked", "loops", "isstub")

    def __init__(self, fn):
        self.fn = fn
        self.loc = [None] * fn.nlocals
        self.blk = 0
        self.ip = 0
        self.prev = -1
        self.allocas = ()
        self.hooked = False
        self.loops = {}
        self.isstub = False

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.blk, f.ip, f.prev, f.allocas, f.hooked = self.fn, self.blk, self.ip, self.prev, self.allocas, self.hooked
        f.loc = list(self.loc)
        f.loops = dict(self.loops)
        f.isstub = self.isstub
        return f


class Obj:
    __slots__ = ("id", "size", "kind", "cells", "raw", "fill", "alive", "ro", "name", "stride", "fields", "tok", "heap")

    def __init__(self, id, size, name="", kind="cells"):
        self.id, self.size, self.name, self.kind = id, size, name, kind
        self.cells = {}
        self.raw = None
        self.fill = None
        self.alive = True
        self.ro = False
        self.stride = 1
        self.fields = {}
        self.tok = None
        self.heap = False

    def copy(self):
        o = Obj.__new__(Obj)
        o.id, o.size, o.kind, o.raw, o.fill, o.alive, o.ro, o.name, o.stride, o.heap = (
            self.id, self.size, self.kind, self.raw, self.fill, self.alive, self.ro, self.name, self.stride, self.heap)
        o.cells = dict(self.cells)
        o.fields = dict(self.fields)
        o.tok = None
        return o


class State:
    __slots__ = ("frames", "mem", "pc", "nobj", "anys", "decided", "exc", "caught", "tok", "based", "hook", "ghost", "trace", "depthmark", "nuncaught", "dead", "weak")

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = []
        self.nobj = 0
        self.anys = []
        self.decided = {}
        self.exc = None
        self.caught = []
        self.tok = object()
        self.based = ()
        self.hook = None
        self.ghost = {}
        self.trace = ()
        self.nuncaught = 0
        self.dead = False
        self.weak = False

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.nobj = self.nobj
        s.anys = list(self.anys)
        s.decided = dict(self.decided)
        s.exc = self.exc
        s.caught = list(self.caught)
        s.tok = object()
        self.tok = object()
        s.based = self.based
        s.hook = self.hook
        s.ghost = dict(self.ghost)
        s.trace = self.trace
        s.nuncaught = self.nuncaught
        s.dead = False
        s.weak = self.weak
        return s


class PathEnd(Exception):
    pass


class Deadline(Exception):
    pass


class ProofResult:
    def __init__(self, name):
        self.name = name
        self.obl = {}          # key -> [discharged, failed, unknown]
        self.failures = []     # dicts
        self.undecided = []    # reasons
        self.covers = {}       # name -> bool
        self.asserts_seen = set()
        self.paths = 0
        self.completed = 0
        self.instrs = 0
        self.queries = 0
        self.solver_s = 0.0
        self.wall = 0.0
        self.functions = {}    # demangled -> executed instr count
        self.stubs = {}
        self.externals = {}
        self.loops = []
        self.bounded = []

    def summary(self):
        d = sum(v[0] for v in self.obl.values())
        f = sum(v[1] for v in self.obl.values())
        k = sum(v[2] for v in self.obl.values())
        return d, f, k


class Engine:
    def __init__(self, mod, opts=None):
        self.mod = mod
        o = dict(query_ms=20000, feas_ms=3000, max_paths=20000, unroll=80, deadline=600, accel=True, enum_limit=40, max_instr=40000000)
        o.update(opts or {})
        self.o = o
        self.gids = {}
        self.gnames = {}
        self.nextg = -1
        self.fresh_n = 0
        self.solver = z3.Solver()
        self.solver.set("timeout", o["query_ms"])
        self.sstack = []
        self.tids = {}
        self.replace = []      # (regex on demangled, stub fn name)
        self.replcache = {}
        self.handlers = {}
        import externals
        externals.install(self)
        self.worklist = []
        self.trial = 0
        self.trial_depth = 0
        self.trial_cut = None
        self.bounds = {}
        self.fixed_unroll = []
        self.int_misses = 0
        self._mdl = self._lazy = None
        import lia
        self.lia = lia.Lia()
        self.loopinfo = {}

    # ------------------------------------------------------------ utilities
    def fresh(self, name, w):
        self.fresh_n += 1
        if w == 1:
            return z3.Bool("%s!%d" % (name, self.fresh_n))
        return z3.BitVec("%s!%d" % (name, self.fresh_n), w)

    def sync(self, pc):
        st = self.sstack
        i = 0
        n = min(len(st), len(pc))
        while i < n and st[i] is pc[i]:
            i += 1
        if len(st) > i:
            self.solver.pop(len(st) - i)
            del st[i:]
        while len(st) < len(pc):
            self.solver.push()
            c = pc[len(st)]
            self.solver.add(c)
            st.append(c)

    def query(self, pc, extra=None, ms=None):
        """returns z3.sat/unsat/unknown of pc & extra"""
        t0 = time.time()
        if t0 > self.deadline:
            raise Deadline()
        self.res.queries += 1
        ms = ms or self.o["query_ms"]
        left = int((self.deadline - t0) * 1000) + 1000
        ms = min(ms, left)
        r = z3.unknown
        tac = self.o.get("tactic")
        if tac:
            s = z3.Tactic(tac).solver()
            s.set("timeout", ms)
            for c in pc:
                s.add(c)
            if extra is not None:
                s.add(extra)
            r = s.check()
            self._lastsolver = s
        else:
            stages = ((min(ms, 400), "z3"), (min(ms, 2000), "lia"), (min(ms, 6000), "cvc5"), (ms, "z3"))
            if self.o.get("lia"):
                stages = ((min(ms, 400), "lia"),) + stages
            for stage in stages:
                if stage[1] == "lia":
                    r, m = self.lia.check(pc, extra, stage[0])
                    if r != z3.unknown:
                        self.res.lia = getattr(self.res, "lia", 0) + 1
                    if r == z3.sat:
                        self._mdl = None
                        self._lazy = (list(pc), extra, m)
                elif stage[1] == "cvc5":
                    if ms > 400:
                        r = self.query_int(pc, extra, stage[0])
                else:
                    self.sync(pc)
                    self.solver.set("timeout", stage[0])
                    self.solver.push()
                    if extra is not None:
                        self.solver.add(extra)
                    try:
                        r = self.solver.check()
                        if r == z3.sat:
                            self._model = self.solver.model()
                    finally:
                        self.solver.pop()
                if r != z3.unknown or (ms <= 400 and stage[1] == "z3"):
                    break
            self._lastsolver = None
        if r == z3.sat and tac:
            self._model = self._lastsolver.model()
        self.res.solver_s += time.time() - t0
        return r

    @property
    def _model(self):
        if self._mdl is None and self._lazy is not None:
            pc, extra, m = self._lazy
            self._mdl = self.lia.bvmodel(pc, extra, m)
            if self._mdl is None:
                self.sync(pc)
                self.solver.set("timeout", self.o["query_ms"])
                self.solver.push()
                if extra is not None:
                    self.solver.add(extra)
                r = self.solver.check()
                if r == z3.sat:
                    self._mdl = self.solver.model()
                self.solver.pop()
            if self._mdl is None:
                raise Unsupported("no model for a satisfiable query")
            self._lazy = None
        return self._mdl

    @_model.setter
    def _model(self, m):
        self._mdl = m
        self._lazy = None

    def query_int(self, pc, extra, ms):
        """second back end: cvc5 with bit-vectors translated to integer arithmetic (exact: modular semantics kept)"""
        s = z3.Solver()
        for c in pc:
            s.add(c)
        if extra is not None:
            s.add(extra)
        text = s.to_smt2()
        if self.int_misses > 4 or re.search(r"FloatingPoint|fp\.|bvand|bvor|bvxor|bvshl|bvlshr|bvashr", text):
            return z3.unknown
        head = "(set-option :produce-models true)\n(set-logic ALL)\n"
        text = head + re.sub(r"\(set-info[^)]*\)", "", text)
        names = re.findall(r"\(declare-fun (\|[^|]*\||\S+) \(\) \(_ BitVec", text)
        if names:
            text += "(get-value (%s))\n" % " ".join(names)
        try:
            p = subprocess.run(["cvc5", "--solve-bv-as-int=sum", "--tlimit=%d" % ms], input=text, capture_output=True, text=True, timeout=ms / 1000 + 5)
        except (OSError, subprocess.TimeoutExpired):
            return z3.unknown
        ans = p.stdout.split("\n", 1)
        self.res.cvc5 = getattr(self.res, "cvc5", 0) + 1
        if ans[0] == "unsat":
            return z3.unsat
        if ans[0] != "sat" or len(ans) < 2:
            self.int_misses += 1
            return z3.unknown
        vals = dict(re.findall(r"\((\|[^|]*\||[^\s()]+) (#[bx][0-9a-f]+)\)", ans[1]))
        s.set("timeout", 5000)
        for d in self.consts_of(list(pc) + ([extra] if extra is not None else [])):
            v = vals.get(d.sexpr())
            if v is not None:
                s.add(d == z3.BitVecVal(int(v[2:], 2 if v[1] == "b" else 16), d.size()))
        if s.check() == z3.sat:
            self._model = s.model()
            return z3.sat
        return z3.unknown

    def consts_of(self, fs):
        seen, out, todo = set(), [], list(fs)
        while todo:
            e = todo.pop()
            i = e.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_app(e):
                if e.num_args() == 0:
                    if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_bv(e):
                        out.append(e)
                else:
                    todo.extend(e.children())
        return out

    def query_hard(self, pc, extra):
        """retry an unknown query with a fresh solver"""
        for tac in ("default", "smtfd", "qfufbv_ackr"):
            t0 = time.time()
            try:
                s = z3.Solver() if tac == "default" else z3.Tactic(tac).solver()
                s.set("timeout", self.o["query_ms"] * 2)
                for c in pc:
                    s.add(c)
                s.add(extra)
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            self.res.solver_s += time.time() - t0
            if r == z3.sat:
                self._model = s.model()
            if r != z3.unknown:
                return r
            if time.time() > self.deadline:
                raise Deadline()
        return z3.unknown

    def feasible(self, st, cond):
        r = self.query(st.pc, cond, self.o["feas_ms"])
        return r != z3.unsat

    def valid(self, st, cond, ms=None):
        """True / False(sat counterexample) / None(unknown)"""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        r = self.query(st.pc, z3.Not(cond), ms)
        if r == z3.unknown and not self.trial:
            r = self.query_hard(st.pc, z3.Not(cond))
        if r == z3.unsat:
            return True
        if r == z3.sat:
            return False
        return None

    def where(self, st):
        out = []
        for f in reversed(st.frames):
            b = f.fn.blocks[f.blk]
            if f.ip < len(b.ins):
                i = b.ins[f.ip]
                out.append("%s (%s:%d)" % (f.fn.dem.split("(")[0][-80:], i.file.split("/")[-1], i.line))
            if len(out) > 8:
                break
        return out

    def obligation(self, st, cond, name, kind):
        """check one obligation on this path; afterwards the path continues assuming it"""
        key = (kind, name)
        if self.trial:
            if isinstance(cond, int):
                if not cond:
                    raise PathEnd()
                return
            self.assume(st, cond)
            return
        ent = self.res.obl.setdefault(key, [0, 0, 0])
        if isinstance(cond, int):
            if cond:
                ent[0] += 1
                return
            cond = z3.BoolVal(False)
        v = self.valid(st, cond)
        if v is True:
            ent[0] += 1
            return
        if v is None:
            ent[2] += 1
            self.res.undecided.append("solver unknown: %s %s at %s" % (kind, name, self.where(st)[:3]))
            self.assume(st, cond)
            return
        ent[1] += 1
        if len(self.res.failures) < 12:
            self.record_failure(st, z3.Not(cond), name, kind)
        else:
            raise PathEnd()
        if not self.feasible(st, cond):
            raise PathEnd()
        self.assume(st, cond)

    def record_failure(self, st, negc, name, kind):
        m = self._model
        # prefer small models: replay needs allocatable sizes
        soft = [v for (k, n, v, *rest) in st.anys if k != "arr" and not isinstance(v, (int, FPV)) and not z3.is_bool(v)]
        best = m
        small = False
        if self.o.get("lia"):
            for lim in (8, 64, 1000, 60000):
                try:
                    extra = z3.And(*([negc] if negc is not None else []), *[z3.ULE(v, min(lim, (1 << v.size()) - 1)) for v in soft])
                    r, lm = self.lia.check(st.pc, extra, 3000)
                    bm = self.lia.bvmodel(st.pc, extra, lm) if r == z3.sat and lm is not None else None
                    if bm is not None:
                        best, small = bm, True
                        break
                except z3.Z3Exception:
                    pass
        for lim in () if small else (8, 40, 300, 70000):
            try:
                s = z3.Solver()
                s.set("timeout", 4000)
                for c in st.pc:
                    s.add(c)
                if negc is not None:
                    s.add(negc)
                sizes = [v for v in soft if v.size() >= 32]
                szs = [x for (k, n, v, *rest) in st.anys if k == "arr" for x in [rest[0]] if not isinstance(x, int)]
                for v in szs:
                    s.add(z3.ULE(v, lim * 8))
                if lim < 300:
                    for v in sizes:
                        s.add(z3.ULE(v, lim))
                r = s.check()
                if r == z3.sat:
                    best = s.model()
                    break
            except z3.Z3Exception:
                pass
        vals = []
        for ent in st.anys:
            k, n, v = ent[0], ent[1], ent[2]
            try:
                if k == "arr":
                    vals.append(self.model_array(best, ent))
                elif k == "fp":
                    b = best.eval(Z(v.asbits(), v.w), model_completion=True)
                    vals.append([k, n, b.as_long()])
                elif isinstance(v, int):
                    vals.append([k, n, v])
                elif z3.is_bool(v):
                    vals.append([k, n, 1 if z3.is_true(best.eval(v, model_completion=True)) else 0])
                else:
                    vals.append([k, n, best.eval(v, model_completion=True).as_long()])
            except Exception as e:
                vals.append([k, n, 0])
        self.res.failures.append(dict(kind=kind, name=name, where=self.where(st), values=vals, weak=st.weak))

    def model_array(self, m, ent):
        k, n, base, size, stride = ent[0], ent[1], ent[2], ent[3], ent[4]
        sz = size if isinstance(size, int) else m.eval(size, model_completion=True).as_long()
        data = []
        cnt = sz // stride
        for i in range(min(cnt, 4096)):
            v = m.eval(base.fn(z3.BitVecVal(i, 64)), model_completion=True).as_long()
            data.append(v)
        return ["arr", n, sz, base.w // 8, data]

    def assume(self, st, cond):
        if isinstance(cond, int):
            if not cond:
                raise PathEnd()
            return
        if z3.is_true(cond):
            return
        st.pc.append(cond)

    def fail_path(self, st, name, kind):
        self.obligation(st, 0, name, kind)
        raise PathEnd()

    # ------------------------------------------------------------ objects
    def newobj(self, st, size, name="", stride=None):
        st.nobj += 1
        oid = st.nobj
        if isinstance(size, Lin):
            pass
        elif not isinstance(size, int):
            size = lin_of(size)
        if isinstance(size, int) and stride is None:
            o = Obj(oid, size, name)
        else:
            o = Obj(oid, size, name, "arr")
            if stride is None:
                g = 0
                if isinstance(size, Lin):
                    for e, k in size.t.values():
                        g = math.gcd(g, abs(sgn(k, 64)))
                    g = math.gcd(g, abs(sgn(size.c, 64)))
                stride = g or 1
            o.stride = stride
        o.tok = st.tok
        st.mem[oid] = o
        return o

    def gid(self, name):
        r = self.gids.get(name)
        if r is None:
            r = self.nextg
            self.nextg -= 1
            self.gids[name] = r
            self.gnames[r] = name
        return r

    def obj(self, st, oid):
        o = st.mem.get(oid)
        if o is not None:
            return o
        if oid == 0:
            return None
        name = self.gnames.get(oid)
        if name is None:
            raise Unsupported("unknown object %s" % oid)
        if name in self.mod.funcs:
            o = Obj(oid, 0, name)
            o.ro = True
        elif name.startswith("$text:"):
            o = Obj(oid, len(name) - 5, name)
            o.raw = name[6:].encode() + b"\0"
            o.ro = True
        else:
            init, ty = self.mod.global_init(name)
            if init is None and name.startswith("_ZTI"):
                # type_info of the runtime library: vtable pointer (opaque) and mangled name
                o = Obj(oid, 16, name)
                o.cells[8] = (8, P(self.gid("$text:" + name[4:]), 0))
            elif init is None:
                o = Obj(oid, max(ty.size, 8), name)
                if ty.size == 0:
                    o.size = 4096
            else:
                o = Obj(oid, ty.size, name)
                o.fill = 0
                self.init_const(o, 0, init, ty)
            o.ro = bool(ir.L.LLVMIsGlobalConstant(self.mod.globs[name]))
        o.tok = st.tok
        st.mem[oid] = o
        return o

    def wobj(self, st, oid):
        o = self.obj(st, oid)
        if o.tok is not st.tok:
            o = o.copy()
            o.tok = st.tok
            st.mem[oid] = o
        return o

    def init_const(self, o, off, c, ty):
        k = c[0]
        if k == "i":
            o.cells[off] = (max(1, (c[1] + 7) // 8), c[2])
        elif k == "f":
            o.cells[off] = (c[1] // 8, FPV(c[1], c[2]))
        elif k == "null":
            o.cells[off] = (8, NULL)
        elif k in ("g", "fn", "ce"):
            v = self.constval(None, c)
            n = 8 if isinstance(v, P) else (c[4].size if k == "ce" else 8)
            o.cells[off] = (n, v)
        elif k == "bytes":
            if off == 0 and len(c[1]) == o.size:
                o.raw = c[1]
            else:
                for i, b in enumerate(c[1]):
                    o.cells[off + i] = (1, b)
        elif k == "agg":
            t = c[2]
            for i, e in enumerate(c[1]):
                eo = t.offs[i] if t.k == "struct" else i * self.elsize(t.el)
                et = t.els[i] if t.k == "struct" else t.el
                self.init_const(o, off + eo, e, et)
        elif k in ("zero", "undef"):
            pass
        else:
            raise Unsupported("global init " + k)

    def elsize(self, t):
        if t.k == "int":
            n = t.size
            p = 1
            while p < n:
                p <<= 1
            return p
        if t.k == "fp" and t.w == 80:
            return 16
        return t.size

    # ------------------------------------------------------------ constants
    def constval(self, st, c):
        k = c[0]
        if k == "i":
            return c[2]
        if k == "f":
            return FPV(c[1], c[2])
        if k == "null":
            return NULL
        if k in ("g", "fn"):
            return P(self.gid(c[1]), 0)
        if k == "undef":
            return self.undef(c[1])
        if k == "zero":
            return self.zero(c[1])
        if k == "bytes":
            return list(c[1])
        if k == "agg":
            return [self.constval(st, e) for e in c[1]]
        if k == "ce":
            op, ops, x, t = c[1], c[2], c[3], c[4]
            if op == "gep":
                b = self.constval(st, ops[0])
                off, dyn = x
                o = lin_add(b.off, off)
                for (i, s) in dyn:
                    o = lin_add(o, lin_scale(lin_of(self.constval(st, ops[i])), s))
                return P(b.obj, o)
            v = [self.constval(st, e) for e in ops]
            if op == "ptrtoint":
                r = PInt(v[0].obj, v[0].off)
                if t.w != 64:
                    raise Unsupported("ptrtoint narrow const")
                return r
            if op == "inttoptr":
                if isinstance(v[0], PInt):
                    return P(v[0].obj, v[0].off)
                return P(0, v[0])
            if op in ("bitcast", "addrspacecast"):
                return v[0]
            if op == "sub" and isinstance(v[0], PInt) and isinstance(v[1], PInt) and v[0].obj == v[1].obj:
                return lin_sub(v[0].off, v[1].off)
            if op == "add" and isinstance(v[0], PInt) and isinstance(v[1], int):
                return PInt(v[0].obj, lin_add(v[0].off, v[1]))
            if op == "trunc" and isinstance(v[0], int):
                return v[0] & mask(t.w)
            raise Unsupported("constexpr " + op)
        if k == "meta" or k == "asm":
            return None
        raise Unsupported("const " + k)

    def undef(self, t):
        if t.k == "int":
            return self.fresh("undef", t.w)
        if t.k == "ptr":
            return P(0, self_undef_ptr)
        if t.k == "fp":
            if t.w == 80:
                return FPV(80, 0)
            return FPV(t.w, self.fresh("undef", t.w))
        if t.k == "struct":
            return [self.undef(e) for e in t.els]
        if t.k in ("array", "vec"):
            return [self.undef(t.el) for _ in range(t.n)]
        raise Unsupported("undef " + t.k)

    def zero(self, t):
        if t.k == "int":
            return 0
        if t.k == "ptr":
            return NULL
        if t.k == "fp":
            return FPV(t.w, 0)
        if t.k == "struct":
            return [self.zero(e) for e in t.els]
        return [self.zero(t.el) for _ in range(t.n)]

    # ------------------------------------------------------------ pointers as integers
    def baseaddr(self, st, oid):
        if oid == 0:
            return z3.BitVecVal(0, 64)
        b = z3.BitVec("base_%d" % oid if oid > 0 else "gbase_%d" % -oid, 64)
        _base_of[b.get_id()] = (oid, b)
        if oid not in st.based:
            o = self.obj(st, oid)
            st.pc.append(z3.UGE(b, 65536))
            sz = o.size
            if isinstance(sz, int):
                st.pc.append(z3.ULE(b, z3.BitVecVal((1 << 47) - sz, 64)))
            else:
                st.pc.append(z3.ULE(b, z3.BitVecVal(1 << 46, 64)))
                st.pc.append(z3.ULE(off_bv(sz), z3.BitVecVal(1 << 46, 64)))
            st.pc.append(z3.Extract(3, 0, b) == 0)
            for other in st.based:
                ob = z3.BitVec("base_%d" % other if other > 0 else "gbase_%d" % -other, 64)
                oo = self.obj(st, other)
                if oo is not None and oo.alive and o.alive:
                    st.pc.append(z3.Or(z3.UGE(b, ob + off_bv(oo.size)), z3.UGE(ob, b + off_bv(sz))))
            st.based = st.based + (oid,)
        return b

    def lower(self, st, v):
        """pointer -> 64 bit integer expression"""
        if isinstance(v, P):
            if v.obj == 0:
                return off_val(v.off)
            return self.baseaddr(st, v.obj) + off_bv(v.off)
        return v

    def intval(self, st, v):
        if isinstance(v, PInt):
            if v.obj == 0:
                return off_val(v.off)
            return self.lower(st, v)
        return v

    def toptr(self, st, v):
        if isinstance(v, PInt):
            return P(v.obj, v.off)
        if isinstance(v, P):
            return v
        if isinstance(v, int):
            return P(0, v)
        l = lin_of(v)
        if isinstance(l, Lin):
            for i, (e, k) in l.t.items():
                b = _base_of.get(i)
                if b is not None and k == 1:
                    return P(b[0], lin_sub(l, Lin(0, {i: (e, 1)})))
            s = z3.simplify(v)
            l2 = lin_of(s)
            if isinstance(l2, int):
                return P(0, l2)
            for i, (e, k) in l2.t.items():
                b = _base_of.get(i)
                if b is not None and k == 1:
                    return P(b[0], lin_sub(l2, Lin(0, {i: (e, 1)})))
            # if-then-else over pointers
            for (e, k) in l.t.values():
                if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE and k == 1 and mentions_base(e):
                    c = e.arg(0)
                    d = st.decided.get(c.get_id())
                    if d is None:
                        raise NeedFork(c)
                    br = e.arg(1) if d[0] else e.arg(2)
                    rest = lin_sub(l, Lin(0, {e.get_id(): (e, 1)}))
                    return self.toptr(st, off_bv(rest) + br if not (isinstance(rest, int) and rest == 0) else br)
            return P(0, l)
        return P(0, l)

    # ------------------------------------------------------------ ite / equality on values
    def ite(self, st, c, a, b):
        if isinstance(c, int):
            return a if c else b
        if a is b:
            return a
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        d = st.decided.get(c.get_id())
        if d is not None:
            return a if d[0] else b
        if isinstance(a, list):
            return [self.ite(st, c, x, y) for x, y in zip(a, b)]
        if isinstance(a, P) or isinstance(b, P):
            if isinstance(a, P) and isinstance(b, P):
                if a.obj == b.obj:
                    if isinstance(a.off, int) and isinstance(b.off, int) and a.off == b.off:
                        return a
                    cls = PInt if (isinstance(a, PInt) and isinstance(b, PInt)) else P
                    return cls(a.obj, lin_of(z3.If(c, off_bv(a.off), off_bv(b.off))))
            if isinstance(a, PInt) and not isinstance(b, P):
                pass
            raise NeedFork(c)
        if isinstance(a, FPV) or isinstance(b, FPV):
            if not isinstance(a, FPV):
                a = FPV(b.w, a)
            if not isinstance(b, FPV):
                b = FPV(a.w, b)
            if a.bits is not None and b.bits is not None:
                return FPV(a.w, z3.If(c, Z(a.bits, a.w), Z(b.bits, a.w)))
            return FPV(a.w, None, z3.If(c, a.fp(), b.fp()))
        if isinstance(a, int) and isinstance(b, int) and a == b:
            return a
        ab = (not isinstance(a, int)) and z3.is_bool(a)
        bb = (not isinstance(b, int)) and z3.is_bool(b)
        if ab or bb:
            return z3.If(c, B(a), B(b))
        w = a.size() if not isinstance(a, int) else (b.size() if not isinstance(b, int) else None)
        if w is None:
            raise AssertionError("ite width")
        return z3.If(c, Z(a, w), Z(b, w))

    def iteW(self, st, c, a, b, w):
        if isinstance(a, int) and isinstance(b, int) and not isinstance(c, int):
            if a == b:
                return a
            d = st.decided.get(c.get_id())
            if d is not None:
                return a if d[0] else b
            if w == 1:
                return c if a else z3.Not(c)
            return z3.If(c, z3.BitVecVal(a, w), z3.BitVecVal(b, w))
        return self.ite(st, c, a, b)

    # ------------------------------------------------------------ functional arrays
    def aselect(self, st, node, idx, w):
        pend = []
        while True:
            if isinstance(node, St):
                d = lin_sub(idx, node.idx)
                if isinstance(d, int):
                    if d == 0:
                        res = node.val
                        break
                    node = node.prev
                    continue
                c = z3.simplify(off_bv(d) == 0)
                if z3.is_true(c):
                    res = node.val
                    break
                if z3.is_false(c):
                    node = node.prev
                    continue
                dd = st.decided.get(c.get_id())
                if dd is not None:
                    if dd[0]:
                        res = node.val
                        break
                    node = node.prev
                    continue
                pend.append((c, node.val))
                node = node.prev
            elif isinstance(node, Rng):
                d = lin_sub(node.lo, idx) if node.neg else lin_sub(idx, node.lo)
                cnt = node.cnt
                if isinstance(d, int) and isinstance(cnt, int):
                    if d < cnt:
                        res = node.fn(d)
                        break
                    node = node.prev
                    continue
                c = z3.simplify(z3.ULT(off_bv(d), off_bv(cnt)))
                if z3.is_true(c):
                    res = node.fn(d)
                    break
                if z3.is_false(c):
                    node = node.prev
                    continue
                dd = st.decided.get(c.get_id())
                if dd is not None:
                    if dd[0]:
                        res = node.fn(d)
                        break
                    node = node.prev
                    continue
                pend.append((c, node.fn(d)))
                node = node.prev
            elif isinstance(node, Const):
                res = node.v
                break
            else:
                res = node.fn(off_bv(idx))
                break
        for c, v in reversed(pend):
            res = self.iteW(st, c, v, res, w)
        return res

    def locate(self, o, off):
        s = o.stride
        if isinstance(off, int):
            so = sgn(off, 64)
            return so // s, so % s
        if s == 1:
            return off, 0
        t = {}
        for i, (e, k) in off.t.items():
            sk = sgn(k, 64)
            if sk % s:
                raise Unsupported("offset %s not a multiple of stride %d in %s" % (off, s, o.name))
            t[i] = (e, (sk // s) & M64)
        c = sgn(off.c, 64)
        return Lin(c // s, t), c % s

    def count_of(self, o):
        """number of elements as int or Lin"""
        sz, s = o.size, o.stride
        if isinstance(sz, int):
            return sz // s
        if s == 1:
            return sz
        if sgn(sz.c, 64) % s == 0 and all(sgn(k, 64) % s == 0 for e, k in sz.t.values()):
            return Lin(sgn(sz.c, 64) // s, {i: (e, (sgn(k, 64) // s) & M64) for i, (e, k) in sz.t.items()})
        return lin_of(z3.UDiv(sz.bv(), z3.BitVecVal(s, 64)))

    def check_bounds(self, st, p, n, what):
        if p.obj == 0:
            if isinstance(p.off, int) and p.off < 65536:
                self.fail_path(st, self.site(st, what + " through null pointer"), "memory")
            raise Unsupported("%s through raw address %s at %s" % (what, p.off, self.where(st)[:3]))
        o = self.obj(st, p.obj)
        if not o.alive:
            self.fail_path(st, self.site(st, what + " after free/scope end"), "memory")
        if isinstance(p.off, int) and isinstance(o.size, int):
            if p.off + n <= o.size:
                return o
            self.fail_path(st, self.site(st, what + " out of bounds"), "memory")
        if o.kind == "arr":
            idx, fo = self.locate(o, p.off)
            cnt = self.count_of(o)
            extra = (fo + n + o.stride - 1) // o.stride - 1    # whole elements beyond idx
            cond = z3.ULT(off_bv(idx), off_bv(cnt))
            if extra:
                cond = z3.And(cond, z3.ULT(off_bv(lin_add(idx, extra)), off_bv(cnt)), z3.ULE(off_bv(idx), off_bv(lin_add(idx, extra))))
            self.obligation(st, cond, self.site(st, what + " in bounds"), "memory")
            return o
        cond = z3.And(z3.ULE(off_bv(p.off), z3.BitVecVal(max(o.size - n, 0), 64)), z3.BoolVal(o.size >= n))
        self.obligation(st, cond, self.site(st, what + " in bounds"), "memory")
        return o

    def site(self, st, what):
        f = st.frames[-1]
        i = f.fn.blocks[f.blk].ins[f.ip]
        return "%s in %s" % (what, f.fn.dem.split("(")[0][-90:])

    def conv(self, st, v, ty):
        """stored value -> value of llvm type ty (same byte size)"""
        k = ty.k
        if k == "int":
            if isinstance(v, PInt):
                return v
            if isinstance(v, P):
                return PInt(v.obj, v.off) if v.obj else off_val(v.off)
            if isinstance(v, FPV):
                return v.asbits()
            if ty.w == 1:
                if isinstance(v, int):
                    return v & 1
                return z3.Extract(0, 0, v) == 1
            if isinstance(v, int):
                return v & mask(ty.w)
            if v.size() > ty.w:
                return z3.Extract(ty.w - 1, 0, v)
            return v
        if k == "ptr":
            return self.toptr(st, v)
        if k == "fp":
            if isinstance(v, FPV):
                return v
            if isinstance(v, P):
                raise Unsupported("pointer read as float")
            return FPV(ty.w, v)
        raise Unsupported("conv " + k)

    def tostore(self, v, ty):
        if ty.k == "int" and ty.w % 8:
            w = ((ty.w + 7) // 8) * 8
            if isinstance(v, int):
                return v
            if ty.w == 1:
                return z3.If(B(v), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
            return z3.ZeroExt(w - ty.w, v)
        return v

    def rawbits(self, st, v, nbytes):
        """value -> int or BV of 8*nbytes"""
        if isinstance(v, P):
            return self.lower(st, v)
        if isinstance(v, FPV):
            return v.asbits()
        return v

    def cell_load(self, st, o, off, n):
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        # overlapping cells?
        if o.raw is not None and not o.cells:
            return int.from_bytes(o.raw[off:off + n], "little")
        over = self.overlaps(o, off, n)
        if not over:
            if o.raw is not None:
                return int.from_bytes(o.raw[off:off + n], "little")
            if o.fill is not None:
                return 0 if n != 8 else 0
            v = self.fresh("uninit_%s" % (o.name or "obj"), n * 8)
            if o.tok is not st.tok:
                o = self.wobj(st, o.id)
            o.cells[off] = (n, v)
            return v
        parts = []
        i = 0
        while i < n:
            b, consumed = self.byte_run(st, o, off + i, n - i)
            parts.append((b, consumed))
            i += consumed
        if all(isinstance(b, int) for b, _ in parts):
            r = 0
            sh = 0
            for b, k in parts:
                r |= b << sh
                sh += 8 * k
            return r
        zs = [Z(b, 8 * k) for b, k in parts]
        if len(zs) == 1:
            return zs[0]
        return z3.simplify(z3.Concat(*reversed(zs)))

    def overlaps(self, o, off, n):
        cells = o.cells
        out = []
        if len(cells) < n + 32:
            for k, (m, v) in cells.items():
                if k < off + n and k + m > off:
                    out.append(k)
            return out
        for k in range(off - 31, off + n):
            c = cells.get(k)
            if c is not None and k + c[0] > off:
                out.append(k)
        return out

    def byte_run(self, st, o, off, n):
        """(value, nbytes) for a maximal run starting at off inside one cell"""
        for k in self.overlaps(o, off, 1):
            m, v = o.cells[k]
            lo = off - k
            cnt = min(m - lo, n)
            if lo == 0 and cnt == m:
                return self.rawbits(st, v, m), m
            v = self.rawbits(st, v, m)
            if isinstance(v, int):
                return (v >> (8 * lo)) & mask(8 * cnt), cnt
            return z3.Extract(8 * (lo + cnt) - 1, 8 * lo, v), cnt
        if o.raw is not None:
            return o.raw[off], 1
        if o.fill is not None:
            return 0, 1
        v = self.fresh("uninit_%s" % (o.name or "obj"), 8)
        o = self.wobj(st, o.id)
        o.cells[off] = (1, v)
        return v, 1

    def cell_store(self, st, o, off, n, v):
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            o.cells[off] = (n, v)
            return
        for k in self.overlaps(o, off, n):
            m, ov = o.cells.pop(k)
            if k < off:       # keep head
                r = self.rawbits(st, ov, m)
                h = off - k
                o.cells[k] = (h, (r & mask(8 * h)) if isinstance(r, int) else z3.Extract(8 * h - 1, 0, r))
            if k + m > off + n:   # keep tail
                r = self.rawbits(st, ov, m)
                t = off + n - k
                o.cells[off + n] = (k + m - off - n, (r >> (8 * t)) if isinstance(r, int) else z3.Extract(8 * m - 1, 8 * t, r))
        o.cells[off] = (n, v)

    def field_for(self, st, o, fo, n):
        f = o.fields.get(fo)
        if f is not None and f[0] == n:
            return f
        over = [k for k, (m, nd) in o.fields.items() if k < fo + n and k + m > fo]
        if over:
            return None
        self.fresh_n += 1
        if o.fill is not None:
            nd = Const(0)
        else:
            nd = Base("mem_%s_%d_%d" % (o.name or "obj", fo, self.fresh_n), 8 * n)
        o = self.wobj(st, o.id)
        o.fields[fo] = (n, nd)
        return o.fields[fo]

    def arr_load(self, st, o, off, n):
        idx, fo = self.locate(o, off)
        if fo + n <= o.stride:
            f = self.field_for(st, o, fo, n)
            if f is not None:
                return self.aselect(st, f[1], idx, 8 * n)
            over = sorted(k for k, (m, nd) in o.fields.items() if k < fo + n and k + m > fo)
            if len(over) == 1 and over[0] <= fo and over[0] + o.fields[over[0]][0] >= fo + n:
                k = over[0]
                m, nd = o.fields[k]
                v = self.rawbits(st, self.aselect(st, nd, idx, 8 * m), m)
                lo = fo - k
                if isinstance(v, int):
                    return (v >> (8 * lo)) & mask(8 * n)
                return z3.Extract(8 * (lo + n) - 1, 8 * lo, v)
            parts = []
            pos = fo
            while pos < fo + n:
                if pos in o.fields and pos + o.fields[pos][0] <= fo + n:
                    m = o.fields[pos][0]
                else:
                    nxt = min([k for k in over if k > pos] + [fo + n])
                    m = nxt - pos
                    if self.field_for(st, o, pos, m) is None:
                        raise Unsupported("field overlap")
                    o = self.obj(st, o.id)
                parts.append((self.rawbits(st, self.aselect(st, o.fields[pos][1], idx, 8 * m), m), m))
                pos += m
            if all(isinstance(b, int) for b, _ in parts):
                r, sh = 0, 0
                for b, k in parts:
                    r |= b << sh
                    sh += 8 * k
                return r
            return z3.Concat(*reversed([Z(b, 8 * k) for b, k in parts]))
        # spans elements
        parts = []
        left = n
        while left:
            m = min(o.stride - fo, left)
            v = self.rawbits(st, self.arr_load(st, o, lin_add(lin_scale(idx, o.stride), fo), m), m)
            o = self.obj(st, o.id)
            parts.append((v, m))
            left -= m
            fo = 0
            idx = lin_add(idx, 1)
        if all(isinstance(b, int) for b, _ in parts):
            r, sh = 0, 0
            for b, k in parts:
                r |= b << sh
                sh += 8 * k
            return r
        return z3.Concat(*reversed([Z(b, 8 * k) for b, k in parts]))

    def arr_store(self, st, o, off, n, v):
        idx, fo = self.locate(o, off)
        if fo + n <= o.stride:
            f = self.field_for(st, o, fo, n)
            if f is not None:
                o = self.wobj(st, o.id)
                o.fields[fo] = (n, St(f[1], idx, v))
                return
            over = sorted(k for k, (m, nd) in o.fields.items() if k < fo + n and k + m > fo)
            if len(over) == 1 and over[0] <= fo and over[0] + o.fields[over[0]][0] >= fo + n:
                k = over[0]
                m, nd = o.fields[k]
                old = Z(self.rawbits(st, self.aselect(st, nd, idx, 8 * m), m), 8 * m)
                lo = fo - k
                parts = []
                if lo + n < m:
                    parts.append(z3.Extract(8 * m - 1, 8 * (lo + n), old))
                parts.append(Z(self.rawbits(st, v, n), 8 * n))
                if lo:
                    parts.append(z3.Extract(8 * lo - 1, 0, old))
                o = self.wobj(st, o.id)
                o.fields[k] = (m, St(nd, idx, z3.Concat(*parts)))
                return
            r = self.rawbits(st, v, n)
            pos = fo
            while pos < fo + n:
                if pos in o.fields and pos + o.fields[pos][0] <= fo + n:
                    m = o.fields[pos][0]
                else:
                    nxt = min([k for k in over if k > pos] + [fo + n])
                    m = nxt - pos
                    if self.field_for(st, o, pos, m) is None:
                        raise Unsupported("field overlap")
                o = self.wobj(st, o.id)
                lo = pos - fo
                piece = (r >> (8 * lo)) & mask(8 * m) if isinstance(r, int) else z3.Extract(8 * (lo + m) - 1, 8 * lo, r)
                o.fields[pos] = (m, St(o.fields[pos][1], idx, piece))
                pos += m
            return
        r = self.rawbits(st, v, n)
        left, lo = n, 0
        while left:
            m = min(o.stride - fo, left)
            piece = (r >> (8 * lo)) & mask(8 * m) if isinstance(r, int) else z3.Extract(8 * (lo + m) - 1, 8 * lo, r)
            self.arr_store(st, o, lin_add(lin_scale(idx, o.stride), fo), m, piece)
            o = self.obj(st, o.id)
            left -= m
            lo += m
            fo = 0
            idx = lin_add(idx, 1)

    def concretize(self, st, bv, limit=None):
        """return a concrete int for bv, forking the path when several are possible"""
        if isinstance(bv, int):
            return bv
        s = z3.simplify(bv)
        if z3.is_bv_value(s):
            return s.as_long()
        key = ("conc", bv.get_id())
        d = st.decided.get(key)
        if d is not None and d[0] is not None:
            return d[0]
        # take first feasible value
        r = self.query(st.pc, None)
        if r != z3.sat:
            if r == z3.unsat:
                raise PathEnd()
            raise Unsupported("cannot concretize")
        v = self._model.eval(bv, model_completion=True).as_long()
        n = st.ghost.get(("enum", bv.get_id()), 0)
        if n > (limit or self.o["enum_limit"]):
            raise Unsupported("too many values for a symbolic offset/size at %s" % self.where(st)[:3])
        cond = bv == z3.BitVecVal(v, bv.size())
        other = st.copy()
        other.ghost[("enum", bv.get_id())] = n + 1
        other.pc.append(z3.Not(cond))
        if self.query(other.pc, None, self.o["feas_ms"]) != z3.unsat:
            self.worklist.append(other)
            self.note_path()
        st.pc.append(cond)
        st.decided[key] = (v, bv)
        return v

    def to_arr(self, st, o, stride):
        o = self.wobj(st, o.id)
        o.kind = "arr"
        o.stride = stride
        cells = o.cells
        o.cells = {}
        o.fields = {}
        if o.raw is not None:
            raise Unsupported("raw to arr")
        if o.fill is not None and isinstance(o.size, int):
            self.memset(st, P(o.id, 0), o.fill, o.size)
            o = self.obj(st, o.id)
        for off in sorted(cells):
            n, v = cells[off]
            self.arr_store(st, o, off, n, v)
            o = self.obj(st, o.id)
        return o

    def load(self, st, p, ty, what="load"):
        if ty.k in ("struct", "array", "vec"):
            els = ty.els if ty.k == "struct" else [ty.el] * ty.n
            es = None if ty.k == "struct" else (ty.el.size if ty.k == "vec" else self.elsize(ty.el))
            return [self.load(st, P(p.obj, lin_add(p.off, ty.offs[i] if ty.k == "struct" else i * es)), t, what)
                    for i, t in enumerate(els)]
        n = ty.size
        o = self.check_bounds(st, p, n, what)
        return self.conv(st, self.load_raw(st, o, p.off, n), ty)

    def load_raw(self, st, o, off, n):
        if o.kind == "cells":
            if not isinstance(off, int):
                return self.sym_cell_load(st, o, off, n)
            return self.cell_load(st, o, off, n)
        return self.arr_load(st, o, off, n)

    def sym_cell_load(self, st, o, off, n):
        coefs = [abs(sgn(k, 64)) for e, k in off.t.values()]
        g = 0
        for k in coefs:
            g = math.gcd(g, k)
        base = sgn(off.c, 64) % g if g else 0
        if g >= n and o.raw is None and o.fill is None and not o.ro and o.size // g > 16 and not any(isinstance(c[1], P) for c in o.cells.values()):
            return self.arr_load(st, self.to_arr(st, o, g), off, n)
        slots = range(base, o.size - n + 1, g)
        if g >= n and len(slots) <= 300:
            vals = []
            ok = True
            for k in slots:
                if o.raw is not None and not o.cells:
                    vals.append((k, int.from_bytes(o.raw[k:k + n], "little")))
                    continue
                c = o.cells.get(k)
                if c is None:
                    if self.overlaps(o, k, n) or o.fill is None:
                        vals.append((k, self.cell_load(st, self.obj(st, o.id), k, n)))
                    else:
                        vals.append((k, 0))
                elif c[0] == n and not isinstance(c[1], (P,)):
                    vals.append((k, c[1]))
                else:
                    ok = False
                    break
            if ok and vals:
                ob = off_bv(off)
                res = vals[-1][1]
                for k, v in reversed(vals[:-1]):
                    res = self.iteW(st, ob == z3.BitVecVal(k, 64), v, res, 8 * n)
                return res
        v = self.concretize(st, off_bv(off))
        return self.cell_load(st, o, v, n)

    def store(self, st, p, v, ty, what="store"):
        if ty.k in ("struct", "array", "vec"):
            els = ty.els if ty.k == "struct" else [ty.el] * ty.n
            es = None if ty.k == "struct" else (ty.el.size if ty.k == "vec" else self.elsize(ty.el))
            for i, t in enumerate(els):
                self.store(st, P(p.obj, lin_add(p.off, ty.offs[i] if ty.k == "struct" else i * es)), v[i], t, what)
            return
        n = ty.size
        o = self.check_bounds(st, p, n, what)
        if o.ro:
            self.fail_path(st, self.site(st, "store to constant " + o.name), "memory")
        self.store_raw(st, o, p.off, n, self.tostore(v, ty))

    def store_raw(self, st, o, off, n, v):
        if o.kind == "cells":
            if not isinstance(off, int):
                k = 0
                for e, c in off.t.values():
                    k = math.gcd(k, abs(sgn(c, 64)))
                if k and o.size // k > 16 and o.raw is None and k >= n and not (k < 8 and any(isinstance(c[1], P) for c in o.cells.values())):
                    o = self.to_arr(st, o, k)
                    return self.arr_store(st, o, off, n, v)
                off = self.concretize(st, off_bv(off))
            o = self.wobj(st, o.id)
            self.cell_store(st, o, off, n, v)
        else:
            self.arr_store(st, o, off, n, v)

    def cells_in(self, st, o, off, n):
        """list of (reloff, size, value) covering [off,off+n) of a cells object; gaps omitted if uninitialised"""
        out = []
        if o.raw is not None:
            for i in range(n):
                ov = self.overlaps(o, off + i, 1)
                out.append((i, 1, self.cell_load(st, o, off + i, 1)))
            return out
        keys = sorted(k for k, (m, v) in o.cells.items() if k < off + n and k + m > off)
        pos = off
        for k in keys:
            m, v = o.cells[k]
            if k > pos and o.fill is not None:
                for q in range(pos, k):
                    out.append((q - off, 1, 0))
            if k >= off and k + m <= off + n:
                out.append((k - off, m, v))
                pos = k + m
            else:
                a, b = max(k, off), min(k + m, off + n)
                out.append((a - off, b - a, self.cell_load(st, o, a, b - a)))
                pos = b
        if pos < off + n and o.fill is not None:
            for q in range(pos, off + n):
                out.append((q - off, 1, 0))
        return out

    def memcpy(self, st, d, s, n, what="memcpy"):
        if isinstance(n, PInt):
            n = self.intval(st, n)
        if not isinstance(n, int):
            sn = z3.simplify(n)
            if z3.is_bv_value(sn):
                n = sn.as_long()
        if isinstance(n, int) and n == 0:
            return
        if isinstance(n, int):
            so = self.check_bounds(st, s, n, what + " source")
            do = self.check_bounds(st, d, n, what + " destination")
            if do.ro:
                self.fail_path(st, self.site(st, "write to constant"), "memory")
            if so.kind == "cells" and not isinstance(s.off, int):
                s = P(s.obj, self.concretize(st, off_bv(s.off)))
            if do.kind == "cells" and not isinstance(d.off, int):
                d = P(d.obj, self.concretize(st, off_bv(d.off)))
            so = self.obj(st, s.obj)
            if so.kind == "cells":
                items = self.cells_in(st, so, s.off, n)
                do = self.wobj(st, d.obj)
                if do.kind == "cells":
                    # clear destination range first (uninitialised source bytes stay uninitialised)
                    for k in list(self.overlaps(do, d.off, n)):
                        m, v = do.cells[k]
                        if k >= d.off and k + m <= d.off + n:
                            del do.cells[k]
                        else:
                            a, b = max(k, d.off), min(k + m, d.off + n)
                            self.cell_store(st, do, a, b - a, self.fresh("uninit", 8 * (b - a)))
                            del do.cells[a]
                    if do.raw is not None and len(items) < n:
                        covered = sum(x[1] for x in items)
                        if covered < n:
                            raise Unsupported("partial uninit copy into raw object")
                    for (r, m, v) in items:
                        self.cell_store(st, do, d.off + r, m, v)
                else:
                    for (r, m, v) in items:
                        self.arr_store(st, self.obj(st, d.obj), lin_add(d.off, r), m, v)
                return
            # arr source
            step = so.stride
            if n // step > 200:
                return self.memcpy_sym(st, d, s, z3.BitVecVal(n, 64), what)
            idx, fo = self.locate(so, s.off)
            vals = []
            pos = 0
            while pos < n:
                fo_now = (fo + pos) % step
                room = min(step - fo_now, n - pos)
                fld = [k for k in so.fields if fo_now <= k < fo_now + room]
                if fo_now in so.fields and so.fields[fo_now][0] <= room:
                    m = so.fields[fo_now][0]
                elif fld:
                    m = min(k for k in fld if k > fo_now) - fo_now if any(k > fo_now for k in fld) else room
                else:
                    m = room if room in (1, 2, 4, 8, 16) else (8 if room >= 8 else 1)
                vals.append((pos, m, self.arr_load(st, self.obj(st, s.obj), lin_add(s.off, pos), m)))
                so = self.obj(st, s.obj)
                pos += m
            for (r, m, v) in vals:
                self.store_raw(st, self.obj(st, d.obj), lin_add(d.off, r), m, v)
            return
        self.memcpy_sym(st, d, s, n, what)

    def memcpy_sym(self, st, d, s, n, what):
        nl = lin_of(n)
        if isinstance(nl, Lin):
            if self.valid(st, n == 0, 2000) is True:
                return
        if d.obj == 0 or s.obj == 0:
            # a null pointer is fine when n == 0
            self.obligation(st, n == 0, self.site(st, what + " null with zero length"), "memory")
            return
        so, do = self.obj(st, s.obj), self.obj(st, d.obj)
        if so.kind == "cells" or do.kind == "cells":
            # a large plain byte buffer takes part as an array of bytes
            big = [o for o in (so, do) if o.kind == "cells" and isinstance(o.size, int) and o.size >= 200 and o.raw is None]
            small = [o for o in (so, do) if o.kind == "cells" and o not in big]
            if big and not small and all(o.kind == "cells" or o.stride == 1 for o in (so, do)):
                for o in big:
                    self.to_arr(st, self.obj(st, o.id), 1)
                return self.memcpy_sym(st, d, s, n, what)
            nn = self.concretize(st, n)
            if nn > 200 and not (so.kind == "cells" and do.kind == "cells"):
                raise Unsupported("copy of %d bytes between an array and a small object" % nn)
            return self.memcpy(st, d, s, nn, what)
        if not so.alive or not do.alive:
            self.fail_path(st, self.site(st, what + " after free"), "memory")
        if so.stride != do.stride:
            raise Unsupported("memcpy between strides %d %d" % (so.stride, do.stride))
        stv = so.stride
        if stv == 1:
            cnt = nl
        else:
            if isinstance(nl, int):
                if nl % stv:
                    raise Unsupported("memcpy partial element")
                cnt = nl // stv
            else:
                if sgn(nl.c, 64) % stv or any(sgn(k, 64) % stv for e, k in nl.t.values()):
                    raise Unsupported("memcpy length not multiple of stride: %s" % nl)
                cnt = Lin(sgn(nl.c, 64) // stv, {i: (e, (sgn(k, 64) // stv) & M64) for i, (e, k) in nl.t.items()})
        si, sf = self.locate(so, s.off)
        di, df = self.locate(do, d.off)
        if sf or df:
            raise Unsupported("memcpy unaligned element")
        for (oo, ii, nm) in ((so, si, "source"), (do, di, "destination")):
            tot = self.count_of(oo)
            c, i, t = off_bv(cnt), off_bv(ii), off_bv(tot)
            self.obligation(st, z3.Or(c == 0, z3.And(z3.ULE(i, t), z3.ULE(c, t - i))), self.site(st, "%s %s in bounds" % (what, nm)), "memory")
        fields = dict(so.fields)
        if not fields:
            self.field_for(st, so, 0, stv if stv in (1, 2, 4, 8, 16) else 1)
            fields = dict(self.obj(st, s.obj).fields)
        for fo, (m, nd) in list(self.obj(st, d.obj).fields.items()):
            if fo not in fields:
                self.field_for(st, self.obj(st, s.obj), fo, m)
        fields = dict(self.obj(st, s.obj).fields)
        eng = self
        for fo, (m, nd) in fields.items():
            f = self.field_for(st, self.obj(st, d.obj), fo, m)
            if f is None:
                raise Unsupported("memcpy field mismatch")
            do = self.wobj(st, d.obj)
            do.fields[fo] = (m, Rng(f[1], di, cnt, (lambda j, nd=nd, m=m: eng.aselect(st, nd, lin_add(si, j), 8 * m))))

    def memset(self, st, d, v, n):
        if not isinstance(n, int):
            sn = z3.simplify(n)
            if z3.is_bv_value(sn):
                n = sn.as_long()
        if isinstance(n, int):
            if n == 0:
                return
            o = self.check_bounds(st, d, n, "memset")
            if o.kind == "cells":
                off = d.off if isinstance(d.off, int) else self.concretize(st, off_bv(d.off))
                o = self.wobj(st, d.obj)
                if n > 64 and isinstance(v, int) and v == 0 and off == 0 and n == o.size:
                    o.cells = {}
                    o.fill = 0
                    o.raw = None
                    return
                if n > 200 and o.raw is None and isinstance(o.size, int) and o.heap and not any(isinstance(c[1], P) for c in o.cells.values()):
                    self.to_arr(st, o, 1)
                    return self.memset(st, P(d.obj, off), v, n)
                i = 0
                while i < n:
                    m = 8 if (off + i) % 8 == 0 and n - i >= 8 else 1
                    if isinstance(v, int):
                        vv = int.from_bytes(bytes([v]) * m, "little")
                    else:
                        vv = v if m == 1 else z3.Concat(*([v] * m))
                    self.cell_store(st, o, off + i, m, vv)
                    i += m
                return
        nl = lin_of(n)
        o = self.obj(st, d.obj)
        if o.kind == "cells":
            return self.memset(st, d, v, self.concretize(st, n))
        stv = o.stride
        if isinstance(nl, int):
            if nl % stv:
                raise Unsupported("memset partial")
            cnt = nl // stv
        elif stv == 1:
            cnt = nl
        else:
            if sgn(nl.c, 64) % stv or any(sgn(k, 64) % stv for e, k in nl.t.values()):
                raise Unsupported("memset length")
            cnt = Lin(sgn(nl.c, 64) // stv, {i: (e, (sgn(k, 64) // stv) & M64) for i, (e, k) in nl.t.items()})
        di, df = self.locate(o, d.off)
        if df:
            raise Unsupported("memset unaligned")
        tot = self.count_of(o)
        c, i, t = off_bv(cnt), off_bv(di), off_bv(tot)
        self.obligation(st, z3.Or(c == 0, z3.And(z3.ULE(i, t), z3.ULE(c, t - i))), self.site(st, "memset in bounds"), "memory")
        if not o.fields:
            self.field_for(st, o, 0, stv)
        o = self.wobj(st, d.obj)
        for fo, (m, nd) in list(o.fields.items()):
            vv = int.from_bytes(bytes([v]) * m, "little") if isinstance(v, int) else (v if m == 1 else z3.Concat(*([v] * m)))
            o.fields[fo] = (m, Rng(nd, di, cnt, lambda j, vv=vv: vv))

    # ------------------------------------------------------------ execution
    def val(self, st, f, o):
        if o[0] == "l":
            return f.loc[o[1]]
        return self.constval(st, o)

    def note_path(self):
        self.res.paths += 1
        if self.res.paths > self.o["max_paths"]:
            raise Deadline("path limit")

    def fork(self, st, cond):
        """split st on cond. returns True/False for the branch st takes; the other goes to the worklist"""
        if isinstance(cond, int):
            return bool(cond)
        d = st.decided.get(cond.get_id())
        if d is not None:
            return d[0]
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.branchlog is not None:
            self.branchlog.append(cond)
        ft = self.feasible(st, c)
        ff = self.feasible(st, z3.Not(c)) if ft else True
        if ft and ff:
            other = st.copy()
            nc = z3.Not(c)
            other.pc.append(nc)
            other.decided[cond.get_id()] = (False, cond)
            self.pending_other = other
            st.pc.append(c)
            st.decided[cond.get_id()] = (True, cond)
            return None
        v = ft
        st.decided[cond.get_id()] = (v, cond)
        return v

    def goto(self, st, f, target):
        src = f.blk
        blk = f.fn.blocks[target]
        if blk.phis:
            vals = [self.val(st, f, ph.x[src]) for ph in blk.phis]
            for ph, v in zip(blk.phis, vals):
                f.loc[ph.dst] = v
        f.prev = src
        f.blk = target
        f.ip = 0
        return self.loop_hook(st, f, src, target)

    # loops ------------------------------------------------------------------
    def loops_of(self, fn):
        if fn.loops is not None:
            return fn.loops
        n = len(fn.blocks)
        succ = [[] for _ in range(n)]
        for b in fn.blocks:
            t = b.ins[-1]
            if t.op == "br":
                succ[b.idx] = list(t.x)
            elif t.op == "switch":
                succ[b.idx] = [t.x[0]] + [c[1] for c in t.x[1]]
            elif t.op == "invoke":
                succ[b.idx] = [t.x[1], t.x[2]]
        pred = [[] for _ in range(n)]
        for i, ss in enumerate(succ):
            for s in ss:
                pred[s].append(i)
        # dominators (iterative bitsets)
        full = (1 << n) - 1
        dom = [full] * n
        dom[0] = 1
        changed = True
        while changed:
            changed = False
            for i in range(1, n):
                d = full
                for p in pred[i]:
                    d &= dom[p]
                if not pred[i]:
                    d = 0
                d |= 1 << i
                if d != dom[i]:
                    dom[i] = d
                    changed = True
        loops = {}
        for i, ss in enumerate(succ):
            for h in ss:
                if dom[i] >> h & 1:
                    body = loops.setdefault(h, {h})
                    stack = [i]
                    while stack:
                        x = stack.pop()
                        if x in body:
                            continue
                        body.add(x)
                        stack.extend(pred[x])
        fn.loops = loops
        return loops

    def loop_hook(self, st, f, src, target):
        loops = self.loops_of(f.fn)
        if f.loops:
            for h in list(f.loops):
                if target not in loops[h]:
                    if self.trial and f.loops[h][2] is self.trial_cut:
                        raise PathEnd()
                    del f.loops[h]
        if target not in loops:
            return
        li = f.loops.get(target)
        if li is None or src not in loops[target]:
            f.loops[target] = (1, len(st.decided), None)
            return
        cnt, dec, cut = li
        if cut is not None:
            cut.back_edge(self, st, f)
            raise PathEnd()
        cnt += 1
        f.loops[target] = (cnt, len(st.decided), None)
        symbolic = len(st.decided) > dec
        if self.o["accel"] and cnt in (2, 4) and symbolic and not self.noaccel(f.fn):
            import loopcut
            cut = loopcut.try_cut(self, st, f, target, loops[target], cnt)
            if cut is not None:
                f.loops[target] = (cnt, len(st.decided), cut)
                return
        lim = self.unroll_limit(f.fn)
        if symbolic or cnt > 4096:
            sc = st.ghost.get(("sym", id(f.fn), target, len(st.frames)), 0) + 1
            st.ghost[("sym", id(f.fn), target, len(st.frames))] = sc
            if sc > lim or cnt > 20000:
                b = self.bounds.get("unroll")
                if b:
                    self.res.bounded.append("loop in %s unrolled %d times" % (f.fn.dem.split("(")[0][-80:], lim))
                    raise PathEnd()
                raise Unsupported("loop in %s not closed after %d iterations" % (f.fn.dem.split("(")[0][-90:], lim))

    def noaccel(self, fn):
        for r in self.fixed_unroll:
            if re.search(r, fn.dem):
                return True
        return False

    def unroll_limit(self, fn):
        return self.o["unroll"]

    # calls ------------------------------------------------------------------
    def call_fn(self, st, fn, args, stub=False):
        self.mod.translate(fn)
        nf = Frame(fn)
        for i, a in enumerate(args[:fn.nparams]):
            nf.loc[i] = a
        nf.isstub = stub
        st.frames.append(nf)
        if len(st.frames) > 400:
            raise Unsupported("call depth")
        d = self.res.functions
        d[fn.dem] = d.get(fn.dem, 0) + 1

    def ret(self, st, v):
        f = st.frames.pop()
        if self.trial and len(st.frames) < self.trial_depth:
            raise PathEnd()
        for oid in f.allocas:
            o = self.wobj(st, oid)
            o.alive = False
        if not st.frames:
            return
        c = st.frames[-1]
        ins = c.fn.blocks[c.blk].ins[c.ip]
        if c.hooked == "call":
            c.hooked = True     # returned from environment hook: re-execute instruction
            return
        if ins.op in ("call", "invoke"):
            c.loc[ins.dst] = v
            if ins.op == "invoke":
                self.goto(st, c, ins.x[1])
            else:
                c.ip += 1

    def finish_call(self, st, v):
        """complete the current call/invoke instruction with value v"""
        c = st.frames[-1]
        ins = c.fn.blocks[c.blk].ins[c.ip]
        c.loc[ins.dst] = v
        if ins.op == "invoke":
            self.goto(st, c, ins.x[1])
        else:
            c.ip += 1

    # exceptions
    def tid(self, name):
        if name not in self.tids:
            self.tids[name] = len(self.tids) + 1
        return self.tids[name]

    def bases(self, ti):
        """direct bases of typeinfo global name: [(name, offset)]"""
        import externals
        if ti in externals.STD_BASES:
            return [(b, 0) for b in externals.STD_BASES[ti]]
        if ti not in self.mod.globs:
            return []
        init, ty = self.mod.global_init(ti)
        if init is None or init[0] != "agg":
            if init is None and not ti.startswith("_ZTIS") and ti not in ("_ZTIi", "_ZTIc", "_ZTIPKc"):
                self.opaque_ti.add(ti)
            return []
        els = init[1]
        def gname(c):
            return c[1] if c[0] == "g" else None
        if len(els) == 3:
            return [(gname(els[2]), 0)]
        if len(els) > 4:
            out = []
            for i in range(4, len(els) - 1, 2):
                out.append((gname(els[i]), sgn(els[i + 1][2], 64) >> 8))
            return out
        return []

    def subtype(self, ti, target):
        """offset of target base inside ti, or None"""
        if ti == target:
            return 0
        for b, o in self.bases(ti):
            if b is None:
                continue
            r = self.subtype(b, target)
            if r is not None:
                return r + o
        return None

    def throw(self, st, exn, ti):
        """unwind from the current (top) frame's current instruction"""
        # current frame: its current instruction may be an invoke (external call) or a plain call
        first = True
        while True:
            f = st.frames[-1]
            ins = f.fn.blocks[f.blk].ins[f.ip]
            if ins.op == "invoke" :
                ud = ins.x[2]
                lp = f.fn.blocks[ud].ins[0]
                cleanup, clauses = lp.x
                sel = None
                for kind, c in clauses:
                    if kind == "catch":
                        if c[0] == "null":
                            sel = (self.tid("..."), 0)
                            break
                        r = self.subtype(ti, c[1])
                        if r is not None:
                            sel = (self.tid(c[1]), r)
                            break
                    else:
                        if c[0] == "zero" or (c[0] == "agg" and not c[1]):
                            sel = (-1 & mask(32), 0)
                            break
                if sel is None and cleanup:
                    sel = (0, 0)
                if sel is not None:
                    st.exc = (exn, ti, sel)
                    self.goto(st, f, ud)
                    return
            # pop
            st.frames.pop()
            if self.trial and len(st.frames) < self.trial_depth:
                raise PathEnd()
            for oid in f.allocas:
                self.wobj(st, oid).alive = False
            if not st.frames:
                self.cur_where = None
                self.uncaught(st, ti)
                raise PathEnd()

    def uncaught(self, st, ti):
        if self.trial:
            raise PathEnd()
        key = ("exception", "no uncaught exception")
        ent = self.res.obl.setdefault(key, [0, 0, 0])
        r = self.query(st.pc)
        if r == z3.unsat:
            return
        if r == z3.unknown:
            ent[2] += 1
            self.res.undecided.append("uncaught exception reachability unknown")
            return
        ent[1] += 1
        st.frames = []
        self.record_failure(st, None, "uncaught exception " + ti, "exception")

    # main loop ---------------------------------------------------------------
    def run(self, fname):
        self.res = ProofResult(fname)
        self.opaque_ti = set()
        t0 = time.time()
        self.deadline = t0 + self.o["deadline"]
        fn = self.mod.funcs[fname]
        st = State()
        self.branchlog = None
        self.pending_other = None
        self.worklist = [st]
        self.res.paths = 1
        try:
            self.call_fn(st, fn, [])
            self.explore()
        except Deadline as e:
            self.res.undecided.append("time or path limit reached: %s" % (e,))
        except Unsupported as e:
            self.res.undecided.append("unsupported: %s" % e)
        self.res.wall = time.time() - t0
        return self.res

    def explore(self, stop_all=True):
        while self.worklist:
            st = self.worklist.pop()
            try:
                self.run_path(st)
            except PathEnd:
                continue
            except Unsupported as e:
                if self.trial:
                    raise
                self.res.undecided.append("unsupported: %s @ %s" % (e, self.where(st)[:4]))
                if len(self.res.undecided) > 20:
                    return
                continue

    def run_path(self, st):
        cnt = 0
        while st.frames:
            f = st.frames[-1]
            ins = f.fn.blocks[f.blk].ins[f.ip]
            cnt += 1
            if not (cnt & 1023):
                self.res.instrs += 1024
                if time.time() > self.deadline:
                    raise Deadline()
                if self.res.instrs > self.o["max_instr"]:
                    raise Deadline("instruction limit")
            try:
                self.step(st, f, ins)
            except NeedFork as e:
                c = e.cond
                r = self.fork(st, c)
                if r is None:
                    self.worklist.append(self.pending_other)
                    self.note_path()
                else:
                    st.decided[c.get_id()] = (r, c)
        self.res.instrs += cnt & 1023
        if not self.trial:
            self.res.completed += 1

    def step(self, st, f, ins):
        op = ins.op
        h = _DISPATCH.get(op)
        if h is None:
            raise Unsupported("instruction " + op)
        h(self, st, f, ins)


self_undef_ptr = 0xdead0000
_base_of = {}


def mentions_base(e, seen=None):
    if seen is None:
        seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in _base_of:
            return True
        stack.extend(x.children())
    return False


# ---------------------------------------------------------------------- instructions
def i_ret(E, st, f, ins):
    E.ret(st, E.val(st, f, ins.ops[0]) if ins.ops else None)


def i_br(E, st, f, ins):
    if not ins.ops:
        E.goto(st, f, ins.x[0])
        return
    c = E.val(st, f, ins.ops[0])
    if isinstance(c, int):
        E.goto(st, f, ins.x[0] if c else ins.x[1])
        return
    r = E.fork(st, c)
    if r is None:
        other = E.pending_other
        E.worklist.append(other)
        E.note_path()
        of = other.frames[-1]
        # the other state re-executes the branch; its decision is recorded
        E.goto(st, f, ins.x[0])
    else:
        E.goto(st, f, ins.x[0] if r else ins.x[1])


def i_switch(E, st, f, ins):
    v = E.val(st, f, ins.ops[0])
    default, cases, w = ins.x
    if isinstance(v, PInt):
        v = E.intval(st, v)
    if isinstance(v, int):
        for c, t in cases:
            if c == v:
                return E.goto(st, f, t)
        return E.goto(st, f, default)
    for c, t in cases:
        cond = Z(v, w) == z3.BitVecVal(c, w)
        r = E.fork(st, cond)
        if r is None:
            E.worklist.append(E.pending_other)
            E.note_path()
            return E.goto(st, f, t)
        if r:
            return E.goto(st, f, t)
    E.goto(st, f, default)


def vecmap(fn):
    def g(E, st, f, ins):
        if ins.ty.k == "vec":
            ops = [E.val(st, f, o) for o in ins.ops]
            out = []
            for i in range(ins.ty.n):
                out.append(fn(E, st, [o[i] for o in ops], ins.ty.el, ins))
            f.loc[ins.dst] = out
        else:
            f.loc[ins.dst] = fn(E, st, [E.val(st, f, o) for o in ins.ops], ins.ty, ins)
        f.ip += 1
    return g


def bv_binop(E, st, op, a, b, w):
    if isinstance(a, PInt) or isinstance(b, PInt):
        if op == "add":
            if isinstance(a, PInt) and not isinstance(b, PInt):
                return PInt(a.obj, lin_add(a.off, lin_of(b)))
            if isinstance(b, PInt) and not isinstance(a, PInt):
                return PInt(b.obj, lin_add(b.off, lin_of(a)))
        if op == "sub" and isinstance(a, PInt):
            if isinstance(b, PInt):
                if a.obj == b.obj:
                    return off_val(lin_sub(a.off, b.off))
            else:
                return PInt(a.obj, lin_sub(a.off, lin_of(b)))
        if op == "and" and isinstance(a, PInt) and isinstance(b, int) and isinstance(a.off, int) and b < 16:
            return a.off & b    # objects are 16-byte aligned
        a, b = E.intval(st, a), E.intval(st, b)
    if isinstance(a, int) and isinstance(b, int):
        m = mask(w)
        if op == "add":
            return (a + b) & m
        if op == "sub":
            return (a - b) & m
        if op == "mul":
            return (a * b) & m
        if op == "and":
            return a & b
        if op == "or":
            return a | b
        if op == "xor":
            return a ^ b
        if op in ("shl", "lshr", "ashr"):
            if b >= w:
                return E.fresh("poison", w)
            if op == "shl":
                return (a << b) & m
            if op == "lshr":
                return a >> b
            return (sgn(a, w) >> b) & m
        if op in ("udiv", "urem", "sdiv", "srem"):
            if b == 0:
                E.fail_path(st, E.site(st, "division by zero"), "arith")
            if op == "udiv":
                return a // b
            if op == "urem":
                return a % b
            x, y = sgn(a, w), sgn(b, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            if op == "sdiv":
                return q & m
            return (x - q * y) & m
    if w == 1:
        if op in ("and", "or", "xor", "add", "sub", "mul"):
            x, y = B(a), B(b)
            if op in ("and", "mul"):
                if isinstance(a, int):
                    return b if a else 0
                if isinstance(b, int):
                    return a if b else 0
                return z3.And(x, y)
            if op == "or":
                if isinstance(a, int):
                    return 1 if a else b
                if isinstance(b, int):
                    return 1 if b else a
                return z3.Or(x, y)
            if isinstance(b, int):
                return z3.Not(x) if b else a
            if isinstance(a, int):
                return z3.Not(y) if a else b
            return z3.Xor(x, y)
        raise Unsupported("i1 " + op)
    # identities
    if isinstance(b, int):
        if b == 0:
            if op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"):
                return a
            if op in ("and", "mul"):
                return 0
        if b == 1 and op in ("mul", "udiv", "sdiv"):
            return a
        if b == mask(w) and op == "and":
            return a
    elif isinstance(a, int):
        if a == 0:
            if op in ("add", "or", "xor"):
                return b
            if op in ("and", "mul", "shl", "lshr", "udiv", "urem"):
                return 0
        if a == 1 and op == "mul":
            return b
    x, y = Z(a, w), Z(b, w)
    if w == 64 and isinstance(b, int) and op in ("lshr", "ashr", "udiv", "sdiv") and not isinstance(a, int):
        r = exact_div(E, st, op, x, b)
        if r is not None:
            return r
    if op == "add":
        return x + y
    if op == "sub":
        return x - y
    if op == "mul":
        return x * y
    if op == "and":
        return x & y
    if op == "or":
        return x | y
    if op == "xor":
        return x ^ y
    if op == "shl":
        if isinstance(b, int) and b < w:
            return x * z3.BitVecVal(1 << b, w)
        return x << y
    if op == "lshr":
        return z3.LShR(x, y)
    if op == "ashr":
        return x >> y
    if op in ("udiv", "urem", "sdiv", "srem"):
        if not isinstance(b, int):
            E.obligation(st, y != 0, E.site(st, "division by zero"), "arith")
        if op == "udiv":
            if isinstance(b, int) and b & (b - 1) == 0:
                return z3.LShR(x, z3.BitVecVal(b.bit_length() - 1, w))
            return z3.UDiv(x, y)
        if op == "urem":
            if isinstance(b, int) and b & (b - 1) == 0:
                return x & z3.BitVecVal(b - 1, w)
            return z3.URem(x, y)
        if op == "sdiv":
            return x / y
        return z3.SRem(x, y)
    raise Unsupported(op)


def exact_div(E, st, op, x, b):
    """(k*d*y + c*d) / d  ->  k*y + c  when the product provably does not wrap (container size arithmetic)"""
    d = b if op in ("udiv", "sdiv") else (1 << b if b < 63 else 0)
    if d < 2 or d >= 1 << 40:
        return None
    L = lin_of(x)
    if isinstance(L, int):
        return None
    if any(sgn(k, 64) % d for e, k in L.t.values()) or sgn(L.c, 64) % d:
        return None
    key = ("xdiv", op, x.get_id(), d)
    if key in st.ghost:
        return st.ghost[key]
    q = Lin(sgn(L.c, 64) // d, {i: (e, (sgn(k, 64) // d) & M64) for i, (e, k) in L.t.items()})
    qz = q.bv()
    if op in ("udiv", "lshr"):
        cond = z3.ULE(qz, z3.BitVecVal(M64 // d, 64))
    else:
        lim = (1 << 63) // d - 1
        cond = z3.And(qz <= z3.BitVecVal(lim, 64), qz >= z3.BitVecVal(-lim, 64))
    c = z3.simplify(cond)
    r = qz if z3.is_true(c) or self_valid(E, st, cond) else None
    st.ghost[key] = r
    _keepx.append(x)
    return r


_keepx = []


def self_valid(E, st, cond):
    return E.query(st.pc, z3.Not(cond), 1500) == z3.unsat


def i_bin(E, st, vals, ty, ins):
    if ty.k != "int":
        raise Unsupported("binop on " + ty.k)
    return bv_binop(E, st, ins.op, vals[0], vals[1], ty.w)


def pydiv(a, b):
    if b == 0:
        if a == 0 or a != a:
            return float("nan")
        return math.copysign(float("inf"), a) * math.copysign(1.0, b)
    return a / b


RNE = z3.RNE()
RTZ = z3.RTZ()


def i_fbin(E, st, vals, ty, ins):
    a, b = vals
    op = ins.op
    if a.conc() and b.conc() and ty.w in (32, 64) and op != "frem":
        x, y = a.py(), b.py()
        try:
            r = x + y if op == "fadd" else x - y if op == "fsub" else x * y if op == "fmul" else pydiv(x, y)
        except OverflowError:
            r = None
        if r is not None:
            return fp_from_py(ty.w, r)
    if ty.w not in (32, 64):
        raise Unsupported("fp80")
    x, y = a.fp(), b.fp()
    if op == "fadd":
        r = z3.fpAdd(RNE, x, y)
    elif op == "fsub":
        r = z3.fpSub(RNE, x, y)
    elif op == "fmul":
        r = z3.fpMul(RNE, x, y)
    elif op == "fdiv":
        r = z3.fpDiv(RNE, x, y)
    else:
        raise Unsupported(op)
    return FPV(ty.w, None, r)


def i_fneg(E, st, vals, ty, ins):
    a = vals[0]
    if a.bits is not None:
        if isinstance(a.bits, int):
            return FPV(a.w, a.bits ^ (1 << (a.w - 1)))
        return FPV(a.w, a.bits ^ z3.BitVecVal(1 << (a.w - 1), a.w))
    return FPV(a.w, None, z3.fpNeg(a.fp()))


def i_alloca(E, st, f, ins):
    n = E.val(st, f, ins.ops[0])
    sz = ins.x[0]
    size = bv_binop(E, st, "mul", n, sz, 64) if not isinstance(n, int) else n * sz
    o = E.newobj(st, size, f.fn.blocks and "stack")
    f.allocas = f.allocas + (o.id,)
    f.loc[ins.dst] = P(o.id, 0)
    f.ip += 1


def libatomic(f):
    """an atomic inside libstdc++'s shared_ptr: its own protocol, not subject to the environment of a proof"""
    fl = f.fn.blocks[f.blk].ins[f.ip].file
    return "shared_ptr" in fl or "atomicity.h" in fl


def env_hook(E, st, f):
    """concurrency: run the environment step before each atomic access"""
    if libatomic(f):
        return False
    if st.hook is None or f.hooked is True:
        f.hooked = False
        return False
    # do not hook atomics executed inside the hook itself
    for fr in st.frames:
        if fr.hooked == "call":
            return False
    f.hooked = "call"
    E.call_fn(st, E.mod.funcs[st.hook], [])
    return True


def sync(st, order, acq, rel):
    """record the memory ordering of an executed atomic operation (vc_sync)"""
    if libatomic(st.frames[-1]):
        return
    m = (1 if acq and order in (4, 6, 7) else 0) | (2 if rel and order in (5, 6, 7) else 0)
    if m:
        st.ghost["sync"] = st.ghost.get("sync", 0) | m


def i_load(E, st, f, ins):
    if ins.x:
        if st.hook is not None and env_hook(E, st, f):
            return
        sync(st, ins.x, True, False)
    f.loc[ins.dst] = E.load(st, E.val(st, f, ins.ops[0]), ins.ty)
    f.ip += 1


def i_store(E, st, f, ins):
    if ins.x[1]:
        if st.hook is not None and env_hook(E, st, f):
            return
        sync(st, ins.x[1], False, True)
    E.store(st, E.val(st, f, ins.ops[1]), E.val(st, f, ins.ops[0]), ins.x[0])
    f.ip += 1


def sext64(v, w):
    if w == 64:
        return v
    if isinstance(v, int):
        return sgn(v, w) & M64
    return z3.SignExt(64 - w, v)


def i_gep(E, st, f, ins):
    b = E.val(st, f, ins.ops[0])
    if isinstance(b, list):
        raise Unsupported("vector gep")
    off, dyn = ins.x
    o = lin_add(b.off, off)
    for (i, s) in dyn:
        v = E.val(st, f, ins.ops[i])
        if isinstance(v, PInt):
            v = E.intval(st, v)
        if not isinstance(v, int):
            if z3.is_bool(v):
                v = Z(v, 1)
            v = sext64(v, v.size())
        else:
            v = v if True else v
        o = lin_add(o, lin_scale(lin_of(v), s))
    f.loc[ins.dst] = P(b.obj, o)
    f.ip += 1


def c_trunc(E, st, vals, ty, ins):
    v = vals[0]
    if isinstance(v, PInt):
        v = E.intval(st, v)
    if isinstance(v, int):
        return v & mask(ty.w)
    if ty.w == 1:
        return z3.Extract(0, 0, v) == 1
    return z3.Extract(ty.w - 1, 0, v)


def srcw(ins):
    t = ins.x
    return t.el.w if t.k == "vec" else t.w


def c_zext(E, st, vals, ty, ins):
    v = vals[0]
    if isinstance(v, int):
        return v
    w = srcw(ins)
    if w == 1:
        return z3.If(B(v), z3.BitVecVal(1, ty.w), z3.BitVecVal(0, ty.w))
    return z3.ZeroExt(ty.w - w, v)


def c_sext(E, st, vals, ty, ins):
    v = vals[0]
    w = srcw(ins)
    if isinstance(v, int):
        return sgn(v, w) & mask(ty.w)
    if w == 1:
        return z3.If(B(v), z3.BitVecVal(mask(ty.w), ty.w), z3.BitVecVal(0, ty.w))
    return z3.SignExt(ty.w - w, v)


def c_fptoi(E, st, vals, ty, ins):
    v = vals[0]
    w = ty.w
    if v.conc() and v.w in (32, 64):
        x = v.py()
        if x == x and abs(x) != float("inf"):
            i = int(x)
            lo, hi = (0, 1 << w) if ins.op == "fptoui" else (-(1 << (w - 1)), 1 << (w - 1))
            if lo <= i < hi:
                return i & mask(w)
        # out of range: poison; x86 gives the "integer indefinite" value for 32/64 bit
        return E.fresh("fptoint_poison", w)
    x = v.fp()
    if ins.op == "fptoui":
        return z3.fpToUBV(RTZ, x, z3.BitVecSort(w))
    return z3.fpToSBV(RTZ, x, z3.BitVecSort(w))


def c_itofp(E, st, vals, ty, ins):
    v = vals[0]
    w = srcw(ins)
    if ty.w not in (32, 64):
        raise Unsupported("fp80")
    if isinstance(v, PInt):
        v = E.intval(st, v)
    if isinstance(v, int):
        x = sgn(v, w) if ins.op == "sitofp" else v
        if ty.w == 64 or abs(x) < (1 << 24):
            return fp_from_py(ty.w, float(x))
        v = z3.BitVecVal(v, w)
    v = Z(v, w)
    if ins.op == "sitofp":
        return FPV(ty.w, None, z3.fpSignedToFP(RNE, v, FS(ty.w)))
    return FPV(ty.w, None, z3.fpUnsignedToFP(RNE, v, FS(ty.w)))


def c_fpcast(E, st, vals, ty, ins):
    v = vals[0]
    if v.w not in (32, 64) or ty.w not in (32, 64):
        raise Unsupported("fp80")
    if v.conc():
        x = v.py()
        if x == x:
            return fp_from_py(ty.w, x)
    return FPV(ty.w, None, z3.fpFPToFP(RNE, v.fp(), FS(ty.w)))


def c_ptrtoint(E, st, vals, ty, ins):
    p = vals[0]
    if p.obj == 0:
        v = off_val(p.off)
        return v if ty.w == 64 else (v & mask(ty.w) if isinstance(v, int) else z3.Extract(ty.w - 1, 0, v))
    if ty.w == 64:
        return PInt(p.obj, p.off)
    return z3.Extract(ty.w - 1, 0, E.lower(st, p))


def c_inttoptr(E, st, vals, ty, ins):
    v = vals[0]
    w = srcw(ins)
    if w < 64 and not isinstance(v, (int, P)):
        v = z3.ZeroExt(64 - w, v)
    return E.toptr(st, v)


def c_bitcast(E, st, f, ins):
    v = E.val(st, f, ins.ops[0])
    s, d = ins.x, ins.ty
    f.loc[ins.dst] = bitcast(E, st, v, s, d)
    f.ip += 1


def bitcast(E, st, v, s, d):
    if s.key == d.key:
        return v
    if s.k == "int" and d.k == "fp":
        return FPV(d.w, v)
    if s.k == "fp" and d.k == "int":
        return v.asbits()
    if s.k == "vec" or d.k == "vec":
        # via a scratch object
        o = E.newobj(st, max(s.size, d.size), "bitcast")
        E.store(st, P(o.id, 0), v, s)
        r = E.load(st, P(o.id, 0), d)
        E.wobj(st, o.id).alive = False
        return r
    if s.k == "ptr" and d.k == "ptr":
        return v
    raise Unsupported("bitcast %s %s" % (s.key, d.key))


def cmp_int(pred, a, b, w):
    """integer comparison"""
    if isinstance(a, int) and isinstance(b, int):
        if pred[0] == "s":
            a, b = sgn(a, w), sgn(b, w)
        r = {"eq": a == b, "ne": a != b, "ugt": a > b, "uge": a >= b, "ult": a < b, "ule": a <= b,
             "sgt": a > b, "sge": a >= b, "slt": a < b, "sle": a <= b}[pred]
        return int(r)
    if w == 1:
        x, y = B(a), B(b)
        if pred == "eq":
            if isinstance(b, int):
                return a if b else z3.Not(x)
            return x == y
        if pred == "ne":
            if isinstance(b, int):
                return z3.Not(x) if b else a
            return z3.Xor(x, y)
        x, y = Z(a, 1), Z(b, 1)
    else:
        x, y = Z(a, w), Z(b, w)
    if pred == "eq":
        return x == y
    if pred == "ne":
        return z3.Not(x == y)
    return {"ugt": z3.UGT, "uge": z3.UGE, "ult": z3.ULT, "ule": z3.ULE,
            "sgt": lambda p, q: p > q, "sge": lambda p, q: p >= q,
            "slt": lambda p, q: p < q, "sle": lambda p, q: p <= q}[pred](x, y)


def i_icmp(E, st, f, ins):
    a, b = E.val(st, f, ins.ops[0]), E.val(st, f, ins.ops[1])
    pred, ty = ins.x
    if ty.k == "vec":
        f.loc[ins.dst] = [icmp1(E, st, pred, x, y, ty.el) for x, y in zip(a, b)]
    else:
        f.loc[ins.dst] = icmp1(E, st, pred, a, b, ty)
    f.ip += 1


def icmp1(E, st, pred, a, b, ty):
    if isinstance(a, P) or isinstance(b, P):
        if not isinstance(a, P):
            a = PInt(0, lin_of(a)) if not isinstance(a, int) else P(0, a)
        if not isinstance(b, P):
            b = PInt(0, lin_of(b)) if not isinstance(b, int) else P(0, b)
        if a.obj == b.obj:
            if pred in ("eq", "ne"):
                d = lin_sub(a.off, b.off)
                if isinstance(d, int):
                    return int((d == 0) == (pred == "eq"))
                # cancel common integer factors of symbolic differences
                c = off_bv(a.off) == off_bv(b.off)
                return c if pred == "eq" else z3.Not(c)
            x, y = off_val(a.off), off_val(b.off)
            if a.obj != 0 and pred[0] == "u":
                # same object: compare offsets (in-bounds, no wrap)
                return cmp_int("s" + pred[1:], x, y, 64)
            return cmp_int(pred, x, y, 64)
        an = a.obj == 0 and isinstance(a.off, int) and a.off == 0
        bn = b.obj == 0 and isinstance(b.off, int) and b.off == 0
        if pred in ("eq", "ne"):
            if a.obj == 0 or b.obj == 0:
                if an or bn:
                    return int(pred == "ne")
                o = a if a.obj == 0 else b
                if isinstance(o.off, int) and o.off < 65536:
                    return int(pred == "ne")
            else:
                return int(pred == "ne")
        elif an or bn:
            # ordering against null: non-null pointers are larger
            big = 1
            x, y = (0 if an else big), (0 if bn else big)
            return cmp_int(pred if pred[0] == "u" else "u" + pred[1:], x, y, 64)
        return cmp_int(pred, E.lower(st, a), E.lower(st, b), 64)
    return cmp_int(pred, a, b, ty.w)


def i_fcmp(E, st, f, ins):
    a, b = E.val(st, f, ins.ops[0]), E.val(st, f, ins.ops[1])
    pred, ty = ins.x
    if ty.k == "vec":
        f.loc[ins.dst] = [fcmp1(E, st, pred, x, y) for x, y in zip(a, b)]
    else:
        f.loc[ins.dst] = fcmp1(E, st, pred, a, b)
    f.ip += 1


def fcmp1(E, st, pred, a, b):
    if pred == "true":
        return 1
    if pred == "false":
        return 0
    if a.conc() and b.conc() and a.w in (32, 64):
        x, y = a.py(), b.py()
        nan = x != x or y != y
        if pred == "ord":
            return int(not nan)
        if pred == "uno":
            return int(nan)
        o = {"eq": x == y, "ne": x != y, "gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y}[pred[1:]]
        if pred[0] == "o":
            return int(o and not nan)
        return int(o or nan)
    x, y = a.fp(), b.fp()
    nan = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
    if pred == "ord":
        return z3.Not(nan)
    if pred == "uno":
        return nan
    o = {"eq": z3.fpEQ, "ne": lambda p, q: z3.Not(z3.fpEQ(p, q)), "gt": z3.fpGT, "ge": z3.fpGEQ, "lt": z3.fpLT, "le": z3.fpLEQ}[pred[1:]](x, y)
    if pred[0] == "o":
        if pred == "one":
            return z3.And(z3.Not(nan), o)
        return o
    return z3.Or(nan, o)


def i_select(E, st, f, ins):
    c = E.val(st, f, ins.ops[0])
    a, b = E.val(st, f, ins.ops[1]), E.val(st, f, ins.ops[2])
    if isinstance(c, list):
        f.loc[ins.dst] = [E.iteW(st, x, y, z, ins.ty.el.w) for x, y, z in zip(c, a, b)]
    elif isinstance(a, list):
        f.loc[ins.dst] = [E.iteW(st, c, y, z, 64) if not isinstance(c, int) else (y if c else z) for y, z in zip(a, b)]
    else:
        f.loc[ins.dst] = E.iteW(st, c, a, b, ins.ty.w)
    f.ip += 1


def i_freeze(E, st, f, ins):
    f.loc[ins.dst] = E.val(st, f, ins.ops[0])
    f.ip += 1


def i_extractvalue(E, st, f, ins):
    v = E.val(st, f, ins.ops[0])
    for i in ins.x[0]:
        v = v[i]
    f.loc[ins.dst] = v
    f.ip += 1


def i_insertvalue(E, st, f, ins):
    v = E.val(st, f, ins.ops[0])
    x = E.val(st, f, ins.ops[1])

    def put(a, idx):
        a = list(a)
        if len(idx) == 1:
            a[idx[0]] = x
        else:
            a[idx[0]] = put(a[idx[0]], idx[1:])
        return a
    f.loc[ins.dst] = put(v, ins.x[0])
    f.ip += 1


def i_extractelement(E, st, f, ins):
    v = E.val(st, f, ins.ops[0])
    i = E.val(st, f, ins.ops[1])
    if not isinstance(i, int):
        raise Unsupported("extractelement symbolic")
    f.loc[ins.dst] = v[i]
    f.ip += 1


def i_insertelement(E, st, f, ins):
    v = list(E.val(st, f, ins.ops[0]))
    i = E.val(st, f, ins.ops[2])
    if not isinstance(i, int):
        raise Unsupported("insertelement symbolic")
    v[i] = E.val(st, f, ins.ops[1])
    f.loc[ins.dst] = v
    f.ip += 1


def i_shufflevector(E, st, f, ins):
    a = E.val(st, f, ins.ops[0])
    b = E.val(st, f, ins.ops[1])
    ab = list(a) + list(b)
    out = []
    for m in ins.x:
        out.append(ab[m] if 0 <= m < len(ab) else E.undef(ins.ty.el))
    f.loc[ins.dst] = out
    f.ip += 1


def i_unreachable(E, st, f, ins):
    E.fail_path(st, E.site(st, "unreachable reached"), "ub")


def i_landingpad(E, st, f, ins):
    exn, ti, sel = st.exc
    f.loc[ins.dst] = [P(exn.obj, exn.off), sel[0]]
    f.ip += 1


def i_resume(E, st, f, ins):
    exn, ti, sel = st.exc
    # unwind to caller
    st.frames.pop()
    if E.trial and len(st.frames) < E.trial_depth:
        raise PathEnd()
    for oid in f.allocas:
        E.wobj(st, oid).alive = False
    if not st.frames:
        E.uncaught(st, ti)
        raise PathEnd()
    E.throw(st, exn, ti)


def i_fence(E, st, f, ins):
    sync(st, ins.x, True, True)
    f.ip += 1


def i_cmpxchg(E, st, f, ins):
    if st.hook is not None and env_hook(E, st, f):
        return
    p, e, n = (E.val(st, f, o) for o in ins.ops[:3])
    t, order, weak = ins.x
    old = E.load(st, p, t)
    c = icmp1(E, st, "eq", old, e, t)
    sync(st, order, True, True)
    if weak and not libatomic(f):        # may fail spuriously
        sp = E.fresh("spurious", 1)
        c = z3.And(sp, B(c))
    new = E.iteW(st, c, n, old, t.w)
    E.store(st, p, new, t)
    if st.hook is not None:
        st.ghost["atomic"] = st.ghost.get("atomic", 0) + 1
    f.loc[ins.dst] = [old, c]
    f.ip += 1


def i_atomicrmw(E, st, f, ins):
    if st.hook is not None and env_hook(E, st, f):
        return
    p, v = E.val(st, f, ins.ops[0]), E.val(st, f, ins.ops[1])
    t = ins.ty
    old = E.load(st, p, t)
    op, order = ins.x
    sync(st, order, True, True)
    if op == "xchg":
        new = v
    elif op in ("add", "sub", "and", "or", "xor"):
        new = bv_binop(E, st, op, old, v, t.w)
    elif op in ("max", "min", "umax", "umin"):
        c = cmp_int({"max": "sgt", "min": "slt", "umax": "ugt", "umin": "ult"}[op], old, v, t.w)
        new = E.iteW(st, c, old, v, t.w)
    else:
        raise Unsupported("atomicrmw " + op)
    E.store(st, p, new, t)
    f.loc[ins.dst] = old
    f.ip += 1


def i_call(E, st, f, ins):
    callee, nd, ud, atys = ins.x
    if callee[0] == "asm":
        # only empty asm (compiler barriers / pause)
        E.finish_call(st, None)
        return
    cv = E.val(st, f, callee)
    if not isinstance(cv, P):
        raise Unsupported("call of non pointer")
    if cv.obj == 0:
        if isinstance(cv.off, int) and cv.off < 65536:
            E.fail_path(st, E.site(st, "call through null"), "memory")
        raise Unsupported("indirect call through unknown pointer")
    name = E.gnames.get(cv.obj)
    if name is None or name not in E.mod.funcs:
        raise Unsupported("call of %s" % name)
    fn = E.mod.funcs[name]
    args = [E.val(st, f, o) for o in ins.ops]
    # contract replacement
    r = E.replcache.get(name)
    if r is None:
        r = ""
        for rx, stub in E.replace:
            if re.search(rx, fn.dem) and stub != name:
                r = stub
                break
        E.replcache[name] = r
    if r and not f.isstub:
        E.res.stubs[fn.dem] = r
        E.call_fn(st, E.mod.funcs[r], args, stub=True)
        return
    h = E.handlers.get(name)
    if h is None and name.startswith("llvm."):
        h = E.intrinsic(name)
    if h is not None:
        h(E, st, f, ins, args)
        return
    if fn.decl:
        h = E.external(fn)
        if h is None:
            raise Unsupported("external function %s" % fn.dem)
        h(E, st, f, ins, args)
        return
    E.call_fn(st, fn, args)


_DISPATCH = {"ret": i_ret, "br": i_br, "switch": i_switch, "alloca": i_alloca, "load": i_load, "store": i_store,
             "gep": i_gep, "bitcast": c_bitcast, "icmp": i_icmp, "fcmp": i_fcmp, "select": i_select, "freeze": i_freeze,
             "extractvalue": i_extractvalue, "insertvalue": i_insertvalue, "extractelement": i_extractelement,
             "insertelement": i_insertelement, "shufflevector": i_shufflevector, "unreachable": i_unreachable,
             "landingpad": i_landingpad, "resume": i_resume, "fence": i_fence, "cmpxchg": i_cmpxchg,
             "atomicrmw": i_atomicrmw, "call": i_call, "invoke": i_call, "fneg": vecmap(i_fneg)}
for _o in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
    _DISPATCH[_o] = vecmap(i_bin)
for _o in ("fadd", "fsub", "fmul", "fdiv", "frem"):
    _DISPATCH[_o] = vecmap(i_fbin)
_DISPATCH.update({"trunc": vecmap(c_trunc), "zext": vecmap(c_zext), "sext": vecmap(c_sext), "fptoui": vecmap(c_fptoi),
                  "fptosi": vecmap(c_fptoi), "uitofp": vecmap(c_itofp), "sitofp": vecmap(c_itofp),
                  "fptrunc": vecmap(c_fpcast), "fpext": vecmap(c_fpcast), "ptrtoint": vecmap(c_ptrtoint),
                  "inttoptr": vecmap(c_inttoptr)})
