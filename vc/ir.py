"""LLVM bitcode front end: ctypes binding to libLLVM-18's C API.

Loads a bitcode module (produced by clang from /repo's current sources), runs a
fixed optimisation pipeline on it and translates functions lazily to plain
Python structures that engine.py executes symbolically.
"""
import ctypes as C
import struct, subprocess

L = C.CDLL("libLLVM-18.so")
VP = C.c_void_p


def _f(name, res, *args):
    fn = getattr(L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn

u = C.c_uint
ll = C.c_ulonglong
_f("LLVMContextCreate", VP)
_f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(VP), C.POINTER(C.c_char_p))
_f("LLVMParseBitcodeInContext2", C.c_int, VP, VP, C.POINTER(VP))
_f("LLVMLinkModules2", C.c_int, VP, VP)
_f("LLVMGetModuleDataLayout", VP, VP)
for n in ("LLVMGetFirstFunction", "LLVMGetNextFunction", "LLVMGetFirstGlobal", "LLVMGetNextGlobal",
          "LLVMGetFirstGlobalAlias", "LLVMGetNextGlobalAlias", "LLVMAliasGetAliasee",
          "LLVMGetFirstBasicBlock", "LLVMGetNextBasicBlock", "LLVMGetFirstInstruction", "LLVMGetNextInstruction",
          "LLVMTypeOf", "LLVMGetInitializer", "LLVMGlobalGetValueType", "LLVMGetElementType", "LLVMGetReturnType",
          "LLVMGetCalledValue", "LLVMGetCalledFunctionType", "LLVMGetNormalDest", "LLVMGetUnwindDest",
          "LLVMGetAllocatedType", "LLVMGetGEPSourceElementType", "LLVMGetInstructionParent", "LLVMBasicBlockAsValue",
          "LLVMGetBasicBlockParent", "LLVMGetPersonalityFn", "LLVMGetCondition"):
    _f(n, VP, VP)
_f("LLVMGetNamedFunction", VP, VP, C.c_char_p)
_f("LLVMGetValueName2", C.c_char_p, VP, C.POINTER(C.c_size_t))
_f("LLVMCountParams", u, VP)
_f("LLVMGetParam", VP, VP, u)
_f("LLVMCountBasicBlocks", u, VP)
_f("LLVMGetInstructionOpcode", C.c_int, VP)
_f("LLVMGetNumOperands", C.c_int, VP)
_f("LLVMGetOperand", VP, VP, u)
_f("LLVMGetTypeKind", C.c_int, VP)
_f("LLVMGetIntTypeWidth", u, VP)
_f("LLVMGetArrayLength2", ll, VP)
_f("LLVMGetVectorSize", u, VP)
_f("LLVMCountStructElementTypes", u, VP)
_f("LLVMStructGetTypeAtIndex", VP, VP, u)
_f("LLVMIsOpaqueStruct", C.c_int, VP)
_f("LLVMABISizeOfType", ll, VP, VP)
_f("LLVMStoreSizeOfType", ll, VP, VP)
_f("LLVMOffsetOfElement", ll, VP, VP, u)
_f("LLVMGetValueKind", C.c_int, VP)
_f("LLVMConstIntGetZExtValue", ll, VP)
_f("LLVMConstRealGetDouble", C.c_double, VP, C.POINTER(C.c_int))
_f("LLVMGetAggregateElement", VP, VP, u)
_f("LLVMIsNull", C.c_int, VP)
_f("LLVMIsUndef", C.c_int, VP)
_f("LLVMIsPoison", C.c_int, VP)
_f("LLVMGetConstOpcode", C.c_int, VP)
_f("LLVMCountIncoming", u, VP)
_f("LLVMGetIncomingValue", VP, VP, u)
_f("LLVMGetIncomingBlock", VP, VP, u)
_f("LLVMGetICmpPredicate", C.c_int, VP)
_f("LLVMGetFCmpPredicate", C.c_int, VP)
_f("LLVMGetNumIndices", u, VP)
_f("LLVMGetIndices", C.POINTER(u), VP)
_f("LLVMGetNumArgOperands", u, VP)
_f("LLVMGetNumClauses", u, VP)
_f("LLVMGetClause", VP, VP, u)
_f("LLVMIsCleanup", C.c_int, VP)
_f("LLVMGetNumSuccessors", u, VP)
_f("LLVMGetSuccessor", VP, VP, u)
_f("LLVMGetAtomicRMWBinOp", C.c_int, VP)
_f("LLVMGetNumMaskElements", u, VP)
_f("LLVMGetMaskValue", C.c_int, VP, u)
_f("LLVMGetDebugLocLine", u, VP)
_f("LLVMGetDebugLocFilename", C.c_char_p, VP, C.POINTER(u))
_f("LLVMIsDeclaration", C.c_int, VP)
_f("LLVMIsGlobalConstant", C.c_int, VP)
_f("LLVMIsConditional", C.c_int, VP)
_f("LLVMPrintValueToString", VP, VP)
_f("LLVMPrintModuleToFile", C.c_int, VP, C.c_char_p, C.POINTER(C.c_char_p))
_f("LLVMPrintTypeToString", VP, VP)
_f("LLVMGetEnumAttributeKindForName", u, C.c_char_p, C.c_size_t)
_f("LLVMCreateEnumAttribute", VP, VP, u, C.c_uint64)
_f("LLVMAddAttributeAtIndex", None, VP, u, VP)
_f("LLVMRemoveEnumAttributeAtIndex", None, VP, u, u)
_f("LLVMIsAConstantDataSequential", VP, VP)
_f("LLVMIsAInlineAsm", VP, VP)
_f("LLVMGetAsString", VP, VP, C.POINTER(C.c_size_t))
_f("LLVMIsConstantString", C.c_int, VP)
_f("LLVMCreatePassBuilderOptions", VP)
for n in ("LLVMPassBuilderOptionsSetLoopVectorization", "LLVMPassBuilderOptionsSetSLPVectorization",
          "LLVMPassBuilderOptionsSetLoopUnrolling", "LLVMPassBuilderOptionsSetLoopInterleaving",
          "LLVMPassBuilderOptionsSetMergeFunctions"):
    _f(n, None, VP, C.c_int)
_f("LLVMRunPasses", VP, VP, C.c_char_p, VP, VP)
_f("LLVMGetErrorMessage", VP, VP)
_f("LLVMSetLinkage", None, VP, C.c_int)
_f("LLVMGetLinkage", C.c_int, VP)
_f("LLVMGetAlignment", u, VP)
_f("LLVMGetOrdering", C.c_int, VP)
_f("LLVMGetCmpXchgSuccessOrdering", C.c_int, VP)
_f("LLVMGetWeak", C.c_int, VP)
_f("LLVMGetVolatile", C.c_int, VP)
for n in ("LLVMInitializeX86TargetInfo", "LLVMInitializeX86Target", "LLVMInitializeX86TargetMC"):
    try:
        getattr(L, n)()
    except Exception:
        pass

OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 67: "callbr", 66: "fneg",
       8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv",
       17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor",
       26: "alloca", 27: "load", 28: "store", 29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui",
       34: "fptosi", 35: "uitofp", 36: "sitofp", 37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr",
       41: "bitcast", 60: "addrspacecast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call", 46: "select",
       49: "vaarg", 50: "extractelement", 51: "insertelement", 52: "shufflevector", 53: "extractvalue",
       54: "insertvalue", 68: "freeze", 55: "fence", 56: "cmpxchg", 57: "atomicrmw", 58: "resume", 59: "landingpad",
       61: "cleanupret"}
IPRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FPRED = {0: "false", 1: "oeq", 2: "ogt", 3: "oge", 4: "olt", 5: "ole", 6: "one", 7: "ord", 8: "uno", 9: "ueq",
         10: "ugt", 11: "uge", 12: "ult", 13: "ule", 14: "une", 15: "true"}
RMW = {0: "xchg", 1: "add", 2: "sub", 3: "and", 4: "nand", 5: "or", 6: "xor", 7: "max", 8: "min", 9: "umax", 10: "umin"}
# LLVMValueKind
VK_ARG, VK_BB, VK_FUNC, VK_ALIAS, VK_IFUNC, VK_GVAR = 0, 1, 5, 6, 7, 8
VK_CEXPR, VK_CARR, VK_CSTRUCT, VK_CVEC = 10, 11, 12, 13
VK_UNDEF, VK_AGGZERO, VK_CDARR, VK_CDVEC, VK_CINT, VK_CFP, VK_CNULL, VK_TOKNONE = 14, 15, 16, 17, 18, 19, 20, 21
VK_META, VK_ASM, VK_INST, VK_POISON = 22, 23, 24, 25


class Ty:
    __slots__ = ("k", "w", "n", "el", "els", "offs", "size", "key")

    def __repr__(self):
        return self.key


class Instr:
    __slots__ = ("op", "ty", "ops", "dst", "x", "line", "file")

    def __repr__(self):
        return "%s %s %s %s" % (self.dst, self.op, self.ops, self.x)


class Block:
    __slots__ = ("idx", "phis", "ins", "name", "preds")


class Func:
    __slots__ = ("name", "ref", "nparams", "ptys", "rty", "blocks", "decl", "translated", "nlocals", "mod", "loops", "dem")


_DISP = {}


class Module:
    def __init__(self, path):
        self.ctx = L.LLVMContextCreate()
        self.m = self._load(path)
        self.tcache = {}
        self.funcs = {}
        self.byref = {}
        self.globs = {}

    def _load(self, path):
        mb = VP()
        msg = C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(mb), C.byref(msg)):
            raise RuntimeError("cannot read " + path)
        m = VP()
        if L.LLVMParseBitcodeInContext2(self.ctx, mb, C.byref(m)):
            raise RuntimeError("cannot parse " + path)
        return m

    def link(self, path):
        m2 = self._load(path)
        if L.LLVMLinkModules2(self.m, m2):
            raise RuntimeError("link failed " + path)

    def all_function_names(self):
        out = []
        f = L.LLVMGetFirstFunction(self.m)
        while f:
            out.append((self.vname(f), f, bool(L.LLVMIsDeclaration(f))))
            f = L.LLVMGetNextFunction(f)
        return out

    def add_fn_attr(self, f, name):
        k = L.LLVMGetEnumAttributeKindForName(name.encode(), len(name))
        L.LLVMAddAttributeAtIndex(f, 0xFFFFFFFF, L.LLVMCreateEnumAttribute(self.ctx, k, 0))

    def rm_fn_attr(self, f, name):
        k = L.LLVMGetEnumAttributeKindForName(name.encode(), len(name))
        L.LLVMRemoveEnumAttributeAtIndex(f, 0xFFFFFFFF, k)

    def run_passes(self, passes):
        o = L.LLVMCreatePassBuilderOptions()
        L.LLVMPassBuilderOptionsSetLoopVectorization(o, 0)
        L.LLVMPassBuilderOptionsSetSLPVectorization(o, 0)
        L.LLVMPassBuilderOptionsSetLoopUnrolling(o, 0)
        L.LLVMPassBuilderOptionsSetLoopInterleaving(o, 0)
        e = L.LLVMRunPasses(self.m, passes.encode(), None, o)
        if e:
            s = L.LLVMGetErrorMessage(e)
            raise RuntimeError("opt: " + C.cast(s, C.c_char_p).value.decode())

    def finish(self):
        """index functions and globals after optimisation"""
        self.td = L.LLVMGetModuleDataLayout(self.m)
        f = L.LLVMGetFirstFunction(self.m)
        while f:
            fn = Func()
            fn.name = self.vname(f)
            fn.ref = f
            fn.mod = self
            fn.decl = bool(L.LLVMIsDeclaration(f))
            fn.translated = False
            fn.nparams = L.LLVMCountParams(f)
            fn.blocks = None
            fn.loops = None
            fn.dem = None
            self.funcs[fn.name] = fn
            self.byref[f] = fn
            f = L.LLVMGetNextFunction(f)
        g = L.LLVMGetFirstGlobal(self.m)
        while g:
            self.globs[self.vname(g)] = g
            g = L.LLVMGetNextGlobal(g)
        names = list(self.funcs)
        p = subprocess.run(["c++filt"], input="\n".join(names) + "\n", capture_output=True, text=True)
        for n, d in zip(names, p.stdout.split("\n")):
            self.funcs[n].dem = d

    def dump(self, path):
        m = C.c_char_p()
        L.LLVMPrintModuleToFile(self.m, path.encode(), C.byref(m))

    def vname(self, v):
        n = C.c_size_t()
        s = L.LLVMGetValueName2(v, C.byref(n))
        return s.decode() if s else ""

    def ty(self, t):
        r = self.tcache.get(t)
        if r is not None:
            return r
        k = L.LLVMGetTypeKind(t)
        r = Ty()
        r.w = r.n = r.el = r.els = r.offs = None
        r.size = 0
        if k == 8:
            r.k = "int"
            r.w = L.LLVMGetIntTypeWidth(t)
            r.size = L.LLVMStoreSizeOfType(self.td, t)
            r.key = "i%d" % r.w
        elif k == 12:
            r.k = "ptr"
            r.w = 64
            r.size = 8
            r.key = "ptr"
        elif k in (2, 3):
            r.k = "fp"
            r.w = 32 if k == 2 else 64
            r.size = r.w // 8
            r.key = "f%d" % r.w
        elif k == 4:
            r.k = "fp"
            r.w = 80
            r.size = 10
            r.key = "f80"
        elif k == 10:
            self.tcache[t] = r
            r.k = "struct"
            if L.LLVMIsOpaqueStruct(t):
                r.els, r.offs, r.size = [], [], 0
            else:
                n = L.LLVMCountStructElementTypes(t)
                r.els = [self.ty(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
                r.offs = [L.LLVMOffsetOfElement(self.td, t, i) for i in range(n)]
                r.size = L.LLVMABISizeOfType(self.td, t)
            r.key = "{%s}" % ",".join(e.key for e in r.els)
        elif k == 11:
            r.k = "array"
            r.n = L.LLVMGetArrayLength2(t)
            r.el = self.ty(L.LLVMGetElementType(t))
            r.size = L.LLVMABISizeOfType(self.td, t)
            r.key = "[%d x %s]" % (r.n, r.el.key)
        elif k == 13:
            r.k = "vec"
            r.n = L.LLVMGetVectorSize(t)
            r.el = self.ty(L.LLVMGetElementType(t))
            r.size = L.LLVMStoreSizeOfType(self.td, t)
            r.key = "<%d x %s>" % (r.n, r.el.key)
        elif k == 0:
            r.k = "void"
            r.key = "void"
        else:
            r.k = "other%d" % k
            r.key = r.k
        self.tcache[t] = r
        return r

    def abisize(self, t):
        """array stride of llvm type ref t"""
        return L.LLVMABISizeOfType(self.td, t)

    # ---- constants -> python trees -------------------------------------
    def const(self, v):
        """('i',w,val) ('f',w,bits) ('null',) ('g',name) ('fn',name) ('agg',[..],ty) ('undef',ty) ('zero',ty)
           ('ce',op,[ops],x,ty)"""
        k = L.LLVMGetValueKind(v)
        t = self.ty(L.LLVMTypeOf(v))
        if k == VK_CINT:
            if t.w <= 64:
                return ("i", t.w, L.LLVMConstIntGetZExtValue(v) & ((1 << t.w) - 1))
            s = L.LLVMPrintValueToString(v)
            txt = C.cast(s, C.c_char_p).value.decode().split()[-1]
            return ("i", t.w, int(txt) & ((1 << t.w) - 1))
        if k == VK_CFP:
            if t.w == 80:
                s = C.cast(L.LLVMPrintValueToString(v), C.c_char_p).value.decode().split()[-1]
                return ("f", 80, s)
            loss = C.c_int()
            d = L.LLVMConstRealGetDouble(v, C.byref(loss))
            if t.w == 64:
                if d != d:
                    txt = C.cast(L.LLVMPrintValueToString(v), C.c_char_p).value.decode().split()[-1]
                    return ("f", 64, int(txt, 16))
                return ("f", 64, struct.unpack("<Q", struct.pack("<d", d))[0])
            if d != d:
                return ("f", 32, 0x7fc00000)
            return ("f", 32, struct.unpack("<I", struct.pack("<f", d))[0])
        if k == VK_CNULL:
            return ("null",)
        if k in (VK_UNDEF, VK_POISON):
            return ("undef", t)
        if k == VK_AGGZERO:
            return ("zero", t)
        if k == VK_FUNC:
            return ("fn", self.vname(v))
        if k == VK_GVAR:
            return ("g", self.vname(v))
        if k == VK_ALIAS:
            return self.const(L.LLVMAliasGetAliasee(v))
        if k in (VK_CARR, VK_CSTRUCT, VK_CVEC, VK_CDARR, VK_CDVEC):
            n = t.n if t.k in ("array", "vec") else len(t.els)
            if k == VK_CDARR and t.el.k == "int" and t.el.w == 8 and n > 0:
                sz = C.c_size_t()
                p = L.LLVMGetAsString(v, C.byref(sz))
                return ("bytes", C.string_at(p, sz.value), t)
            return ("agg", [self.const(L.LLVMGetAggregateElement(v, i)) for i in range(n)], t)
        if k == VK_CEXPR:
            op = OPC.get(L.LLVMGetConstOpcode(v), "?")
            n = L.LLVMGetNumOperands(v)
            ops = [self.const(L.LLVMGetOperand(v, i)) for i in range(n)]
            x = None
            if op == "gep":
                x = self.gepinfo(v, consts=True)
            return ("ce", op, ops, x, t)
        raise NotImplementedError("const kind %d: %s" % (k, C.cast(L.LLVMPrintValueToString(v), C.c_char_p).value[:200]))

    def gepinfo(self, v, consts=False):
        """list of ('c',off) | ('v', operand_index, stride) describing a GEP"""
        n = L.LLVMGetNumOperands(v)
        tref = L.LLVMGetGEPSourceElementType(v)
        out = []
        const = 0
        for i in range(1, n):
            o = L.LLVMGetOperand(v, i)
            isc = L.LLVMGetValueKind(o) == VK_CINT
            if i == 1:
                stride = self.abisize(tref)
            else:
                k = L.LLVMGetTypeKind(tref)
                if k == 10:
                    idx = L.LLVMConstIntGetZExtValue(o)
                    const += L.LLVMOffsetOfElement(self.td, tref, idx)
                    tref = L.LLVMStructGetTypeAtIndex(tref, idx)
                    continue
                tref = L.LLVMGetElementType(tref)
                stride = self.abisize(tref)
            if isc:
                w = L.LLVMGetIntTypeWidth(L.LLVMTypeOf(o))
                val = L.LLVMConstIntGetZExtValue(o) & ((1 << w) - 1)
                if val >> (w - 1):
                    val -= 1 << w
                const += val * stride
            else:
                out.append((i, stride))
        return (const & ((1 << 64) - 1), out)

    # ---- function translation ------------------------------------------
    def translate(self, fn):
        if fn.translated:
            return
        fn.translated = True
        f = fn.ref
        loc = {}
        fn.ptys = []
        for i in range(fn.nparams):
            p = L.LLVMGetParam(f, i)
            loc[p] = i
            fn.ptys.append(self.ty(L.LLVMTypeOf(p)))
        fn.rty = self.ty(L.LLVMGetReturnType(L.LLVMGlobalGetValueType(f)))
        n = fn.nparams
        bbs = []
        bidx = {}
        b = L.LLVMGetFirstBasicBlock(f)
        while b:
            bidx[L.LLVMBasicBlockAsValue(b)] = len(bbs)
            bidx[b] = len(bbs)
            bbs.append(b)
            i = L.LLVMGetFirstInstruction(b)
            while i:
                loc[i] = n
                n += 1
                i = L.LLVMGetNextInstruction(i)
            b = L.LLVMGetNextBasicBlock(b)
        fn.nlocals = n

        def opnd(v):
            j = loc.get(v)
            if j is not None:
                return ("l", j)
            k = L.LLVMGetValueKind(v)
            if k == VK_BB:
                return ("b", bidx[v])
            if k == VK_META:
                return ("meta",)
            if k == VK_ASM:
                return ("asm",)
            return self.const(v)

        fn.blocks = []
        for bi, b in enumerate(bbs):
            blk = Block()
            blk.idx = bi
            blk.phis = []
            blk.ins = []
            blk.name = None
            i = L.LLVMGetFirstInstruction(b)
            while i:
                opc = OPC.get(L.LLVMGetInstructionOpcode(i))
                if opc is None:
                    raise NotImplementedError("opcode %d" % L.LLVMGetInstructionOpcode(i))
                ins = Instr()
                ins.op = opc
                ins.dst = loc[i]
                ins.ty = self.ty(L.LLVMTypeOf(i))
                ins.x = None
                ins.line = L.LLVMGetDebugLocLine(i)
                ln = u()
                s = L.LLVMGetDebugLocFilename(i, C.byref(ln))
                ins.file = s[:ln.value].decode() if s else ""
                if opc == "phi":
                    ins.ops = []
                    ins.x = {}
                    for j in range(L.LLVMCountIncoming(i)):
                        ins.x[bidx[L.LLVMGetIncomingBlock(i, j)]] = opnd(L.LLVMGetIncomingValue(i, j))
                    blk.phis.append(ins)
                    i = L.LLVMGetNextInstruction(i)
                    continue
                if opc in ("call", "invoke"):
                    na = L.LLVMGetNumArgOperands(i)
                    ins.ops = [opnd(L.LLVMGetOperand(i, j)) for j in range(na)]
                    cv = L.LLVMGetCalledValue(i)
                    callee = opnd(cv) if not L.LLVMIsAInlineAsm(cv) else ("asm",)
                    atys = [self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, j))) for j in range(na)]
                    nd = ud = None
                    if opc == "invoke":
                        nd = bidx[L.LLVMGetNormalDest(i)]
                        ud = bidx[L.LLVMGetUnwindDest(i)]
                    ins.x = (callee, nd, ud, atys)
                    if callee[0] == "fn" and (callee[1].startswith("llvm.dbg") or callee[1].startswith("llvm.lifetime")
                                              or callee[1].startswith("llvm.experimental.noalias")):
                        i = L.LLVMGetNextInstruction(i)
                        continue
                elif opc == "switch":
                    no = L.LLVMGetNumOperands(i)
                    ins.ops = [opnd(L.LLVMGetOperand(i, 0))]
                    cases = []
                    for j in range(2, no, 2):
                        cases.append((self.const(L.LLVMGetOperand(i, j))[2], bidx[L.LLVMGetOperand(i, j + 1)]))
                    ins.x = (bidx[L.LLVMGetOperand(i, 1)], cases, self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0))).w)
                elif opc == "br":
                    if L.LLVMIsConditional(i):
                        ins.ops = [opnd(L.LLVMGetCondition(i))]
                    else:
                        ins.ops = []
                    ins.x = [bidx[L.LLVMGetSuccessor(i, j)] for j in range(L.LLVMGetNumSuccessors(i))]
                elif opc == "landingpad":
                    ins.ops = []
                    cl = []
                    for j in range(L.LLVMGetNumClauses(i)):
                        c = L.LLVMGetClause(i, j)
                        ct = self.ty(L.LLVMTypeOf(c))
                        cl.append(("filter" if ct.k == "array" else "catch", self.const(c)))
                    ins.x = (bool(L.LLVMIsCleanup(i)), cl)
                else:
                    no = L.LLVMGetNumOperands(i)
                    ins.ops = [opnd(L.LLVMGetOperand(i, j)) for j in range(no)]
                    if opc == "gep":
                        ins.x = self.gepinfo(i)
                    elif opc == "icmp":
                        ins.x = (IPRED[L.LLVMGetICmpPredicate(i)], self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0))))
                    elif opc == "fcmp":
                        ins.x = (FPRED[L.LLVMGetFCmpPredicate(i)], self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0))))
                    elif opc == "alloca":
                        ins.x = (self.abisize(L.LLVMGetAllocatedType(i)), L.LLVMGetAlignment(i))
                    elif opc in ("extractvalue", "insertvalue"):
                        p = L.LLVMGetIndices(i)
                        ins.x = ([p[j] for j in range(L.LLVMGetNumIndices(i))],
                                 self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0))))
                    elif opc == "atomicrmw":
                        ins.x = (RMW[L.LLVMGetAtomicRMWBinOp(i)], L.LLVMGetOrdering(i))
                    elif opc == "fence":
                        ins.x = L.LLVMGetOrdering(i)
                    elif opc == "shufflevector":
                        ins.x = [L.LLVMGetMaskValue(i, j) for j in range(L.LLVMGetNumMaskElements(i))]
                    elif opc in ("trunc", "zext", "sext", "fptoui", "fptosi", "uitofp", "sitofp", "fptrunc", "fpext",
                                 "ptrtoint", "inttoptr", "bitcast", "freeze"):
                        ins.x = self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                    elif opc == "store":
                        ins.x = (self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0))), L.LLVMGetOrdering(i))
                    elif opc == "load":
                        ins.x = L.LLVMGetOrdering(i)
                    elif opc == "cmpxchg":
                        ins.x = (self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 1))), L.LLVMGetCmpXchgSuccessOrdering(i), bool(L.LLVMGetWeak(i)))
                    elif opc == "insertelement" or opc == "extractelement":
                        pass
                blk.ins.append(ins)
                i = L.LLVMGetNextInstruction(i)
            fn.blocks.append(blk)

    def global_init(self, name):
        g = self.globs[name]
        t = L.LLVMGlobalGetValueType(g)
        if L.LLVMIsDeclaration(g):
            return None, self.ty(t)
        return self.const(L.LLVMGetInitializer(g)), self.ty(t)
