"""Thin reader of LLVM IR: libLLVM-18 through ctypes, converted into plain Python objects.

Nothing is executed: the module is parsed, a fixed list of canonicalising passes is run on it,
and the result is turned into Function/Block/Instr objects that the analyses walk.
"""
import ctypes as C
import glob
import os

_paths = ["/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so.18.1", "/usr/lib/llvm-18/lib/libLLVM.so",
          "/usr/lib/x86_64-linux-gnu/libLLVM-18.so", "/usr/lib/x86_64-linux-gnu/libLLVM.so.18.1"]
_lib = None
for _p in _paths:
    if os.path.exists(_p):
        _lib = C.CDLL(_p)
        break
if _lib is None:
    raise RuntimeError("libLLVM-18 not found")

P = C.c_void_p


def _fn(name, res, *args):
    f = getattr(_lib, name)
    f.restype = res
    f.argtypes = list(args)
    return f


ContextCreate = _fn("LLVMContextCreate", P)
ContextDispose = _fn("LLVMContextDispose", None, P)
MemBufFile = _fn("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseBC = _fn("LLVMParseBitcodeInContext2", C.c_int, P, P, C.POINTER(P))
ParseIR = _fn("LLVMParseIRInContext", C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
LinkModules = _fn("LLVMLinkModules2", C.c_int, P, P)
GetFirstFunction = _fn("LLVMGetFirstFunction", P, P)
GetNextFunction = _fn("LLVMGetNextFunction", P, P)
GetFirstGlobal = _fn("LLVMGetFirstGlobal", P, P)
GetNextGlobal = _fn("LLVMGetNextGlobal", P, P)
GetInitializer = _fn("LLVMGetInitializer", P, P)
GetFirstAlias = _fn("LLVMGetFirstGlobalAlias", P, P)
GetNextAlias = _fn("LLVMGetNextGlobalAlias", P, P)
AliasGetAliasee = _fn("LLVMAliasGetAliasee", P, P)
ReplaceAllUses = _fn("LLVMReplaceAllUsesWith", None, P, P)
IsDeclaration = _fn("LLVMIsDeclaration", C.c_int, P)
GetValueName2 = _fn("LLVMGetValueName2", C.c_char_p, P, C.POINTER(C.c_size_t))
GetFirstBasicBlock = _fn("LLVMGetFirstBasicBlock", P, P)
GetNextBasicBlock = _fn("LLVMGetNextBasicBlock", P, P)
GetFirstInstruction = _fn("LLVMGetFirstInstruction", P, P)
GetNextInstruction = _fn("LLVMGetNextInstruction", P, P)
GetInstructionOpcode = _fn("LLVMGetInstructionOpcode", C.c_int, P)
GetConstOpcode = _fn("LLVMGetConstOpcode", C.c_int, P)
GetNumOperands = _fn("LLVMGetNumOperands", C.c_int, P)
GetOperand = _fn("LLVMGetOperand", P, P, C.c_uint)
TypeOf = _fn("LLVMTypeOf", P, P)
GetTypeKind = _fn("LLVMGetTypeKind", C.c_int, P)
PrintType = _fn("LLVMPrintTypeToString", P, P)
PrintValue = _fn("LLVMPrintValueToString", P, P)
DisposeMessage = _fn("LLVMDisposeMessage", None, P)
GetIntTypeWidth = _fn("LLVMGetIntTypeWidth", C.c_uint, P)
GetValueKind = _fn("LLVMGetValueKind", C.c_int, P)
ConstIntGetSExtValue = _fn("LLVMConstIntGetSExtValue", C.c_longlong, P)
ConstRealGetDouble = _fn("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
GetICmpPredicate = _fn("LLVMGetICmpPredicate", C.c_int, P)
GetFCmpPredicate = _fn("LLVMGetFCmpPredicate", C.c_int, P)
CountIncoming = _fn("LLVMCountIncoming", C.c_uint, P)
GetIncomingValue = _fn("LLVMGetIncomingValue", P, P, C.c_uint)
GetIncomingBlock = _fn("LLVMGetIncomingBlock", P, P, C.c_uint)
GetCalledValue = _fn("LLVMGetCalledValue", P, P)
GetNumArgOperands = _fn("LLVMGetNumArgOperands", C.c_uint, P)
GetGEPSourceElementType = _fn("LLVMGetGEPSourceElementType", P, P)
GetNumIndices = _fn("LLVMGetNumIndices", C.c_uint, P)
GetIndices = _fn("LLVMGetIndices", C.POINTER(C.c_uint), P)
GetDebugLocLine = _fn("LLVMGetDebugLocLine", C.c_uint, P)
GetDebugLocFilename = _fn("LLVMGetDebugLocFilename", C.c_char_p, P, C.POINTER(C.c_uint))
GetNumSuccessors = _fn("LLVMGetNumSuccessors", C.c_uint, P)
GetSuccessor = _fn("LLVMGetSuccessor", P, P, C.c_uint)
IsConditional = _fn("LLVMIsConditional", C.c_int, P)
CountParams = _fn("LLVMCountParams", C.c_uint, P)
GetParam = _fn("LLVMGetParam", P, P, C.c_uint)
BasicBlockAsValue = _fn("LLVMBasicBlockAsValue", P, P)
ValueAsBasicBlock = _fn("LLVMValueAsBasicBlock", P, P)
GetModuleDataLayout = _fn("LLVMGetModuleDataLayout", P, P)
ABISizeOfType = _fn("LLVMABISizeOfType", C.c_ulonglong, P, P)
StoreSizeOfType = _fn("LLVMStoreSizeOfType", C.c_ulonglong, P, P)
OffsetOfElement = _fn("LLVMOffsetOfElement", C.c_ulonglong, P, P, C.c_uint)
StructGetTypeAtIndex = _fn("LLVMStructGetTypeAtIndex", P, P, C.c_uint)
GetElementType = _fn("LLVMGetElementType", P, P)
GetAllocatedType = _fn("LLVMGetAllocatedType", P, P)
GetEnumKind = _fn("LLVMGetEnumAttributeKindForName", C.c_uint, C.c_char_p, C.c_size_t)
CreateEnumAttr = _fn("LLVMCreateEnumAttribute", P, P, C.c_uint, C.c_ulonglong)
AddAttrAtIndex = _fn("LLVMAddAttributeAtIndex", None, P, C.c_uint, P)
RemoveEnumAttrAtIndex = _fn("LLVMRemoveEnumAttributeAtIndex", None, P, C.c_uint, C.c_uint)
GetEnumAttrAtIndex = _fn("LLVMGetEnumAttributeAtIndex", P, P, C.c_uint, C.c_uint)
SetLinkage = _fn("LLVMSetLinkage", None, P, C.c_int)
GetLinkage = _fn("LLVMGetLinkage", C.c_int, P)
RunPasses = _fn("LLVMRunPasses", P, P, C.c_char_p, P, P)
CreatePBO = _fn("LLVMCreatePassBuilderOptions", P)
DisposePBO = _fn("LLVMDisposePassBuilderOptions", None, P)
GetErrorMessage = _fn("LLVMGetErrorMessage", P, P)
GetOrdering = _fn("LLVMGetOrdering", C.c_int, P)
GetVolatile = _fn("LLVMGetVolatile", C.c_int, P)
IsAtomic = None
try:
    IsAtomic = _fn("LLVMIsAtomicSingleThread", C.c_int, P)
except AttributeError:
    pass
GetUnwindDest = _fn("LLVMGetUnwindDest", P, P)
GetNormalDest = _fn("LLVMGetNormalDest", P, P)
WriteBitcodeToFile = _fn("LLVMWriteBitcodeToFile", C.c_int, P, C.c_char_p)
DisposeModule = _fn("LLVMDisposeModule", None, P)
GetAsString = _fn("LLVMGetAsString", P, P, C.POINTER(C.c_size_t))
IsConstantString = _fn("LLVMIsConstantString", C.c_int, P)
IsGlobalConstant = _fn("LLVMIsGlobalConstant", C.c_int, P)
IsThreadLocal = _fn("LLVMIsThreadLocal", C.c_int, P)
GlobalGetValueType = _fn("LLVMGlobalGetValueType", P, P)
GetAggregateElement = _fn("LLVMGetAggregateElement", P, P, C.c_uint)
GetReturnType = _fn("LLVMGetReturnType", P, P)
GetArrayLength = _fn("LLVMGetArrayLength2", C.c_uint64, P) if hasattr(_lib, "LLVMGetArrayLength2") else None
CountStructElementTypes = _fn("LLVMCountStructElementTypes", C.c_uint, P)
GetSwitchDefaultDest = _fn("LLVMGetSwitchDefaultDest", P, P)
GetSubprogram = _fn("LLVMGetSubprogram", P, P)
DISubprogramGetLine = _fn("LLVMDISubprogramGetLine", C.c_uint, P)
DIScopeGetFile = _fn("LLVMDIScopeGetFile", P, P)
DIFileGetFilename = _fn("LLVMDIFileGetFilename", C.c_char_p, P, C.POINTER(C.c_uint))
AppendExistingBasicBlock = None

OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 67: "callbr", 66: "fneg",
       8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv",
       17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor",
       26: "alloca", 27: "load", 28: "store", 29: "getelementptr", 30: "trunc", 31: "zext", 32: "sext",
       33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp", 37: "fptrunc", 38: "fpext", 39: "ptrtoint",
       40: "inttoptr", 41: "bitcast", 60: "addrspacecast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call",
       46: "select", 47: "userop1", 48: "userop2", 49: "va_arg", 50: "extractelement", 51: "insertelement",
       52: "shufflevector", 53: "extractvalue", 54: "insertvalue", 68: "freeze", 55: "fence", 56: "cmpxchg",
       57: "atomicrmw", 58: "resume", 59: "landingpad", 61: "cleanupret", 62: "catchret", 63: "catchpad",
       64: "cleanuppad", 65: "catchswitch"}
ICMP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FCMP = {0: "false", 1: "oeq", 2: "ogt", 3: "oge", 4: "olt", 5: "ole", 6: "one", 7: "ord", 8: "uno", 9: "ueq",
        10: "ugt", 11: "uge", 12: "ult", 13: "ule", 14: "une", 15: "true"}
TK = {0: "void", 1: "half", 2: "float", 3: "double", 4: "x86_fp80", 5: "fp128", 7: "label", 8: "int", 9: "func",
      10: "struct", 11: "array", 12: "ptr", 13: "vector", 14: "metadata", 16: "token"}


def _kindnum(k):
    # LLVMValueKind enum of LLVM 18
    names = ["Argument", "BasicBlock", "MemoryUse", "MemoryDef", "MemoryPhi", "Function", "GlobalAlias", "GlobalIFunc",
             "GlobalVariable", "BlockAddress", "ConstantExpr", "ConstantArray", "ConstantStruct", "ConstantVector",
             "UndefValue", "ConstantAggregateZero", "ConstantDataArray", "ConstantDataVector", "ConstantInt",
             "ConstantFP", "ConstantPointerNull", "ConstantTokenNone", "MetadataAsValue", "InlineAsm", "Instruction",
             "PoisonValue", "ConstantTargetNone"]
    return names[k] if k < len(names) else "?"


def _name(v):
    n = C.c_size_t()
    s = GetValueName2(v, C.byref(n))
    return s.decode("utf8", "replace") if s else ""


def _tystr(t):
    p = PrintType(t)
    s = C.cast(p, C.c_char_p).value.decode()
    DisposeMessage(p)
    return s


class Type:
    __slots__ = ("kind", "bits", "s", "size", "ref")

    def __repr__(self):
        return self.s


class Value:
    """Anything that can be an operand."""
    __slots__ = ("k", "name", "ty", "val", "ops", "op", "gep", "ref", "extra")

    def __init__(self, k):
        self.k = k
        self.name = ""
        self.ty = None
        self.val = None
        self.ops = None
        self.op = None
        self.gep = None
        self.ref = None
        self.extra = None

    def __repr__(self):
        return f"<{self.k} {self.name or self.val}>"


class Instr(Value):
    __slots__ = ("block", "pred", "incoming", "callee", "line", "file", "succs", "indices", "cases", "volatile",
                 "ordering", "idx", "elty", "unwind", "fn")

    def __repr__(self):
        return f"<I {self.op} {self.name} L{self.line}>"


class Block:
    __slots__ = ("name", "instrs", "succs", "preds", "fn", "idx", "ref")

    def __repr__(self):
        return f"<B {self.name or self.idx}>"


class Function:
    __slots__ = ("name", "dem", "blocks", "params", "mod", "ref", "decl", "linkage", "line", "file", "_cache")

    def __repr__(self):
        return f"<F {self.dem or self.name}>"


class Module:
    def __init__(self, paths, ctx=None):
        self.ctx = ctx or ContextCreate()
        self.ref = None
        if isinstance(paths, str):
            paths = [paths]
        for p in paths:
            buf = P()
            msg = C.c_char_p()
            if MemBufFile(p.encode(), C.byref(buf), C.byref(msg)):
                raise RuntimeError(f"cannot read {p}: {msg.value}")
            m = P()
            if p.endswith(".ll"):
                if ParseIR(self.ctx, buf, C.byref(m), C.byref(msg)):
                    raise RuntimeError(f"cannot parse {p}: {msg.value}")
            else:
                if ParseBC(self.ctx, buf, C.byref(m)):
                    raise RuntimeError(f"cannot parse {p}")
            if self.ref is None:
                self.ref = m
            elif LinkModules(self.ref, m):
                raise RuntimeError("link failed " + p)
        # uses of an alias (the compiler's merged constructors) become uses of the function itself
        a = GetFirstAlias(self.ref)
        while a:
            ReplaceAllUses(a, AliasGetAliasee(a))
            a = GetNextAlias(a)
        self.dl = GetModuleDataLayout(self.ref)
        self.types = {}
        self.vals = {}
        self.fns = {}
        self.globals = {}
        self._keep = []

    # -- preparation -------------------------------------------------------------------------
    def raw_functions(self):
        f = GetFirstFunction(self.ref)
        while f:
            yield f
            f = GetNextFunction(f)

    def set_inlining(self, should_inline):
        """should_inline(mangled_name) -> True: always inline, False: never, None: leave"""
        k_ai = GetEnumKind(b"alwaysinline", 12)
        k_ni = GetEnumKind(b"noinline", 8)
        k_on = GetEnumKind(b"optnone", 7)
        idx = 0xFFFFFFFF
        for f in self.raw_functions():
            if IsDeclaration(f):
                continue
            w = should_inline(_name(f))
            RemoveEnumAttrAtIndex(f, idx, k_on)
            if w is True:
                RemoveEnumAttrAtIndex(f, idx, k_ni)
                AddAttrAtIndex(f, idx, CreateEnumAttr(self.ctx, k_ai, 0))
            elif w is False:
                RemoveEnumAttrAtIndex(f, idx, k_ai)
                AddAttrAtIndex(f, idx, CreateEnumAttr(self.ctx, k_ni, 0))

    def run(self, passes):
        o = CreatePBO()
        e = RunPasses(self.ref, passes.encode(), None, o)
        DisposePBO(o)
        if e:
            p = GetErrorMessage(e)
            raise RuntimeError("passes: " + C.cast(p, C.c_char_p).value.decode())

    # -- conversion --------------------------------------------------------------------------
    def ty(self, t):
        r = self.types.get(t)
        if r is None:
            r = Type()
            r.kind = TK.get(GetTypeKind(t), "?")
            r.bits = GetIntTypeWidth(t) if r.kind == "int" else 0
            r.s = _tystr(t)
            r.ref = t
            r.size = 0
            if r.kind in ("int", "float", "double", "ptr", "array", "x86_fp80", "vector", "half") or \
                    (r.kind == "struct" and "opaque" not in r.s):
                try:
                    r.size = ABISizeOfType(self.dl, t)
                except Exception:
                    r.size = 0
            self.types[t] = r
        return r

    def load(self):
        fl = []
        for f in self.raw_functions():
            F = Function()
            F.name = _name(f)
            F.dem = None
            F.mod = self
            F.ref = f
            F.decl = bool(IsDeclaration(f))
            F.blocks = None
            F.linkage = GetLinkage(f)
            F._cache = {}
            F.line = 0
            F.file = ""
            sp = GetSubprogram(f)
            if sp:
                F.line = DISubprogramGetLine(sp)
                fr = DIScopeGetFile(sp)
                if fr:
                    n = C.c_uint()
                    s = DIFileGetFilename(fr, C.byref(n))
                    F.file = s[:n.value].decode() if s else ""
            self.fns[F.name] = F
            fl.append(F)
        names = demangle([F.name for F in fl])
        for F, d in zip(fl, names):
            F.dem = d
        return self

    def reload(self):
        """after a transformation: every cached reference may be stale"""
        self.vals = {}
        self.fns = {}
        self.globals = {}
        return self.load()

    def body(self, F):
        """Convert the body of F on demand."""
        if F.blocks is not None or F.decl:
            return F
        F.blocks = []
        F.params = []
        local = {}
        for i in range(CountParams(F.ref)):
            p = GetParam(F.ref, i)
            v = Value("arg")
            v.name = _name(p)
            v.val = i
            v.ty = self.ty(TypeOf(p))
            v.ref = p
            local[p] = v
            F.params.append(v)
        b = GetFirstBasicBlock(F.ref)
        bl = {}
        raw = []
        while b:
            B = Block()
            B.name = _name(BasicBlockAsValue(b))
            B.fn = F
            B.idx = len(F.blocks)
            B.instrs = []
            B.succs = []
            B.preds = []
            bl[b] = B
            bl[BasicBlockAsValue(b)] = B
            F.blocks.append(B)
            i = GetFirstInstruction(b)
            while i:
                I = Instr("inst")
                I.op = OPC.get(GetInstructionOpcode(i), "?")
                I.name = _name(i)
                I.ty = self.ty(TypeOf(i))
                I.block = B
                I.ref = i
                I.fn = F
                I.idx = len(B.instrs)
                I.line = GetDebugLocLine(i)
                n = C.c_uint()
                s = GetDebugLocFilename(i, C.byref(n))
                I.file = s[:n.value].decode() if s else ""
                I.pred = I.incoming = I.callee = I.succs = I.indices = I.cases = I.elty = I.unwind = None
                I.volatile = False
                I.ordering = 0
                local[i] = I
                B.instrs.append(I)
                raw.append((i, I))
                i = GetNextInstruction(i)
            b = GetNextBasicBlock(b)
        for i, I in raw:
            op = I.op
            if op == "phi":
                I.incoming = [(self.val(GetIncomingValue(i, k), local), bl[GetIncomingBlock(i, k)])
                              for k in range(CountIncoming(i))]
                I.ops = [v for v, _ in I.incoming]
                continue
            if op == "landingpad":
                I.ops = []
                continue
            if op in ("call", "invoke"):
                I.callee = self.val(GetCalledValue(i), local)
                I.ops = [self.val(GetOperand(i, k), local) for k in range(GetNumArgOperands(i))]
                if op == "invoke":
                    I.succs = [bl[GetNormalDest(i)], bl[GetUnwindDest(i)]]
                    I.unwind = I.succs[1]
                continue
            if op == "br":
                I.succs = [bl[GetSuccessor(i, k)] for k in range(GetNumSuccessors(i))]
                I.ops = [self.val(GetOperand(i, 0), local)] if IsConditional(i) else []
                continue
            if op == "switch":
                I.ops = [self.val(GetOperand(i, 0), local)]
                n = GetNumSuccessors(i)
                I.succs = [bl[GetSuccessor(i, k)] for k in range(n)]
                I.cases = []
                nops = GetNumOperands(i)
                for k in range(2, nops, 2):
                    cv = self.val(GetOperand(i, k), local)
                    I.cases.append((cv.val, bl[ValueAsBasicBlock(GetOperand(i, k + 1))]))
                continue
            n = GetNumOperands(i)
            I.ops = [self.val(GetOperand(i, k), local) for k in range(n)]
            if op == "icmp":
                I.pred = ICMP[GetICmpPredicate(i)]
            elif op == "fcmp":
                I.pred = FCMP[GetFCmpPredicate(i)]
            elif op == "getelementptr":
                I.gep = self.gep(GetGEPSourceElementType(i), I.ops)
            elif op in ("extractvalue", "insertvalue"):
                p = GetIndices(i)
                I.indices = [p[k] for k in range(GetNumIndices(i))]
            elif op in ("load", "store", "atomicrmw", "cmpxchg"):
                I.volatile = bool(GetVolatile(i))
                if op != "cmpxchg":
                    I.ordering = GetOrdering(i)
                else:
                    I.ordering = 7
            elif op == "alloca":
                I.elty = self.ty(GetAllocatedType(i))
        for B in F.blocks:
            t = B.instrs[-1]
            if t.succs:
                for s in t.succs:
                    if s not in B.succs:
                        B.succs.append(s)
            for s in B.succs:
                s.preds.append(B)
        return F

    def gep(self, srcty, ops):
        """-> (const byte offset, [(Value, scale)])"""
        const = 0
        var = []
        t = srcty
        for n, ix in enumerate(ops[1:]):
            if n == 0:
                sz = ABISizeOfType(self.dl, t)
                if ix.k == "int":
                    const += ix.val * sz
                else:
                    var.append((ix, sz))
            else:
                kind = TK.get(GetTypeKind(t))
                if kind == "struct":
                    const += OffsetOfElement(self.dl, t, ix.val)
                    t = StructGetTypeAtIndex(t, ix.val)
                else:
                    t = GetElementType(t)
                    sz = ABISizeOfType(self.dl, t)
                    if ix.k == "int":
                        const += ix.val * sz
                    else:
                        var.append((ix, sz))
        return (const, var)

    def val(self, v, local):
        r = local.get(v)
        if r is not None:
            return r
        r = self.vals.get(v)
        if r is not None:
            return r
        k = _kindnum(GetValueKind(v))
        if k == "ConstantInt":
            r = Value("int")
            r.ty = self.ty(TypeOf(v))
            r.val = ConstIntGetSExtValue(v)
            if r.ty.bits == 1:
                r.val = r.val & 1
        elif k == "ConstantFP":
            r = Value("fp")
            li = C.c_int()
            r.ty = self.ty(TypeOf(v))
            r.val = ConstRealGetDouble(v, C.byref(li))
        elif k == "ConstantPointerNull":
            r = Value("null")
            r.ty = self.ty(TypeOf(v))
        elif k == "Function":
            r = Value("func")
            r.name = _name(v)
            r.ty = self.ty(TypeOf(v))
        elif k in ("GlobalVariable", "GlobalAlias"):
            r = Value("global")
            r.name = _name(v)
            r.ty = self.ty(TypeOf(v))
        elif k == "ConstantExpr":
            r = Value("cexpr")
            self.vals[v] = r
            r.op = OPC.get(GetConstOpcode(v), "?")
            r.ty = self.ty(TypeOf(v))
            r.ops = [self.val(GetOperand(v, i), local) for i in range(GetNumOperands(v))]
            if r.op == "getelementptr":
                r.gep = self.gep(GetGEPSourceElementType(v), r.ops)
            elif r.op == "icmp":
                r.extra = ICMP[GetICmpPredicate(v)]
        elif k in ("UndefValue", "PoisonValue"):
            r = Value("undef")
            r.ty = self.ty(TypeOf(v))
        elif k == "ConstantAggregateZero":
            r = Value("zero")
            r.ty = self.ty(TypeOf(v))
        elif k in ("ConstantStruct", "ConstantArray", "ConstantVector", "ConstantDataArray", "ConstantDataVector"):
            r = Value("agg")
            r.ty = self.ty(TypeOf(v))
            if k == "ConstantDataArray" and IsConstantString(v):
                n = C.c_size_t()
                p = GetAsString(v, C.byref(n))
                r.extra = C.string_at(p, n.value)
            elif k in ("ConstantStruct", "ConstantArray", "ConstantVector"):
                r.ops = [self.val(GetOperand(v, i), local) for i in range(GetNumOperands(v))]
            else:
                r.ops = None
        else:
            r = Value("other")
            r.name = k
        r.ref = v
        self.vals[v] = r
        return r

    def global_info(self, name):
        g = self.globals.get(name)
        if g is None:
            ref = GetFirstGlobal(self.ref)
            while ref:
                n = _name(ref)
                d = Value("gvar")
                d.name = n
                d.ref = ref
                d.ty = self.ty(GlobalGetValueType(ref))
                d.val = None
                d.extra = {"const": bool(IsGlobalConstant(ref)), "tls": bool(IsThreadLocal(ref)),
                           "linkage": GetLinkage(ref), "decl": bool(IsDeclaration(ref))}
                self.globals[n] = d
                ref = GetNextGlobal(ref)
            g = self.globals.get(name)
        return g

    def global_init(self, name):
        g = self.global_info(name)
        if g is None:
            return None
        ini = GetInitializer(g.ref)
        return self.val(ini, {}) if ini else None

    def string_of(self, v):
        """Constant C string a pointer operand points to, or None."""
        off = 0
        if v.k == "cexpr" and v.op == "getelementptr":
            off = v.gep[0]
            v = v.ops[0]
        if v.k != "global":
            return None
        ini = self.global_init(v.name)
        if ini is None:
            return None
        if ini.extra is not None and isinstance(ini.extra, bytes):
            return ini.extra[off:].split(b"\0")[0].decode("utf8", "replace")
        if ini.k == "zero":
            return ""
        return None


_cxa = C.CDLL("libstdc++.so.6")
_cxa.__cxa_demangle.restype = C.c_void_p
_cxa.__cxa_demangle.argtypes = [C.c_char_p, C.c_void_p, C.c_void_p, C.POINTER(C.c_int)]
_libc = C.CDLL(None)
_libc.free.argtypes = [C.c_void_p]
_dem = {}


def demangle1(n):
    r = _dem.get(n)
    if r is None:
        st = C.c_int()
        p = _cxa.__cxa_demangle(n.encode(), None, None, C.byref(st)) if n.startswith("_Z") else None
        if p:
            r = C.string_at(p).decode("utf8", "replace")
            _libc.free(p)
        else:
            r = n
        _dem[n] = r
    return r


def demangle(names):
    return [demangle1(n) for n in names]
