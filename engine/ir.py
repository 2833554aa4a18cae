"""Loader of LLVM bitcode produced by clang from the code in /repo.

The module is read through LLVM's own C API (libLLVM-18, ctypes), so there is no
home-made IR parser to trust.  Only the parts of the IR the executor needs are
materialised into plain Python objects, function by function, on first use.
"""
import ctypes as C
import glob, os

_lib = None


def lib():
    global _lib
    if _lib is not None:
        return _lib
    for p in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so.1"):
        if os.path.exists(p):
            L = C.CDLL(p)
            break
    else:
        raise RuntimeError("libLLVM-18 not found")
    P, U, I, S = C.c_void_p, C.c_uint, C.c_int, C.c_char_p
    sig = {
        "LLVMContextCreate": (P, []),
        "LLVMCreateMemoryBufferWithContentsOfFile": (I, [S, C.POINTER(P), C.POINTER(S)]),
        "LLVMParseIRInContext": (I, [P, P, C.POINTER(P), C.POINTER(S)]),
        "LLVMGetModuleDataLayout": (P, [P]),
        "LLVMGetFirstFunction": (P, [P]), "LLVMGetNextFunction": (P, [P]),
        "LLVMGetFirstGlobal": (P, [P]), "LLVMGetNextGlobal": (P, [P]),
        "LLVMGetFirstGlobalAlias": (P, [P]), "LLVMGetNextGlobalAlias": (P, [P]),
        "LLVMAliasGetAliasee": (P, [P]),
        "LLVMGetValueName2": (C.POINTER(C.c_char), [P, C.POINTER(C.c_size_t)]),
        "LLVMIsDeclaration": (I, [P]),
        "LLVMGetFirstBasicBlock": (P, [P]), "LLVMGetNextBasicBlock": (P, [P]),
        "LLVMGetFirstInstruction": (P, [P]), "LLVMGetNextInstruction": (P, [P]),
        "LLVMGetInstructionOpcode": (I, [P]), "LLVMGetNumOperands": (I, [P]),
        "LLVMGetOperand": (P, [P, U]), "LLVMTypeOf": (P, [P]), "LLVMGetTypeKind": (I, [P]),
        "LLVMGetIntTypeWidth": (U, [P]), "LLVMGetValueKind": (I, [P]),
        "LLVMConstIntGetZExtValue": (C.c_ulonglong, [P]),
        "LLVMConstRealGetDouble": (C.c_double, [P, C.POINTER(I)]),
        "LLVMGetICmpPredicate": (I, [P]), "LLVMGetFCmpPredicate": (I, [P]),
        "LLVMGetGEPSourceElementType": (P, [P]), "LLVMGetNumIndices": (U, [P]),
        "LLVMGetIndices": (C.POINTER(U), [P]),
        "LLVMCountIncoming": (U, [P]), "LLVMGetIncomingValue": (P, [P, U]),
        "LLVMGetIncomingBlock": (P, [P, U]),
        "LLVMGetNumSuccessors": (U, [P]), "LLVMGetSuccessor": (P, [P, U]),
        "LLVMGetCalledValue": (P, [P]), "LLVMGetAllocatedType": (P, [P]),
        "LLVMGetInitializer": (P, [P]), "LLVMIsGlobalConstant": (I, [P]),
        "LLVMGetAggregateElement": (P, [P, U]), "LLVMGetConstOpcode": (I, [P]),
        "LLVMABISizeOfType": (C.c_ulonglong, [P, P]),
        "LLVMStoreSizeOfType": (C.c_ulonglong, [P, P]),
        "LLVMOffsetOfElement": (C.c_ulonglong, [P, P, U]),
        "LLVMCountStructElementTypes": (U, [P]), "LLVMStructGetTypeAtIndex": (P, [P, U]),
        "LLVMGetStructName": (S, [P]), "LLVMGetArrayLength2": (C.c_ulonglong, [P]),
        "LLVMGetVectorSize": (U, [P]), "LLVMGetElementType": (P, [P]),
        "LLVMGlobalGetValueType": (P, [P]), "LLVMCountParams": (U, [P]), "LLVMGetParam": (P, [P, U]),
        "LLVMGetNumMaskElements": (U, [P]), "LLVMGetMaskValue": (I, [P, U]),
        "LLVMPrintValueToString": (P, [P]), "LLVMPrintTypeToString": (P, [P]),
        "LLVMDisposeMessage": (None, [P]),
        "LLVMGetReturnType": (P, [P]), "LLVMGetCalledFunctionType": (P, [P]),
        "LLVMIsFunctionVarArg": (I, [P]), "LLVMGetNumArgOperands": (U, [P]),
        "LLVMGetNSW": (I, [P]),
        "LLVMGetAtomicRMWBinOp": (I, [P]),
        "LLVMGetAsString": (P, [P, C.POINTER(C.c_size_t)]),
        "LLVMIsConstantString": (I, [P]),
    }
    for n, (r, a) in sig.items():
        f = getattr(L, n)
        f.restype, f.argtypes = r, a
    _lib = L
    return L


# C API enum numbering (llvm-c/Core.h, LLVM 18)
OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 66: "fneg",
       8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv",
       16: "fdiv", 17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and",
       24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store", 29: "getelementptr", 30: "trunc",
       31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp", 37: "fptrunc",
       38: "fpext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 60: "addrspacecast", 42: "icmp",
       43: "fcmp", 44: "phi", 45: "call", 46: "select", 49: "va_arg", 50: "extractelement",
       51: "insertelement", 52: "shufflevector", 53: "extractvalue", 54: "insertvalue", 68: "freeze",
       55: "fence", 56: "atomiccmpxchg", 57: "atomicrmw", 58: "resume", 59: "landingpad"}
TK = {0: "void", 1: "half", 2: "float", 3: "double", 4: "x86fp80", 5: "fp128", 7: "label", 8: "int",
      9: "function", 10: "struct", 11: "array", 12: "ptr", 13: "vector", 14: "metadata", 16: "token"}
ICMP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FCMP = {0: "false", 1: "oeq", 2: "ogt", 3: "oge", 4: "olt", 5: "ole", 6: "one", 7: "ord", 8: "uno",
        9: "ueq", 10: "ugt", 11: "uge", 12: "ult", 13: "ule", 14: "une", 15: "true"}
# LLVMValueKind
VK_ARG, VK_BB, VK_FUNC, VK_ALIAS, VK_GVAR = 0, 1, 5, 6, 8
VK = {0: "arg", 1: "bb", 5: "func", 6: "alias", 7: "ifunc", 8: "gvar", 9: "blockaddr", 10: "cexpr",
      11: "carray", 12: "cstruct", 13: "cvector", 14: "undef", 15: "aggzero", 16: "cdarray",
      17: "cdvector", 18: "int", 19: "fp", 20: "null", 21: "tokennone", 22: "metadata",
      23: "inlineasm", 24: "inst", 25: "poison"}


class Type:
    __slots__ = ("kind", "bits", "elems", "offs", "elem", "n", "size", "name", "ret")

    def __repr__(self):
        return f"T({self.kind},{self.bits or self.name or self.size})"


class Ins:
    __slots__ = ("op", "name", "ty", "ops", "pred", "succ", "aux", "idx", "fn", "bb")

    def __repr__(self):
        return f"<{self.op} %{self.idx} {self.ops}>"


class Block:
    __slots__ = ("name", "ins", "idx", "fn")

    def __repr__(self):
        return f"bb{self.idx}"


class Func:
    def __init__(self, mod, ref, name, decl):
        self.mod, self.ref, self.name, self.decl = mod, ref, name, decl
        self._blocks = None
        L = lib()
        self.nparams = L.LLVMCountParams(ref)

    @property
    def blocks(self):
        if self._blocks is None:
            self.mod._load_body(self)
        return self._blocks

    def __repr__(self):
        return f"@{self.name}"


class Module:
    def __init__(self, path):
        L = self.L = lib()
        self.ctx = L.LLVMContextCreate()
        buf, msg = C.c_void_p(), C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError(f"cannot read {path}: {msg.value}")
        m = C.c_void_p()
        if L.LLVMParseIRInContext(self.ctx, buf, C.byref(m), C.byref(msg)):
            raise RuntimeError(f"cannot parse {path}: {msg.value}")
        self.m = m
        self.dl = L.LLVMGetModuleDataLayout(m)
        self.types, self.funcs, self.globals, self.byref = {}, {}, {}, {}
        f = L.LLVMGetFirstFunction(m)
        while f:
            nm = self._name(f)
            fn = Func(self, f, nm, bool(L.LLVMIsDeclaration(f)))
            self.funcs[nm] = fn
            self.byref[f] = fn
            f = L.LLVMGetNextFunction(f)
        g = L.LLVMGetFirstGlobal(m)
        while g:
            nm = self._name(g)
            self.globals[nm] = g
            g = L.LLVMGetNextGlobal(g)

    def _name(self, v):
        n = C.c_size_t()
        p = self.L.LLVMGetValueName2(v, C.byref(n))
        return C.string_at(p, n.value).decode()

    def show(self, ref):
        p = self.L.LLVMPrintValueToString(ref)
        s = C.string_at(p).decode()
        self.L.LLVMDisposeMessage(p)
        return s

    def type(self, t):
        if t in self.types:
            return self.types[t]
        L = self.L
        k = TK.get(L.LLVMGetTypeKind(t), "other")
        r = Type()
        r.kind, r.bits, r.elems, r.offs, r.elem, r.n, r.name, r.size, r.ret = k, None, None, None, None, None, None, 0, None
        self.types[t] = r
        if k == "int":
            r.bits = L.LLVMGetIntTypeWidth(t)
        elif k == "struct":
            nm = L.LLVMGetStructName(t)
            r.name = nm.decode() if nm else None
            n = L.LLVMCountStructElementTypes(t)
            r.elems = [self.type(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
            try:
                r.offs = [L.LLVMOffsetOfElement(self.dl, t, i) for i in range(n)]
            except Exception:
                r.offs = None
        elif k == "array":
            r.n = L.LLVMGetArrayLength2(t)
            r.elem = self.type(L.LLVMGetElementType(t))
        elif k == "vector":
            r.n = L.LLVMGetVectorSize(t)
            r.elem = self.type(L.LLVMGetElementType(t))
        elif k == "function":
            r.ret = self.type(L.LLVMGetReturnType(t))
        if k in ("int", "double", "float", "ptr", "array", "struct", "vector", "x86fp80"):
            if k == "struct" and r.name and not r.elems:
                # opaque or empty
                try:
                    r.size = L.LLVMABISizeOfType(self.dl, t)
                except Exception:
                    r.size = 0
            else:
                r.size = L.LLVMABISizeOfType(self.dl, t)
        return r

    # operand descriptors: ("arg",i) ("ins",id) ("int",v,bits) ("fp",x) ("null",) ("undef",ty)
    # ("func",Func) ("gvar",name) ("cexpr",op,ops,ty,aux) ("agg",[...],ty) ("zero",ty)
    def const(self, v):
        L = self.L
        k = VK.get(L.LLVMGetValueKind(v), "?")
        ty = self.type(L.LLVMTypeOf(v))
        if k == "int":
            if ty.bits > 64:
                s = self.show(v).split()[-1]
                return ("int", int(s) & ((1 << ty.bits) - 1), ty.bits)
            return ("int", L.LLVMConstIntGetZExtValue(v), ty.bits)
        if k == "fp":
            li = C.c_int()
            return ("fp", L.LLVMConstRealGetDouble(v, C.byref(li)))
        if k == "null":
            return ("null",)
        if k in ("undef", "poison"):
            return ("undef", ty)
        if k == "aggzero":
            return ("zero", ty)
        if k == "func":
            return ("func", self.byref[v])
        if k == "alias":
            return self.const(L.LLVMAliasGetAliasee(v))
        if k == "gvar":
            return ("gvar", self._name(v))
        if k in ("carray", "cstruct", "cvector", "cdarray", "cdvector"):
            n = ty.n if ty.kind in ("array", "vector") else len(ty.elems)
            return ("agg", [self.const(L.LLVMGetAggregateElement(v, i)) for i in range(n)], ty)
        if k == "cexpr":
            op = OPC[L.LLVMGetConstOpcode(v)]
            n = L.LLVMGetNumOperands(v)
            ops = [self.const(L.LLVMGetOperand(v, i)) for i in range(n)]
            aux = None
            if op == "getelementptr":
                aux = self.type(L.LLVMGetGEPSourceElementType(v))
            return ("cexpr", op, ops, ty, aux)
        return ("opaque", k)

    def _load_body(self, fn):
        L = self.L
        blocks, bmap, imap = [], {}, {}
        b = L.LLVMGetFirstBasicBlock(fn.ref)
        idx = 0
        amap = {L.LLVMGetParam(fn.ref, i): i for i in range(fn.nparams)}
        fn.ptypes = [self.type(L.LLVMTypeOf(L.LLVMGetParam(fn.ref, i))) for i in range(fn.nparams)]
        raw = []
        while b:
            B = Block()
            B.idx, B.ins, B.fn = len(blocks), [], fn
            blocks.append(B)
            bmap[b] = B
            i = L.LLVMGetFirstInstruction(b)
            while i:
                I = Ins()
                I.idx, I.fn, I.bb = idx, fn, B
                imap[i] = I
                idx += 1
                raw.append((i, I))
                B.ins.append(I)
                i = L.LLVMGetNextInstruction(i)
            b = L.LLVMGetNextBasicBlock(b)

        def opnd(v):
            k = VK.get(L.LLVMGetValueKind(v), "?")
            if k == "inst":
                return ("ins", imap[v].idx)
            if k == "arg":
                return ("arg", amap[v])
            if k == "bb":
                return ("bb", bmap[v])
            if k == "metadata":
                return ("opaque", k)
            return self.const(v)

        for i, I in raw:
            op = OPC.get(L.LLVMGetInstructionOpcode(i), "?%d" % L.LLVMGetInstructionOpcode(i))
            I.op = op
            I.ty = self.type(L.LLVMTypeOf(i))
            I.name = None
            I.pred = I.succ = I.aux = None
            if op == "phi":
                I.ops = [(opnd(L.LLVMGetIncomingValue(i, k)), bmap[L.LLVMGetIncomingBlock(i, k)])
                         for k in range(L.LLVMCountIncoming(i))]
                continue
            if op in ("call", "invoke"):
                n = L.LLVMGetNumArgOperands(i)
                I.ops = [opnd(L.LLVMGetOperand(i, k)) for k in range(n)]
                I.aux = opnd(L.LLVMGetCalledValue(i))
                if op == "invoke":
                    I.succ = [bmap[L.LLVMGetSuccessor(i, k)] for k in range(2)]
                continue
            if op == "landingpad":
                I.ops = []
                continue
            I.ops = [opnd(L.LLVMGetOperand(i, k)) for k in range(L.LLVMGetNumOperands(i))]
            if op == "icmp":
                I.pred = ICMP[L.LLVMGetICmpPredicate(i)]
            elif op == "fcmp":
                I.pred = FCMP[L.LLVMGetFCmpPredicate(i)]
            elif op == "getelementptr":
                I.aux = self.type(L.LLVMGetGEPSourceElementType(i))
            elif op == "alloca":
                I.aux = self.type(L.LLVMGetAllocatedType(i))
            elif op in ("extractvalue", "insertvalue"):
                n = L.LLVMGetNumIndices(i)
                p = L.LLVMGetIndices(i)
                I.aux = [p[k] for k in range(n)]
            elif op == "br":
                I.succ = [bmap[L.LLVMGetSuccessor(i, k)] for k in range(L.LLVMGetNumSuccessors(i))]
            elif op == "switch":
                I.succ = [bmap[L.LLVMGetSuccessor(i, k)] for k in range(L.LLVMGetNumSuccessors(i))]
            elif op == "shufflevector":
                n = L.LLVMGetNumMaskElements(i)
                I.aux = [L.LLVMGetMaskValue(i, k) for k in range(n)]
            elif op == "atomicrmw":
                I.aux = L.LLVMGetAtomicRMWBinOp(i)
            elif op in ("load",):
                pass
            elif op == "store":
                I.aux = self.type(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
        for i, I in raw:
            if I.op in ("zext", "sext", "trunc", "sitofp", "uitofp", "icmp", "fptosi", "fptoui", "bitcast", "ptrtoint", "inttoptr", "freeze", "switch", "ret") and L.LLVMGetNumOperands(i):
                I.aux = self.type(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
        fn._blocks = blocks
        fn.nins = idx

    def gvar(self, name):
        """(type, initializer operand or None, constant?)"""
        g = self.globals[name]
        L = self.L
        ty = self.type(L.LLVMGlobalGetValueType(g))
        init = None
        if not L.LLVMIsDeclaration(g):
            i = L.LLVMGetInitializer(g)
            if i:
                init = self.const(i)
        return ty, init, bool(L.LLVMIsGlobalConstant(g))
