"""Reads LLVM bitcode produced by clang from /repo's C++ into plain Python objects, through libLLVM's C API."""
import ctypes
import glob
import os

_lib = None


def lib():
    global _lib
    if _lib is None:
        for p in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so", "libLLVM-18.so", "libLLVM.so.18.1"):
            try:
                _lib = ctypes.CDLL(p)
                break
            except OSError:
                continue
        if _lib is None:
            raise RuntimeError("libLLVM-18 not found")
        P = ctypes.c_void_p
        U = ctypes.c_uint
        L = _lib

        def d(name, res, *args):
            f = getattr(L, name)
            f.restype = res
            f.argtypes = args
        d("LLVMContextCreate", P)
        d("LLVMCreateMemoryBufferWithContentsOfFile", ctypes.c_int, ctypes.c_char_p, ctypes.POINTER(P), ctypes.POINTER(ctypes.c_char_p))
        d("LLVMParseBitcodeInContext2", ctypes.c_int, P, P, ctypes.POINTER(P))
        for n in ("LLVMGetFirstFunction", "LLVMGetNextFunction", "LLVMGetFirstGlobal", "LLVMGetNextGlobal", "LLVMGetFirstBasicBlock",
                  "LLVMGetNextBasicBlock", "LLVMGetFirstInstruction", "LLVMGetNextInstruction", "LLVMTypeOf", "LLVMGetInitializer",
                  "LLVMGlobalGetValueType", "LLVMGetElementType", "LLVMGetReturnType", "LLVMGetCalledValue", "LLVMGetCalledFunctionType",
                  "LLVMGetAllocatedType", "LLVMGetGEPSourceElementType", "LLVMGetFirstParam", "LLVMGetNextParam", "LLVMBasicBlockAsValue",
                  "LLVMValueAsBasicBlock", "LLVMGetModuleDataLayout", "LLVMGetNormalDest", "LLVMGetUnwindDest", "LLVMGetSwitchDefaultDest",
                  "LLVMGetCondition", "LLVMAliasGetAliasee"):
            d(n, P, P)
        for n in ("LLVMGetOperand", "LLVMGetIncomingValue", "LLVMGetIncomingBlock", "LLVMGetSuccessor", "LLVMStructGetTypeAtIndex",
                  "LLVMGetElementAsConstant", "LLVMGetAggregateElement"):
            d(n, P, P, U)
        for n in ("LLVMGetInstructionOpcode", "LLVMGetValueKind", "LLVMGetTypeKind", "LLVMGetIntTypeWidth", "LLVMCountIncoming",
                  "LLVMGetNumSuccessors", "LLVMCountStructElementTypes", "LLVMGetArrayLength", "LLVMGetICmpPredicate", "LLVMIsDeclaration",
                  "LLVMGetNumIndices", "LLVMIsConditional", "LLVMGetDebugLocLine", "LLVMGetConstOpcode", "LLVMIsGlobalConstant",
                  "LLVMGetVectorSize", "LLVMIsThreadLocal", "LLVMGetLinkage", "LLVMGetNUW", "LLVMGetNSW", "LLVMIsPackedStruct",
                  "LLVMGetNumMaskElements", "LLVMIsConstantString"):
            d(n, ctypes.c_int, P)
        d("LLVMGetNumOperands", ctypes.c_int, P)
        d("LLVMGetNumArgOperands", U, P)
        d("LLVMGetMaskValue", ctypes.c_int, P, U)
        d("LLVMGetIndices", ctypes.POINTER(U), P)
        d("LLVMConstIntGetZExtValue", ctypes.c_ulonglong, P)
        d("LLVMGetValueName2", ctypes.c_char_p, P, ctypes.POINTER(ctypes.c_size_t))
        d("LLVMGetDebugLocFilename", ctypes.c_void_p, P, ctypes.POINTER(U))
        d("LLVMOffsetOfElement", ctypes.c_ulonglong, P, P, U)
        d("LLVMABISizeOfType", ctypes.c_ulonglong, P, P)
        d("LLVMStoreSizeOfType", ctypes.c_ulonglong, P, P)
        d("LLVMABIAlignmentOfType", U, P, P)
        d("LLVMGetAlignment", U, P)
        d("LLVMPrintValueToString", ctypes.c_void_p, P)
        d("LLVMGetAsString", ctypes.c_void_p, P, ctypes.POINTER(ctypes.c_size_t))
        d("LLVMGetStructName", ctypes.c_char_p, P)
        d("LLVMGetSubprogram", P, P)
        d("LLVMDISubprogramGetLine", U, P)
    return _lib


OPC = {1: "ret", 2: "br", 3: "switch", 5: "invoke", 7: "unreachable", 8: "add", 10: "sub", 12: "mul", 14: "udiv", 15: "sdiv",
       17: "urem", 18: "srem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load",
       28: "store", 29: "gep", 30: "trunc", 31: "zext", 32: "sext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 42: "icmp",
       44: "phi", 45: "call", 46: "select", 50: "extractelement", 51: "insertelement", 52: "shufflevector", 53: "extractvalue",
       54: "insertvalue", 68: "freeze", 58: "resume", 59: "landingpad", 55: "fence", 43: "fcmp", 66: "fneg", 9: "fadd", 11: "fsub",
       13: "fmul", 16: "fdiv", 38: "fpext", 37: "fptrunc", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp", 57: "atomicrmw",
       56: "cmpxchg"}
PRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}


class Type(object):
    __slots__ = ("kind", "w", "elems", "elem", "n", "size", "align", "offs", "ret", "name")
    # kind: void int ptr struct array func vector float label meta

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.w if self.kind == "int" else self.n if self.kind == "array" else "")


class Val(object):
    """constant or reference"""
    __slots__ = ("k", "ty", "v", "ops")
    # k: int null undef func global arg inst block zero array struct data expr meta

    def __repr__(self):
        return "%s:%s" % (self.k, self.v)


class Inst(object):
    __slots__ = ("op", "ty", "ops", "x", "line", "file", "blk", "idx", "name", "key", "fn", "nuw", "nsw")

    def where(self):
        return "%s:%s" % (os.path.basename(self.file) if self.file else "?", self.line)


class Block(object):
    __slots__ = ("name", "insts", "idx", "succ", "fn", "line")


class Func(object):
    def __init__(self):
        self.blocks = None
        self.params = []


class Global(object):
    pass


class Module(object):
    def __init__(self, path):
        L = lib()
        self.L = L
        ctx = L.LLVMContextCreate()
        buf = ctypes.c_void_p()
        err = ctypes.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), ctypes.byref(buf), ctypes.byref(err)):
            raise RuntimeError("cannot read " + path)
        m = ctypes.c_void_p()
        if L.LLVMParseBitcodeInContext2(ctx, buf, ctypes.byref(m)):
            raise RuntimeError("cannot parse " + path)
        self.m = m
        self.td = L.LLVMGetModuleDataLayout(m)
        self._types = {}
        self.functions = {}
        self.globals = {}
        self._vals = {}
        f = L.LLVMGetFirstFunction(m)
        while f:
            fn = Func()
            fn.name = self._name(f)
            fn.ptr = f
            fn.mod = self
            fn.decl = bool(L.LLVMIsDeclaration(f))
            fn.linkage = L.LLVMGetLinkage(f)
            fn.fty = self.ty(L.LLVMGlobalGetValueType(f))
            self.functions[fn.name] = fn
            self._vals[f] = self._val("func", None, fn.name)
            f = L.LLVMGetNextFunction(f)
        g = L.LLVMGetFirstGlobal(m)
        while g:
            gl = Global()
            gl.name = self._name(g)
            gl.ptr = g
            gl.const = bool(L.LLVMIsGlobalConstant(g))
            gl.ty = self.ty(L.LLVMGlobalGetValueType(g))
            gl.decl = bool(L.LLVMIsDeclaration(g))
            gl.tls = bool(L.LLVMIsThreadLocal(g))
            gl.linkage = L.LLVMGetLinkage(g)
            self.globals[gl.name] = gl
            self._vals[g] = self._val("global", None, gl.name)
            g = L.LLVMGetNextGlobal(g)
        for gl in self.globals.values():
            i = None if gl.decl else L.LLVMGetInitializer(gl.ptr)
            gl.init = self.val(i) if i else None

    def _val(self, k, ty, v, ops=None):
        r = Val()
        r.k = k
        r.ty = ty
        r.v = v
        r.ops = ops
        return r

    def _name(self, v):
        n = ctypes.c_size_t()
        return (self.L.LLVMGetValueName2(v, ctypes.byref(n)) or b"").decode()

    def ty(self, p):
        t = self._types.get(p)
        if t is not None:
            return t
        L = self.L
        k = L.LLVMGetTypeKind(p)
        t = Type()
        self._types[p] = t
        t.w = t.elems = t.elem = t.n = t.size = t.align = t.offs = t.ret = t.name = None
        if k == 0:
            t.kind = "void"
        elif k == 8:
            t.kind = "int"
            t.w = L.LLVMGetIntTypeWidth(p)
        elif k == 12:
            t.kind = "ptr"
            t.w = 64
        elif k == 10:
            t.kind = "struct"
            n = L.LLVMCountStructElementTypes(p)
            t.name = (L.LLVMGetStructName(p) or b"").decode()
            t.elems = [self.ty(L.LLVMStructGetTypeAtIndex(p, i)) for i in range(n)]
            try:
                t.offs = [L.LLVMOffsetOfElement(self.td, p, i) for i in range(n)]
            except Exception:
                t.offs = None
        elif k == 11:
            t.kind = "array"
            t.n = L.LLVMGetArrayLength(p)
            t.elem = self.ty(L.LLVMGetElementType(p))
        elif k == 13:
            t.kind = "vector"
            t.n = L.LLVMGetVectorSize(p)
            t.elem = self.ty(L.LLVMGetElementType(p))
        elif k == 9:
            t.kind = "func"
            t.ret = self.ty(L.LLVMGetReturnType(p))
        elif k in (2, 3, 4):
            t.kind = "float"
        elif k == 7:
            t.kind = "label"
        else:
            t.kind = "meta"
        if t.kind in ("int", "ptr", "struct", "array", "vector", "float"):
            t.size = L.LLVMABISizeOfType(self.td, p)
            t.align = L.LLVMABIAlignmentOfType(self.td, p)
        return t

    def val(self, p):
        r = self._vals.get(p)
        if r is not None:
            return r
        L = self.L
        k = L.LLVMGetValueKind(p)
        if k == 18:
            ty = self.ty(L.LLVMTypeOf(p))
            if ty.w <= 64:
                v = L.LLVMConstIntGetZExtValue(p)
            else:
                s = ctypes.string_at(L.LLVMPrintValueToString(p)).decode().split()[1]
                v = int(s) & ((1 << ty.w) - 1)
            r = self._val("int", ty, v)
        elif k == 20:
            r = self._val("null", self.ty(L.LLVMTypeOf(p)), 0)
        elif k in (14, 25):
            r = self._val("undef", self.ty(L.LLVMTypeOf(p)), None)
        elif k == 15:
            r = self._val("zero", self.ty(L.LLVMTypeOf(p)), None)
        elif k in (11, 12, 13):
            n = L.LLVMGetNumOperands(p)
            r = self._val("agg", self.ty(L.LLVMTypeOf(p)), None, [self.val(L.LLVMGetOperand(p, i)) for i in range(n)])
        elif k in (16, 17):
            ty = self.ty(L.LLVMTypeOf(p))
            r = self._val("agg", ty, None, [self.val(L.LLVMGetElementAsConstant(p, i)) for i in range(ty.n)])
        elif k == 10:
            op = OPC.get(L.LLVMGetConstOpcode(p))
            n = L.LLVMGetNumOperands(p)
            r = self._val("expr", self.ty(L.LLVMTypeOf(p)), op, [self.val(L.LLVMGetOperand(p, i)) for i in range(n)])
            if op == "gep":
                r.v = ("gep", self.ty(L.LLVMGetGEPSourceElementType(p)))
            else:
                r.v = (op, None)
        elif k == 22:
            r = self._val("meta", None, None)
        elif k == 23:
            r = self._val("asm", None, ctypes.string_at(L.LLVMPrintValueToString(p)).decode())
        elif k == 6:
            r = self.val(L.LLVMAliasGetAliasee(p))
        elif k in (0, 1, 24):
            raise RuntimeError("local value outside function")
        elif k == 19:
            r = self._val("float", self.ty(L.LLVMTypeOf(p)), None)
        else:
            r = self._val("other", None, k)
        self._vals[p] = r
        return r

    def body(self, fn):
        """Convert the body of a function on first use."""
        if fn.blocks is not None:
            return fn
        L = self.L
        fn.blocks = []
        fn.pnames = []
        local = {}
        p = L.LLVMGetFirstParam(fn.ptr)
        i = 0
        while p:
            v = self._val("arg", self.ty(L.LLVMTypeOf(p)), i)
            fn.params.append(v)
            fn.pnames.append(self._name(p))
            local[p] = v
            p = L.LLVMGetNextParam(p)
            i += 1
        bmap = {}
        raw = []
        b = L.LLVMGetFirstBasicBlock(fn.ptr)
        cnt = 0
        while b:
            blk = Block()
            blk.idx = len(fn.blocks)
            blk.insts = []
            blk.fn = fn
            fn.blocks.append(blk)
            bmap[b] = blk
            q = L.LLVMGetFirstInstruction(b)
            while q:
                ins = Inst()
                ins.blk = blk
                ins.idx = len(blk.insts)
                ins.fn = fn
                ins.key = cnt
                cnt += 1
                blk.insts.append(ins)
                v = self._val("inst", None, ins)
                local[q] = v
                raw.append((q, ins, v))
                q = L.LLVMGetNextInstruction(q)
            b = L.LLVMGetNextBasicBlock(b)
        un = ctypes.c_uint()
        fcache = {}

        def opv(x):
            r = local.get(x)
            if r is not None:
                return r
            if L.LLVMGetValueKind(x) == 1:
                return self._val("block", None, bmap[L.LLVMValueAsBasicBlock(x)])
            return self.val(x)
        for q, ins, v in raw:
            oc = L.LLVMGetInstructionOpcode(q)
            ins.op = op = OPC.get(oc, "op%d" % oc)
            ins.ty = v.ty = self.ty(L.LLVMTypeOf(q))
            ins.x = None
            ins.nuw = ins.nsw = 0
            ins.line = L.LLVMGetDebugLocLine(q)
            fp = L.LLVMGetDebugLocFilename(q, ctypes.byref(un))
            if fp:
                ins.file = fcache.get(fp)
                if ins.file is None:
                    ins.file = fcache[fp] = ctypes.string_at(fp, un.value).decode()
            else:
                ins.file = ""
            n = L.LLVMGetNumOperands(q)
            if op == "phi":
                m = L.LLVMCountIncoming(q)
                ins.ops = [opv(L.LLVMGetIncomingValue(q, i)) for i in range(m)]
                ins.x = [bmap[L.LLVMGetIncomingBlock(q, i)] for i in range(m)]
                continue
            if op in ("call", "invoke"):
                na = L.LLVMGetNumArgOperands(q)
                ins.ops = [opv(L.LLVMGetOperand(q, i)) for i in range(na)]
                callee = opv(L.LLVMGetCalledValue(q))
                if op == "invoke":
                    ins.x = (callee, bmap[L.LLVMGetNormalDest(q)], bmap[L.LLVMGetUnwindDest(q)])
                else:
                    ins.x = (callee, None, None)
                continue
            if op == "br":
                ns = L.LLVMGetNumSuccessors(q)
                ins.x = [bmap[L.LLVMGetSuccessor(q, i)] for i in range(ns)]
                ins.ops = [opv(L.LLVMGetOperand(q, 0))] if ns == 2 else []
                continue
            if op == "switch":
                ns = L.LLVMGetNumSuccessors(q)
                ins.ops = [opv(L.LLVMGetOperand(q, 0))]
                dests = [bmap[L.LLVMGetSuccessor(q, i)] for i in range(ns)]
                cases = []
                for i in range(1, ns):
                    cases.append((self.val(L.LLVMGetOperand(q, 2 * i)).v, dests[i]))
                ins.x = (dests[0], cases)
                continue
            ins.ops = [opv(L.LLVMGetOperand(q, i)) for i in range(n)]
            if op == "icmp":
                ins.x = PRED[L.LLVMGetICmpPredicate(q)]
            elif op == "alloca":
                ins.x = self.ty(L.LLVMGetAllocatedType(q))
            elif op == "gep":
                ins.x = self.ty(L.LLVMGetGEPSourceElementType(q))
            elif op in ("extractvalue", "insertvalue"):
                k = L.LLVMGetNumIndices(q)
                pi = L.LLVMGetIndices(q)
                ins.x = [pi[i] for i in range(k)]
            elif op == "shufflevector":
                k = L.LLVMGetNumMaskElements(q)
                ins.x = [L.LLVMGetMaskValue(q, i) for i in range(k)]
            elif op in ("load", "store"):
                ins.x = L.LLVMGetAlignment(q)
            elif op in ("add", "sub", "mul", "shl"):
                ins.nsw = L.LLVMGetNSW(q)
                ins.nuw = L.LLVMGetNUW(q)
        for blk in fn.blocks:
            t = blk.insts[-1]
            if t.op == "br":
                blk.succ = list(t.x)
            elif t.op == "switch":
                blk.succ = [t.x[0]] + [d for _, d in t.x[1]]
            elif t.op == "invoke":
                blk.succ = [t.x[1], t.x[2]]
            else:
                blk.succ = []
        return fn
