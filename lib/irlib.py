"""Reads LLVM bitcode through the LLVM-C API (ctypes) into plain Python objects."""
import ctypes, ctypes.util, os, subprocess, sys, tempfile, shutil
from ctypes import c_void_p, c_char_p, c_uint, c_int, c_ulonglong, c_size_t, byref, POINTER, c_longlong

_L = ctypes.CDLL("/usr/lib/llvm-18/lib/libLLVM-18.so")

def _f(name, res, *args):
    fn = getattr(_L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn

P = c_void_p
CreateMemBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", c_int, c_char_p, POINTER(P), POINTER(c_char_p))
ParseBC = _f("LLVMParseBitcode2", c_int, P, POINTER(P))
WriteBC = _f("LLVMWriteBitcodeToFile", c_int, P, c_char_p)
FirstFn = _f("LLVMGetFirstFunction", P, P)
NextFn = _f("LLVMGetNextFunction", P, P)
FirstGlob = _f("LLVMGetFirstGlobal", P, P)
NextGlob = _f("LLVMGetNextGlobal", P, P)
GetInit = _f("LLVMGetInitializer", P, P)
IsDecl = _f("LLVMIsDeclaration", c_int, P)
IsGlobConst = _f("LLVMIsGlobalConstant", c_int, P)
ValName = _f("LLVMGetValueName2", P, P, POINTER(c_size_t))
CountParams = _f("LLVMCountParams", c_uint, P)
GetParam = _f("LLVMGetParam", P, P, c_uint)
FirstBB = _f("LLVMGetFirstBasicBlock", P, P)
NextBB = _f("LLVMGetNextBasicBlock", P, P)
FirstI = _f("LLVMGetFirstInstruction", P, P)
NextI = _f("LLVMGetNextInstruction", P, P)
GetOpc = _f("LLVMGetInstructionOpcode", c_int, P)
NumOps = _f("LLVMGetNumOperands", c_int, P)
GetOp = _f("LLVMGetOperand", P, P, c_uint)
TypeOf = _f("LLVMTypeOf", P, P)
TypeKind = _f("LLVMGetTypeKind", c_int, P)
IntWidth = _f("LLVMGetIntTypeWidth", c_uint, P)
VKind = _f("LLVMGetValueKind", c_int, P)
ZExt = _f("LLVMConstIntGetZExtValue", c_ulonglong, P)
ICmpPred = _f("LLVMGetICmpPredicate", c_int, P)
FCmpPred = _f("LLVMGetFCmpPredicate", c_int, P)
GEPSrc = _f("LLVMGetGEPSourceElementType", P, P)
AllocTy = _f("LLVMGetAllocatedType", P, P)
CalledVal = _f("LLVMGetCalledValue", P, P)
NumArgs = _f("LLVMGetNumArgOperands", c_uint, P)
CountInc = _f("LLVMCountIncoming", c_uint, P)
IncVal = _f("LLVMGetIncomingValue", P, P, c_uint)
IncBB = _f("LLVMGetIncomingBlock", P, P, c_uint)
NumSucc = _f("LLVMGetNumSuccessors", c_uint, P)
GetSucc = _f("LLVMGetSuccessor", P, P, c_uint)
IsCond = _f("LLVMIsConditional", c_int, P)
GetCond = _f("LLVMGetCondition", P, P)
BBTerm = _f("LLVMGetBasicBlockTerminator", P, P)
DLoc = _f("LLVMInstructionGetDebugLoc", P, P)
DInl = _f("LLVMDILocationGetInlinedAt", P, P)
DScope = _f("LLVMDILocationGetScope", P, P)
DLocLine = _f("LLVMDILocationGetLine", c_uint, P)
DFileOf = _f("LLVMDIScopeGetFile", P, P)
DFileName = _f("LLVMDIFileGetFilename", P, P, POINTER(c_uint))
DLLine = _f("LLVMGetDebugLocLine", c_uint, P)
DLFile = _f("LLVMGetDebugLocFilename", P, P, POINTER(c_uint))
ModDL = _f("LLVMGetModuleDataLayout", P, P)
ABISize = _f("LLVMABISizeOfType", c_ulonglong, P, P)
OffElem = _f("LLVMOffsetOfElement", c_ulonglong, P, P, c_uint)
ElemTy = _f("LLVMGetElementType", P, P)
StructElem = _f("LLVMStructGetTypeAtIndex", P, P, c_uint)
StructName = _f("LLVMGetStructName", c_char_p, P)
ConstOpc = _f("LLVMGetConstOpcode", c_int, P)
NumIdx = _f("LLVMGetNumIndices", c_uint, P)
GetIdx = _f("LLVMGetIndices", POINTER(c_uint), P)
AtomOp = _f("LLVMGetAtomicRMWBinOp", c_int, P)
Ordering = _f("LLVMGetOrdering", c_int, P)
CXSucc = _f("LLVMGetCmpXchgSuccessOrdering", c_int, P)
CXFail = _f("LLVMGetCmpXchgFailureOrdering", c_int, P)
IsVolatile = _f("LLVMGetVolatile", c_int, P)
SetLinkage = _f("LLVMSetLinkage", None, P, c_int)
GetLinkage = _f("LLVMGetLinkage", c_int, P)
AttrKind = _f("LLVMGetEnumAttributeKindForName", c_uint, c_char_p, c_size_t)
CreateAttr = _f("LLVMCreateEnumAttribute", P, P, c_uint, c_ulonglong)
AddAttr = _f("LLVMAddAttributeAtIndex", None, P, c_uint, P)
RemAttr = _f("LLVMRemoveEnumAttributeAtIndex", None, P, c_uint, c_uint)
GetAttr = _f("LLVMGetEnumAttributeAtIndex", P, P, c_uint, c_uint)
CSRemAttr = _f("LLVMRemoveCallSiteEnumAttribute", None, P, c_uint, c_uint)
ModCtx = _f("LLVMGetModuleContext", P, P)
DelBody = _f("LLVMDeleteFunction", None, P)
PrintVal = _f("LLVMPrintValueToString", P, P)
DispMsg = _f("LLVMDisposeMessage", None, P)
DispMod = _f("LLVMDisposeModule", None, P)
ConstAgg = _f("LLVMGetAggregateElement", P, P, c_uint)
ArrLen = _f("LLVMGetArrayLength2", c_ulonglong, P)
IsConstStr = _f("LLVMIsConstantString", c_int, P)
ConstRaw = _f("LLVMConstRealGetDouble", ctypes.c_double, P, POINTER(c_int))
CountStruct = _f("LLVMCountStructElementTypes", c_uint, P)
FnAttrIdx = 0xFFFFFFFF

OPN = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 67: "callbr", 66: "fneg",
       8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv",
       17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor",
       26: "alloca", 27: "load", 28: "store", 29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui",
       34: "fptosi", 35: "uitofp", 36: "sitofp", 37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr",
       41: "bitcast", 60: "addrspacecast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call", 46: "select",
       50: "extractelement", 51: "insertelement", 52: "shufflevector", 53: "extractvalue", 54: "insertvalue",
       68: "freeze", 55: "fence", 56: "cmpxchg", 57: "atomicrmw"}
PRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
ORD = {0: "notatomic", 1: "unordered", 2: "monotonic", 4: "acquire", 5: "release", 6: "acq_rel", 7: "seq_cst"}
RMW = {0: "xchg", 1: "add", 2: "sub", 3: "and", 4: "nand", 5: "or", 6: "xor"}


def vname(v):
    n = c_size_t()
    p = ValName(v, byref(n))
    return ctypes.string_at(p, n.value).decode("utf8", "replace") if n.value else ""


class Ty:
    """kind: int/ptr/float/double/void/struct/array/vector/other; bits for ints; size in bytes"""
    __slots__ = ("kind", "bits", "size", "ref", "name")

    def __repr__(self):
        return self.kind + (str(self.bits) if self.kind == "int" else "")


class Val:
    """operand: kind in inst,arg,const(int),null,undef,glob,fn,cexpr,fp,other"""
    __slots__ = ("kind", "v", "ty", "extra")

    def __init__(self, kind, v, ty, extra=None):
        self.kind, self.v, self.ty, self.extra = kind, v, ty, extra

    def __repr__(self):
        return f"{self.kind}:{self.v if not isinstance(self.v, Inst) else '%' + str(self.v.id)}"


class Inst:
    __slots__ = ("id", "op", "ops", "ty", "bb", "line", "file", "pred", "callee", "gep", "succs", "inc", "aty",
                 "idx", "rmw", "order", "order2", "ref", "volatile", "fn", "dbg", "gty")

    def __repr__(self):
        return f"%{self.id}={self.op}"

    def loc(self):
        return f"{self.file}:{self.line}" if self.line else f"{self.fn.short}:?"


class Block:
    __slots__ = ("id", "insts", "succs", "preds", "fn", "ref")

    def __repr__(self):
        return f"bb{self.id}"


class Fn:
    __slots__ = ("name", "dem", "args", "blocks", "decl", "ref", "mod", "short", "rettyp")

    def __repr__(self):
        return f"fn<{self.dem}>"


def demangle_all(names):
    if not names:
        return {}
    out = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
    return dict(zip(names, out))


class Module:
    def __init__(self, path, only=None):
        buf = P()
        msg = c_char_p()
        if CreateMemBuf(path.encode(), byref(buf), byref(msg)):
            raise RuntimeError("cannot read " + path)
        m = P()
        if ParseBC(buf, byref(m)):
            raise RuntimeError("cannot parse " + path)
        self.ref = m
        self.td = ModDL(m)
        self.tycache = {}
        self.fns = {}
        raw = []
        f = FirstFn(m)
        while f:
            raw.append((vname(f), f))
            f = NextFn(f)
        dem = demangle_all([n for n, _ in raw])
        self.dem = dem
        self.globs = {}
        g = FirstGlob(m)
        while g:
            self.globs[vname(g)] = g
            g = NextGlob(g)
        for n, f in raw:
            fo = Fn()
            fo.name, fo.ref, fo.mod = n, f, self
            fo.dem = dem.get(n, n)
            fo.short = fo.dem.split("(")[0]
            fo.decl = bool(IsDecl(f))
            fo.blocks = None
            fo.args = [self.ty(TypeOf(GetParam(f, i))) for i in range(CountParams(f))]
            self.fns[n] = fo

    def ty(self, t):
        r = self.tycache.get(t)
        if r is None:
            r = Ty()
            k = TypeKind(t)
            r.ref = t
            r.bits = 0
            r.size = 0
            r.name = None
            r.kind = {0: "void", 2: "float", 3: "double", 7: "label", 8: "int", 9: "fn", 10: "struct", 11: "array",
                      12: "ptr", 13: "vector", 14: "metadata"}.get(k, "other")
            if k == 8:
                r.bits = IntWidth(t)
                r.size = (r.bits + 7) // 8
            elif k in (2, 3, 10, 11, 12, 13):
                if k == 10:
                    nm = StructName(t)
                    r.name = nm.decode() if nm else None
                try:
                    r.size = ABISize(self.td, t)
                except Exception:
                    r.size = 0
            self.tycache[t] = r
        return r

    def dump(self, fo):
        p = PrintVal(fo.ref)
        s = ctypes.string_at(p).decode("utf8", "replace")
        return s

    def body(self, name):
        fo = self.fns[name]
        if fo.blocks is not None or fo.decl:
            return fo
        fo.blocks = []
        bmap = {}
        imap = {}
        argmap = {GetParam(fo.ref, i): i for i in range(len(fo.args))}
        bb = FirstBB(fo.ref)
        n = 0
        pend = []
        while bb:
            b = Block()
            b.id = len(fo.blocks)
            b.fn = fo
            b.ref = bb
            b.insts = []
            b.preds = []
            b.succs = []
            fo.blocks.append(b)
            bmap[bb] = b
            i = FirstI(bb)
            while i:
                o = Inst()
                o.id = n
                n += 1
                o.ref = i
                o.fn = fo
                o.op = OPN.get(GetOpc(i), "op%d" % GetOpc(i))
                o.bb = b
                o.ty = self.ty(TypeOf(i))
                o.callee = None
                o.pred = o.gep = o.succs = o.inc = o.aty = o.idx = o.rmw = o.order = o.order2 = None
                o.volatile = False
                o.dbg = False
                o.line = DLLine(i)
                if o.line:
                    ln = c_uint()
                    p = DLFile(i, byref(ln))
                    o.file = ctypes.string_at(p, ln.value).decode() if p else "?"
                    o.file = os.path.relpath(o.file, "/repo") if o.file.startswith("/repo") else o.file
                else:
                    o.file = "?"
                imap[i] = o
                pend.append((i, o))
                b.insts.append(o)
                i = NextI(i)
            bb = NextBB(bb)

        def conv(v):
            if v in imap:
                o = imap[v]
                return Val("inst", o, o.ty)
            if v in argmap:
                return Val("arg", argmap[v], self.ty(TypeOf(v)))
            return self.const(v)

        self_conv = conv
        for i, o in pend:
            op = o.op
            if op == "br":
                t = BBTerm(o.bb.ref)
                ns = NumSucc(i)
                o.succs = [bmap[GetSucc(i, k)] for k in range(ns)]
                o.ops = [conv(GetCond(i))] if IsCond(i) else []
            elif op == "switch":
                ns = NumSucc(i)
                o.succs = [bmap[GetSucc(i, k)] for k in range(ns)]
                # operands: cond, default, (val, bb)*
                o.ops = [conv(GetOp(i, 0))]
                o.idx = [self.const(GetOp(i, 2 * k)).v for k in range(1, ns)]
            elif op == "phi":
                o.ops = []
                o.inc = [(bmap[IncBB(i, k)], conv(IncVal(i, k))) for k in range(CountInc(i))]
            elif op in ("call", "invoke"):
                cv = CalledVal(i)
                o.ops = [conv(GetOp(i, k)) for k in range(NumArgs(i))]
                c = conv(cv)
                o.callee = c
                if op == "invoke":
                    o.succs = [bmap[GetSucc(i, k)] for k in range(NumSucc(i))]
                if c.kind == "fn" and (c.v.startswith("llvm.dbg") or c.v.startswith("llvm.lifetime")
                                       or c.v.startswith("llvm.experimental.noalias")):
                    o.dbg = True
            else:
                o.ops = [conv(GetOp(i, k)) for k in range(NumOps(i))]
                if op == "icmp":
                    o.pred = PRED.get(ICmpPred(i))
                elif op == "gep":
                    o.gep = self.gepparts(GEPSrc(i), o.ops)
                    o.gty = getattr(self.ty(GEPSrc(i)), "name", None)
                elif op == "alloca":
                    o.aty = self.ty(AllocTy(i))
                elif op in ("extractvalue", "insertvalue"):
                    ni = NumIdx(i)
                    ip = GetIdx(i)
                    o.idx = tuple(ip[k] for k in range(ni))
                elif op == "atomicrmw":
                    o.rmw = RMW.get(AtomOp(i), "rmw")
                    o.order = ORD.get(Ordering(i))
                elif op == "cmpxchg":
                    o.order = ORD.get(CXSucc(i))
                    o.order2 = ORD.get(CXFail(i))
                elif op in ("load", "store"):
                    o.order = ORD.get(Ordering(i))
                    o.volatile = bool(IsVolatile(i))
                elif op == "fence":
                    o.order = ORD.get(Ordering(i))
        for b in fo.blocks:
            t = b.insts[-1]
            if t.succs:
                b.succs = list(t.succs)
                for s in t.succs:
                    if b not in s.preds:
                        s.preds.append(b)
        return fo

    def gepparts(self, srcty, ops):
        """-> (base Val, const offset, [(Val, scale)])"""
        base = ops[0]
        off = 0
        var = []
        t = srcty
        first = True
        for ix in ops[1:]:
            if first:
                sz = self.ty(t).size
                first = False
            else:
                k = TypeKind(t)
                if k == 10:
                    off += OffElem(self.td, t, ix.v)
                    t = StructElem(t, ix.v)
                    continue
                t = ElemTy(t)
                sz = self.ty(t).size
            if ix.kind == "const":
                b = ix.ty.bits
                v = ix.v
                if v >= 1 << (b - 1):
                    v -= 1 << b
                off += v * sz
            else:
                var.append((ix, sz))
        return (base, off, var)

    def const(self, v):
        k = VKind(v)
        t = self.ty(TypeOf(v))
        # LLVMValueKind: 0 Argument,1 BB,2 MemUse,3 MemDef,4 MemPhi,5 Function,6 Alias,7 IFunc,8 GlobalVar,
        # 9 BlockAddr,10 ConstExpr,11 ConstArray,12 ConstStruct,13 ConstVector,14 Undef,15 AggZero,16 DataArray,
        # 17 DataVector,18 Int,19 FP,20 PtrNull,21 TokenNone,22 Metadata,23 InlineAsm,24 Inst,25 Poison,26 TargetNone
        if k == 18:
            if t.bits <= 64:
                return Val("const", ZExt(v), t)
            p = PrintVal(v)
            s = ctypes.string_at(p).decode().split()[-1]
            DispMsg(p)
            try:
                return Val("const", int(s) & ((1 << t.bits) - 1), t)
            except ValueError:
                return Val("other", "bigint", t)
        if k == 20:
            return Val("null", 0, t)
        if k in (14, 25):
            return Val("undef", 0, t)
        if k == 5:
            return Val("fn", vname(v), t)
        if k == 8:
            return Val("glob", vname(v), t)
        if k == 10:
            opc = OPN.get(ConstOpc(v), "?")
            ops = [self.const(GetOp(v, j)) for j in range(NumOps(v))]
            if opc == "gep":
                return Val("cexpr", "gep", t, self.gepparts(GEPSrc(v), ops))
            return Val("cexpr", opc, t, ops)
        if k == 19:
            li = c_int()
            return Val("fp", ConstRaw(v, byref(li)), t)
        if k == 15:
            return Val("aggzero", 0, t)
        if k == 23:
            return Val("asm", "asm", t)
        if k == 22:
            return Val("meta", "meta", t)
        return Val("other", k, t, v)


def prep(bc_in, bc_out, inline_pred, entry_pred, passes, drop_unreached=True, inline_entries=False):
    """Marks functions for inlining, internalises the rest, and runs light clean-up passes."""
    buf = P()
    msg = c_char_p()
    if CreateMemBuf(bc_in.encode(), byref(buf), byref(msg)):
        raise RuntimeError("cannot read " + bc_in)
    m = P()
    if ParseBC(buf, byref(m)):
        raise RuntimeError("cannot parse " + bc_in)
    ctx = ModCtx(m)
    ka = AttrKind(b"alwaysinline", 12)
    kn = AttrKind(b"noinline", 8)
    ko = AttrKind(b"optnone", 7)
    names = []
    f = FirstFn(m)
    while f:
        names.append((vname(f), f))
        f = NextFn(f)
    dem = demangle_all([n for n, _ in names])
    for n, f in names:
        if IsDecl(f):
            continue
        d = dem[n]
        RemAttr(f, FnAttrIdx, ko)
        if entry_pred(n, d):
            SetLinkage(f, 0)
            RemAttr(f, FnAttrIdx, ka)
            RemAttr(f, FnAttrIdx, kn)
            AddAttr(f, FnAttrIdx, CreateAttr(ctx, ka if inline_entries else kn, 0))
        elif inline_pred(n, d):
            RemAttr(f, FnAttrIdx, kn)
            AddAttr(f, FnAttrIdx, CreateAttr(ctx, ka, 0))
            SetLinkage(f, 8)
        else:
            RemAttr(f, FnAttrIdx, ka)
            AddAttr(f, FnAttrIdx, CreateAttr(ctx, kn, 0))
            SetLinkage(f, 8)
    # call-site noinline attributes would defeat the inliner
    for n, f in names:
        if IsDecl(f):
            continue
        bb = FirstBB(f)
        while bb:
            i = FirstI(bb)
            while i:
                if GetOpc(i) == 45:
                    CSRemAttr(i, FnAttrIdx, kn)
                i = NextI(i)
            bb = NextBB(bb)
    tmp = bc_out + ".tmp"
    WriteBC(m, tmp.encode())
    DispMod(m)
    r = subprocess.run(["opt-18", "-passes=" + passes, tmp, "-o", bc_out], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("opt failed: " + r.stderr[:2000])
    os.unlink(tmp)


def inlined_at(i):
    """[(file, line)] of the calls through which an inlined instruction came here, innermost first"""
    r = []
    d = DLoc(i.ref)
    while d:
        d = DInl(d)
        if d:
            n = c_uint()
            p = DFileName(DFileOf(DScope(d)), ctypes.byref(n))
            f = ctypes.string_at(p, n.value).decode() if p else "?"
            r.append((os.path.relpath(f, "/repo") if f.startswith("/repo") else f, DLocLine(d)))
    return r
