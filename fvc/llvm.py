"""Decoding of LLVM bitcode through the LLVM-C API (ctypes on libLLVM-18)."""
import ctypes as C
import os

_CANDS = ["/usr/lib/llvm-18/lib/libLLVM.so.1", "/usr/lib/llvm-18/lib/libLLVM-18.so", "libLLVM-18.so.1",
          "libLLVM.so.18.1"]
L = None
for _c in _CANDS:
    try:
        L = C.CDLL(_c)
        break
    except OSError:
        pass
if L is None:
    raise RuntimeError("libLLVM-18 not found")

P = C.c_void_p


def _f(name, res, *args):
    f = getattr(L, name)
    f.restype = res
    f.argtypes = list(args)
    return f


ContextCreate = _f("LLVMContextCreate", P)
BufFile = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseBC = _f("LLVMParseBitcodeInContext2", C.c_int, P, P, C.POINTER(P))
FirstFn = _f("LLVMGetFirstFunction", P, P)
NextFn = _f("LLVMGetNextFunction", P, P)
FirstGl = _f("LLVMGetFirstGlobal", P, P)
NextGl = _f("LLVMGetNextGlobal", P, P)
NamedFn = _f("LLVMGetNamedFunction", P, P, C.c_char_p)
ValName = _f("LLVMGetValueName2", C.c_char_p, P, C.POINTER(C.c_size_t))
IsDecl = _f("LLVMIsDeclaration", C.c_int, P)
FirstBB = _f("LLVMGetFirstBasicBlock", P, P)
NextBB = _f("LLVMGetNextBasicBlock", P, P)
FirstI = _f("LLVMGetFirstInstruction", P, P)
NextI = _f("LLVMGetNextInstruction", P, P)
Opcode = _f("LLVMGetInstructionOpcode", C.c_int, P)
NumOps = _f("LLVMGetNumOperands", C.c_int, P)
GetOp = _f("LLVMGetOperand", P, P, C.c_uint)
TypeOf = _f("LLVMTypeOf", P, P)
TypeKind = _f("LLVMGetTypeKind", C.c_int, P)
IntWidth = _f("LLVMGetIntTypeWidth", C.c_uint, P)
ElemType = _f("LLVMGetElementType", P, P)
ArrLen = _f("LLVMGetArrayLength", C.c_uint, P)
VecLen = _f("LLVMGetVectorSize", C.c_uint, P)
NStruct = _f("LLVMCountStructElementTypes", C.c_uint, P)
StructAt = _f("LLVMStructGetTypeAtIndex", P, P, C.c_uint)
DataLayout = _f("LLVMGetModuleDataLayout", P, P)
ABISize = _f("LLVMABISizeOfType", C.c_ulonglong, P, P)
OffElem = _f("LLVMOffsetOfElement", C.c_ulonglong, P, P, C.c_uint)
ValueKind = _f("LLVMGetValueKind", C.c_int, P)
IntSExt = _f("LLVMConstIntGetSExtValue", C.c_longlong, P)
RealGet = _f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
ConstOpcode = _f("LLVMGetConstOpcode", C.c_int, P)
GEPType = _f("LLVMGetGEPSourceElementType", P, P)
AllocTy = _f("LLVMGetAllocatedType", P, P)
GlobTy = _f("LLVMGlobalGetValueType", P, P)
GlobInit = _f("LLVMGetInitializer", P, P)
NumIdx = _f("LLVMGetNumIndices", C.c_uint, P)
Indices = _f("LLVMGetIndices", C.POINTER(C.c_uint), P)
MaskN = _f("LLVMGetNumMaskElements", C.c_uint, P)
MaskV = _f("LLVMGetMaskValue", C.c_int, P, C.c_uint)
CountInc = _f("LLVMCountIncoming", C.c_uint, P)
IncV = _f("LLVMGetIncomingValue", P, P, C.c_uint)
IncB = _f("LLVMGetIncomingBlock", P, P, C.c_uint)
Called = _f("LLVMGetCalledValue", P, P)
NArgs = _f("LLVMGetNumArgOperands", C.c_uint, P)
NormDest = _f("LLVMGetNormalDest", P, P)
ICmpP = _f("LLVMGetICmpPredicate", C.c_int, P)
FCmpP = _f("LLVMGetFCmpPredicate", C.c_int, P)
IsCond = _f("LLVMIsConditional", C.c_int, P)
Succ = _f("LLVMGetSuccessor", P, P, C.c_uint)
CountParams = _f("LLVMCountParams", C.c_uint, P)
GetParam = _f("LLVMGetParam", P, P, C.c_uint)
RMWOp = _f("LLVMGetAtomicRMWBinOp", C.c_int, P)
AggElem = _f("LLVMGetAggregateElement", P, P, C.c_uint)
BBAsVal = _f("LLVMBasicBlockAsValue", P, P)
ValAsBB = _f("LLVMValueAsBasicBlock", P, P)
AliasGet = _f("LLVMAliasGetAliasee", P, P)
RetType = _f("LLVMGetReturnType", P, P)

# type kinds
TK_VOID, TK_HALF, TK_FLOAT, TK_DOUBLE, TK_X86FP80 = 0, 1, 2, 3, 4
TK_LABEL, TK_INT, TK_FUNC, TK_STRUCT, TK_ARRAY, TK_PTR, TK_VECTOR, TK_META = 7, 8, 9, 10, 11, 12, 13, 14

# value kinds
VK_ARG, VK_BB = 0, 1
VK_FUNC, VK_ALIAS, VK_GVAR = 5, 6, 8
VK_INST = 25

OPN = {1: 'ret', 2: 'br', 3: 'switch', 5: 'invoke', 7: 'unreachable', 66: 'fneg', 8: 'add', 9: 'fadd', 10: 'sub',
       11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem',
       20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store',
       29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp',
       37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 60: 'addrspacecast', 42: 'icmp',
       43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 50: 'extractelement', 51: 'insertelement',
       52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw',
       58: 'resume', 59: 'landingpad', 68: 'freeze'}


def name_of(v):
    n = C.c_size_t()
    s = ValName(v, C.byref(n))
    return s.decode() if s else ""


class Ty:
    """Decoded LLVM type."""
    __slots__ = ('kind', 'size', 'width', 'elem', 'n', 'fields', 'offs', 'ref')


class Inst:
    __slots__ = ('op', 'res', 'ty', 'ops', 'x', 'block', 'pos')

    def __repr__(self):
        return "<%s %s>" % (self.op, self.x)


class Block:
    __slots__ = ('idx', 'insts', 'phis', 'succ', 'fn', 'name')


class Function:
    __slots__ = ('name', 'params', 'blocks', 'decl', 'ret', 'ref', 'mod', 'loops')

    def __repr__(self):
        return "<fn %s>" % self.name


class Const:
    """operand kinds: ('r', key) register; ('c', value) literal; ('g', name) global; ('f', name) function;
    ('gep', base operand, byte offset); ('undef', ty); ('agg', [..])"""


class Module:
    def __init__(self, path):
        self.ctx = ContextCreate()
        buf = P()
        err = C.c_char_p()
        if BufFile(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError("cannot read %s" % path)
        m = P()
        if ParseBC(self.ctx, buf, C.byref(m)):
            raise RuntimeError("cannot parse %s" % path)
        self.m = m
        self.dl = DataLayout(m)
        self.tys = {}
        self.fns = {}
        self.globs = {}
        f = FirstFn(m)
        while f:
            self.fns[name_of(f)] = f
            f = NextFn(f)
        g = FirstGl(m)
        while g:
            self.globs[name_of(g)] = g
            g = NextGl(g)
        self.decoded = {}

    def ty(self, ref):
        t = self.tys.get(ref)
        if t is not None:
            return t
        t = Ty()
        self.tys[ref] = t
        t.ref = ref
        t.kind = k = TypeKind(ref)
        t.width = t.n = 0
        t.elem = t.fields = t.offs = None
        t.size = 0
        if k == TK_INT:
            t.width = IntWidth(ref)
            t.size = ABISize(self.dl, ref)
        elif k in (TK_ARRAY, TK_VECTOR):
            t.n = ArrLen(ref) if k == TK_ARRAY else VecLen(ref)
            t.elem = self.ty(ElemType(ref))
            t.size = ABISize(self.dl, ref)
        elif k == TK_STRUCT:
            n = NStruct(ref)
            t.fields = [self.ty(StructAt(ref, i)) for i in range(n)]
            try:
                t.size = ABISize(self.dl, ref)
                t.offs = [OffElem(self.dl, ref, i) for i in range(n)]
            except Exception:
                pass
        elif k in (TK_DOUBLE, TK_FLOAT, TK_PTR, TK_X86FP80, TK_HALF):
            t.size = ABISize(self.dl, ref)
        return t

    def const(self, v):
        """Decode a constant operand."""
        k = ValueKind(v)
        if k == VK_FUNC:
            return ('f', name_of(v))
        if k == VK_GVAR:
            return ('g', name_of(v))
        if k == VK_ALIAS:
            return self.const(AliasGet(v))
        t = self.ty(TypeOf(v))
        # LLVMValueKind numbering (llvm-c/Core.h)
        # 0 Argument 1 BasicBlock 2 MemoryUse 3 MemoryDef 4 MemoryPhi 5 Function 6 GlobalAlias 7 GlobalIFunc
        # 8 GlobalVariable 9 BlockAddress 10 ConstantExpr 11 ConstantArray 12 ConstantStruct 13 ConstantVector
        # 14 Undef 15 ConstantAggregateZero 16 ConstantDataArray 17 ConstantDataVector 18 ConstantInt
        # 19 ConstantFP 20 ConstantPointerNull 21 ConstantTokenNone 22 Metadata 23 InlineAsm 24 Instruction 25 Poison
        if k == 18:
            if t.width > 64:
                return ('undef', t)
            val = IntSExt(v)
            if t.width == 1:
                return ('c', bool(val))
            return ('c', val)
        if k == 19:
            loses = C.c_int()
            return ('fc', RealGet(v, C.byref(loses)))
        if k == 20:
            return ('null',)
        if k in (14, 25):
            return ('undef', t)
        if k == 15:
            return ('zero', t)
        if k in (11, 12, 13, 16, 17):
            n = t.n if t.kind in (TK_ARRAY, TK_VECTOR) else len(t.fields)
            return ('agg', [self.const(AggElem(v, i)) for i in range(n)], t)
        if k == 10:
            op = OPN.get(ConstOpcode(v), '?')
            if op == 'gep':
                base = self.const(GetOp(v, 0))
                off = self.gep_const(v)
                return ('gepc', base, off)
            if op in ('bitcast', 'addrspacecast', 'inttoptr', 'ptrtoint'):
                return self.const(GetOp(v, 0))
            return ('undef', t)
        if k == 22:
            return ('meta',)
        return ('undef', t)

    def gep_const(self, v):
        t = self.ty(GEPType(v))
        off = 0
        n = NumOps(v)
        for i in range(1, n):
            c = self.const(GetOp(v, i))
            idx = c[1] if c[0] == 'c' else 0
            if i == 1:
                off += idx * t.size
            elif t.kind == TK_STRUCT:
                off += t.offs[idx]
                t = t.fields[idx]
            else:
                t = t.elem
                off += idx * t.size
        return off

    def operand(self, v):
        k = ValueKind(v)
        if k == 24 or k == VK_ARG:
            return ('r', v)
        if k == VK_BB:
            return ('bb', v)
        return self.const(v)

    def has(self, name):
        f = self.fns.get(name)
        return f is not None and not IsDecl(f)

    def function(self, name):
        d = self.decoded.get(name)
        if d is not None:
            return d
        ref = self.fns[name]
        F = Function()
        F.name = name
        F.ref = ref
        F.mod = self
        F.decl = bool(IsDecl(ref))
        F.params = [GetParam(ref, i) for i in range(CountParams(ref))]
        F.ret = self.ty(RetType(GlobTy(ref)))
        F.blocks = []
        F.loops = None
        self.decoded[name] = F
        if F.decl:
            return F
        bbmap = {}
        b = FirstBB(ref)
        order = []
        while b:
            B = Block()
            B.idx = len(order)
            B.insts = []
            B.phis = []
            B.succ = []
            B.fn = F
            order.append((b, B))
            bbmap[BBAsVal(b)] = B
            bbmap[b] = B
            b = NextBB(b)
        for b, B in order:
            i = FirstI(b)
            while i:
                I = self.inst(i, bbmap)
                I.block = B
                if I.op == 'phi':
                    B.phis.append(I)
                else:
                    I.pos = len(B.insts)
                    B.insts.append(I)
                i = NextI(i)
            last = B.insts[-1]
            if last.op == 'br':
                B.succ = last.x[1:] if last.x[0] else [last.x[1]]
            elif last.op == 'switch':
                B.succ = [last.x[0]] + [bb for _, bb in last.x[1]]
            elif last.op == 'invoke':
                B.succ = [last.x['normal']]
        F.blocks = [B for _, B in order]
        return F

    def inst(self, i, bbmap):
        I = Inst()
        op = OPN.get(Opcode(i), '?%d' % Opcode(i))
        I.op = op
        I.res = i
        I.ty = self.ty(TypeOf(i))
        I.x = None
        I.pos = -1
        if op == 'phi':
            I.ops = [(bbmap[IncB(i, k)].idx, self.operand(IncV(i, k))) for k in range(CountInc(i))]
            return I
        if op == 'br':
            if IsCond(i):
                I.ops = [self.operand(GetOp(i, 0))]
                I.x = [True, bbmap[Succ(i, 0)], bbmap[Succ(i, 1)]]
            else:
                I.ops = []
                I.x = [False, bbmap[Succ(i, 0)]]
            return I
        if op == 'switch':
            I.ops = [self.operand(GetOp(i, 0))]
            n = NumOps(i)
            cases = []
            for k in range(2, n, 2):
                cases.append((self.const(GetOp(i, k))[1], bbmap[GetOp(i, k + 1)]))
            I.x = (bbmap[GetOp(i, 1)], cases)
            return I
        if op in ('call', 'invoke'):
            n = NArgs(i)
            I.ops = [self.operand(GetOp(i, k)) for k in range(n)]
            I.x = {'callee': self.operand(Called(i))}
            if op == 'invoke':
                I.x['normal'] = bbmap[NormDest(i)]
            return I
        n = NumOps(i)
        I.ops = [self.operand(GetOp(i, k)) for k in range(n)]
        if op == 'gep':
            t = self.ty(GEPType(i))
            const_off = 0
            var = []
            for k in range(1, n):
                o = I.ops[k]
                if k == 1:
                    sz = t.size
                elif t.kind == TK_STRUCT:
                    const_off += t.offs[o[1]]
                    t = t.fields[o[1]]
                    continue
                else:
                    t = t.elem
                    sz = t.size
                if o[0] == 'c':
                    const_off += o[1] * sz
                elif o[0] == 'zero':
                    pass
                else:
                    var.append((o, sz))
            I.x = (const_off, var)
        elif op == 'alloca':
            I.x = self.ty(AllocTy(i))
        elif op == 'icmp':
            I.x = ICmpP(i)
        elif op == 'fcmp':
            I.x = FCmpP(i)
        elif op in ('extractvalue', 'insertvalue'):
            p = Indices(i)
            I.x = [p[k] for k in range(NumIdx(i))]
        elif op == 'shufflevector':
            I.x = [MaskV(i, k) for k in range(MaskN(i))]
        elif op == 'atomicrmw':
            I.x = RMWOp(i)
        elif op in ('zext', 'sext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'bitcast'):
            I.x = self.ty(TypeOf(GetOp(i, 0)))
        elif op == 'store':
            I.x = self.ty(TypeOf(GetOp(i, 0)))
        return I
