"""LLVM bitcode -> compact Python structures, through the LLVM-C API of the installed libLLVM-18."""
import ctypes as C, ctypes.util, struct, glob

_libs = glob.glob('/usr/lib/llvm-18/lib/libLLVM.so.1') + glob.glob('/usr/lib/x86_64-linux-gnu/libLLVM-18.so') \
    + glob.glob('/usr/lib/llvm-18/lib/libLLVM-18.so')
L = C.CDLL(_libs[0])
P = C.c_void_p
def _f(name, res, *args):
    f = getattr(L, name); f.restype = res; f.argtypes = list(args); return f

ContextCreate = _f('LLVMContextCreate', P)
CreateMB = _f('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseBC = _f('LLVMParseBitcodeInContext2', C.c_int, P, P, C.POINTER(P))
AttrKind = _f('LLVMGetEnumAttributeKindForName', C.c_uint, C.c_char_p, C.c_size_t)
AttrAt = _f('LLVMGetEnumAttributeAtIndex', P, P, C.c_uint, C.c_uint)
TypeAttr = _f('LLVMGetTypeAttributeValue', P, P)
BYVAL = AttrKind(b'byval', 5)
GetAlign = _f('LLVMGetAlignment', C.c_uint, P)
CSAttr = _f('LLVMGetCallSiteEnumAttribute', P, P, C.c_uint, C.c_uint); AttrVal = _f('LLVMGetEnumAttributeValue', C.c_uint64, P)
ALIGN = AttrKind(b'align', 5)
FirstFn = _f('LLVMGetFirstFunction', P, P); NextFn = _f('LLVMGetNextFunction', P, P)
FirstGl = _f('LLVMGetFirstGlobal', P, P); NextGl = _f('LLVMGetNextGlobal', P, P)
FirstBB = _f('LLVMGetFirstBasicBlock', P, P); NextBB = _f('LLVMGetNextBasicBlock', P, P)
FirstI = _f('LLVMGetFirstInstruction', P, P); NextI = _f('LLVMGetNextInstruction', P, P)
GetName2 = _f('LLVMGetValueName2', C.c_char_p, P, C.POINTER(C.c_size_t))
IsDecl = _f('LLVMIsDeclaration', C.c_int, P)
CountParams = _f('LLVMCountParams', C.c_uint, P); GetParam = _f('LLVMGetParam', P, P, C.c_uint)
TypeOf = _f('LLVMTypeOf', P, P)
TypeKind = _f('LLVMGetTypeKind', C.c_int, P)
IntW = _f('LLVMGetIntTypeWidth', C.c_uint, P)
ElemT = _f('LLVMGetElementType', P, P)
VecSize = _f('LLVMGetVectorSize', C.c_uint, P)
ArrLen = _f('LLVMGetArrayLength2', C.c_uint64, P)
StructN = _f('LLVMCountStructElementTypes', C.c_uint, P)
StructE = _f('LLVMStructGetTypeAtIndex', P, P, C.c_uint)
GetDL = _f('LLVMGetModuleDataLayout', P, P)
ABISize = _f('LLVMABISizeOfType', C.c_uint64, P, P)
StoreSize = _f('LLVMStoreSizeOfType', C.c_uint64, P, P)
OffElem = _f('LLVMOffsetOfElement', C.c_uint64, P, P, C.c_uint)
ValKind = _f('LLVMGetValueKind', C.c_int, P)
NumOps = _f('LLVMGetNumOperands', C.c_int, P); GetOp = _f('LLVMGetOperand', P, P, C.c_uint)
ConstZ = _f('LLVMConstIntGetZExtValue', C.c_uint64, P)
ConstReal = _f('LLVMConstRealGetDouble', C.c_double, P, C.POINTER(C.c_int))
PrintVal = _f('LLVMPrintValueToString', C.c_void_p, P)
PrintTy = _f('LLVMPrintTypeToString', C.c_void_p, P)
DispMsg = _f('LLVMDisposeMessage', None, C.c_void_p)
InstOp = _f('LLVMGetInstructionOpcode', C.c_int, P)
ConstOp = _f('LLVMGetConstOpcode', C.c_int, P)
ICmpP = _f('LLVMGetICmpPredicate', C.c_int, P); FCmpP = _f('LLVMGetFCmpPredicate', C.c_int, P)
NumSucc = _f('LLVMGetNumSuccessors', C.c_uint, P); Succ = _f('LLVMGetSuccessor', P, P, C.c_uint)
IsCond = _f('LLVMIsConditional', C.c_int, P)
CountInc = _f('LLVMCountIncoming', C.c_uint, P); IncV = _f('LLVMGetIncomingValue', P, P, C.c_uint)
IncB = _f('LLVMGetIncomingBlock', P, P, C.c_uint)
CalledVal = _f('LLVMGetCalledValue', P, P); NumArgs = _f('LLVMGetNumArgOperands', C.c_uint, P)
NumIdx = _f('LLVMGetNumIndices', C.c_uint, P); Idx = _f('LLVMGetIndices', C.POINTER(C.c_uint), P)
AllocTy = _f('LLVMGetAllocatedType', P, P)
GEPTy = _f('LLVMGetGEPSourceElementType', P, P)
NumMask = _f('LLVMGetNumMaskElements', C.c_uint, P); MaskV = _f('LLVMGetMaskValue', C.c_int, P, C.c_uint)
GetInit = _f('LLVMGetInitializer', P, P); GlobTy = _f('LLVMGlobalGetValueType', P, P)
IsGConst = _f('LLVMIsGlobalConstant', C.c_int, P)
AggElem = _f('LLVMGetAggregateElement', P, P, C.c_uint)
NormDest = _f('LLVMGetNormalDest', P, P)
BBVal = _f('LLVMBasicBlockAsValue', P, P)

OPC = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',
13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',
26:'alloca',27:'load',28:'store',29:'gep',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',
37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',
50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',55:'fence',56:'cmpxchg',
57:'atomicrmw',58:'resume',59:'landingpad',66:'fneg',68:'freeze'}
ICMP = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FCMP = ['false','oeq','ogt','oge','olt','ole','one','ord','uno','ueq','ugt','uge','ult','ule','une','true']

class Unsupported(Exception):
    pass

class Undef:
    def __repr__(self): return 'undef'
UNDEF = Undef()

class Ty:
    __slots__ = ('k', 'n', 'e', 'fields', 'offs', 'size', 'ssize')
    def __repr__(self):
        return {'i': f'i{self.n}', 'f': f'f{self.n}', 'p': 'ptr', 'void': 'void'}.get(self.k, f'{self.k}{self.n}x{self.e}')

class FC:  # float constant
    __slots__ = ('bits', 'w')
    def __init__(s, bits, w): s.bits = bits; s.w = w
    def __repr__(s): return f'fc{s.w}:{s.bits:#x}'

class Inst:
    __slots__ = ('op', 'res', 'ty', 'ops', 'x', 'oty', 'al')
    def __repr__(s): return f'%{s.res} = {s.op} {s.ty} {s.ops} {s.x}'

class Fn:
    __slots__ = ('name', 'params', 'ptys', 'blocks', 'n', 'decl', 'byval')

def _str(p):
    s = C.cast(p, C.c_char_p).value.decode(); DispMsg(p); return s

class Module:
    def __init__(self, path):
        self.ctx = ContextCreate()
        mb = P(); err = C.c_char_p()
        if CreateMB(path.encode(), C.byref(mb), C.byref(err)): raise RuntimeError(err.value)
        m = P()
        if ParseBC(self.ctx, mb, C.byref(m)): raise RuntimeError('parse ' + path)
        self.m = m; self.dl = GetDL(m)
        self._ty = {}
        self.fns = {}; self.globals = {}
        self._fnptr = {}
        g = FirstGl(m)
        while g:
            nm = self.name(g)
            init = GetInit(g)
            self.globals[nm] = [self.ty(GlobTy(g)), init, None]
            g = NextGl(g)
        f = FirstFn(m)
        while f:
            self._fnptr[self.name(f)] = f
            f = NextFn(f)

    def name(self, v):
        n = C.c_size_t(); s = GetName2(v, C.byref(n)); return s.decode()

    def ty(self, t):
        r = self._ty.get(t)
        if r is not None: return r
        k = TypeKind(t); r = Ty(); r.n = 0; r.e = None; r.fields = None; r.offs = None; r.size = r.ssize = 0
        if k == 0: r.k = 'void'
        elif k == 2: r.k = 'f'; r.n = 32
        elif k == 3: r.k = 'f'; r.n = 64
        elif k == 4: r.k = 'f'; r.n = 80
        elif k == 8: r.k = 'i'; r.n = IntW(t)
        elif k == 9: r.k = 'fn'
        elif k == 10:
            r.k = 's'; r.n = StructN(t)
            r.fields = [self.ty(StructE(t, i)) for i in range(r.n)]
            try: r.offs = [OffElem(self.dl, t, i) for i in range(r.n)]
            except Exception: r.offs = []
        elif k == 11: r.k = 'a'; r.n = ArrLen(t); r.e = self.ty(ElemT(t))
        elif k == 12: r.k = 'p'
        elif k == 13: r.k = 'v'; r.n = VecSize(t); r.e = self.ty(ElemT(t))
        else: r.k = f'?{k}'
        if r.k in 'ifspav' and not (r.k == 's' and not r.n and False):
            r.size = ABISize(self.dl, t); r.ssize = StoreSize(self.dl, t)
        self._ty[t] = r
        return r

    def const(self, v):
        """constant LLVM value -> python constant"""
        k = ValKind(v)
        # ValueKind: 0 Argument,1 BasicBlock,2..: 5 Function,6 GlobalAlias,7 GlobalIFunc? ,8 GlobalVariable(…)
        t = self.ty(TypeOf(v))
        kn = VK.get(k)
        if kn == 'ConstantInt':
            if t.n > 64:
                s = _str(PrintVal(v)).split()[-1]
                return int(s) & ((1 << t.n) - 1)
            if t.k == 'v':
                return [ConstZ(v)] * t.n
            if t.n == 1: return bool(ConstZ(v) & 1)
            return ConstZ(v) & ((1 << t.n) - 1)
        if kn == 'ConstantFP':
            return self.fp(v, t)
        if kn == 'ConstantPointerNull': return 0
        if kn in ('UndefValue', 'PoisonValue'):
            return self.undef(t)
        if kn == 'ConstantAggregateZero': return self.zero(t)
        if kn in ('ConstantDataArray', 'ConstantArray', 'ConstantDataVector', 'ConstantVector', 'ConstantStruct'):
            return [self.const(AggElem(v, i)) for i in range(t.n)]
        if kn in ('Function', 'GlobalVariable'):
            return ('g', self.name(v), 0)
        if kn == 'ConstantExpr':
            op = OPC.get(ConstOp(v))
            if op == 'gep':
                base = self.const(GetOp(v, 0))
                idx = [self.const(GetOp(v, i)) for i in range(1, NumOps(v))]
                off = gep_off(self.ty(GEPTy(v)), [(i - (1 << 64) if i >> 63 else i) if True else 0 for i in
                    [self._sx(GetOp(v, j + 1), idx[j]) for j in range(len(idx))]])
                if isinstance(base, tuple): return ('g', base[1], base[2] + off)
                return base + off
            if op in ('bitcast', 'ptrtoint', 'inttoptr'):
                return self.const(GetOp(v, 0))
            raise Unsupported('constexpr ' + str(op))
        raise Unsupported(f'const kind {k} {kn}')

    def _sx(self, v, i):
        w = self.ty(TypeOf(v)).n
        return (i | (((1 << 64) - 1) ^ ((1 << w) - 1))) if (i >> (w - 1)) & 1 else i

    def fp(self, v, t):
        li = C.c_int()
        if t.k == 'v':
            x = self.fp1(v, t.e); return [x] * t.n
        return self.fp1(v, t)

    def fp1(self, v, t):
        li = C.c_int()
        if t.n not in (32, 64): return FC(0, t.n)
        d = ConstReal(v, C.byref(li))
        if d != d:
            s = _str(PrintVal(v)).split()[-1].rstrip(')>')
            b = int(s, 16)
            if t.n == 64: return FC(b, 64)
            return FC(((b >> 63) << 31) | (0xff << 23) | ((b >> 29) & 0x7fffff), 32)
        if t.n == 32: return FC(struct.unpack('<I', struct.pack('<f', d))[0], 32)
        return FC(struct.unpack('<Q', struct.pack('<d', d))[0], 64)

    def undef(self, t):
        if t.k in 'va': return [self.undef(t.e) for _ in range(t.n)]
        if t.k == 's': return [self.undef(f) for f in t.fields]
        return UNDEF

    def zero(self, t):
        if t.k in 'va': return [self.zero(t.e) for _ in range(t.n)]
        if t.k == 's': return [self.zero(f) for f in t.fields]
        if t.k == 'f': return FC(0, t.n)
        if t.k == 'i' and t.n == 1: return False
        return 0

    def global_init(self, name):
        g = self.globals[name]
        if g[1] and g[2] is None: g[2] = ('init', self.const(g[1]))
        return g[0], (g[2][1] if g[2] else None)

    def fn(self, name):
        r = self.fns.get(name)
        if r is None and name in self._fnptr:
            r = self.fns[name] = self._load(self._fnptr[name])
        return r

    def _load(self, f):
        fn = Fn(); fn.name = self.name(f); fn.decl = bool(IsDecl(f)); fn.blocks = []
        ids = {}
        np_ = CountParams(f); fn.params = []; fn.ptys = []; fn.byval = {}
        for i in range(np_):
            p = GetParam(f, i); ids[p] = len(ids); fn.params.append(ids[p]); fn.ptys.append(self.ty(TypeOf(p)))
            at = AttrAt(f, i + 1, BYVAL)
            if at: fn.byval[i] = self.ty(TypeAttr(at)).size
        bbs = {}; b = FirstBB(f); order = []
        while b:
            bbs[b] = len(order); order.append(b)
            i = FirstI(b)
            while i: ids[i] = len(ids); i = NextI(i)
            b = NextBB(b)
        def opd(v):
            if v in ids: return ('l', ids[v])
            k = VK.get(ValKind(v))
            if k in ('MetadataAsValue', 'InlineAsm', 'BasicBlock'): return ('m', k)
            return ('c', self.const(v))
        for b in order:
            blk = []; i = FirstI(b)
            while i:
                I = Inst(); oc = InstOp(i); I.op = OPC.get(oc, f'op{oc}'); I.res = ids[i]; I.ty = self.ty(TypeOf(i)); I.x = None; I.al = None
                n = NumOps(i); I.oty = None
                if I.op in ('load', 'store'): I.al = GetAlign(i)
                if I.op == 'br':
                    if IsCond(i): I.ops = [opd(GetOp(i, 0))]; I.x = [bbs[Succ(i, 0)], bbs[Succ(i, 1)]]
                    else: I.ops = []; I.x = [bbs[Succ(i, 0)]]
                elif I.op == 'switch':
                    I.ops = [opd(GetOp(i, 0))]
                    I.oty = self.ty(TypeOf(GetOp(i, 0)))
                    cases = []
                    for s in range(1, NumSucc(i)):
                        cases.append((self.const(GetOp(i, 2 * s)), bbs[Succ(i, s)]))
                    I.x = (bbs[Succ(i, 0)], cases)
                elif I.op == 'phi':
                    I.ops = []; I.x = {bbs[IncB(i, j)]: opd(IncV(i, j)) for j in range(CountInc(i))}
                elif I.op in ('call', 'invoke'):
                    na = NumArgs(i); cv = CalledVal(i)
                    kind = VK.get(ValKind(cv))
                    if kind == 'Function': nm = self.name(cv)
                    elif kind == 'InlineAsm': nm = '#asm'
                    else: nm = None
                    if nm and (nm.startswith('llvm.dbg') or nm.startswith('llvm.lifetime') or nm.startswith('llvm.assume')
                               or nm.startswith('llvm.experimental.noalias')):
                        i = NextI(i); continue
                    I.ops = [opd(GetOp(i, j)) for j in range(na)]
                    I.oty = [self.ty(TypeOf(GetOp(i, j))) for j in range(na)]
                    if nm and nm.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
                        I.al = [AttrVal(at) if at else 1 for at in (CSAttr(i, j + 1, ALIGN) for j in range(2))]
                    I.x = [nm, None if nm else opd(cv), bbs[NormDest(i)] if I.op == 'invoke' else None]
                else:
                    I.ops = [opd(GetOp(i, j)) for j in range(n)]
                    if n: I.oty = self.ty(TypeOf(GetOp(i, 0)))
                    if I.op == 'icmp': I.x = ICMP[ICmpP(i)]
                    elif I.op == 'fcmp': I.x = FCMP[FCmpP(i)]
                    elif I.op == 'alloca': I.x = self.ty(AllocTy(i))
                    elif I.op == 'gep': I.x = (self.ty(GEPTy(i)), [self.ty(TypeOf(GetOp(i, j))).n for j in range(1, n)])
                    elif I.op == 'shufflevector':
                        I.x = [MaskV(i, j) for j in range(NumMask(i))]
                    elif I.op in ('extractvalue', 'insertvalue'):
                        p = Idx(i); I.x = [p[j] for j in range(NumIdx(i))]
                    elif I.op == 'landingpad' or I.op == 'resume': I.ops = []
                blk.append(I); i = NextI(i)
            fn.blocks.append(blk)
        fn.n = len(ids)
        return fn

def gep_off(ty, idx):
    off = idx[0] * ty.size
    for i in idx[1:]:
        if ty.k == 's': off += ty.offs[i]; ty = ty.fields[i]
        else: ty = ty.e; off += i * ty.size
    return off

# LLVMValueKind enum (LLVM 18)
_VK = ['Argument','BasicBlock','MemoryUse','MemoryDef','MemoryPhi','Function','GlobalAlias','GlobalIFunc','GlobalVariable',
'BlockAddress','ConstantExpr','ConstantArray','ConstantStruct','ConstantVector','UndefValue','ConstantAggregateZero',
'ConstantDataArray','ConstantDataVector','ConstantInt','ConstantFP','ConstantPointerNull','ConstantTokenNone',
'MetadataAsValue','InlineAsm','Instruction','PoisonValue','ConstantTargetNone']
VK = dict(enumerate(_VK))
