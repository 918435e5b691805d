"""Minimal ctypes binding to the LLVM-18 C API: loads one linked bitcode module
and decodes functions lazily into plain Python tuples for the executor."""
import ctypes as C, struct
from fractions import Fraction

L = C.CDLL("/usr/lib/llvm-18/lib/libLLVM-18.so")
P = C.c_void_p

def _f(name, res, *args):
    f = getattr(L, name); f.restype = res; f.argtypes = list(args)
    return f

CreateMB = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
CtxCreate = _f("LLVMContextCreate", P)
ParseIR = _f("LLVMParseIRInContext", C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
GetDL = _f("LLVMGetModuleDataLayout", P, P)
FirstFn = _f("LLVMGetFirstFunction", P, P); NextFn = _f("LLVMGetNextFunction", P, P)
FirstG = _f("LLVMGetFirstGlobal", P, P); NextG = _f("LLVMGetNextGlobal", P, P)
FirstA = _f("LLVMGetFirstGlobalAlias", P, P); NextA = _f("LLVMGetNextGlobalAlias", P, P)
AliasGet = _f("LLVMAliasGetAliasee", P, P)
GetName = _f("LLVMGetValueName2", C.c_char_p, P, C.POINTER(C.c_size_t))
IsDecl = _f("LLVMIsDeclaration", C.c_int, P)
GetInit = _f("LLVMGetInitializer", P, P)
GlobTy = _f("LLVMGlobalGetValueType", P, P)
FirstBB = _f("LLVMGetFirstBasicBlock", P, P); NextBB = _f("LLVMGetNextBasicBlock", P, P)
FirstI = _f("LLVMGetFirstInstruction", P, P); NextI = _f("LLVMGetNextInstruction", P, P)
Opcode = _f("LLVMGetInstructionOpcode", C.c_int, P)
NumOp = _f("LLVMGetNumOperands", C.c_int, P); GetOp = _f("LLVMGetOperand", P, P, C.c_uint)
TypeOf = _f("LLVMTypeOf", P, P); TKind = _f("LLVMGetTypeKind", C.c_int, P)
IntW = _f("LLVMGetIntTypeWidth", C.c_uint, P)
ABISize = _f("LLVMABISizeOfType", C.c_ulonglong, P, P)
OffElem = _f("LLVMOffsetOfElement", C.c_ulonglong, P, P, C.c_uint)
ElemTy = _f("LLVMGetElementType", P, P)
ArrLen = _f("LLVMGetArrayLength2", C.c_ulonglong, P); VecLen = _f("LLVMGetVectorSize", C.c_uint, P)
NStruct = _f("LLVMCountStructElementTypes", C.c_uint, P)
StructElt = _f("LLVMStructGetTypeAtIndex", P, P, C.c_uint)
VKind = _f("LLVMGetValueKind", C.c_int, P)
CInt = _f("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
CReal = _f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
AggElt = _f("LLVMGetAggregateElement", P, P, C.c_uint)
COpc = _f("LLVMGetConstOpcode", C.c_int, P)
GEPSrc = _f("LLVMGetGEPSourceElementType", P, P)
ICmpP = _f("LLVMGetICmpPredicate", C.c_int, P); FCmpP = _f("LLVMGetFCmpPredicate", C.c_int, P)
AllocTy = _f("LLVMGetAllocatedType", P, P)
NIdx = _f("LLVMGetNumIndices", C.c_uint, P); Idx = _f("LLVMGetIndices", C.POINTER(C.c_uint), P)
NInc = _f("LLVMCountIncoming", C.c_uint, P); IncV = _f("LLVMGetIncomingValue", P, P, C.c_uint)
IncB = _f("LLVMGetIncomingBlock", P, P, C.c_uint)
NSucc = _f("LLVMGetNumSuccessors", C.c_uint, P); Succ = _f("LLVMGetSuccessor", P, P, C.c_uint)
NClause = _f("LLVMGetNumClauses", C.c_uint, P); Clause = _f("LLVMGetClause", P, P, C.c_uint)
IsCleanup = _f("LLVMIsCleanup", C.c_int, P)
CalledV = _f("LLVMGetCalledValue", P, P); NArg = _f("LLVMGetNumArgOperands", C.c_uint, P)
NParams = _f("LLVMCountParams", C.c_uint, P); Param = _f("LLVMGetParam", P, P, C.c_uint)
NormDest = _f("LLVMGetNormalDest", P, P); UnwDest = _f("LLVMGetUnwindDest", P, P)
Print = _f("LLVMPrintValueToString", C.c_char_p, P)
AsStr = _f("LLVMGetAsString", P, P, C.POINTER(C.c_size_t))
IsCString = _f("LLVMIsConstantString", C.c_int, P)
RMWOp = _f("LLVMGetAtomicRMWBinOp", C.c_int, P)

OPC = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',8:'add',9:'fadd',10:'sub',11:'fsub',
12:'mul',13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',
24:'or',25:'xor',26:'alloca',27:'load',28:'store',29:'gep',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',
35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',42:'icmp',43:'fcmp',44:'phi',
45:'call',46:'select',49:'vaarg',50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',
54:'insertvalue',55:'fence',56:'cmpxchg',57:'atomicrmw',58:'resume',59:'landingpad',60:'addrspacecast',66:'fneg',68:'freeze'}
# LLVMValueKind
VK = ['arg','bb','memuse','memdef','memphi','function','alias','ifunc','global','blockaddr','cexpr','carray','cstruct','cvector',
'undef','cagg0','cda','cdv','cint','cfp','cnull','ctoknone','mdval','asm','inst','poison','ctgtnone']
TK = ['void','half','float','double','x86_fp80','fp128','ppc','label','int','func','struct','array','ptr','vector','metadata','x86mmx','token','svec','bfloat','amx','target']


class Ty:
    __slots__ = ('k', 'w', 'size', 'elts', 'offs', 'n', 'p')
    def __repr__(self): return f"{self.k}{self.w or ''}"


class SymRef:
    """Reference to a global symbol (function or variable) as a constant."""
    __slots__ = ('name', 'off')
    def __init__(self, name, off=0): self.name = name; self.off = off
    def __repr__(self): return f"@{self.name}+{self.off}"


class Undef:
    def __repr__(self): return "undef"
UNDEF = Undef()


class Agg:
    __slots__ = ('v',)
    def __init__(self, v): self.v = v
    def __repr__(self): return f"Agg{self.v}"


class Func:
    __slots__ = ('name', 'ptr', 'params', 'blocks', 'decoded', 'nslots', 'retty')


class Module:
    def __init__(self, path):
        self.ctx = CtxCreate()
        mb = P(); err = C.c_char_p()
        if CreateMB(path.encode(), C.byref(mb), C.byref(err)): raise RuntimeError(err.value)
        m = P()
        if ParseIR(self.ctx, mb, C.byref(m), C.byref(err)): raise RuntimeError(err.value)
        self.m = m; self.dl = GetDL(m)
        self.tyc = {}; self.funcs = {}; self.globs = {}; self.aliases = {}; self.cc = {}
        f = FirstFn(m)
        while f:
            self.funcs[self.name(f)] = f; f = NextFn(f)
        g = FirstG(m)
        while g:
            self.globs[self.name(g)] = g; g = NextG(g)
        a = FirstA(m)
        while a:
            self.aliases[self.name(a)] = a; a = NextA(a)
        self.dec = {}

    def name(self, v):
        n = C.c_size_t()
        s = GetName(v, C.byref(n))
        return (s or b'').decode()

    def ty(self, p):
        t = self.tyc.get(p)
        if t is not None: return t
        t = Ty(); t.p = p; t.k = TK[TKind(p)]; t.w = 0; t.elts = None; t.offs = None; t.n = 0; t.size = 0
        self.tyc[p] = t
        if t.k == 'int':
            t.w = IntW(p); t.size = ABISize(self.dl, p)
        elif t.k == 'struct':
            n = NStruct(p)
            t.elts = [self.ty(StructElt(p, i)) for i in range(n)]
            try:
                t.offs = [OffElem(self.dl, p, i) for i in range(n)]
                t.size = ABISize(self.dl, p)
            except Exception: pass
        elif t.k == 'array':
            e = self.ty(ElemTy(p)); t.n = ArrLen(p); t.elts = [e]; t.size = e.size * t.n
        elif t.k == 'vector':
            e = self.ty(ElemTy(p)); t.n = VecLen(p); t.elts = [e]; t.size = e.size * t.n
        elif t.k in ('double', 'float', 'ptr', 'x86_fp80'):
            t.size = ABISize(self.dl, p)
        return t

    def zero(self, t):
        if t.k == 'int': return 0
        if t.k in ('double', 'float', 'x86_fp80'): return 0.0
        if t.k == 'ptr': return 0
        if t.k == 'struct': return Agg([self.zero(e) for e in t.elts])
        if t.k in ('array', 'vector'): return Agg([self.zero(t.elts[0])] * t.n)
        raise NotImplementedError(t.k)

    def const(self, v):
        """decode a constant: int, float, Agg, SymRef, ('cexpr',..), UNDEF"""
        r = self.cc.get(v)
        if r is None:
            r = self._const(v); self.cc[v] = r
        return r

    def _const(self, v):
        k = VK[VKind(v)]
        if k == 'cint':
            t = self.ty(TypeOf(v))
            if t.w > 64:
                s = Print(v).decode().split()[-1]
                if s in ('true', 'false'): return 1 if s == 'true' else 0
                return int(s) & ((1 << t.w) - 1)
            return CInt(v)
        if k == 'cfp':
            loss = C.c_int()
            return float(CReal(v, C.byref(loss)))
        if k in ('function', 'global'):
            return SymRef(self.name(v))
        if k == 'alias':
            return self.const(AliasGet(v))
        if k == 'cnull':
            return 0 if self.ty(TypeOf(v)).k == 'ptr' else self.zero(self.ty(TypeOf(v)))
        if k in ('undef', 'poison'):
            t = self.ty(TypeOf(v))
            if t.k == 'struct': return Agg([UNDEF] * len(t.elts))
            if t.k in ('array', 'vector'): return Agg([UNDEF] * t.n)
            return UNDEF
        if k == 'cagg0':
            return self.zero(self.ty(TypeOf(v)))
        if k in ('carray', 'cstruct', 'cvector', 'cda', 'cdv'):
            t = self.ty(TypeOf(v))
            n = len(t.elts) if t.k == 'struct' else t.n
            if k == 'cda' and t.elts[0].k == 'int' and t.elts[0].w == 8:
                ln = C.c_size_t(); s = AsStr(v, C.byref(ln))
                return Agg(list(C.string_at(s, ln.value)))
            return Agg([self.const(AggElt(v, i)) for i in range(n)])
        if k == 'cexpr':
            op = OPC[COpc(v)]
            n = NumOp(v)
            if op == 'gep':
                base = self.const(GetOp(v, 0))
                off = 0
                t = self.ty(GEPSrc(v))
                for i in range(1, n):
                    ix = self.const(GetOp(v, i))
                    if ix >= 1 << 63: ix -= 1 << 64
                    elif self.ty(TypeOf(GetOp(v, i))).w == 32 and ix >= 1 << 31: ix -= 1 << 32
                    if i == 1: off += ix * t.size
                    elif t.k == 'struct': off += t.offs[ix]; t = t.elts[ix]
                    else: t = t.elts[0]; off += ix * t.size
                if isinstance(base, SymRef): return SymRef(base.name, base.off + off)
                if base == 0: return off & ((1 << 64) - 1)
                return ('cexpr', 'gepoff', [base, off], None)
            ops = [self.const(GetOp(v, i)) for i in range(n)]
            tys = [self.ty(TypeOf(GetOp(v, i))) for i in range(n)]
            pred = ICmpP(v) if op == 'icmp' else None
            return ('cexpr', op, ops, (self.ty(TypeOf(v)), tys, pred))
        if k == 'asm': return ('asm',)
        if k == 'mdval': return UNDEF
        raise NotImplementedError("const kind " + k + " " + Print(v).decode()[:200])

    def func(self, name):
        """decode function -> Func or None when only declared"""
        if name in self.dec: return self.dec[name]
        p = self.funcs.get(name)
        if p is None and name in self.aliases:
            r = self.const(AliasGet(self.aliases[name]))
            return self.func(r.name)
        if p is None or IsDecl(p):
            self.dec[name] = None; return None
        F = Func(); F.name = name; F.ptr = p
        slots = {}
        def slot(v):
            s = slots.get(v)
            if s is None: s = len(slots); slots[v] = s
            return s
        F.params = [slot(Param(p, i)) for i in range(NParams(p))]
        bbs = []; b = FirstBB(p)
        while b: bbs.append(b); b = NextBB(b)
        bbi = {b: i for i, b in enumerate(bbs)}
        def opnd(v):
            k = VKind(v)
            if k == 0 or k == 24: return (True, slot(v))      # arg / inst
            if k == 1: return (False, ('bb', bbi[v]))
            return (False, self.const(v))
        # value kinds are an enum; verify numbering once
        blocks = []
        for b in bbs:
            ins = []; phis = []
            i = FirstI(b)
            while i:
                op = OPC.get(Opcode(i), 'op%d' % Opcode(i))
                t = self.ty(TypeOf(i))
                d = slot(i) if t.k != 'void' else None
                n = NumOp(i)
                if op == 'phi':
                    phis.append((d, {bbi[IncB(i, j)]: opnd(IncV(i, j)) for j in range(NInc(i))}))
                elif op in ('call', 'invoke'):
                    cv = CalledV(i)
                    args = [opnd(GetOp(i, j)) for j in range(NArg(i))]
                    callee = opnd(cv)
                    atys = [self.ty(TypeOf(GetOp(i, j))) for j in range(NArg(i))]
                    nm = None
                    if not callee[0] and isinstance(callee[1], SymRef): nm = callee[1].name
                    if nm and (nm.startswith('llvm.dbg') or nm.startswith('llvm.lifetime') or nm.startswith('llvm.experimental.noalias') or nm == 'llvm.assume'):
                        i = NextI(i); continue
                    if op == 'call': ins.append(('call', d, t, callee, args, atys))
                    else: ins.append(('invoke', d, t, callee, args, atys, bbi[NormDest(i)], bbi[UnwDest(i)]))
                elif op == 'br':
                    if n == 1: ins.append(('jmp', bbi[GetOp(i, 0)]))
                    else: ins.append(('br', opnd(GetOp(i, 0)), bbi[GetOp(i, 2)], bbi[GetOp(i, 1)]))
                elif op == 'switch':
                    cases = []
                    for j in range(2, n, 2): cases.append((self.const(GetOp(i, j)), bbi[GetOp(i, j + 1)]))
                    ins.append(('switch', opnd(GetOp(i, 0)), self.ty(TypeOf(GetOp(i, 0))), bbi[GetOp(i, 1)], cases))
                elif op == 'gep':
                    st = self.ty(GEPSrc(i)); coff = 0; dyn = []
                    cur = st
                    for j in range(1, n):
                        o = opnd(GetOp(i, j)); w = self.ty(TypeOf(GetOp(i, j))).w
                        if j == 1: sc = cur.size
                        elif cur.k == 'struct':
                            ix = o[1]; coff += cur.offs[ix]; cur = cur.elts[ix]; continue
                        else: cur = cur.elts[0]; sc = cur.size
                        if not o[0]:
                            ix = o[1]
                            if isinstance(ix, int):
                                if ix >= 1 << (w - 1): ix -= 1 << w
                                coff += ix * sc
                            else: dyn.append((o, sc, w))
                        else: dyn.append((o, sc, w))
                    ins.append(('gep', d, opnd(GetOp(i, 0)), coff, dyn))
                elif op == 'load': ins.append(('load', d, t, opnd(GetOp(i, 0))))
                elif op == 'store': ins.append(('store', opnd(GetOp(i, 0)), self.ty(TypeOf(GetOp(i, 0))), opnd(GetOp(i, 1))))
                elif op == 'alloca': ins.append(('alloca', d, self.ty(AllocTy(i)), opnd(GetOp(i, 0))))
                elif op == 'icmp': ins.append(('icmp', d, ICmpP(i), self.ty(TypeOf(GetOp(i, 0))), opnd(GetOp(i, 0)), opnd(GetOp(i, 1))))
                elif op == 'fcmp': ins.append(('fcmp', d, FCmpP(i), opnd(GetOp(i, 0)), opnd(GetOp(i, 1)), self.ty(TypeOf(GetOp(i,0)))))
                elif op == 'extractvalue':
                    ix = Idx(i); ins.append(('extractvalue', d, opnd(GetOp(i, 0)), [ix[j] for j in range(NIdx(i))]))
                elif op == 'insertvalue':
                    ix = Idx(i); ins.append(('insertvalue', d, opnd(GetOp(i, 0)), opnd(GetOp(i, 1)), [ix[j] for j in range(NIdx(i))]))
                elif op == 'landingpad':
                    cl = []
                    for j in range(NClause(i)):
                        c = self.const(Clause(i, j))
                        cl.append(c)
                    ins.append(('landingpad', d, cl, bool(IsCleanup(i))))
                elif op == 'shufflevector':
                    NM = _f("LLVMGetNumMaskElements", C.c_uint, P); MV = _f("LLVMGetMaskValue", C.c_int, P, C.c_uint)
                    ins.append(('shufflevector', d, opnd(GetOp(i, 0)), opnd(GetOp(i, 1)), [MV(i, j) for j in range(NM(i))]))
                elif op == 'atomicrmw':
                    ins.append(('atomicrmw', d, RMWOp(i), t, opnd(GetOp(i, 0)), opnd(GetOp(i, 1))))
                elif op == 'ret':
                    ins.append(('ret', opnd(GetOp(i, 0)) if n else None))
                else:
                    ins.append((op, d, t, [opnd(GetOp(i, j)) for j in range(n)], [self.ty(TypeOf(GetOp(i, j))) for j in range(n)]))
                i = NextI(i)
            blocks.append((phis, ins))
        F.blocks = blocks; F.nslots = len(slots)
        self.dec[name] = F
        return F
