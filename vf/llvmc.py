"""Loader: reads an LLVM bitcode module through libLLVM-18's C API (ctypes) and
decodes functions, lazily, into plain Python structures for the executor.

Operands are decoded to small tuples:
  ('r', n)      SSA register n of the function (arguments come first)
  ('c', v)      concrete constant (int; floats are FBits)
  ('g', name)   global variable or function
  ('e', expr)   constant expression tree, evaluated by the executor
  ('u',)        undef / poison
"""
import ctypes as C
import re

_L = C.CDLL('libLLVM-18.so')
P = C.c_void_p


def _f(name, res, *args):
    fn = getattr(_L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


CreateBuf = _f('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseBitcode2 = _f('LLVMParseBitcode2', C.c_int, P, C.POINTER(P))
GetDL = _f('LLVMGetModuleDataLayout', P, P)
FirstFn = _f('LLVMGetFirstFunction', P, P)
NextFn = _f('LLVMGetNextFunction', P, P)
FirstGl = _f('LLVMGetFirstGlobal', P, P)
NextGl = _f('LLVMGetNextGlobal', P, P)
FirstAlias = _f('LLVMGetFirstGlobalAlias', P, P)
NextAlias = _f('LLVMGetNextGlobalAlias', P, P)
AliasGetAliasee = _f('LLVMAliasGetAliasee', P, P)
GetName2 = _f('LLVMGetValueName2', C.c_void_p, P, C.POINTER(C.c_size_t))
IsDecl = _f('LLVMIsDeclaration', C.c_int, P)
CountParams = _f('LLVMCountParams', C.c_uint, P)
GetParam = _f('LLVMGetParam', P, P, C.c_uint)
FirstBB = _f('LLVMGetFirstBasicBlock', P, P)
NextBB = _f('LLVMGetNextBasicBlock', P, P)
FirstI = _f('LLVMGetFirstInstruction', P, P)
NextI = _f('LLVMGetNextInstruction', P, P)
Opcode = _f('LLVMGetInstructionOpcode', C.c_int, P)
TypeOf = _f('LLVMTypeOf', P, P)
TypeKind = _f('LLVMGetTypeKind', C.c_int, P)
IntWidth = _f('LLVMGetIntTypeWidth', C.c_uint, P)
NumOps = _f('LLVMGetNumOperands', C.c_int, P)
GetOp = _f('LLVMGetOperand', P, P, C.c_uint)
ValueKind = _f('LLVMGetValueKind', C.c_int, P)
ZExt = _f('LLVMConstIntGetZExtValue', C.c_ulonglong, P)
RealD = _f('LLVMConstRealGetDouble', C.c_double, P, C.POINTER(C.c_int))
ConstOp = _f('LLVMGetConstOpcode', C.c_int, P)
GEPSrc = _f('LLVMGetGEPSourceElementType', P, P)
OffsetOf = _f('LLVMOffsetOfElement', C.c_ulonglong, P, P, C.c_uint)
ABISize = _f('LLVMABISizeOfType', C.c_ulonglong, P, P)
StoreSize = _f('LLVMStoreSizeOfType', C.c_ulonglong, P, P)
StructN = _f('LLVMCountStructElementTypes', C.c_uint, P)
StructAt = _f('LLVMStructGetTypeAtIndex', P, P, C.c_uint)
ElemTy = _f('LLVMGetElementType', P, P)
ArrLen2 = _f('LLVMGetArrayLength2', C.c_uint64, P)
VecLen = _f('LLVMGetVectorSize', C.c_uint, P)
AllocTy = _f('LLVMGetAllocatedType', P, P)
ICmpPred = _f('LLVMGetICmpPredicate', C.c_int, P)
FCmpPred = _f('LLVMGetFCmpPredicate', C.c_int, P)
CountInc = _f('LLVMCountIncoming', C.c_uint, P)
IncVal = _f('LLVMGetIncomingValue', P, P, C.c_uint)
IncBlk = _f('LLVMGetIncomingBlock', P, P, C.c_uint)
NumIdx = _f('LLVMGetNumIndices', C.c_uint, P)
Indices = _f('LLVMGetIndices', C.POINTER(C.c_uint), P)
NumSucc = _f('LLVMGetNumSuccessors', C.c_uint, P)
Succ = _f('LLVMGetSuccessor', P, P, C.c_uint)
IsCond = _f('LLVMIsConditional', C.c_int, P)
CalledValue = _f('LLVMGetCalledValue', P, P)
NumArgOps = _f('LLVMGetNumArgOperands', C.c_uint, P)
NormalDest = _f('LLVMGetNormalDest', P, P)
UnwindDest = _f('LLVMGetUnwindDest', P, P)
NumClauses = _f('LLVMGetNumClauses', C.c_uint, P)
GetClause = _f('LLVMGetClause', P, P, C.c_uint)
IsCleanup = _f('LLVMIsCleanup', C.c_int, P)
GlobalInit = _f('LLVMGetInitializer', P, P)
GlobalVT = _f('LLVMGlobalGetValueType', P, P)
IsGlobalConst = _f('LLVMIsGlobalConstant', C.c_int, P)
AggElem = _f('LLVMGetAggregateElement', P, P, C.c_uint)
AsString = _f('LLVMGetAsString', C.c_void_p, P, C.POINTER(C.c_size_t))
IsConstString = _f('LLVMIsConstantString', C.c_int, P)
GetNSW = _f('LLVMGetNSW', C.c_int, P)
GetNUW = _f('LLVMGetNUW', C.c_int, P)
GetExact = _f('LLVMGetExact', C.c_int, P)
PrintVal = _f('LLVMPrintValueToString', C.c_void_p, P)
PrintTy = _f('LLVMPrintTypeToString', C.c_void_p, P)
DisposeMsg = _f('LLVMDisposeMessage', None, C.c_void_p)
RetTy = _f('LLVMGetReturnType', P, P)
CalledFnTy = _f('LLVMGetCalledFunctionType', P, P)
DebugLine = _f('LLVMGetDebugLocLine', C.c_uint, P)
DebugFile = _f('LLVMGetDebugLocFilename', C.c_void_p, P, C.POINTER(C.c_uint))

OPC = {1: 'ret', 2: 'br', 3: 'switch', 5: 'invoke', 7: 'unreachable', 66: 'fneg', 8: 'add', 9: 'fadd',
       10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem',
       18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor',
       26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext',
       33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext',
       39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 60: 'addrspacecast', 42: 'icmp', 43: 'fcmp',
       44: 'phi', 45: 'call', 46: 'select', 50: 'extractelement', 51: 'insertelement',
       52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 68: 'freeze', 55: 'fence',
       56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume', 59: 'landingpad'}
IPRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FPRED = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno',
         9: 'ueq', 10: 'ugt', 11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}


class Type:
    """kind: int float double ptr struct array vector void label other"""
    __slots__ = ('kind', 'w', 'size', 'ssize', 'elems', 'offs', 'elem', 'n', 'ref', 'text')

    def __repr__(self):
        return self.text


class Inst:
    __slots__ = ('op', 'dst', 'ty', 'ops', 'x', 'line', 'file', 'fn')


class Block:
    __slots__ = ('idx', 'insts', 'nphi', 'succs', 'name')


class Func:
    __slots__ = ('name', 'params', 'blocks', 'nregs', 'ipdom', 'loops', 'ref', 'decl', 'loopof', 'retty', 'live')


class Module:
    def __init__(self, path):
        buf = P()
        msg = C.c_char_p()
        if CreateBuf(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError('cannot read %s: %s' % (path, msg.value))
        m = P()
        if ParseBitcode2(buf, C.byref(m)):
            raise RuntimeError('cannot parse ' + path)
        self.m = m
        self.dl = GetDL(m)
        self.types = {}
        self.fnref = {}
        self.glref = {}
        self.alias = {}
        self.funcs = {}
        f = FirstFn(m)
        while f:
            self.fnref[self.vname(f)] = f
            f = NextFn(f)
        g = FirstGl(m)
        while g:
            self.glref[self.vname(g)] = g
            g = NextGl(g)
        a = FirstAlias(m)
        while a:
            self.alias[self.vname(a)] = self.vname(AliasGetAliasee(a))
            a = NextAlias(a)

    @staticmethod
    def vname(v):
        n = C.c_size_t()
        p = GetName2(v, C.byref(n))
        return C.string_at(p, n.value).decode()

    @staticmethod
    def printed(v):
        p = PrintVal(v)
        s = C.string_at(p).decode()
        DisposeMsg(p)
        return s

    # ---- types
    def ty(self, ref):
        t = self.types.get(ref)
        if t is not None:
            return t
        t = Type()
        t.ref = ref
        k = TypeKind(ref)
        t.w = 0
        t.size = t.ssize = 0
        t.elems = t.offs = t.elem = None
        t.n = 0
        p = PrintTy(ref)
        t.text = C.string_at(p).decode()
        DisposeMsg(p)
        if k == 0:
            t.kind = 'void'
        elif k == 2:
            t.kind = 'float'; t.w = 32; t.size = t.ssize = 4
        elif k == 3:
            t.kind = 'double'; t.w = 64; t.size = t.ssize = 8
        elif k == 8:
            t.kind = 'int'
            t.w = IntWidth(ref)
            t.size = ABISize(self.dl, ref)
            t.ssize = StoreSize(self.dl, ref)
        elif k == 10:
            t.kind = 'struct'
            n = StructN(ref)
            t.elems = [self.ty(StructAt(ref, i)) for i in range(n)]
            try:
                t.size = t.ssize = ABISize(self.dl, ref)
                t.offs = [OffsetOf(self.dl, ref, i) for i in range(n)]
            except Exception:
                pass
        elif k == 11:
            t.kind = 'array'
            t.elem = self.ty(ElemTy(ref))
            t.n = ArrLen2(ref)
            t.size = t.ssize = ABISize(self.dl, ref)
        elif k == 12:
            t.kind = 'ptr'; t.w = 64; t.size = t.ssize = 8
        elif k == 13:
            t.kind = 'vector'
            t.elem = self.ty(ElemTy(ref))
            t.n = VecLen(ref)
            t.size = ABISize(self.dl, ref)
            t.ssize = StoreSize(self.dl, ref)
        elif k == 7:
            t.kind = 'label'
        else:
            t.kind = 'other%d' % k
        self.types[ref] = t
        return t

    # ---- constants: returns operand tuples
    def const(self, v):
        k = ValueKind(v)
        if k == 22:  # metadata operand of an intrinsic
            return ('u',)
        t = self.ty(TypeOf(v))
        if k == 5 or k == 8:  # Function, GlobalVariable
            return ('g', self.vname(v))
        if k == 6:  # GlobalAlias
            return ('g', self.resolve(self.vname(v)))
        if k == 18:  # ConstantInt
            if t.w <= 64:
                return ('c', ZExt(v) & ((1 << t.w) - 1))
            s = self.printed(v)
            x = int(s.split()[-1])
            return ('c', x & ((1 << t.w) - 1))
        if k == 19:  # ConstantFP
            import struct
            loses = C.c_int()
            d = RealD(v, C.byref(loses))
            if t.kind == 'float':
                return ('c', struct.unpack('<I', struct.pack('<f', d))[0])
            return ('c', struct.unpack('<Q', struct.pack('<d', d))[0])
        if k == 20:  # ConstantPointerNull
            return ('c', 0)
        if k in (14, 25):  # undef, poison
            return ('u',)
        if k == 10:  # ConstantExpr
            op = ConstOp(v)
            o = OPC.get(op, str(op))
            ops = [self.const(GetOp(v, i)) for i in range(NumOps(v))]
            if o == 'gep':
                return ('e', ('gep', self.ty(GEPSrc(v)), ops, [self.ty(TypeOf(GetOp(v, i))) for i in range(NumOps(v))]))
            return ('e', (o, t, ops, [self.ty(TypeOf(GetOp(v, i))) for i in range(NumOps(v))]))
        if k == 15:
            return ('z', t)
        if k == 16 and IsConstString(v):
            n = C.c_size_t()
            p = AsString(v, C.byref(n))
            return ('str', t, C.string_at(p, n.value))
        # aggregate
        if t.kind in ('struct', 'array', 'vector'):
            n = len(t.elems) if t.kind == 'struct' else t.n
            return ('agg', t, [self.const(AggElem(v, i)) for i in range(n)])
        raise NotImplementedError('constant kind %d %s' % (k, self.printed(v)[:200]))

    def resolve(self, name):
        seen = 0
        while name in self.alias and seen < 10:
            name = self.alias[name]
            seen += 1
        return name

    # ---- functions
    def func(self, name):
        name = self.resolve(name)
        f = self.funcs.get(name)
        if f is None:
            f = self._decode(name)
            self.funcs[name] = f
        return f

    def _decode(self, name):
        ref = self.fnref[name]
        F = Func()
        F.name = name
        F.ref = ref
        F.decl = bool(IsDecl(ref))
        F.params = []
        F.blocks = []
        F.nregs = CountParams(ref)
        F.ipdom = None
        F.loops = None
        F.loopof = None
        F.live = None
        if F.decl:
            return F
        regs = {}
        for i in range(F.nregs):
            p = GetParam(ref, i)
            regs[p] = i
            F.params.append(self.ty(TypeOf(p)))
        bbs = []
        b = FirstBB(ref)
        bidx = {}
        n = F.nregs
        while b:
            bidx[b] = len(bbs)
            ins = []
            i = FirstI(b)
            while i:
                ins.append(i)
                if TypeKind(TypeOf(i)) != 0:
                    regs[i] = n
                    n += 1
                i = NextI(i)
            bbs.append((b, ins))
            b = NextBB(b)
        F.nregs = n

        def operand(v):
            r = regs.get(v)
            if r is not None:
                return ('r', r)
            return self.const(v)

        for b, ins in bbs:
            B = Block()
            B.idx = bidx[b]
            B.insts = []
            B.nphi = 0
            B.succs = []
            for i in ins:
                I = Inst()
                I.fn = name
                I.op = op = OPC[Opcode(i)]
                I.ty = self.ty(TypeOf(i))
                I.dst = regs.get(i, -1)
                I.x = None
                I.ops = ()
                I.line = DebugLine(i)
                ln = C.c_uint()
                fp = DebugFile(i, C.byref(ln))
                I.file = C.string_at(fp, ln.value).decode() if fp else ''
                if op == 'phi':
                    B.nphi += 1
                    I.x = {bidx[IncBlk(i, k)]: operand(IncVal(i, k)) for k in range(CountInc(i))}
                elif op == 'br':
                    if IsCond(i):
                        I.ops = (operand(GetOp(i, 0)),)
                        I.x = (bidx[Succ(i, 0)], bidx[Succ(i, 1)])
                    else:
                        I.x = (bidx[Succ(i, 0)],)
                    B.succs = list(I.x)
                elif op == 'switch':
                    no = NumOps(i)
                    I.ops = (operand(GetOp(i, 0)),)
                    cases = []
                    for k in range(2, no, 2):
                        cases.append((self.const(GetOp(i, k))[1], bidx[Succ(i, k // 2)]))
                    I.x = (bidx[Succ(i, 0)], cases, self.ty(TypeOf(GetOp(i, 0))))
                    B.succs = [I.x[0]] + [c[1] for c in cases]
                elif op in ('call', 'invoke'):
                    na = NumArgOps(i)
                    I.ops = tuple(operand(GetOp(i, k)) for k in range(na))
                    ftypes = [self.ty(TypeOf(GetOp(i, k))) for k in range(na)]
                    cv = CalledValue(i)
                    kind = ValueKind(cv)
                    if kind == 23:
                        callee = ('asm',)
                    else:
                        callee = operand(cv)
                    nd = ud = None
                    if op == 'invoke':
                        nd = bidx[NormalDest(i)]
                        ud = bidx[UnwindDest(i)]
                        B.succs = [nd, ud]
                    I.x = (callee, ftypes, nd, ud)
                elif op == 'gep':
                    I.ops = tuple(operand(GetOp(i, k)) for k in range(NumOps(i)))
                    I.x = (self.ty(GEPSrc(i)), [self.ty(TypeOf(GetOp(i, k))) for k in range(NumOps(i))])
                elif op == 'alloca':
                    I.ops = (operand(GetOp(i, 0)),)
                    I.x = self.ty(AllocTy(i))
                elif op in ('extractvalue', 'insertvalue'):
                    I.ops = tuple(operand(GetOp(i, k)) for k in range(NumOps(i)))
                    nn = NumIdx(i)
                    ix = Indices(i)
                    I.x = [ix[k] for k in range(nn)]
                elif op == 'landingpad':
                    I.x = (bool(IsCleanup(i)), [self.const(GetClause(i, k)) for k in range(NumClauses(i))])
                elif op == 'unreachable':
                    pass
                else:
                    no = NumOps(i)
                    I.ops = tuple(operand(GetOp(i, k)) for k in range(no))
                    if op == 'icmp':
                        I.x = (IPRED[ICmpPred(i)], self.ty(TypeOf(GetOp(i, 0))))
                    elif op == 'fcmp':
                        I.x = (FPRED[FCmpPred(i)], self.ty(TypeOf(GetOp(i, 0))))
                    elif op in ('add', 'sub', 'mul', 'shl'):
                        I.x = (bool(GetNSW(i)), bool(GetNUW(i)))
                    elif op in ('trunc', 'zext', 'sext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc', 'fpext',
                                'ptrtoint', 'inttoptr', 'bitcast', 'store', 'ret', 'freeze', 'fneg', 'load', 'resume'):
                        I.x = self.ty(TypeOf(GetOp(i, 0))) if no else None
                B.insts.append(I)
            F.blocks.append(B)
        self._cfg(F)
        return F

    # ---- post-dominators, natural loops, liveness
    def _cfg(self, F):
        n = len(F.blocks)
        EXIT = n
        succs = [list(dict.fromkeys(b.succs)) or [EXIT] for b in F.blocks] + [[]]
        # immediate post-dominators by iterative data-flow on the reverse CFG;
        # unwind edges and unreachable blocks are not used for post-dominance.
        psucc = []
        for b in F.blocks:
            t = b.insts[-1]
            if t.op == 'invoke':
                psucc.append([t.x[2]])
            elif t.op in ('unreachable', 'resume'):
                psucc.append([])
            else:
                psucc.append(list(dict.fromkeys(b.succs)) or [EXIT])
        psucc.append([])
        # blocks that cannot reach EXIT are ignored
        preds = [[] for _ in range(n + 1)]
        for i, ss in enumerate(psucc):
            for s in ss:
                preds[s].append(i)
        order = []
        seen = set()
        st = [EXIT]
        # reverse postorder on reverse graph
        def dfs(root):
            stack = [(root, iter(preds[root]))]
            seen.add(root)
            while stack:
                v, it = stack[-1]
                for w in it:
                    if w not in seen:
                        seen.add(w)
                        stack.append((w, iter(preds[w])))
                        break
                else:
                    order.append(v)
                    stack.pop()
        dfs(EXIT)
        rpo = order[::-1]
        num = {v: i for i, v in enumerate(rpo)}
        idom = {EXIT: EXIT}
        changed = True
        while changed:
            changed = False
            for v in rpo[1:]:
                new = None
                for s in psucc[v]:
                    if s in idom:
                        if new is None:
                            new = s
                        else:
                            a, b2 = s, new
                            while a != b2:
                                while num[a] > num[b2]:
                                    a = idom[a]
                                while num[b2] > num[a]:
                                    b2 = idom[b2]
                            new = a
                if new is not None and idom.get(v) != new:
                    idom[v] = new
                    changed = True
        F.ipdom = [idom.get(i, None) for i in range(n)]
        # dominators for natural loops
        order2 = []
        seen2 = {0}
        stack = [(0, iter(F.blocks[0].succs))]
        while stack:
            v, it = stack[-1]
            for w in it:
                if w not in seen2:
                    seen2.add(w)
                    stack.append((w, iter(F.blocks[w].succs)))
                    break
            else:
                order2.append(v)
                stack.pop()
        rpo2 = order2[::-1]
        num2 = {v: i for i, v in enumerate(rpo2)}
        pr = [[] for _ in range(n)]
        for v in rpo2:
            for s in F.blocks[v].succs:
                pr[s].append(v)
        dom = {0: 0}
        changed = True
        while changed:
            changed = False
            for v in rpo2[1:]:
                new = None
                for p in pr[v]:
                    if p in dom:
                        if new is None:
                            new = p
                        else:
                            a, b2 = p, new
                            while a != b2:
                                while num2[a] > num2[b2]:
                                    a = dom[a]
                                while num2[b2] > num2[a]:
                                    b2 = dom[b2]
                            new = a
                if dom.get(v) != new:
                    dom[v] = new
                    changed = True

        def dominates(a, b):
            while True:
                if a == b:
                    return True
                if b == dom.get(b, b):
                    return False
                b = dom[b]
        loops = {}
        for v in rpo2:
            for s in F.blocks[v].succs:
                if dominates(s, v):
                    body = loops.setdefault(s, {s})
                    work = [v]
                    while work:
                        x = work.pop()
                        if x in body:
                            continue
                        body.add(x)
                        work.extend(pr[x])
        F.loops = loops
