"""Load LLVM bitcode (compiled from /repo on this run) into Python objects through the LLVM-C API."""
import ctypes as C
from ctypes import c_void_p as VP, c_char_p as CP, c_uint as U, c_int as I, c_size_t as SZ, c_ulonglong as ULL, POINTER, byref

_L = None
def L():
    global _L
    if _L is None:
        _L = C.CDLL('/usr/lib/llvm-18/lib/libLLVM-18.so')
        def d(name, res, *args):
            f = getattr(_L, name); f.restype = res; f.argtypes = list(args)
        for n in ['LLVMGetFirstFunction', 'LLVMGetNextFunction', 'LLVMGetFirstBasicBlock', 'LLVMGetNextBasicBlock',
                  'LLVMGetFirstInstruction', 'LLVMGetNextInstruction', 'LLVMTypeOf', 'LLVMGetElementType',
                  'LLVMGetAllocatedType', 'LLVMGetCalledValue', 'LLVMGlobalGetValueType', 'LLVMGetFirstGlobal',
                  'LLVMGetNextGlobal', 'LLVMGetInitializer', 'LLVMGetModuleDataLayout', 'LLVMGetGEPSourceElementType',
                  'LLVMGetCalledFunctionType', 'LLVMGetReturnType', 'LLVMGetBasicBlockParent', 'LLVMGetFirstParam',
                  'LLVMGetNextParam', 'LLVMGetConstOpcode', 'LLVMBasicBlockAsValue', 'LLVMGetBasicBlockTerminator']:
            d(n, VP, VP)
        d('LLVMGetConstOpcode', I, VP)
        d('LLVMGetOperand', VP, VP, U); d('LLVMGetNumOperands', I, VP)
        d('LLVMGetInstructionOpcode', I, VP); d('LLVMGetICmpPredicate', I, VP); d('LLVMGetFCmpPredicate', I, VP)
        d('LLVMGetValueName2', CP, VP, POINTER(SZ)); d('LLVMGetValueKind', I, VP)
        d('LLVMGetTypeKind', I, VP); d('LLVMGetIntTypeWidth', U, VP)
        d('LLVMCountStructElementTypes', U, VP); d('LLVMStructGetTypeAtIndex', VP, VP, U)
        d('LLVMGetArrayLength2', C.c_uint64, VP); d('LLVMGetVectorSize', U, VP)
        d('LLVMABISizeOfType', ULL, VP, VP); d('LLVMStoreSizeOfType', ULL, VP, VP); d('LLVMOffsetOfElement', ULL, VP, VP, U)
        d('LLVMConstIntGetZExtValue', ULL, VP); d('LLVMCountIncoming', U, VP)
        d('LLVMGetIncomingValue', VP, VP, U); d('LLVMGetIncomingBlock', VP, VP, U)
        d('LLVMGetNumSuccessors', U, VP); d('LLVMGetSuccessor', VP, VP, U)
        d('LLVMIsDeclaration', I, VP); d('LLVMGetStructName', CP, VP)
        d('LLVMGetNumIndices', U, VP); d('LLVMGetIndices', POINTER(U), VP)
        d('LLVMConstRealGetDouble', C.c_double, VP, POINTER(I)); d('LLVMIsConditional', I, VP)
        d('LLVMGetAsString', VP, VP, POINTER(SZ)); d('LLVMIsConstantString', I, VP)
        d('LLVMGetElementAsConstant', VP, VP, U); d('LLVMGetAggregateElement', VP, VP, U)
        d('LLVMContextCreate', VP); d('LLVMCreateMemoryBufferWithContentsOfFile', I, CP, POINTER(VP), POINTER(CP))
        d('LLVMParseIRInContext', I, VP, VP, POINTER(VP), POINTER(CP))
        d('LLVMPrintValueToString', VP, VP); d('LLVMPrintTypeToString', VP, VP)
        d('LLVMGetNamedFunction', VP, VP, CP); d('LLVMIsNull', I, VP); d('LLVMIsUndef', I, VP)
        d('LLVMGetAtomicRMWBinOp', I, VP); d('LLVMGetAlignment', U, VP); d('LLVMIsFunctionVarArg', I, VP)
        d('LLVMGetLinkage', I, VP); d('LLVMGetSwitchDefaultDest', VP, VP); d('LLVMIsGlobalConstant', I, VP)
        d('LLVMConstIntGetSExtValue', C.c_longlong, VP); d('LLVMGetCondition', VP, VP)
        d('LLVMGetDebugLocLine', U, VP); d('LLVMGetDebugLocFilename', CP, VP, POINTER(U))
    return _L

OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 66: 'fneg',
       8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv',
       17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor',
       26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui',
       34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr',
       41: 'bitcast', 60: 'addrspacecast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 49: 'va_arg',
       50: 'extractelement', 51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue',
       68: 'freeze', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq', 10: 'ugt',
        11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}

class Ty(object):
    __slots__ = ('k', 'w', 'size', 'elems', 'offs', 'n', 'elt', 'name', 'ref')
    # k: int, ptr, f32, f64, struct, array, void, func, other

class Ins(object):
    __slots__ = ('op', 'ops', 'ty', 'id', 'x', 'name', 'line', 'blk')

class Block(object):
    __slots__ = ('name', 'ins', 'phis', 'succ', 'pred', 'idx', 'loop')

class Fn(object):
    def __init__(self):
        self.blocks = None

class Mod(object):
    def __init__(self, path):
        l = L()
        ctx = l.LLVMContextCreate()
        buf = VP(); msg = CP()
        if l.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), byref(buf), byref(msg)):
            raise Exception('cannot read ' + path)
        m = VP(); msg = CP()
        if l.LLVMParseIRInContext(ctx, buf, byref(m), byref(msg)):
            raise Exception('cannot parse: %s' % msg.value)
        self.m = m
        self.dl = l.LLVMGetModuleDataLayout(m)
        self.types = {}
        self.funcs = {}      # mangled -> Fn
        self.byref = {}
        self.globals = {}    # name -> (valueref, Ty, isconst, hasinit)
        f = l.LLVMGetFirstFunction(m)
        while f:
            fn = Fn()
            fn.ref = f
            fn.name = self.vname(f)
            fn.decl = bool(l.LLVMIsDeclaration(f))
            fn.mod = self
            self.funcs[fn.name] = fn
            self.byref[f] = fn
            f = l.LLVMGetNextFunction(f)
        g = l.LLVMGetFirstGlobal(m)
        while g:
            init = l.LLVMGetInitializer(g) if not l.LLVMIsDeclaration(g) else None
            nm = self.vname(g)
            self.globals[nm] = (g, self.ty(l.LLVMGlobalGetValueType(g)), bool(l.LLVMIsGlobalConstant(g)), init)
            g = l.LLVMGetNextGlobal(g)

    def vname(self, v):
        n = SZ()
        s = L().LLVMGetValueName2(v, byref(n))
        return s[:n.value].decode() if s else ''

    def ty(self, r):
        t = self.types.get(r)
        if t is not None:
            return t
        l = L()
        t = Ty(); t.ref = r; t.name = None; t.w = 0; t.size = 0
        self.types[r] = t
        k = l.LLVMGetTypeKind(r)
        if k == 8:
            t.k = 'int'; t.w = l.LLVMGetIntTypeWidth(r); t.size = (t.w + 7) // 8
            t.size = l.LLVMStoreSizeOfType(self.dl, r)
        elif k == 12:
            t.k = 'ptr'; t.w = 64; t.size = 8
        elif k == 2:
            t.k = 'f32'; t.w = 32; t.size = 4
        elif k == 3:
            t.k = 'f64'; t.w = 64; t.size = 8
        elif k == 10:
            t.k = 'struct'
            n = l.LLVMCountStructElementTypes(r)
            t.elems = [self.ty(l.LLVMStructGetTypeAtIndex(r, i)) for i in range(n)]
            try:
                t.size = l.LLVMABISizeOfType(self.dl, r)
                t.offs = [l.LLVMOffsetOfElement(self.dl, r, i) for i in range(n)]
            except Exception:
                pass
            s = l.LLVMGetStructName(r)
            t.name = s.decode() if s else None
        elif k == 11:
            t.k = 'array'; t.n = l.LLVMGetArrayLength2(r); t.elt = self.ty(l.LLVMGetElementType(r))
            t.size = l.LLVMABISizeOfType(self.dl, r)
        elif k == 13:
            t.k = 'vector'; t.n = l.LLVMGetVectorSize(r); t.elt = self.ty(l.LLVMGetElementType(r))
            t.size = l.LLVMABISizeOfType(self.dl, r); t.w = t.size * 8
        elif k == 0:
            t.k = 'void'
        elif k == 9:
            t.k = 'func'
        elif k == 4:
            t.k = 'f80'; t.w = 80; t.size = 16
        else:
            t.k = 'other%d' % k
        return t

    # operands: ('v', id) | ('c', int, w) | ('null',) | ('g', name) | ('undef', ty) | ('ce', op, ty, ops, extra) | ('agg', ty, [..]) | ('zero', ty)
    def operand(self, v, idmap):
        l = L()
        i = idmap.get(v)
        if i is not None:
            return ('v', i)
        k = l.LLVMGetValueKind(v)
        if k == 18 or k == 17 or True:
            pass
        t = self.ty(l.LLVMTypeOf(v))
        return self.const(v, k, t)

    def const(self, v, k=None, t=None):
        l = L()
        if k is None:
            k = l.LLVMGetValueKind(v); t = self.ty(l.LLVMTypeOf(v))
        # LLVMValueKind enum: 0 Argument 1 BasicBlock 5 Function 6 GlobalAlias 8 GlobalVariable 9 BlockAddress 10 ConstantExpr
        # 11 ConstantArray 12 ConstantStruct 13 ConstantVector 14 Undef 15 AggregateZero 16 DataArray 17 DataVector
        # 18 ConstantInt 19 FP 20 PointerNull
        if k == 18:
            if t.w <= 64:
                return ('c', l.LLVMConstIntGetZExtValue(v), t.w)
            s = self.str(v)
            val = s.split()[-1]
            return ('c', int(val) & ((1 << t.w) - 1), t.w)
        if k == 20:
            return ('c', 0, 64)
        if k == 19:
            import struct
            loss = I()
            x = l.LLVMConstRealGetDouble(v, byref(loss))
            if t.k == 'f32':
                return ('c', struct.unpack('<I', struct.pack('<f', x))[0], 32)
            if t.k == 'f64':
                return ('c', struct.unpack('<Q', struct.pack('<d', x))[0], 64)
            return ('other', 'fp80')
        if k == 5 or k == 8:
            return ('g', self.vname(v))
        if k == 6:
            return ('g', self.vname(v))
        if k in (14,) or l.LLVMIsUndef(v):
            return ('undef', t)
        if k == 15:
            return ('zero', t)
        if k == 10:
            op = OPC.get(l.LLVMGetConstOpcode(v))
            n = l.LLVMGetNumOperands(v)
            ops = [self.const(l.LLVMGetOperand(v, i)) for i in range(n)]
            x = None
            if op == 'gep':
                x = self.ty(l.LLVMGetGEPSourceElementType(v))
            elif op == 'icmp':
                x = ICMP[l.LLVMGetICmpPredicate(v)]
            return ('ce', op, t, ops, x)
        if k in (16, 17):
            n = t.n
            return ('agg', t, [self.const(l.LLVMGetAggregateElement(v, i)) for i in range(n)])
        if k in (11, 12, 13):
            n = l.LLVMGetNumOperands(v)
            return ('agg', t, [self.const(l.LLVMGetOperand(v, i)) for i in range(n)])
        return ('other', 'kind%d' % k)

    def str(self, v):
        p = L().LLVMPrintValueToString(v)
        return C.cast(p, CP).value.decode(errors='replace')

    def load(self, fn):
        """materialise a function body"""
        if fn.blocks is not None:
            return fn
        l = L()
        idmap = {}
        fn.params = []
        p = l.LLVMGetFirstParam(fn.ref)
        n = 0
        while p:
            idmap[p] = n
            fn.params.append((n, self.ty(l.LLVMTypeOf(p)), self.vname(p)))
            n += 1
            p = l.LLVMGetNextParam(p)
        blocks = []; bmap = {}
        b = l.LLVMGetFirstBasicBlock(fn.ref)
        raw = []
        while b:
            B = Block(); B.idx = len(blocks); B.phis = []; B.ins = []; B.succ = []; B.pred = []; B.loop = None
            B.name = self.vname(l.LLVMBasicBlockAsValue(b))
            bmap[b] = B; blocks.append(B)
            lst = []
            i = l.LLVMGetFirstInstruction(b)
            while i:
                idmap[i] = n
                lst.append((i, n)); n += 1
                i = l.LLVMGetNextInstruction(i)
            raw.append(lst)
            b = l.LLVMGetNextBasicBlock(b)
        for B, lst in zip(blocks, raw):
            for ref, idn in lst:
                x = Ins(); x.id = idn; x.x = None; x.blk = B
                x.op = OPC.get(l.LLVMGetInstructionOpcode(ref), 'op%d' % l.LLVMGetInstructionOpcode(ref))
                x.ty = self.ty(l.LLVMTypeOf(ref))
                x.name = self.vname(ref)
                x.line = 0
                op = x.op
                nops = l.LLVMGetNumOperands(ref)
                if op == 'phi':
                    x.ops = [(bmap[l.LLVMGetIncomingBlock(ref, j)].idx, self.operand(l.LLVMGetIncomingValue(ref, j), idmap))
                             for j in range(l.LLVMCountIncoming(ref))]
                    B.phis.append(x)
                    continue
                if op == 'br':
                    ns = l.LLVMGetNumSuccessors(ref)
                    x.x = [bmap[l.LLVMGetSuccessor(ref, j)] for j in range(ns)]
                    x.ops = [self.operand(l.LLVMGetCondition(ref), idmap)] if ns == 2 else []
                    B.succ = list(x.x)
                elif op == 'switch':
                    ns = l.LLVMGetNumSuccessors(ref)
                    x.ops = [self.operand(l.LLVMGetOperand(ref, 0), idmap)]
                    cases = []
                    for j in range(1, ns):
                        cvv = self.operand(l.LLVMGetOperand(ref, 2 * j), idmap)
                        cases.append((cvv[1], bmap[l.LLVMGetSuccessor(ref, j)]))
                    x.x = (bmap[l.LLVMGetSuccessor(ref, 0)], cases)
                    B.succ = [x.x[0]] + [c[1] for c in cases]
                elif op == 'call':
                    cal = l.LLVMGetCalledValue(ref)
                    k = l.LLVMGetValueKind(cal)
                    x.ops = [self.operand(l.LLVMGetOperand(ref, j), idmap) for j in range(nops - 1)]
                    x.x = self.operand(cal, idmap) if k != 23 else ('asm', self.str(ref))
                    if x.x[0] == 'other':
                        x.x = ('asm', self.str(ref))
                else:
                    x.ops = [self.operand(l.LLVMGetOperand(ref, j), idmap) for j in range(nops)]
                    if op == 'icmp':
                        x.x = (ICMP[l.LLVMGetICmpPredicate(ref)], self.ty(l.LLVMTypeOf(l.LLVMGetOperand(ref, 0))))
                    elif op == 'fcmp':
                        x.x = FCMP[l.LLVMGetFCmpPredicate(ref)]
                    elif op == 'alloca':
                        x.x = self.ty(l.LLVMGetAllocatedType(ref))
                    elif op == 'gep':
                        x.x = (self.ty(l.LLVMGetGEPSourceElementType(ref)),)
                    elif op in ('extractvalue', 'insertvalue'):
                        ni = l.LLVMGetNumIndices(ref); ix = l.LLVMGetIndices(ref)
                        x.x = [ix[j] for j in range(ni)]
                    elif op == 'atomicrmw':
                        x.x = l.LLVMGetAtomicRMWBinOp(ref)
                    elif op == 'store':
                        x.x = self.ty(l.LLVMTypeOf(l.LLVMGetOperand(ref, 0)))
                    elif op in ('trunc', 'zext', 'sext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'bitcast', 'ptrtoint', 'inttoptr', 'fptrunc', 'fpext'):
                        x.x = self.ty(l.LLVMTypeOf(l.LLVMGetOperand(ref, 0)))
                B.ins.append(x)
        for B in blocks:
            seen = set()
            for s in B.succ:
                if s.idx not in seen:
                    seen.add(s.idx); s.pred.append(B)
        fn.blocks = blocks
        find_loops(fn)
        return fn

class Loop(object):
    __slots__ = ('header', 'body', 'latches', 'depth', 'parent', 'exits')

def find_loops(fn):
    """natural loops through dominators; fn.loops: header idx -> Loop"""
    n = len(fn.blocks)
    # RPO
    order = []; seen = [False] * n
    st = [(fn.blocks[0], iter(fn.blocks[0].succ))]
    seen[0] = True
    while st:
        b, it = st[-1]
        for s in it:
            if not seen[s.idx]:
                seen[s.idx] = True
                st.append((s, iter(s.succ)))
                break
        else:
            order.append(b); st.pop()
    order.reverse()
    num = {b.idx: i for i, b in enumerate(order)}
    idom = {order[0].idx: order[0].idx}
    changed = True
    while changed:
        changed = False
        for b in order[1:]:
            new = None
            for p in b.pred:
                if p.idx in idom:
                    if new is None:
                        new = p.idx
                    else:
                        x, y = p.idx, new
                        while x != y:
                            while num[x] > num[y]: x = idom[x]
                            while num[y] > num[x]: y = idom[y]
                        new = x
            if new is not None and idom.get(b.idx) != new:
                idom[b.idx] = new; changed = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == order[0].idx: return False
            b = idom[b]
    loops = {}
    for b in order:
        for s in b.succ:
            if dom(s.idx, b.idx):
                lp = loops.get(s.idx)
                if lp is None:
                    lp = Loop(); lp.header = s; lp.body = {s.idx}; lp.latches = []; lp.parent = None
                    loops[s.idx] = lp
                lp.latches.append(b.idx)
                stack = [b]
                while stack:
                    x = stack.pop()
                    if x.idx in lp.body: continue
                    lp.body.add(x.idx)
                    stack.extend(p for p in x.pred if p.idx in num)
    for h, lp in loops.items():
        lp.depth = sum(1 for o in loops.values() if h in o.body)
        best = None
        for o in loops.values():
            if o is not lp and h in o.body:
                if best is None or len(o.body) < len(best.body):
                    best = o
        lp.parent = best
    for b in fn.blocks:
        best = None
        for o in loops.values():
            if b.idx in o.body and (best is None or len(o.body) < len(best.body)):
                best = o
        b.loop = best
    fn.loops = loops
    fn.idom = idom
