"""Arguments and results between Java, reflection, JNI and native functions: src/compile.cpp, src/interpret.cpp, src/avian/x86.h.

A call is described by its descriptor (descr.Spec): for an arbitrary parameter K the value handed over must be found where the
other side expects it - in the argument words of the callee, in a register, or in the argument array of the native function."""
from unit import *
import descr as D
from descr import Spec, resize, codeof
import jni as J

INTS = 'BCISZ'
REF = 'L['
FC = ['Byte', 'Boolean', 'Char', 'Short', 'Int', 'Float', 'Long', 'Double', 'Object', 'Void']

# ------------------------------------------------------------------ where the arguments come from
class Source(object):
    """value(kinds): 32 (ints, float) / 64-bit value of parameter K"""
    def word(self, k, raw):
        """raw 64-bit cell -> value of kind k as 64 bits of which the low `bits(k)` count"""
        return raw
    def bits(self, k): return 64 if k in 'JDL[' else 32

def narrow(k, raw):
    """32-bit int value of a B/Z/C/S/I cell whose low bytes hold it"""
    if k == 'B': return sext(trunc(raw, 8), 32)
    if k == 'Z': return zext(trunc(raw, 8), 32)
    if k == 'S': return sext(trunc(raw, 16), 32)
    if k == 'C': return zext(trunc(raw, 16), 32)
    return trunc(raw, 32)

def lazy_cells(u, st, isreg, target, ghost, size=None, kind='heap'):
    """pointers read out of region `isreg` lead into region `target` at ghost offset ghost(pointer)"""
    prev = u.ex.lazy
    def lazy(ex, s, atom, addr):
        if comes_from(ex, s, atom, isreg):
            off = uf(ghost, (atom,), 64)
            s.assume(ult(off, bv(1 << 40, 64)))
            s.bind[atom] = add(u.curb(s, target), off)
            return s.regs.get(u.curb(s, target))
        return prev(ex, s, atom, addr) if prev else None
    u.ex.lazy = lazy

def comes_from(ex, s, atom, reg):
    """atom is a word of region reg as it was in the beginning"""
    names = [reg] if isinstance(reg, str) else reg
    todo = [atom]; seen = set()
    while todo:
        t = todo.pop()
        if not isinstance(t, T) or t in seen: continue
        seen.add(t)
        if t.op == 'arr': 
            if any(t.args[0] == 'M_' + n for n in names): return True
        todo += [x for x in t.args if isinstance(x, T)]
    return False

DRV = '''
namespace vm {
%s
}
'''
CONSTS = {'it_s': '__builtin_offsetof(vm::MethodSpecIterator, s)', 'it_t': '__builtin_offsetof(vm::MethodSpecIterator, t)',
          'ACC_STATIC': 'vm::ACC_STATIC', 'ACC_NATIVE': 'vm::ACC_NATIVE', 'ACC_SYNCHRONIZED': 'vm::ACC_SYNCHRONIZED', 'ACC_INTERFACE': 'vm::ACC_INTERFACE',
          'm_stackSize': '__builtin_offsetof(vm::Machine, stackSizeInBytes)', 't_state': '__builtin_offsetof(vm::Thread, state)'}
for _k in FC: CONSTS['F_' + _k] = 'vm::%sField' % _k
for _k in ('VOID', 'INT8', 'INT16', 'INT32', 'INT64', 'FLOAT', 'DOUBLE', 'POINTER'): CONSTS['Y_' + _k] = _k + '_TYPE'

def box_contracts(u):
    C = u.ex.contracts
    def mk(kind):
        def f(ex, st, a, ins):
            v = a[1]
            gc(u, st)
            st.event('box', kind, v)
            o = st.new_region(freshname('box'), None, 'heap')
            st.ghost['moved'] = dict(st.ghost['moved']); st.ghost['moved'][o.name] = o.name
            return o.base
        return f
    for k in ('Int', 'Long'): C['vm::make' + k] = mk(k)
    def jclass(ex, st, a, ins):
        ev(st, 'getJClass', a[1])
        gc(u, st)
        return u.curb(st, 'JCls')
    C['vm::getJClass'] = jclass
    C['vm::objectClass'] = lambda ex, st, a, ins: base('AnyClass')

def kinds_of(P): return {k: 'F_' + n for k, n in D.CODE.items()}

class Call(object):
    """a method to be called: descriptor, flags; footprint, parameter count and return kind as V07 establishes them"""
    def __init__(self, u, st, static, native=False, sync=False, spec=Spec):
        P = u.P
        self.u = u; self.static = static
        st.ghost['moved'] = st.ghost.get('moved', {})
        u.obj(st, 'SpecA', None, None)
        n = var('specLength', 64, 3, 1 << 17)
        body = u.enum('ByteArrayBody')
        st.assume(eq(u.rd(st, 'SpecA', u.enum('ByteArrayLength'), 8), n))
        self.sp = sp = spec(u, st, 'SpecA', body)
        st.assume(ult(add(sp.END, bv(1, 64)), n))
        self.this = 0 if static else 1
        self.words = add(sp.slot(sp.END), bv(self.this, 32))
        st.assume(ule(self.words, bv(255, 32)))
        if u.bound: st.assume(ule(sp.index(sp.END), bv(u.bound, 32)))
        self.rc = codeof(u, st, sp, add(sp.END, bv(1, 64)), kinds_of(P), 8)
        fl = or_(and_(var('otherFlags', 16), bv(0xffff & ~(P['ACC_STATIC'] | P['ACC_NATIVE'] | P['ACC_SYNCHRONIZED']), 16)), bv((P['ACC_STATIC'] if static else 0) | (P['ACC_NATIVE'] if native else 0) | (P['ACC_SYNCHRONIZED'] if sync else 0), 16))
        for m in ('Meth', 'Meth2'):
            u.obj(st, m, None, None, MethodFlags=(2, fl), MethodSpec=(8, base('SpecA')), MethodParameterFootprint=(1, trunc(self.words, 8)),
                  MethodParameterCount=(1, trunc(sp.index(sp.END), 8)), MethodReturnCode=(1, self.rc), MethodClass=(8, base('MClass')), MethodName=(8, base('MName')))
        for r in ('MClass', 'MName', 'JCls', 'This', 'AnyClass'): st.new_region(r, None, 'heap')
        u.ex.contracts['vm::MethodSpecIterator::next'] = D.next_contract(u, lambda s: sp, P['it_s'])
        u.ex.contracts['vm::parameterFootprint'] = self.footprint
        self.forms = []
        st.ghost['gens'] = (self.gens,); st.ghost['nogeneric'] = True
        u.ex.contracts['vm::fieldType'] = lambda ex, s, a, ins: ftype(u, a[1])
        u.ex.contracts['vm::fieldCode'] = lambda ex, s, a, ins: fcode(u, a[1])
    def footprint(self, ex, st, a, ins):
        sp = self.sp
        self.u.oblige(st, boolc(sp.pos(st, a[1]) is bv(0, 64)), 'counts the argument words of the descriptor')
        return add(sp.slot(sp.END), ite(a[2] if a[2].w == 0 else ne(a[2], bv(0, a[2].w)), bv(0, 32), bv(1, 32)))
    def gens(self, ctx):
        """done facts: for every array the loop writes, the forms the arguments may take in it"""
        sp = self.sp
        facts = []
        for name in getattr(ctx, 'arrays', ()):
            for d, f in self.forms:
                def fact(st, name=name, f=f):
                    r = [q for q in st.regs.values() if q.name == name and not q.freed]
                    if not r: raise Undecided('array')
                    return f(st, lambda off, n: self.u.ex.rread(st, r[0], off, n))
                facts.append(('%s (in %s)' % (d, name), fact))
        out = D.gens(self.u, sp, done=facts, words=getattr(self, 'counters', ()))(ctx)
        out += self.more(ctx) if hasattr(self, 'more') else []
        return out
    # expected value of parameter K as (32-bit int value, 64-bit value)
    def value32(self, st): raise NotImplementedError
    def agree(self, st, word, lo=0):
        """the 64-bit word holds parameter K (ints and floats: its low half)"""
        sp = self.sp; K = sp.K
        v = self.value(st)
        return band(implies(sp.kind(K, 'JDL['), eq(word, v)), implies(bnot(sp.kind(K, 'JDL[')), eq(trunc(word, 32), trunc(v, 32))))

# ------------------------------------------------------------------ sources of arguments
def src_boxes(u, c, st):
    """Object[]: boxes of exactly the parameters' types"""
    P = u.P; sp = c.sp; K = sp.K
    body = u.enum('ArrayBody')
    n = sp.index(sp.END)
    u.obj(st, 'Args', None, add(bv(body, 64), mulc(zext(n, 64), 8)))
    st.assume(eq(u.rd(st, 'Args', u.enum('ArrayLength'), 8), zext(n, 64)))
    st.new_region('Boxes', None, 'heap')
    lazy_cells(u, st, 'Args', 'Boxes', 'boxAt')
    a0, l0 = st.mem['Args']; b0, bl0 = st.mem['Boxes']
    def value(s):
        p = u.ex.lread(s, a0, l0, add(bv(body, 64), mulc(zext(sp.index(K), 64), 8)), 8)
        raw = u.ex.lread(s, b0, bl0, add(uf('boxAt', (p,), 64), bv(8, 64)), 8)
        s.assume(implies(sp.kind(K, 'Z'), ule(trunc(raw, 8), bv(1, 8))))
        return sel(sp, K, raw, p)
    c.value = value
    return base('Args')

def sel(sp, K, raw, ref, flt=None):
    v = ite(sp.kind(K, REF), ref, raw)
    for k in 'BZSC': v = ite(sp.kind(K, k), zext(narrow(k, raw), 64), v)
    if flt is not None: v = ite(sp.kind(K, 'F'), zext(flt, 64), v)
    return v

def src_jvalues(u, c, st):
    sp = c.sp; K = sp.K
    n = sp.index(sp.END)
    st.new_region('JV', mulc(zext(n, 64), 8), 'native')
    st.new_region('Handles', None, 'native')
    lazy_cells(u, st, 'JV', 'Handles', 'handleAt')
    a0, l0 = st.mem['JV']; b0, bl0 = st.mem['Handles']
    def value(s):
        p = u.ex.lread(s, a0, l0, mulc(zext(sp.index(K), 64), 8), 8)
        s.assume(implies(sp.kind(K, 'Z'), ule(trunc(p, 8), bv(1, 8))))
        o = u.ex.lread(s, b0, bl0, uf('handleAt', (p,), 64), 8)
        return sel(sp, K, p, ite(eq(p, bv(0, 64)), bv(0, 64), o))
    c.value = value
    return base('JV')

class VaSpec(Spec):
    """System V AMD64 va_list: where the next value of each class comes from, before parameter p"""
    g0 = None
    def gpo(self, p): return self.f('gpOffset', p, 32)
    def fpo(self, p): return self.f('fpOffset', p, 32)
    def ovo(self, p): return self.f('overflowOffset', p, 64)
    def axiom(self, p):
        n = self.next(p)
        g, f, o = self.gpo(p), self.fpo(p), self.ovo(p)
        fl = self.kind(p, 'DF')
        ing = ule(g, bv(40, 32)); inf = ule(f, bv(160, 32))
        step = band(eq(self.gpo(n), ite(band(bnot(fl), ing), add(g, bv(8, 32)), g)), eq(self.fpo(n), ite(band(fl, inf), add(f, bv(16, 32)), f)),
                    eq(self.ovo(n), ite(ite(fl, inf, ing), o, add(o, bv(8, 64)))))
        rng_ = band(ule(g, bv(48, 32)), eq(trunc(g, 3), bv(0, 3)), ule(bv(48, 32), f), ule(f, bv(176, 32)), eq(trunc(f, 4), bv(0, 4)),
                    ule(o, mulc(zext(self.index(p), 64), 8)), eq(trunc(o, 3), bv(0, 3)))
        return band(Spec.axiom(self, p), implies(self.par(p), band(rng_, implies(bnot(eq(p, self.END)), step))))

def src_va(u, c, st, indirect):
    sp = c.sp; K = sp.K
    st.new_region('VA', bv(24, 64), 'native'); st.new_region('Save', bv(176, 64), 'native'); st.new_region('Over', None, 'native'); st.new_region('Handles', None, 'native')
    one = bv(1, 64)
    u.w(st, 'VA', 0, 4, sp.gpo(one)); u.w(st, 'VA', 4, 4, sp.fpo(one)); u.w(st, 'VA', 8, 8, base('Over')); u.w(st, 'VA', 16, 8, base('Save'))
    st.assume(eq(sp.ovo(one), bv(0, 64)))
    lazy_cells(u, st, ('Save', 'Over'), 'Handles', 'handleAt')
    a0, l0 = st.mem['Save']; o0, ol0 = st.mem['Over']; b0, bl0 = st.mem['Handles']
    def value(s):
        g, f, o = sp.gpo(K), sp.fpo(K), sp.ovo(K)
        ov = u.ex.lread(s, o0, ol0, o, 8)
        ri = ite(ule(g, bv(40, 32)), u.ex.lread(s, a0, l0, zext(g, 64), 8), ov)
        rf = ite(ule(f, bv(160, 32)), u.ex.lread(s, a0, l0, zext(f, 64), 8), ov)
        h = u.ex.lread(s, b0, bl0, uf('handleAt', (ri,), 64), 8)
        ref = ri if indirect is False else ite(eq(ri, bv(0, 64)), bv(0, 64), h)
        v = ite(sp.kind(K, 'D'), rf, ite(sp.kind(K, 'F'), zext(fptrunc(rf, 32), 64), ite(sp.kind(K, REF), ref, ri)))
        return v
    c.value = value
    def more(ctx):
        out = []
        cells = [v for v in ctx.vars if v.kind == 'cell' and v.key[0] == 'VA']
        ptrs = [v for v in ctx.vars if v.w == 64 and not v.temp and v.pbase is not None and sp.pos(ctx.st0, v.entry) is not None]
        for p in ptrs:
            for v in cells:
                if v.w == 32:
                    for f, d in ((sp.gpo, 'general'), (sp.fpo, 'floating point')):
                        out.append(loops.Cand(lambda vals, s, p=p, v=v, f=f: eq(vals[v], f(sp.pos(s, vals[p]))), '%s: next %s register before %s' % (v.name, d, p.name)))
                elif v.pbase is not None:
                    out.append(loops.Cand(lambda vals, s, p=p, v=v: eq(sub(vals[v], v.entry), sp.ovo(sp.pos(s, vals[p]))), '%s: next stack argument before %s' % (v.name, p.name)))
        return out
    c.more = more
    return base('VA')

# ------------------------------------------------------------------ compiled code: invokeArray, invokeList
def unit_jit():
    smt.ABSTRACT_FP = True
    cs = dict(CONSTS)
    cs.update({'arch': '__builtin_offsetof(local::MyThread, arch)', 'trace': '__builtin_offsetof(local::MyThread, trace)'})
    u = Unit('marshaljit', ['src/compile.cpp'], consts=cs, jit=True, exc=['StackOverflowError'])
    box_contracts(u)
    C = u.ex.contracts
    C['local::codeAllocator'] = lambda ex, st, a, ins: bv(0x10000, 64)
    def comp(ex, st, a, ins):
        ev(st, 'compile', a[3]); gc(u, st)
    C['local::compile'] = comp
    C['local::methodAddress'] = lambda ex, st, a, ins: (ev(st, 'methodAddress', a[1]), var('entry', 64, 1 << 16, 1 << 47))[1]
    def find(ex, st, a, ins):
        ev(st, 'findMethod', a[1], a[2])
        c = st.ghost['call']
        return u.curb(st, 'Meth' if c.static else 'Meth2')
    C['local::findMethod'] = find
    def resolve(ex, st, a, ins):
        ev(st, 'resolveMethod', *a[1:])
        gc(u, st)
        return u.curb(st, 'Meth')
    C['vm::resolveMethod'] = resolve
    C['local::doTransition'] = lambda ex, st, a, ins: None
    C['vm::Thread::Checkpoint::Checkpoint'] = lambda ex, st, a, ins: None
    C['vm::Thread::Checkpoint::~Checkpoint'] = lambda ex, st, a, ins: None
    C['local::getIp'] = lambda ex, st, a, ins: var('callerIp', 64)
    def arch(i):
        def f(ex, st, a, ins):
            if ins.ty.k == 'void': return None
            return fresh('arch%d' % i, ins.ty.w)
        return f
    for i in range(J.SLOTS): C['__slot%d' % i] = arch(i)      # layout of frames: what the Architecture says
    def prot(st, vt, r, off):
        if vt is None or 'ArgumentList' not in vt: raise Undecided('protector ' + str(vt))
        st.ghost['argsProtected'] = True
        return []
    u.other_protector = prot
    return u

def world(u, static, spec=Spec, native=False, sync=False):
    st = u.state()
    for r in ('Types', 'Loader'): st.new_region(r, None, 'heap')
    c = Call(u, st, static, spec=spec, native=native, sync=sync)
    st.ghost['call'] = c
    if 'arch' in u.P: J.vtobj(u, st, 'arch'); u.w(st, 'T', u.P['arch'], 8, base('O_arch'))
    return st, c

def jit_forms(c):
    sp = c.sp; K = sp.K
    slot = zext(add(sp.slot(K), bv(c.this, 32)), 64)
    c.forms = [('argument word of parameter K', lambda st, rd: c.agree(st, rd(mulc(slot, 8), 8))),
               ('parameter K is marked a reference exactly when it is one', lambda st, rd: beq(ne(rd(slot, 1), bv(0, 8)), sp.kind(K, REF))),
               ('second word of a long is no reference', lambda st, rd: implies(sp.kind(K, 'JD'), eq(rd(add(slot, bv(1, 64)), 1), bv(0, 8))))]

def invoked(u, c, what, st0this):
    """contract of vmInvoke: the compiled method is entered with its argument words"""
    sp = c.sp
    def f(ex, st, a, ins):
        r, off = ex.resolve(st, a[2])
        rd = lambda o, n: ex.rread(st, r, add(off, o), n)
        K = sp.K
        slot = zext(add(sp.slot(K), bv(c.this, 32)), 64)
        u.oblige(st, eq(a[1], var('entry', 64, 1 << 16, 1 << 47)), what + ': enters the method')
        u.oblige(st, c.agree(st, rd(mulc(slot, 8), 8)), what + ': parameter K arrives unchanged in its argument word')
        if not c.static: u.oblige(st, eq(rd(bv(0, 64), 8), base('This')), what + ': the receiver is the first argument')
        u.oblige(st, eq(a[3], mulc(c.words, 8)), what + ': size of the arguments')
        u.oblige(st, eq(a[5], rtype(u, c)), what + ': native type of the result')
        st.event('invoke')
        v = var('result', 64)
        gc(u, st)
        return v
    u.ex.contracts['vmInvoke'] = f
    u.ex.contracts['local::vmInvoke'] = f

def ftype(u, code):
    """fieldType, as V07 proves it"""
    P = u.P
    r = bv(P['Y_VOID'], 32)
    for n, t in D.TYPE.items(): r = ite(eq(code, bv(P['F_' + n], code.w)), bv(P['Y_' + t], 32), r)
    return r
def fcode(u, ch):
    P = u.P
    r = bv(P['F_Object'], 32)
    for k, n in D.CODE.items(): r = ite(eq(ch, bv(ord(k), ch.w)), bv(P['F_' + n], 32), r)
    return r
def rtype(u, c): return ftype(u, c.rc)

def result_post(u, c, s, val, what, resultref):
    """the caller gets the result boxed: 32 bits of an int kind, 64 of a long or double, the reference itself, nothing"""
    P = u.P
    is_ = lambda *ns: bor(*[eq(c.rc, bv(P['F_' + n], 8)) for n in ns])
    b = events(s, 'box')
    if len(b) > 1: return u.oblige(s, FALSE, what + ': one result')
    if b:
        kind, v = b[0][1], b[0][2]
        u.oblige(s, is_('Long', 'Double') if kind == 'Long' else is_('Byte', 'Boolean', 'Char', 'Short', 'Int', 'Float'), what + ': a result is boxed by its width')
        u.oblige(s, eq(resize(v, 64), var('result', 64)) if kind == 'Long' else eq(resize(v, 32), trunc(var('result', 64), 32)), what + ': the value of the result')
    else:
        u.oblige(s, is_('Object', 'Void'), what + ': int, long, float and double results are boxed')
        u.oblige(s, eq(val, ite(is_('Void'), bv(0, 64), resultref)), what + ': the reference returned')

def t_jit(u, res, source, static):
    st, c = world(u, static, spec=VaSpec if source in ('va', 'va direct', 'named') else Spec)
    what = 'invoke(%s, %s)' % (source, 'static' if static else 'instance')
    u.ex.lazy = None
    jit_forms(c)
    this = bv(0, 64) if static else base('This')
    if source == 'boxes': f = u.fn('local::MyProcessor::invokeArray', 'vm::GcObject*, vm::GcObject*'); args = [base('T'), base('Meth'), this, src_boxes(u, c, st)]
    elif source == 'jvalues': f = u.fn('local::MyProcessor::invokeArray', 'jvalue'); args = [base('T'), base('Meth'), this, src_jvalues(u, c, st)]
    elif source in ('va', 'va direct'):
        f = u.fn('local::MyProcessor::invokeList', 'vm::GcMethod*'); args = [base('T'), base('Meth'), this, TRUE if source == 'va' else FALSE, src_va(u, c, st, source == 'va')]
    else:
        for n in ('CName', 'MNameC'): st.new_region(n, None, 'native')
        st.new_region('Text', var('textLength', 64, 3, 1 << 17), 'native')
        f = u.fn('local::MyProcessor::invokeList', 'vm::GcClassLoader*')
        args = [base('T'), base('Loader'), base('CName'), base('MNameC'), add(base('SpecA'), bv(u.enum('ByteArrayBody'), 64)), this, src_va(u, c, st, False)]
    st.new_region('Proc', None, 'native')
    invoked(u, c, what, this)
    def post(s, kd, val):
        if kd == 'throw': return u.oblige(s, boolc(not events(s, 'invoke')), what + ': a stack overflow is raised before the call')
        if kd == 'throwobj': return
        if kd != 'ret': return u.oblige(s, FALSE, what + ': returns (%s)' % kd)
        u.oblige(s, boolc(len(events(s, 'invoke')) == 1), what + ': calls the method once')
        u.oblige(s, boolc(s.ghost.get('argsProtected', False)), what + ': the arguments are registered with the collector while the method is compiled')
        result_post(u, c, s, val, what, var('result', 64))
    u.verify(res, what, f, [base('Proc')] + args, st, post, expect=('ret',))
