"""Contract environment for the interpreter: one iteration of the dispatch loop of interpret3.

Precondition (representation invariant of an interpreter frame):
  stack slots are (tag,word) pairs; the current frame starts at slot `fbase` with `nlocals` locals, followed by a
  4-slot header (next, method, ip, base - in whatever order the code's own constants say), followed by the operand
  stack whose depth is `depth`.  The code array holds at least ip + instruction length bytes.
"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'eng'))
from terms import *
import terms as TM
import smt, llir, build
from sym import *
import loops

EXC = ['ArithmeticException', 'ArrayIndexOutOfBoundsException', 'NullPointerException', 'NegativeArraySizeException',
       'ClassCastException', 'ArrayStoreException', 'StackOverflowError', 'IncompatibleClassChangeError', 'AbstractMethodError',
       'IllegalMonitorStateException', 'Throwable', 'RuntimeException']
ARR = ['ByteArray', 'BooleanArray', 'ShortArray', 'CharArray', 'IntArray', 'FloatArray', 'LongArray', 'DoubleArray']

WRAP = '''
#include "%s/src/interpret.cpp"
#pragma clang diagnostic ignored "-Winvalid-offsetof"
extern "C" {
#define P(n, v) extern const unsigned long P_##n; const unsigned long P_##n = (unsigned long)(v);
P(sp, __builtin_offsetof(local::Thread, sp))
P(ip, __builtin_offsetof(local::Thread, ip))
P(frame, __builtin_offsetof(local::Thread, frame))
P(code, __builtin_offsetof(local::Thread, code))
P(stack, __builtin_offsetof(local::Thread, stack))
P(m, __builtin_offsetof(vm::Thread, m))
P(m_types, __builtin_offsetof(vm::Machine, types))
P(exception, __builtin_offsetof(vm::Thread, exception))
P(protector, __builtin_offsetof(vm::Thread, protector))
P(flags, __builtin_offsetof(vm::Thread, backupHeapIndex) + 4)
P(TypeCount, vm::TypeCount)
P(IntTag, vm::IntTag)
P(ObjectTag, vm::ObjectTag)
P(FrameBaseOffset, local::FrameBaseOffset)
P(FrameNextOffset, local::FrameNextOffset)
P(FrameMethodOffset, local::FrameMethodOffset)
P(FrameIpOffset, local::FrameIpOffset)
P(FrameFootprint, local::FrameFootprint)
P(ArrayBody, vm::ArrayBody)
%s
}
'''

def wrapper():
    x = ''
    for e in EXC:
        x += 'P(E_%s, vm::Gc%s::Type)\n' % (e, e)
    for e in ARR:
        x += 'P(T_%s, vm::Gc%s::Type)\n' % (e, e)
    for f in ['Byte', 'Boolean', 'Char', 'Short', 'Int', 'Float', 'Long', 'Double', 'Object', 'Void']:
        x += 'P(F_%s, vm::%sField)\n' % (f, f)
    return WRAP % (build.REPO, x)

class Env(object):
    """one extraction of interpret.cpp, shared by all obligations of a check"""
    def __init__(self):
        self.bc = build.ir(None, name='interp', wrapper=wrapper())
        self.mod = llir.Mod(self.bc)
        self.ex = Exec(self.mod)
        ex = self.ex
        self.P = {}
        for n in list(ex.globals):
            if n.startswith('P_'):
                c = ex.global_bytes(n)
                v = c.get(0)
                self.P[n[2:]] = cv(v[1]) if v else 0
        self.fn = ex.find('local::interpret3')
        ex.loopmgr = self.loopmgr
        self.loops = loops.Loops(ex, gens=[lambda ctx: [c for g in ctx.st0.ghost.get('gens', ()) for c in g(ctx)]],
                                policy=lambda f, lp: 'unroll' if self.unroll else 'infer')
        self.unroll = False
        self.mod.load(self.fn)
        tops = [l for l in self.fn.loops.values() if l.parent is None]
        tops.sort(key=lambda l: -len(l.body))
        if not tops:
            raise Undecided('no dispatch loop in interpret3')
        self.dispatch = tops[0]
        self.contracts()

    def loopmgr(self, ex, st, fr, lp, back, work):
        if fr.fn is self.fn and lp is self.dispatch:
            if back:
                raise Terminal('next')
            return None
        return self.loops(ex, st, fr, lp, back, work)

    # -------------------------------------------------------------- assumed contracts of the surroundings
    def contracts(self):
        C = self.ex.contracts
        env = self
        def throwable(ex, st, a, ins):
            o = st.new_region(freshname('exc'), None, 'heap')
            st.event('makeThrowable', a[1], o.base)
            return o.base
        C['vm::makeThrowable'] = throwable
        def handler(ex, st, a, ins):
            st.event('handler',)
            raise Terminal('throw')
        C['local::findExceptionHandler'] = handler
        C['local::safePoint'] = lambda ex, st, a, ins: None
        C['vm::enter'] = lambda ex, st, a, ins: None
        def mark(ex, st, a, ins):
            st.event('mark', a[1], a[2], a[3] if len(a) > 3 else bv(1, 32))
        C['vm::mark'] = mark
        def throwing(kind):
            def f(ex, st, a, ins):
                st.event('throwNew', a[1] if len(a) > 1 else None)
                raise Terminal('throwNew')
            return f
        C['vm::throwNew'] = throwing('throwNew')
        C['vm::throw_'] = throwing('throw_')
        def abort_(ex, st, a, ins):
            ex.oblige(st, 'abort', FALSE, 'VM abort reached')
            raise PathEnd('abort')
        C['vm::abort'] = abort_
        def resolve_field(ex, st, a, ins):
            st.event('resolveField', a)
            return base('Fld')
        C['vm::resolveField'] = resolve_field
        def resolve_method(ex, st, a, ins):
            st.event('resolveMethod', a)
            return base('Callee')
        C['vm::resolveMethod'] = resolve_method
        def resolve_class(ex, st, a, ins):
            st.event('resolveClassInPool', a)
            return base('Cls')
        C['vm::resolveClassInPool'] = resolve_class
        C['vm::initClass'] = lambda ex, st, a, ins: st.event('initClass', a[1])
        def alloc(kind):
            def f(ex, st, a, ins):
                o = st.new_region(freshname('new'), None, 'heap')
                st.event('alloc', kind, tuple(a[1:]), o.base)
                st.ghost['alloc'] = o
                return o.base
            return f
        for k in ['BooleanArray', 'CharArray', 'FloatArray', 'DoubleArray', 'ByteArray', 'ShortArray', 'IntArray', 'LongArray',
                  'Array', 'Int', 'Long', 'ObjectArray']:
            C['vm::make' + k] = alloc(k)
        C['vm::make'] = alloc('instance')
        def pma(ex, st, a, ins):
            st.event('populateMultiArray', a)
            n = cv(a[4]) if isc(a[4]) else 0
            st.ghost['counts'] = tuple(ex.load(st, add(a[2], bv(4 * i, 64)), 4) for i in range(n))
        C['vm::populateMultiArray'] = pma
        def acq(name):
            def f(ex, st, a, ins):
                st.event(name, a[1])
            return f
        C['vm::acquire'] = acq('acquire')
        C['vm::release'] = acq('release')
        def jclass(ex, st, a, ins):
            st.event('getJClass', a[1])
            return uf('jclassOf', (a[1],), 64, 1 << 16, (1 << 47))
        C['vm::getJClass'] = jclass
        def instance_of(ex, st, a, ins):
            st.event('instanceOf', a[1], a[2])
            b = bvar('isInstance')
            return b
        C['vm::instanceOf'] = instance_of
        C['vm::className'] = lambda ex, st, a, ins: None

    # -------------------------------------------------------------- precondition
    def setup(self, op, operands=(), pre=(), wide=False, ipmod=None):
        """fresh state whose next instruction is `op`; pre: operand stack types, bottom..top"""
        P = self.P
        st = State()
        S = self
        T = st.new_region('T', None, 'thread')
        st.new_region('Mach', None, 'machine')
        code = st.new_region('Code', None, 'heap')
        meth = st.new_region('Meth', None, 'heap')
        ip = var('ip', 32, 0, 65535)
        if ipmod is not None:
            ip = add(mulc(var('ip_div4', 32, 0, 16383), 4), bv(ipmod, 32))
        fbase = var('fbase', 32, 0, 1 << 18)
        nl = var('nlocals', 32, 0, 65535)
        words = []
        for ty in pre:
            words += {'J': ['Jh', 'Jl'], 'D': ['Dh', 'Dl']}.get(ty, [ty])
        k = len(words)
        depth = var('depth_%d' % k, 32, k, 65535)
        FF = P['FrameFootprint']
        frame = add(fbase, nl)
        sp = add(add(frame, bv(FF, 32)), depth)
        def w(off, n, v):
            a, log = st.mem['T']
            st.mem['T'] = (a, log + (('w', off if isinstance(off, T_) else bv(off, 64), n, v),))
        w(P['m'], 8, base('Mach'))
        w(P['sp'], 4, sp)
        w(P['ip'], 4, ip)
        w(P['frame'], 4, frame)
        w(P['code'], 8, code.base)
        w(P['exception'], 8, bv(0, 64))
        slot = self.slotoff
        z = lambda x: zext(x, 64)
        w(slot(z(add(frame, bv(P['FrameBaseOffset'], 32))), 1), 8, zext(fbase, 64))
        w(slot(z(add(frame, bv(P['FrameMethodOffset'], 32))), 1), 8, meth.base)
        # operand stack
        vals = []
        i = 0
        tops = []
        n = len(words)
        for j, ty in enumerate(words):
            idx = sub(sp, bv(n - j, 32))
            if ty in ('I', 'F'):
                v = var('s%d' % j, 32); tag = bv(P['IntTag'], 64); word = zext(v, 64)
            elif ty == 'A':
                v = var('a%d' % j, 64); tag = bv(P['ObjectTag'], 64); word = v
            elif ty == 'X':
                v = (var('t%d' % j, 64), var('x%d' % j, 64)); tag, word = v
            elif ty in ('Jh', 'Dh', 'Jl', 'Dl'):
                v = var('s%d' % j, 32); tag = bv(P['IntTag'], 64); word = zext(v, 64)
            elif isinstance(ty, tuple):        # ('A', term)
                v = ty[1]; tag = bv(P['ObjectTag'], 64); word = v
            w(slot(z(idx), 0), 8, tag)
            w(slot(z(idx), 1), 8, word)
            tops.append((ty, v))
        # fold into operands
        ops = []
        j = 0
        while j < len(tops):
            ty, v = tops[j]
            if ty in ('Jh', 'Dh'):
                ops.append(concat(v, tops[j + 1][1])); j += 2
            else:
                ops.append(v); j += 1
        # code bytes
        def code_w(off, v):
            a, log = st.mem['Code']
            st.mem['Code'] = (a, log + (('w', off, v.w // 8, v),))
        body = P_body = self.codebody()
        code_at = lambda d: add(add(zext(ip, 64), bv(d, 64)), bv(body, 64))
        d = 0
        if wide:
            code_w(code_at(0), bv(0xc4, 8)); d = 1
        code_w(code_at(d), bv(op, 8))
        d += 1
        opnds = []
        for kind in operands:
            # 'u1','s1','u2','s2','s4': big-endian operand; ('c', value, n): fixed
            if isinstance(kind, tuple):
                n_ = kind[2]
                v = bv(kind[1], 8 * n_)
            else:
                n_ = int(kind[1])
                v = var('opnd%d_%s' % (len(opnds), kind), 8 * n_)
            for q in range(n_):
                code_w(code_at(d + q), extract(v, 8 * (n_ - q) - 1, 8 * (n_ - q - 1)))
            opnds.append(v)
            d += n_
        a, log = st.mem['Meth']
        st.mem['Meth'] = (a, log + (('w', bv(self.field('MethodCode'), 64), 8, code.base),))
        c = C_()
        c.clen = var('codelen', 64, 1, 1 << 20)
        code_w(bv(self.enum('CodeLength'), 64), c.clen)
        st.assume(ule(add(zext(ip, 64), bv(d, 64)), c.clen))
        c.st = st; c.sp = sp; c.ip = ip; c.frame = frame; c.fbase = fbase; c.nl = nl; c.depth = depth; c.ops = ops
        c.opnds = opnds; c.len = d; c.words = words; c.n = n; c.base = var('base', 32, 0, (1 << 18) + 65535)
        st.assume(ule(c.base, frame))
        c.code = code; c.meth = meth; c.T = T
        return c

    def slotoff(self, idx64, which):
        return add(add(mulc(idx64, 16), bv(8 * which, 64)), bv(self.P['stack'], 64))

    def codebody(self):
        return self.enum('CodeBody')

    def field(self, n):
        return self.enum(n)

    _enums = None
    def enum(self, n):
        if self._enums is None:
            import re
            self._enums = {}
            txt = open(os.path.join(build.types_dir(), 'type-declarations.cpp')).read()
            for m in re.finditer(r'const unsigned (\w+) = (\d+);', txt):
                self._enums[m.group(1)] = int(m.group(2))
            for m in re.finditer(r'#define (\w+) (\d+)', txt):
                self._enums.setdefault(m.group(1), int(m.group(2)))
        return self._enums[n]

    # -------------------------------------------------------------- reading the post-state
    def slot(self, st, idx32, which):
        return self.ex.rread(st, st.regs[base('T')], self.slotoff(zext(idx32, 64), which), 8)

    def tf(self, st, name, n):
        return self.ex.rread(st, st.regs[base('T')], bv(self.P[name], 64), n)

class C_(object):
    pass

T_ = T
