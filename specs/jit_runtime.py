"""Runtime helpers of compiled code (src/codegen/runtime.cpp, src/compile.cpp): contracts from the JVM specification."""
from unit import *
import interp as S
import interp_heap as H

EXC = ['ArithmeticException', 'ArrayIndexOutOfBoundsException', 'NullPointerException', 'NegativeArraySizeException', 'ByteArray',
       'ClassCastException', 'StackOverflowError', 'IncompatibleClassChangeError', 'AbstractMethodError', 'NoSuchMethodError', 'NoSuchFieldError', 'Reference']
FC = ['Byte', 'Boolean', 'Char', 'Short', 'Int', 'Float', 'Long', 'Double', 'Object', 'Void']
ATY = {4: 'Boolean', 5: 'Char', 6: 'Float', 7: 'Double', 8: 'Byte', 9: 'Short', 10: 'Int', 11: 'Long'}

def unit_arith():
    return Unit('runtime', ['src/codegen/runtime.cpp'], vm=False, extra_text='', gen=False)

def unit_jit():
    cs = {'F_' + f: 'vm::%sField' % f for f in FC}
    cs['lockClean'] = '__builtin_offsetof(vm::local::MyThread, methodLockIsClean)' if False else '0'
    cs = {k: v for k, v in cs.items() if k != 'lockClean'}
    cs.update({'methodLockIsClean': '__builtin_offsetof(local::MyThread, methodLockIsClean)', 'trace': '__builtin_offsetof(local::MyThread, trace)',
               'nativeMethod': '__builtin_offsetof(local::MyThread::CallTrace, nativeMethod)', 'stack': '__builtin_offsetof(local::MyThread, stack)',
               'ACC_NATIVE': 'vm::ACC_NATIVE', 'ACC_STATIC': 'vm::ACC_STATIC', 'ACC_SUPER': 'vm::ACC_SUPER', 'ReferenceClass': 'vm::ReferenceClass',
               'ACC_INTERFACE': 'vm::ACC_INTERFACE', 'BootstrapFlag': 'vm::BootstrapFlag'})
    u = Unit('jit', ['src/compile.cpp'], consts=cs, jit=True, exc=EXC)
    contracts(u)
    return u

# --------------------------------------------------------------- pure arithmetic helpers
def I(w): return w
PURE = {}
def pure():
    A = S.ARITH
    out = {}
    # name: (parameter order as (b, a) or (a), spec function of the JVM operands, result extension)
    def two(n, op, ext):
        out[n] = (2, op, ext)
    def one(n, op, ext):
        out[n] = (1, op, ext)
    Z = 'z'; SX = 's'
    f = lambda n: A[n][3]
    for n, o in (('addDouble', 'dadd'), ('subtractDouble', 'dsub'), ('multiplyDouble', 'dmul'), ('divideDouble', 'ddiv'), ('moduloDouble', 'drem'),
                 ('addFloat', 'fadd'), ('subtractFloat', 'fsub'), ('multiplyFloat', 'fmul'), ('divideFloat', 'fdiv'), ('moduloFloat', 'frem')):
        two(n, f(o), Z)
    for n, o in (('compareDoublesG', 'dcmpg'), ('compareDoublesL', 'dcmpl'), ('compareFloatsG', 'fcmpg'), ('compareFloatsL', 'fcmpl'), ('compareLongs', 'lcmp')):
        two(n, f(o), SX)
    one('negateDouble', f('dneg'), Z); one('negateFloat', f('fneg'), Z)
    one('doubleToFloat', f('d2f'), Z); one('floatToDouble', f('f2d'), Z)
    one('doubleToInt', f('d2i'), SX); one('doubleToLong', f('d2l'), SX); one('floatToInt', f('f2i'), SX); one('floatToLong', f('f2l'), SX)
    one('intToDouble', f('i2d'), Z); one('intToFloat', f('i2f'), Z); one('longToDouble', f('l2d'), Z); one('longToFloat', f('l2f'), Z)
    one('absoluteFloat', lambda a: and_(a, bv((1 << 31) - 1, 32)), Z)
    one('absoluteLong', lambda a: ite(slt(a, bv(0, 64)), neg(a), a), SX)
    one('absoluteInt', lambda a: ite(slt(a, bv(0, 32)), neg(a), a), SX)
    return out

def t_pure(u, res, name, arity, spec, ext):
    fn = u.fn('avian::codegen::runtime::' + name)
    ws = [ty.w for _, ty, _ in fn.params]
    st = State()
    if arity == 2:
        b, a = var('b', ws[0]), var('a', ws[1])
        args = [b, a]; want = spec(a, b)
    else:
        a = var('a', ws[0])
        args = [a]; want = spec(a)
    # a float operand or result occupies the low half of its register; the upper half of an int or float result is unused
    def post(s, kind, val):
        if kind != 'ret':
            return u.oblige(s, FALSE, name + ': returns')
        if want.w == 64:
            u.oblige(s, eq(val, want), name + ': result')
        else:
            u.oblige(s, eq(trunc(val, 32) if val.w > 32 else val, want), name + ': result')
    def extra(model):
        import interp_common as IC
        return {'fn': name, 'args': [IC.evalt(x, model) for x in args]}
    u.verify(res, name, fn, args, st, post, extra=extra)

# --------------------------------------------------------------- contracts of the callees
def contracts(u):
    C = u.ex.contracts
    P = u.P
    def alloc(kind):
        def f(ex, st, a, ins):
            al = [orig(st, x) for x in a[1:]]
            gc(u, st)
            o = st.new_region(freshname('new'), None, 'heap')
            st.event('alloc', kind, tuple(al), o.base)
            st.ghost['moved'] = dict(st.ghost['moved']); st.ghost['moved'][o.name] = o.name
            return o.base
        return f
    for k in ['BooleanArray', 'CharArray', 'FloatArray', 'DoubleArray', 'ByteArray', 'ShortArray', 'IntArray', 'LongArray', 'Array', 'ObjectArray', 'New', 'NewGeneral']:
        C['vm::make' + k] = alloc(k)
    def lookup(name, result, cond=None):
        def f(ex, st, a, ins):
            ev(st, name, *a[1:])
            gc(u, st)
            return u.curb(st, result)
        return f
    C['vm::resolveClass'] = lookup('resolveClass', 'Cls')
    def fih(ex, st, a, ins):
        ev(st, 'findInHierarchy', *a[1:])
        which = st.ghost.get('found', 'Found')
        return u.curb(st, which) if which else bv(0, 64)
    C['vm::findInHierarchyOrNull'] = fih
    def init(ex, st, a, ins):
        ev(st, 'initClass', a[1])
        gc(u, st)
    C['vm::initClass'] = init
    def isa(ex, st, a, ins):
        ev(st, 'isAssignableFrom', a[1], a[2])
        return bvar('isAssignable')
    C['vm::isAssignableFrom'] = isa
    def iof(ex, st, a, ins):
        ev(st, 'instanceOf', a[1], a[2])
        return bvar('isInstance')
    C['vm::instanceOf'] = iof
    def jclass(ex, st, a, ins):
        ev(st, 'getJClass', a[1])
        gc(u, st)
        return u.curb(st, 'JCls')
    C['vm::getJClass'] = jclass
    def mon(name):
        def f(ex, st, a, ins):
            st.event(name, orig(st, a[1]), ex.rread(st, st.regs[base('T')], bv(P['methodLockIsClean'], 64), 1))
            gc(u, st)
        return f
    C['vm::acquire'] = mon('acquire'); C['vm::release'] = mon('release')
    def pma(ex, st, a, ins):
        n = cv(a[4])
        ev(st, 'populateMultiArray', a[1], a[3], a[4], *[ex.load(st, add(a[2], bv(4 * i, 64)), 4) for i in range(n)])
        gc(u, st)
    C['vm::populateMultiArray'] = pma
    def comp(ex, st, a, ins):
        ev(st, 'compile', a[3])
        gc(u, st)
        st.ghost['compiled'] = True
    C['local::compile'] = comp
    C['vm::local::compile'] = comp
    C['local::unresolved'] = lambda ex, st, a, ins: (ev(st, 'unresolved', a[1]), bvar('unresolvedAddress'))[1]
    C['local::bootNativeThunk'] = lambda ex, st, a, ins: var('nativeThunk', 64, 1 << 16, 1 << 47)
    C['local::codeAllocator'] = lambda ex, st, a, ins: bv(0x10000, 64)
    C['vm::replace'] = lambda ex, st, a, ins: None
    C['local::ensure'] = C['vm::ensure'] = lambda ex, st, a, ins: (gc(u, st), bvar('roomForTrace'))[1]
    C['local::traceSize'] = lambda ex, st, a, ins: var('traceSize', 32, 0, 1 << 20)
    C['vm::checkDaemon'] = lambda ex, st, a, ins: None
    def rsc(ex, st, a, ins):
        ev(st, 'resolveSystemClass', *a[1:])
        gc(u, st)
        return u.curb(st, 'Cls')
    C['vm::resolveSystemClass'] = rsc
    C['vm::isSuperclass'] = lambda ex, st, a, ins: (ev(st, 'isSuperclass', a[1], a[2]), bvar('superclass'))[1]
    def strcmp_(ex, st, a, ins):
        ev(st, 'strcmp', a[0], a[1])
        return ite(bvar('isInit'), bv(0, 32), bv(1, 32))
    C['strcmp'] = strcmp_
    C['vm::strcmp'] = strcmp_
    # the heap's card marking (virtual call through Machine::heap)
    def marking(ex, st, f, ins):
        return None
    heapmark = u.ex
    def indirect(ex, st, f, ins):
        return None
    u.ex.indirect = indirect

# --------------------------------------------------------------- common pre-states
def world(u, resolved=True):
    """thread, machine, type table, and a (method, reference) pair as compiled code passes it"""
    st = u.state()
    P = u.P
    st.new_region('Types', None, 'heap')
    u.w(st, 'Mach', P['m_types'], 8, base('Types'))
    st.new_region('Cls_ByteArray', None, 'heap')
    u.w(st, 'Types', u.enum('ArrayLength'), 8, bv(P['TypeCount'] + 2, 64))
    u.w(st, 'Types', u.enum('ArrayBody') + 8 * P['E_ByteArray'], 8, base('Cls_ByteArray'))
    for n in ('Cls', 'Found', 'JCls', 'Loader', 'RName', 'RSpec', 'KM'):
        st.new_region(n, None, 'heap')
    u.obj(st, 'RClsName', 'Cls_ByteArray')
    st.new_region('Cls_Class', None, 'heap')
    u.w(st, 'Cls', 0, 8, base('Cls_Class'))
    u.obj(st, 'Ref', None, ReferenceClass=(8, base('Cls') if resolved else base('RClsName')), ReferenceName=(8, base('RName')), ReferenceSpec=(8, base('RSpec')))
    u.obj(st, 'M', None, MethodClass=(8, base('KM')))
    u.w(st, 'KM', u.enum('ClassLoader'), 8, base('Loader'))
    u.obj(st, 'Pair', None, PairFirst=(8, base('M')), PairSecond=(8, base('Ref')))
    return st

def gcmarks(u):
    """vm::mark(t, o, offset) is inline: calls Heap::mark(o, offset / 8, 1) through the heap's vtable"""
    pass

def thrown(u, s, kind, val, exc, what):
    if kind != 'throw':
        u.oblige(s, FALSE, '%s: throws %s (path ends with %s)' % (what, exc, kind)); return
    u.oblige(s, eq(val, bv(u.P['E_' + exc], val.w)), '%s: throws %s' % (what, exc), 'exc')

def field_resolution(u, s, what, resolved, static, null=False):
    """the addressed field was looked up as the reference says, in the declaring method's loader"""
    rc = events(s, 'resolveClass'); fh = events(s, 'findInHierarchy')
    if resolved:
        u.oblige(s, boolc(not rc), what + ': a resolved class constant is used as it is')
    else:
        u.oblige(s, boolc(len(rc) == 1) if len(rc) != 1 else band(eq(rc[0][1], base('Loader')), eq(rc[0][2], base('RClsName'))), what + ': resolves the class named by the reference in the loader of the executing class')
    u.oblige(s, boolc(False) if len(fh) != 1 else band(eq(fh[0][1], base('Cls')), eq(fh[0][2], base('RName')), eq(fh[0][3], base('RSpec'))), what + ': looks the member up by name and descriptor in the resolved class')

SZ = {'Boolean': (1, lambda e: sext(e, 32)), 'Byte': (1, lambda e: sext(e, 32)), 'Char': (2, lambda e: zext(e, 32)), 'Short': (2, lambda e: sext(e, 32)),
      'Int': (4, lambda e: e), 'Float': (4, lambda e: e), 'Long': (8, lambda e: e), 'Double': (8, lambda e: e), 'Object': (8, lambda e: e)}

def with_field(u, st, code, static, null=False, vol=False, wrong=False):
    P = u.P
    fo = var('foffset', 16, 8, 60000)
    for n, (sz, v) in {'FieldOffset': (2, fo), 'FieldCode': (1, bv(P['F_' + code], 8)),
                       'FieldFlags': (2, bv((8 if static != wrong else 0) | (0x40 if vol else 0), 16)), 'FieldName': (8, base('MName')), 'FieldClass': (8, base('FCls'))}.items():
        u.w(st, 'Found', u.enum(n), sz, v)
    st.new_region('FCls', None, 'heap'); st.new_region('MName', None, 'heap'); st.new_region('FClsName', None, 'heap'); u.w(st, 'FCls', u.enum('ClassName'), 8, base('FClsName'))
    w = SZ[code][0]
    size = var('osize', 64, 16, 65535)
    st.assume(ule(add(zext(fo, 64), bv(w, 64)), size))
    st.new_region('Obj', size, 'heap')
    st.new_region('ObjCls', None, 'heap')
    u.w(st, 'Obj', 0, 8, base('ObjCls'))
    u.w(st, 'FCls', u.enum('ClassStaticTable'), 8, base('Obj') if static else bv(0, 64))
    st.new_region('Val', None, 'heap')
    return zext(fo, 64)

def lookup_thrown_before(u, s, kind): pass

def t_get(u, res, code, static, null, resolved, vol, wrong=False):
    st = world(u, resolved)
    fo = with_field(u, st, code, static, null, vol, wrong)
    w, conv = SZ[code]
    what = '%s %s%s%s%s' % ('getStaticFieldValueFromReference' if static else 'getFieldValueFromReference', code, ' null' if null else '', '' if resolved else ' unresolved', ' volatile' if vol else '') + (' wrong kind' if wrong else '')
    a0, l0 = st.mem['Obj']
    v0 = u.ex.rread(st, st.regs[base('Obj')], fo, w)
    if static:
        fn = u.fn('local::getStaticFieldValueFromReference'); args = [base('T'), base('Pair')]
    else:
        fn = u.fn('local::getFieldValueFromReference'); args = [base('T'), base('Pair'), bv(0, 64) if null else base('Obj')]
    def post(s, kind, val):
        field_resolution(u, s, what, resolved, static)
        if wrong:
            thrown(u, s, kind, val, 'IncompatibleClassChangeError', what)
            return u.unchanged(s, what, {} if resolved else {'Ref': rng(u.enum('ReferenceClass'), 8)})
        if null:
            return thrown(u, s, kind, val, 'NullPointerException', what)
        if kind != 'ret':
            return u.oblige(s, FALSE, what + ': returns (%s)' % kind)
        if static:
            ic = events(s, 'initClass')
            u.oblige(s, bor(*[eq(e[1], base('FCls')) for e in ic]) if ic else FALSE, what + ': the declaring class is initialized first')
        want = conv(v0)
        got = orig(s, val)
        u.oblige(s, eq(trunc(got, 32) if want.w == 32 else got, want), what + ': the value of the field')
        u.unchanged(s, what, {} if resolved else {'Ref': rng(u.enum('ReferenceClass'), 8)})
    u.verify(res, what, fn, args, st, post, expect=('throw',) if null or wrong else ('ret',))

def t_set(u, res, code, static, null, resolved, vol, wrong=False):
    st = world(u, resolved)
    fo = with_field(u, st, code, static, null, vol, wrong)
    w, conv = SZ[code]
    fam = {'Long': 'Long', 'Double': 'Long', 'Object': 'Object'}.get(code, '')
    fname = 'set%s%sFieldValueFromReference' % ('Static' if static else '', fam)
    what = '%s %s%s%s%s' % (fname, code, ' null' if null else '', '' if resolved else ' unresolved', ' volatile' if vol else '') + (' wrong kind' if wrong else '')
    fn = u.fn('local::' + fname)
    v = base('Val') if code == 'Object' else var('value', 64 if fam else 32)
    args = [base('T'), base('Pair')] + ([] if static else [bv(0, 64) if null else base('Obj')]) + [v]
    def post(s, kind, val):
        field_resolution(u, s, what, resolved, static)
        if wrong:
            thrown(u, s, kind, val, 'IncompatibleClassChangeError', what)
            return u.unchanged(s, what, {} if resolved else {'Ref': rng(u.enum('ReferenceClass'), 8)})
        if null:
            thrown(u, s, kind, val, 'NullPointerException', what)
            return
        if kind != 'ret':
            return u.oblige(s, FALSE, what + ': returns (%s)' % kind)
        if static:
            ic = events(s, 'initClass')
            u.oblige(s, bor(*[eq(e[1], base('FCls')) for e in ic]) if ic else FALSE, what + ': the declaring class is initialized first')
        got = orig(s, u.rd(s, 'Obj', fo, w))
        u.oblige(s, eq(got, trunc(v, 8 * w) if v.w > 8 * w else v), what + ': the field holds the stored value')
        if code == 'Object':
            u.oblige(s, bor(*[band(eq(e[1], base('Obj')), eq(zext(e[2], 64), fo)) for e in events(s, 'mark')]), what + ': the store is reported to the collector')
        al = {'Obj': rng(fo, w)}
        if not resolved: al['Ref'] = rng(u.enum('ReferenceClass'), 8)
        u.unchanged(s, what, al)
    u.verify(res, what, fn, args, st, post, expect=('throw',) if null or wrong else ('ret',))

def vcheck_ret(u, s, kind, what):
    if kind != 'ret':
        u.oblige(s, FALSE, '%s: returns (path ends with %s)' % (what, kind))
        return False
    return True

def no(u, s, what, *names):
    u.oblige(s, boolc(not events(s, *names)), '%s: no %s' % (what, '/'.join(names)))

# --------------------------------------------------------------- division
def t_div(u, res, name):
    fn = u.fn('local::' + name)
    w = 64 if name.endswith('Long') else 32
    b, a = var('b', w), var('a', w)
    st = world(u)
    # the preallocated exception object used when no memory is left for a new one
    st.new_region('Roots', None, 'heap'); st.new_region('Prealloc', None, 'heap')
    u.w(st, 'Mach', u.P['m_roots'], 8, base('Roots'))
    u.w(st, 'Roots', u.enum('RootsArithmeticException'), 8, base('Prealloc'))
    spec = S.j_div if name.startswith('divide') else S.j_rem
    z = eq(b, bv(0, w))
    def post(s, kind, val):
        if kind == 'ret':
            u.oblige(s, bnot(z), name + ': returns only for a non-zero divisor')
            u.oblige(s, eq(trunc(val, w) if w < 64 else val, spec(a, b)), name + ': result')
        elif kind == 'throw':
            u.oblige(s, z, name + ': throws only for a zero divisor')
            thrown(u, s, kind, val, 'ArithmeticException', name)
        else:
            u.oblige(s, z, name + ': throws only for a zero divisor')
            u.oblige(s, boolc(kind == 'throwobj'), name + ': throws')
            if kind == 'throwobj':
                u.oblige(s, eq(orig(s, val), base('Prealloc')), name + ': the preallocated ArithmeticException')
    u.verify(res, name, fn, [base('T'), b, a], st, post, expect=('ret', 'throw', 'throwobj'),
             extra=lambda m: {'fn': name, 'args': [m.get('b', 0), m.get('a', 0)]})

# --------------------------------------------------------------- allocation
def t_newarray(u, res, aty):
    name = 'makeBlankArray(%s)' % ATY[aty]
    fn = u.fn('local::makeBlankArray')
    n = var('length', 32)
    st = world(u)
    def post(s, kind, val):
        al = events(s, 'alloc')
        if kind == 'ret':
            u.oblige(s, sge(n, bv(0, 32)), name + ': returns only for a non-negative length')
            if len(al) != 1 or al[0][1] != ATY[aty] + 'Array':
                return u.oblige(s, FALSE, name + ': allocates one array of the requested type')
            u.oblige(s, eq(zext(al[0][2][0], 64), sext(n, 64)), name + ': of the requested length')
            u.oblige(s, eq(val, al[0][3]), name + ': returns the new array')
        else:
            u.oblige(s, slt(n, bv(0, 32)), name + ': throws only for a negative length')
            u.oblige(s, boolc(not al), name + ': a failing allocation has no effect')
            thrown(u, s, kind, val, 'NegativeArraySizeException', name)
    u.verify(res, name, fn, [base('T'), bv(aty, 32), n], st, post, expect=('ret', 'throw'))

def cls_from_pair(u, s, what):
    rc = events(s, 'resolveClass')
    u.oblige(s, boolc(False) if len(rc) != 1 else band(eq(rc[0][1], base('Loader')), eq(rc[0][2], base('RName'))), what + ': resolves the named class in the loader of the executing class')

def t_anewarray(u, res, ref):
    name = 'makeBlankObjectArray' + ('FromReference' if ref else '')
    fn = u.fn('local::' + name)
    n = var('length', 32)
    st = world(u)
    def post(s, kind, val):
        al = events(s, 'alloc')
        if ref: cls_from_pair(u, s, name)
        if kind == 'ret':
            u.oblige(s, sge(n, bv(0, 32)), name + ': returns only for a non-negative length')
            if len(al) != 1 or al[0][1] != 'ObjectArray':
                return u.oblige(s, FALSE, name + ': allocates one object array')
            u.oblige(s, eq(al[0][2][0], base('Cls')), name + ': of the requested element class')
            u.oblige(s, eq(zext(al[0][2][1], 64), sext(n, 64)), name + ': of the requested length')
            u.oblige(s, eq(val, al[0][3]), name + ': returns the new array')
        else:
            u.oblige(s, slt(n, bv(0, 32)), name + ': throws only for a negative length')
            u.oblige(s, boolc(not al), name + ': a failing allocation has no effect')
            thrown(u, s, kind, val, 'NegativeArraySizeException', name)
    u.verify(res, name, fn, [base('T'), base('Pair') if ref else base('Cls'), n], st, post, expect=('ret', 'throw'))

def t_multi(u, res, ref, dims):
    name = 'makeMultidimensionalArray%s %d' % ('FromReference' if ref else '', dims)
    fn = u.fn('local::makeMultidimensionalArray' + ('FromReference' if ref else ''))
    st = world(u)
    off = var('offset', 32, 0, 1 << 20)
    st.new_region('Stack', None, 'native')
    u.w(st, 'T', u.P['stack'], 8, base('Stack'))
    cnt = [var('count%d' % i, 32) for i in range(dims)]
    # the compiled caller leaves the last dimension in the lowest stack word
    for i in range(dims):
        junk = var('junk%d' % i, 32)
        u.w(st, 'Stack', mulc(add(zext(off, 64), bv(dims - 1 - i, 64)), 8), 8, concat(junk, cnt[i]))
    negc = bor(*[slt(x, bv(0, 32)) for x in cnt])
    def post(s, kind, val):
        al = events(s, 'alloc'); pm = events(s, 'populateMultiArray')
        if ref: cls_from_pair(u, s, name)
        if kind == 'ret':
            u.oblige(s, bnot(negc), name + ': returns only when no dimension is negative')
            if len(al) != 1 or len(pm) != 1:
                return u.oblige(s, FALSE, name + ': allocates one outer array and populates it')
            u.oblige(s, eq(zext(al[0][2][0], 64), sext(cnt[0], 64)), name + ': outer length is the first dimension')
            u.oblige(s, band(eq(pm[0][1], al[0][3]), eq(pm[0][2], bv(0, 32)), eq(pm[0][3], bv(dims, 32))), name + ': populates the new array from dimension 0')
            for i in range(dims):
                u.oblige(s, eq(pm[0][4 + i], cnt[i]), name + ': dimension %d in order' % i)
            u.oblige(s, eq(orig(s, val), al[0][3]), name + ': returns the new array')
            o = u.ex.load(s, val, 8)
            u.oblige(s, eq(orig(s, and_(o, bv(-8, 64))), base('Cls')), name + ': of the requested class')
        else:
            u.oblige(s, negc, name + ': throws only for a negative dimension')
            u.oblige(s, boolc(not al), name + ': a failing allocation has no effect')
            thrown(u, s, kind, val, 'NegativeArraySizeException', name)
    u.policy = lambda f, lp: 'unroll' if 'makeMultidimensionalArray2' in f else 'infer'
    u.verify(res, name, fn, [base('T'), base('Pair') if ref else base('Cls'), bv(dims, 32), off], st, post, expect=('ret', 'throw'))

def t_new(u, res, which):
    fn = u.fn('local::' + which)
    st = world(u)
    ref = which == 'makeNewFromReference'
    vf = var('vmflags', 16)
    u.w(st, 'Cls', u.enum('ClassVmFlags'), 2, vf)
    def post(s, kind, val):
        if not vcheck_ret(u, s, kind, which): return
        if ref: cls_from_pair(u, s, which)
        tr = [e for e in s.trace if e[0] in ('initClass', 'alloc')]
        ini = [e for e in tr if e[0] == 'initClass']; al = [e for e in tr if e[0] == 'alloc']
        if len(al) != 1 or not ini or tr[0][0] != 'initClass':
            return u.oblige(s, FALSE, which + ': initializes the class, then allocates one instance')
        u.oblige(s, band(*[eq(e[1], base('Cls')) for e in ini]), which + ': initializes the requested class')
        u.oblige(s, eq(al[0][2][0], base('Cls')), which + ': an instance of the requested class')
        u.oblige(s, eq(orig(s, val), al[0][3]), which + ': returns the new object')
        if which == 'makeNew64':
            pass
        else:
            u.oblige(s, boolc(al[0][1] == 'NewGeneral'), which + ': registers finalizable and reference objects')
    u.verify(res, which, fn, [base('T'), base('Pair') if ref else base('Cls')], st, post)

# --------------------------------------------------------------- type tests
def t_cast(u, res, fname, null):
    ref = fname.endswith('FromReference')
    what = fname + (' null' if null else '')
    fn = u.fn('local::' + fname)
    st = world(u)
    st.new_region('Obj', None, 'heap'); st.new_region('ObjCls', None, 'heap')
    u.w(st, 'Obj', 0, 8, or_(base('ObjCls'), bv(0, 64)))
    u.obj(st, 'NmA', None, ByteArrayLength=(8, var('lenA', 64, 1, 65535))); u.obj(st, 'NmB', None, ByteArrayLength=(8, var('lenB', 64, 1, 65535)))
    u.w(st, 'ObjCls', u.enum('ClassName'), 8, base('NmA')); u.w(st, 'Cls', u.enum('ClassName'), 8, base('NmB'))
    o = bv(0, 64) if null else base('Obj')
    cast = fname.startswith('checkCast')
    test = bvar('isAssignable') if cast else bvar('isInstance')
    def post(s, kind, val):
        if ref: cls_from_pair(u, s, what)
        t = events(s, 'isAssignableFrom', 'instanceOf')
        for e in t:
            u.oblige(s, band(eq(e[1], base('Cls')), eq(e[2], base('ObjCls') if e[0] == 'isAssignableFrom' else o)), what + ': tests the class of the object against the given class')
        if cast:
            if kind == 'ret':
                u.oblige(s, TRUE if null else (test if t else FALSE), what + ': succeeds only for null or an instance')
            else:
                u.oblige(s, FALSE if null else bnot(test), what + ': throws only for a non-instance')
                thrown(u, s, kind, val, 'ClassCastException', what)
        else:
            if not vcheck_ret(u, s, kind, what): return
            want = ite(test, bv(1, 64), bv(0, 64))
            if len(t) != 1: return u.oblige(s, FALSE, what + ': tests once')
            u.oblige(s, eq(val, want), what + ': result of the type test')
        u.unchanged(s, what)
    u.verify(res, what, fn, [base('T'), base('Pair') if ref else base('Cls'), o], st, post,
             expect=('ret',) if null or not cast else ('ret', 'throw'))

# --------------------------------------------------------------- stores, monitors, throw, class constants
def t_setmaybenull(u, res, null):
    what = 'setMaybeNull' + (' null' if null else '')
    fn = u.fn('local::setMaybeNull')
    st = world(u)
    size = var('osizeS', 64, 16, 1 << 32); off = var('offset', 32)
    st.assume(ule(add(zext(off, 64), bv(8, 64)), size))
    st.new_region('Obj', size, 'heap'); st.new_region('Val', None, 'heap')
    def post(s, kind, val):
        if null:
            thrown(u, s, kind, val, 'NullPointerException', what)
            return u.unchanged(s, what)
        if not vcheck_ret(u, s, kind, what): return
        u.oblige(s, eq(u.rd(s, 'Obj', zext(off, 64), 8), base('Val')), what + ': the location holds the value')
        u.oblige(s, bor(*[band(eq(e[1], base('Obj')), eq(e[2], off)) for e in events(s, 'mark')]), what + ': the store is reported to the collector')
        u.unchanged(s, what, {'Obj': rng(zext(off, 64), 8)})
    u.verify(res, what, fn, [base('T'), bv(0, 64) if null else base('Obj'), off, base('Val')], st, post, expect=('throw',) if null else ('ret',))

def t_monitor(u, res, fname, null):
    what = fname + (' null' if null else '')
    fn = u.fn('local::' + fname)
    st = world(u)
    st.new_region('Obj', None, 'heap')
    u.w(st, 'T', u.P['methodLockIsClean'], 1, bv(1, 8))
    cls = 'Class' in fname
    arg = base('Cls') if cls else base('Obj')
    evn = 'acquire' if fname.startswith('acquire') else 'release'
    def post(s, kind, val):
        if null:
            return thrown(u, s, kind, val, 'NullPointerException', what)
        if not vcheck_ret(u, s, kind, what): return
        e = events(s, 'acquire', 'release')
        if len(e) != 1 or e[0][0] != evn:
            return u.oblige(s, FALSE, what + ': one %s' % evn)
        if cls:
            j = events(s, 'getJClass')
            u.oblige(s, eq(j[0][1], base('Cls')) if len(j) == 1 else FALSE, what + ': the class object of the class')
        u.oblige(s, eq(e[0][1], base('JCls') if cls else base('Obj')), what + ': acts on the monitor of the object')
        if fname.endswith('OnEntrance'):
            u.oblige(s, eq(e[0][2], bv(0, 8)), what + ': an asynchronous unwind during the acquisition does not release the monitor')
            u.oblige(s, eq(u.rd(s, 'T', u.P['methodLockIsClean'], 1), bv(1, 8)), what + ': the lock is recorded as held afterwards')
        u.unchanged(s, what, {'T': rng(u.P['methodLockIsClean'], 1)} if fname.endswith('OnEntrance') else {})
    u.verify(res, what, fn, [base('T'), bv(0, 64) if null else arg], st, post, expect=('throw',) if null else ('ret',))

def t_throw(u, res, null):
    what = 'throw_' + (' null' if null else '')
    fn = u.fn('local::throw_')
    st = world(u)
    st.new_region('Obj', None, 'heap')
    def post(s, kind, val):
        if null: return thrown(u, s, kind, val, 'NullPointerException', what)
        u.oblige(s, boolc(kind == 'throwobj'), what + ': throws the object')
        if kind == 'throwobj': u.oblige(s, eq(orig(s, val), base('Obj')), what + ': throws the operand')
    u.verify(res, what, fn, [base('T'), bv(0, 64) if null else base('Obj')], st, post, expect=('throw',) if null else ('throwobj',))

def t_jclass(u, res, fname):
    fn = u.fn('local::' + fname)
    st = world(u)
    ref = fname.endswith('FromReference')
    def post(s, kind, val):
        if not vcheck_ret(u, s, kind, fname): return
        if ref: cls_from_pair(u, s, fname)
        j = events(s, 'getJClass')
        u.oblige(s, eq(j[0][1], base('Cls')) if len(j) == 1 else FALSE, fname + ': of the given class')
        u.oblige(s, eq(orig(s, val), base('JCls')), fname + ': returns the java.lang.Class object')
        u.unchanged(s, fname)
    u.verify(res, fname, fn, [base('T'), base('Pair') if ref else base('Cls')], st, post)

# --------------------------------------------------------------- lookupswitch in compiled code
def t_lookup(u, res):
    name = 'lookUpAddress'
    fn = u.fn('local::lookUpAddress')
    st = State()
    n = var('count', 32, 0, (1 << 24))
    st.new_region('Tab', mulc(zext(n, 64), 16), 'native')
    key, dflt = var('key', 32), var('default', 64)
    ent = lambda i, d=0: add(mulc(zext(i, 64), 16), bv(d, 64))
    i0 = var('i0', 32)
    K = lambda s, i: trunc(u.ex.rread(s, s.regs[base('Tab')], ent(i), 8), 32)
    k0 = K(st, i0)
    hit = band(ult(i0, n), eq(k0, key))
    busy = [False]
    def on_load(ex, s, r, off, nb):
        if r.name != 'Tab' or busy[0]: return
        c, d = lin_parts(off)
        if tz(sub(off, bv(0, 64))) >= 4 or True:
            m = trunc(lshr(and_(off, bv(-16, 64)), bv(4, 64)), 32)
            busy[0] = True
            try:
                if smt.valid(s.pc, eq(ent(m), off)) is True:
                    km = K(s, m)
                    g = band(ult(m, n), ult(i0, n))
                    s.assume(bor(bnot(g), bnot(ult(m, i0)), slt(km, k0)))
                    s.assume(bor(bnot(g), bnot(ult(i0, m)), slt(k0, km)))
                    if m not in s.ghost.get('idx', ()):
                        s.ghost['idx'] = s.ghost.get('idx', ()) + (m,)
            finally:
                busy[0] = False
    u.ex.on_load = on_load
    def gens(ctx):
        out = []
        for v in ctx.vars:
            if v.w != 32: continue
            out.append(loops.Cand(lambda vals, s, v=v: bor(bnot(hit), ule(vals[v], i0)), 'matching index >= ' + v.name))
            out.append(loops.Cand(lambda vals, s, v=v: bor(bnot(hit), ult(i0, vals[v])), 'matching index < ' + v.name))
            out.append(loops.Cand(lambda vals, s, v=v: ule(vals[v], n), v.name + ' <= count'))
        return out
    st.ghost['gens'] = (gens,)
    def post(s, kind, val):
        if not vcheck_ret(u, s, kind, name): return
        A = lambda i: u.ex.rread(s, s.regs[base('Tab')], ent(i, 8), 8)
        u.oblige(s, bor(bnot(hit), eq(val, A(i0))), name + ': an entry whose key equals the operand is taken')
        alts = [eq(val, dflt)] + [band(ult(m, n), eq(K(s, m), key), eq(val, A(m))) for m in s.ghost.get('idx', ())]
        u.oblige(s, bor(*alts), name + ': otherwise the default is taken')
    try:
        u.verify(res, name, fn, [key, base('Tab'), n, dflt], st, post)
    finally:
        u.ex.on_load = None

# --------------------------------------------------------------- method selection
def method_world(u, st):
    P = u.P
    fl = var('mflags', 16)
    u.w(st, 'Found', u.enum('MethodFlags'), 2, fl)
    off = var('moffset', 16)
    return fl, off

def t_method(u, res, fname, resolved, null=False, found=True, boot=False, special=None):
    what = fname + ('' if resolved else ' unresolved') + (' null' if null else '') + ('' if found else ' missing') + (' bootstrap class' if boot else '')
    fn = u.fn('local::' + fname)
    P = u.P
    st = world(u, resolved)
    en = u.enum
    def method(name, cls, flags):
        if base(name) not in st.regs: st.new_region(name, None, 'heap')
        u.w(st, name, en('MethodClass'), 8, base(cls))
        u.w(st, name, en('MethodFlags'), 2, flags)
        code = 'Code_' + name
        st.new_region(code, None, 'heap')
        hascode = var('hascode_' + name, 1)
        u.w(st, name, en('MethodCode'), 8, ite(eq(hascode, bv(1, 1)), base(code), bv(0, 64)))
        u.w(st, code, en('CodeCompiled'), 8, var('compiled_' + name, 64, 1 << 16, 1 << 47))
        u.w(st, name, en('MethodName'), 8, base('MName_' + name)); u.w(st, name, en('MethodSpec'), 8, base('MSpec_' + name))
        st.new_region('MName_' + name, None, 'heap'); st.new_region('MSpec_' + name, None, 'heap')
        u.w(st, 'MName_' + name, en('ByteArrayLength'), 8, var('namelength', 64, 1, 65535))
        return hascode
    st.new_region('DeclCls', None, 'heap'); st.new_region('ClsName', None, 'heap')
    u.w(st, 'DeclCls', en('ClassName'), 8, base('ClsName')); u.w(st, 'Cls', en('ClassName'), 8, base('ClsName'))
    nvirt = var('vtlength', 64, 1, 65535)
    moff = var('moffset', 16)
    st.assume(ult(zext(moff, 64), nvirt))
    fflags, iflags = var('flags_found', 16), var('flags_impl', 16)
    hc = {'Found': method('Found', 'DeclCls', fflags)}
    u.w(st, 'Found', en('MethodOffset'), 2, moff)
    hc['Impl'] = method('Impl', 'DeclCls', iflags)
    st.assume(eq(and_(iflags, bv(P['ACC_STATIC'], 16)), bv(0, 16)))
    # the receiver (or, for invokespecial, the superclass) and its virtual table
    for c in ('ObjCls', 'Super', 'VT', 'IT'):
        st.new_region(c, None, 'heap')
    if base('Obj') not in st.regs: st.new_region('Obj', None, 'heap')
    u.w(st, 'Obj', 0, 8, base('ObjCls'))
    u.w(st, 'ObjCls', en('ClassVirtualTable'), 8, base('VT')); u.w(st, 'Super', en('ClassVirtualTable'), 8, base('VT'))
    u.w(st, 'ObjCls', en('ClassVmFlags'), 2, bv(P['BootstrapFlag'] if boot else 0, 16))
    u.w(st, 'ObjCls', en('ClassName'), 8, base('ClsName'))
    st.new_region('Roots', None, 'heap'); st.new_region('BootLoader', None, 'heap')
    u.w(st, 'Mach', P['m_roots'], 8, base('Roots')); u.w(st, 'Roots', en('RootsBootLoader'), 8, base('BootLoader'))
    u.w(st, 'VT', en('ArrayLength'), 8, nvirt)
    slot = add(bv(P['ArrayBody'], 64), mulc(zext(moff, 64), 8))
    u.w(st, 'VT', slot, 8, base('Impl'))
    u.w(st, 'KM', en('ClassSuper'), 8, base('Super'))
    kflags = var('kflags', 16)
    u.w(st, 'KM', en('ClassFlags'), 2, kflags)
    # trace record that native calls are announced in
    st.new_region('Trace', None, 'native')
    u.w(st, 'T', P['trace'], 8, base('Trace'))
    iface = fname.startswith('findInterface')
    if iface:
        u.w(st, 'ObjCls', en('ClassInterfaceTable'), 8, base('IT'))
        u.w(st, 'Found', en('MethodClass'), 8, base('Iface'))
        st.new_region('Iface', None, 'heap'); st.new_region('Other', None, 'heap')
        u.w(st, 'Iface', en('ClassName'), 8, base('ClsName'))
        u.w(st, 'IT', en('ArrayLength'), 8, bv(6, 64))
        st.new_region('VTO', None, 'heap')
        pos = st.ghost.get('ipos', 1)
        for i in range(3):
            u.w(st, 'IT', P['ArrayBody'] + 16 * i, 8, base('Iface') if (found and i == pos) else base('Other'))
            u.w(st, 'IT', P['ArrayBody'] + 16 * i + 8, 8, base('VT') if i == pos else base('VTO'))
    st.ghost['found'] = 'Found' if (found or iface) else None
    isspec = band(ne(and_(kflags, bv(P['ACC_SUPER'], 16)), bv(0, 16)), bnot(bvar('isInit')), bvar('superclass'))
    static_ = lambda f: ne(and_(f, bv(P['ACC_STATIC'], 16)), bv(0, 16))
    native = lambda f: ne(and_(f, bv(P['ACC_NATIVE'], 16)), bv(0, 16))
    args = [base('T')] + ([base('Found'), base('Obj')] if fname == 'findInterfaceMethodFromInstance' else [base('Pair')])
    if fname in ('findVirtualMethodFromReference', 'findInterfaceMethodFromInstanceAndReference'): args.append(base('Obj'))
    if null: args[-1] = bv(0, 64)
    def post(s, kind, val):
        if fname != 'findInterfaceMethodFromInstance':
            field_resolution(u, s, what, resolved, None)
        if not found:
            if iface:
                if kind != 'throw': return u.oblige(s, FALSE, what + ': throws')
                return thrown(u, s, kind, val, 'IncompatibleClassChangeError', what)
            return thrown(u, s, kind, val, 'NoSuchMethodError', what)
        byref = fname.endswith('FromReference') or fname.endswith('AndReference')
        if fname == 'findSpecialMethodFromReference':
            sup = events(s, 'isSuperclass')
            for e in sup:
                u.oblige(s, band(eq(e[1], base('DeclCls')), eq(e[2], base('KM'))), what + ': asks whether the declaring class is a superclass of the current class')
            opts = [(isspec, 'Impl', iflags), (bnot(isspec), 'Found', fflags)]
        elif fname == 'findStaticMethodFromReference':
            opts = [(TRUE, 'Found', fflags)]
        elif fname == 'findVirtualMethodFromReference':
            # a private method is not in the table: it is called itself
            priv = bor(ne(and_(fflags, bv(2, 16)), bv(0, 16)), eq(u.ex.rread(s, s.regs[u.curb(s, 'MName_Found')], bv(en('ByteArrayBody'), 64), 1), bv(ord('<'), 8)))
            opts = [(bnot(priv), 'Impl', iflags), (priv, 'Found', fflags)]
        else:
            opts = [(TRUE, 'Impl', iflags)]
        if null:
            bad = static_(fflags) if byref else FALSE
            if kind != 'throw': return u.oblige(s, FALSE, what + ': throws')
            return u.oblige(s, bor(band(bad, eq(val, bv(P['E_IncompatibleClassChangeError'], val.w))), band(bnot(bad), eq(val, bv(P['E_NullPointerException'], val.w)))), what + ': NullPointerException (or IncompatibleClassChangeError for a static method)', 'exc')
        goals = []
        for g, m, f in opts:
            abstract = band(eq(hc[m], bv(0, 1)), bnot(native(f)))
            wrong = (bnot(static_(fflags)) if fname == 'findStaticMethodFromReference' else static_(f) if fname == 'findSpecialMethodFromReference' else static_(fflags)) if byref else FALSE
            if kind == 'throw':
                E = lambda n: eq(val, bv(P['E_' + n], val.w))
                goals.append(band(g, bor(band(wrong, E('IncompatibleClassChangeError')), band(bnot(wrong), abstract, E('AbstractMethodError')))))
            else:
                addr = ite(native(f), var('nativeThunk', 64, 1 << 16, 1 << 47), var('compiled_' + m, 64, 1 << 16, 1 << 47))
                goals.append(band(g, bnot(wrong), bnot(abstract), eq(val, addr)))
        u.oblige(s, bor(*goals), what + (': throws exactly when the selected method has the wrong kind or no body' if kind == 'throw' else ': entry point of the selected method'))
        if kind == 'ret':
            tr = u.rd(s, 'Trace', P['nativeMethod'], 8)
            alts = [band(g, bnot(native(f))) for g, m, f in opts] + [band(g, native(f), eq(orig(s, tr), base(m))) for g, m, f in opts]
            u.oblige(s, bor(*alts), what + ': a native target is recorded for the native-call stub')
            for e in events(s, 'compile'):
                u.oblige(s, bor(*[band(g, eq(e[1], base(m))) for g, m, f in opts]), what + ': only the selected method is compiled')
    u.policy = lambda f, lp: 'unroll'
    u.verify(res, what, fn, args, st, post, expect=('throw',) if (null or not found) else ('ret',))
    u.policy = None
