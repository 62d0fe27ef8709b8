"""Reading of class-file bytes: the byte stream and the constant pool (include/avian/util/stream.h, src/machine.cpp)."""
from unit import *
import jni as J

TAGS = {'Utf8': 1, 'Integer': 3, 'Float': 4, 'Long': 5, 'Double': 6, 'Class': 7, 'String': 8, 'Fieldref': 9, 'Methodref': 10, 'InterfaceMethodref': 11,
        'NameAndType': 12, 'MethodHandle': 15, 'MethodType': 16, 'InvokeDynamic': 18}
BODY = {1: None, 3: 4, 4: 4, 5: 8, 6: 8, 7: 2, 8: 2, 9: 4, 10: 4, 11: 4, 12: 4, 15: 3, 16: 2, 18: 4}      # bytes after the tag
OBJ = [1, 7, 8, 9, 10, 11, 12, 15, 16, 18]

DRIVER = '''
extern "C" void v_error();
namespace vm {
void* probe_heap_allocate(Heap* h) { return h->allocate(1); } void probe_heap_free(Heap* h) { h->free(0, 1); }
GcString* probe_classpath_makeString(Classpath* c, Thread* t) { return c->makeString(t, 0, 0, 0); }
struct VClient : public Stream::Client { virtual void handleError() { v_error(); } };
#define VSTREAM VClient c; Stream s(&c, data, size); s.setPosition(pos);
void v_read1(const uint8_t* data, unsigned size, unsigned pos, uint64_t* v, unsigned* p) { VSTREAM *v = s.read1(); *p = s.position(); }
void v_read2(const uint8_t* data, unsigned size, unsigned pos, uint64_t* v, unsigned* p) { VSTREAM *v = s.read2(); *p = s.position(); }
void v_read4(const uint8_t* data, unsigned size, unsigned pos, uint64_t* v, unsigned* p) { VSTREAM *v = s.read4(); *p = s.position(); }
void v_read8(const uint8_t* data, unsigned size, unsigned pos, uint64_t* v, unsigned* p) { VSTREAM *v = s.read8(); *p = s.position(); }
void v_readFloat(const uint8_t* data, unsigned size, unsigned pos, uint64_t* v, unsigned* p) { VSTREAM *v = s.readFloat(); *p = s.position(); }
void v_readDouble(const uint8_t* data, unsigned size, unsigned pos, uint64_t* v, unsigned* p) { VSTREAM *v = s.readDouble(); *p = s.position(); }
void v_skip(const uint8_t* data, unsigned size, unsigned pos, unsigned n, unsigned* p) { VSTREAM s.skip(n); *p = s.position(); }
void v_read(const uint8_t* data, unsigned size, unsigned pos, uint8_t* dst, unsigned n, unsigned* p) { VSTREAM s.read(dst, n); *p = s.position(); }
unsigned v_parsePoolEntry(Thread* t, const uint8_t* data, unsigned size, unsigned pos, uint32_t* index, GcSingleton* pool, GcList* inv, unsigned i) { VSTREAM return parsePoolEntry(t, s, index, pool, inv, i); }
GcSingleton* v_parsePool(Thread* t, const uint8_t* data, unsigned size, unsigned pos, GcList* inv, unsigned* p) { VSTREAM GcSingleton* r = parsePool(t, s, inv); *p = s.position(); return r; }
}
'''

def unit():
    cs = {'m_heap': '__builtin_offsetof(vm::Machine, heap)', 'm_classpath': '__builtin_offsetof(vm::Machine, classpath)', 'stream_pos': '__builtin_offsetof(vm::AbstractStream, position_)', 'stream_client': '__builtin_offsetof(vm::AbstractStream, client)', 'stream_size': '__builtin_offsetof(vm::AbstractStream, size)', 'stream_data': '__builtin_offsetof(vm::Stream, data)', 'stream_size_': 'sizeof(vm::Stream)'}
    for n in TAGS: cs['CONSTANT_' + n] = 'CONSTANT_' + n
    u = Unit('classfile', ['src/machine.cpp'], consts=cs, extra_text=DRIVER, exc=['ByteArray', 'CharArray', 'String', 'Singleton', 'Reference', 'Pair', 'Method', 'Invocation', 'Array'])
    C = u.ex.contracts
    def err(ex, st, a, ins): raise Terminal('error')
    C['v_error'] = err
    def abort_(ex, st, a, ins): raise Terminal('abort')
    C['vm::abort'] = abort_
    for i in range(J.SLOTS): C['__slot%d' % i] = lambda ex, st, a, ins, i=i: J.slot(u, st, i, a, ins)
    u.handlers = {}
    for obj in ('heap', 'classpath'):
        for m in ('allocate', 'free', 'makeString'):
            n = 'vm::probe_%s_%s' % (obj, m)
            if n in u.ex.bybase:
                fn = u.ex.funcs[u.ex.bybase[n][0]]; fn.mod.load(fn)
                st = u.state(); J.vtobj(u, st, obj)
                u.probe = []
                u.ex.start(fn, [base('O_' + obj)] + ([base('T')] if len(fn.params) == 2 else []), st)
                u.ex.run(st, lambda s, k, v: None)
                if len(u.probe) != 1: raise Undecided('virtual slot of ' + n)
                u.handlers[(obj, u.probe[0])] = m
    u.probe = None
    return u

def world(u):
    st = u.state(); P = u.P
    st.ghost['moved'] = {}
    st.new_region('Types', None, 'heap')
    u.w(st, 'Mach', P['m_types'], 8, base('Types'))
    u.w(st, 'Types', u.enum('ArrayLength'), 8, bv(P['TypeCount'] + 2, 64))
    for k in P:
        if k.startswith('E_'):
            c = 'Cls_' + k[2:]
            st.new_region(c, None, 'heap')
            u.w(st, 'Types', u.enum('ArrayBody') + 8 * P[k], 8, base(c))
    for o, f in (('heap', 'm_heap'), ('classpath', 'm_classpath')):
        J.vtobj(u, st, o)
        u.w(st, 'Mach', P[f], 8, base('O_' + o))
    return st

class Bytes(object):
    def __init__(self, u, st, lo=0):
        self.u = u
        self.n = var('size', 32, lo, 1 << 30)
        st.new_region('Bytes', zext(self.n, 64), 'native')
        self.st = st; self.a, self.log = st.mem['Bytes']
    def at(self, p, k=0):
        q = zext(p, 64)
        return self.u.ex.lread(self.st, self.a, self.log, add(q, bv(k, 64)), 1)
    def be(self, p, n, k=0):
        r = self.at(p, k)
        for i in range(1, n): r = concat(r, self.at(p, k + i))
        return r

def t_stream(u, res, what, n):
    st = world(u)
    b = Bytes(u, st)
    pos = var('pos', 32, 0, 1 << 30); st.assume(ule(pos, b.n))
    st.new_region('V', bv(8, 64), 'native'); st.new_region('Pos', bv(4, 64), 'native')
    over = ugt(add(pos, bv(n, 32)), b.n)
    def post(s, kd, val):
        if kd == 'error': return u.oblige(s, over, what + ': reports an error only beyond the end')
        if kd != 'ret': return u.oblige(s, FALSE, what + ': returns')
        u.oblige(s, bnot(over), what + ': reading beyond the end is reported')
        u.oblige(s, eq(u.rd(s, 'V', 0, 8), zext(b.be(pos, n), 64)), what + ': the big-endian value')
        u.oblige(s, eq(u.rd(s, 'Pos', 0, 4), add(pos, bv(n, 32))), what + ': advances by its size')
        u.unchanged(s, what, {'V': rng(0, 8), 'Pos': rng(0, 4)})
    u.verify(res, what, u.fn('vm::v_' + what), [base('Bytes'), b.n, pos, base('V'), base('Pos')], st, post, expect=('ret', 'error'))

def t_skip(u, res):
    st = world(u); b = Bytes(u, st)
    pos = var('pos', 32, 0, 1 << 30); st.assume(ule(pos, b.n)); n = var('n', 32)
    st.new_region('Pos', bv(4, 64), 'native')
    over = ugt(add(zext(pos, 64), zext(n, 64)), zext(b.n, 64))
    def post(s, kd, val):
        if kd == 'error': return u.oblige(s, over, 'skip: reports an error only beyond the end')
        if kd != 'ret': return u.oblige(s, FALSE, 'skip: returns')
        u.oblige(s, bnot(over), 'skip: skipping beyond the end is reported')
        u.oblige(s, eq(u.rd(s, 'Pos', 0, 4), add(pos, n)), 'skip: advances by the count')
        u.unchanged(s, 'skip', {'Pos': rng(0, 4)})
    u.verify(res, 'skip', u.fn('vm::v_skip'), [base('Bytes'), b.n, pos, n, base('Pos')], st, post, expect=('ret', 'error'))

def t_read(u, res):
    st = world(u); b = Bytes(u, st)
    pos = var('pos', 32, 0, 1 << 30); st.assume(ule(pos, b.n)); n = var('n', 32)
    st.new_region('Pos', bv(4, 64), 'native'); st.new_region('Dst', zext(n, 64), 'native')
    K = var('K', 32)
    over = ugt(add(zext(pos, 64), zext(n, 64)), zext(b.n, 64))
    def post(s, kd, val):
        if kd == 'error': return u.oblige(s, over, 'read: reports an error only beyond the end')
        if kd != 'ret': return u.oblige(s, FALSE, 'read: returns')
        u.oblige(s, bnot(over), 'read: reading beyond the end is reported')
        u.oblige(s, implies(ult(K, n), eq(u.rd(s, 'Dst', zext(K, 64), 1), u.ex.lread(b.st, b.a, b.log, add(zext(pos, 64), zext(K, 64)), 1))), 'read: byte K')
        u.oblige(s, eq(u.rd(s, 'Pos', 0, 4), add(pos, n)), 'read: advances by the count')
        u.unchanged(s, 'read', {'Pos': rng(0, 4), 'Dst': rng(0, zext(n, 64))})
    u.verify(res, 'read', u.fn('vm::v_read'), [base('Bytes'), b.n, pos, base('Dst'), n, base('Pos')], st, post, expect=('ret', 'error'))

# --------------------------------------------------------------- constant pool entries
def pool_contracts(u):
    """sizes of a constant pool object of u.count constants (the arithmetic that recovers them is verified by t_sizes)"""
    C = u.ex.contracts
    C['vm::poolSize'] = lambda ex, st, a, ins: st.ghost['count']
    def scount(ex, st, a, ins):
        c = st.ghost['count']
        return add(c, lshr(add(c, bv(63, 32)), bv(6, 32)))
    C['vm::singletonCount'] = scount
    def alloc(kind, size, fields):
        """fields: [(offset, bytes, argument index)]"""
        def f(ex, st, a, ins):
            aa = [orig(st, x) for x in a]
            gc(u, st)
            nm = freshname('new' + kind)
            st.new_region(nm, size, 'heap')
            st.ghost['moved'] = dict(st.ghost['moved']); st.ghost['moved'][nm] = nm
            for off, n, i in fields:
                v = subst(a[i], {k: w for k, w in st.ghost['relocmap'].items()}) if st.ghost.get('relocmap') else a[i]
                u.w(st, nm, off, n, v)
            st.event('make', kind, base(nm), *aa[1:])
            return base(nm)
        return f
    e = u.enum
    C['vm::makeReference'] = alloc('Reference', bv(40, 64), [(e('ReferenceClass'), 8, 2), (e('ReferenceName'), 8, 3), (e('ReferenceSpec'), 8, 4)])
    C['vm::makePair'] = alloc('Pair', bv(24, 64), [(e('PairFirst'), 8, 1), (e('PairSecond'), 8, 2)])
    C['vm::makeMethod'] = alloc('Method', None, [])
    C['vm::makeInvocation'] = alloc('Invocation', None, [])
    def bytearr(ex, st, a, ins):
        gc(u, st)
        nm = freshname('newBytes')
        size = add(bv(e('ByteArrayBody'), 64), a[1])
        st.new_region(nm, size, 'heap')
        st.ghost['moved'] = dict(st.ghost['moved']); st.ghost['moved'][nm] = nm
        ex.mset(st, base(nm), bv(0, 8), size)
        u.w(st, nm, e('ByteArrayLength'), 8, a[1])
        st.event('make', 'bytes', base(nm), a[1])
        return base(nm)
    C[[u.ex.dname[q] for q in u.ex.bybase.get('vm::makeByteArray', []) if 'char const' not in u.ex.dname[q]][0]] = bytearr
    def conv(name, field=None):
        def f(ex, st, a, ins):
            aa = [orig(st, x) for x in a]
            gc(u, st)
            nm = freshname('res' + name)
            st.new_region(nm, None, 'heap')
            st.ghost['moved'] = dict(st.ghost['moved']); st.ghost['moved'][nm] = nm
            st.event(name, base(nm), *aa[1:])
            if field: u.w(st, nm, 8, 8, var('decodedLength', 64, 1, 1 << 30))
            return base(nm)
        return f
    for q in u.ex.funcs:
        if u.ex.dname[q].endswith('::internByteArray(vm::Thread*, vm::GcByteArray*)'): C[u.ex.dname[q]] = intern_bytes(u, conv('internBytes'))
        if u.ex.dname[q].endswith('parseUtf8(vm::Thread*, vm::GcByteArray*)'): C[u.ex.dname[q]] = conv('decode', True)
    C['vm::intern'] = conv('intern')
    def la(ex, st, a, ins):
        aa = [orig(st, x) for x in a]
        gc(u, st)
        st.event('listAppend', *aa[1:])
    C['vm::listAppend'] = la
    def scan(ex, st, a, ins):
        ev(st, 'scan', a[1], a[2])
        for i, n in enumerate(('scanCount', 'scanFootprint', 'scanReturn')):
            r, off = ex.resolve(st, a[3 + i])
            ex.rwrite(st, r, off, var(n, 32, 0, 255), 4)
    C['vm::scanMethodSpec'] = scan

def intern_bytes(u, inner):
    def f(ex, st, a, ins):
        s0 = st.ghost.get('onintern')
        if s0: s0(st, a[1])
        return inner(ex, st, a, ins)
    return f

OPER = {'Utf8': [], 'Integer': [], 'Float': [], 'Long': [], 'Double': [], 'Class': [(0, 'utf8')], 'String': [(0, 'utf8')], 'Fieldref': [(0, 'class'), (2, 'pair')],
        'Methodref': [(0, 'class'), (2, 'pair')], 'InterfaceMethodref': [(0, 'class'), (2, 'pair')], 'NameAndType': [(0, 'utf8'), (2, 'utf8')],
        'MethodHandle': [(1, 'ref')], 'MethodType': [(0, 'utf8')], 'InvokeDynamic': [(2, 'pair')]}

def stream(u, st, b, pos):
    P = u.P
    st.new_region('S', bv(P['stream_size_'], 64), 'native')
    st.new_region('Client', None, 'native'); st.new_region('ClientVT', None, 'native')
    u.w(st, 'Client', 0, 8, base('ClientVT')); u.w(st, 'ClientVT', 0, 8, base('@v_error'))
    vt = [g for g in u.ex.globals if g == '_ZTVN2vm6StreamE']
    if not vt: raise Undecided('no vtable of Stream')
    u.w(st, 'S', 0, 8, add(base('@' + vt[0]), bv(16, 64)))
    u.w(st, 'S', P['stream_client'], 8, base('Client')); u.w(st, 'S', P['stream_size'], 4, b.n); u.w(st, 'S', P['stream_pos'], 4, pos); u.w(st, 'S', P['stream_data'], 8, base('Bytes'))

def t_entry(u, res, kind, parsed, same):
    tag = TAGS[kind]
    st = world(u); P = u.P
    b = Bytes(u, st)
    count = var('count', 32, 1, 0xfffe)
    st.ghost['count'] = count
    words = add(zext(count, 64), bv(0, 64))
    L = var('poolLength', 64, 1, 1 << 20); st.assume(ult(words, L))
    body = u.enum('SingletonBody')
    u.obj(st, 'Pool', 'Cls_Singleton', add(bv(body, 64), mulc(L, 8)))
    u.w(st, 'Pool', u.enum('SingletonLength'), 8, L)
    st.new_region('Inv', None, 'heap')
    st.new_region('Idx', mulc(zext(count, 64), 4), 'native')
    i = var('i', 32)
    what = 'constant of kind %s%s' % (kind, ' (already read)' if parsed else '')
    ii = zext(i, 64)
    slot = add(bv(body, 64), mulc(ii, 8))
    pos = u.rd(st, 'Idx', mulc(ii, 4), 4)
    st.assume(ule(pos, b.n))
    st.assume(implies(ult(i, count), implies(ult(pos, b.n), eq(b.at(pos), bv(tag, 8)))))
    wide = tag in (3, 4, 5, 6)
    if not wide:
        if parsed:
            st.new_region('Old', None, 'heap')
            st.assume(ult(i, count))
            u.w(st, 'Pool', slot, 8, base('Old'))
        else: st.assume(implies(ult(i, count), eq(u.rd(st, 'Pool', slot, 8), bv(0, 64))))
    need = 1 + (BODY[tag] if BODY[tag] is not None else 2)
    ulen = b.be(pos, 2, 1)
    over = ugt(add(pos, bv(need, 32)), b.n)
    if tag == 1: over = bor(over, ugt(add(add(pos, bv(3, 32)), zext(ulen, 32)), b.n))
    if tag in OBJ and parsed: over = uge(pos, b.n)
    stream(u, st, b, var('startpos', 32, 0, 1 << 30))
    ops = [(sub(zext(b.be(pos, 2, 1 + o), 32), bv(1, 32)), k) for o, k in OPER[kind]]
    if same is not None and len(ops) == 2:
        st.assume(eq(ops[0][0], ops[1][0]) if same else bnot(eq(ops[0][0], ops[1][0])))
    # operands are stored in other slots than i (a constant does not refer to itself)
    for o, k in ops: st.assume(bnot(eq(o, i)))
    def recurse(ex, s, a, ins):
        j = None
        for q, (o, k) in enumerate(ops):
            if a[5] is o and q not in s.ghost.get('opdone', ()): j = q; break
        if j is None:
            for q, (o, k) in enumerate(ops):
                if smt.valid(s.pc, eq(a[5], o)) is True and q not in s.ghost.get('opdone', ()): j = q; break
        if j is None:
            u.oblige(s, FALSE, what + ': it refers to the constants its bytes name')
            raise PathEnd('operand')
        s.ghost['opdone'] = s.ghost.get('opdone', ()) + (j,)
        u.oblige(s, band(eq(a[1], base('S')), eq(a[2], base('Idx')), eq(orig(s, a[3]), base('Pool'))), what + ': operands are read from the same pool')
        gc(u, s)
        s.assume(ult(a[5], count))     # otherwise the call does not return (verified for every entry)
        at = add(bv(body, 64), mulc(zext(a[5], 64), 8))
        k = ops[j][1]
        if j == 1 and same: nm = 'Operand0'
        else:
            nm = 'Operand%d' % j
            def mk(n):
                s.new_region(n, None, 'heap'); s.ghost['moved'] = dict(s.ghost['moved']); s.ghost['moved'][n] = n
            mk(nm)
            if k == 'class': mk(nm + 'name'); u.w(s, nm, u.enum('ReferenceName'), 8, base(nm + 'name')); u.w(s, nm, u.enum('ReferenceClass'), 8, bv(0, 64)); u.w(s, nm, u.enum('ReferenceSpec'), 8, bv(0, 64))
            if k == 'pair':
                mk(nm + 'first'); mk(nm + 'second')
                u.w(s, nm, u.enum('PairFirst'), 8, base(nm + 'first')); u.w(s, nm, u.enum('PairSecond'), 8, base(nm + 'second'))
            if k == 'ref':
                for f in ('Class', 'Name', 'Spec'): mk(nm + f); u.w(s, nm, u.enum('Reference' + f), 8, base(nm + f))
        u.w(s, u.cur(s, 'Pool'), at, 8, u.curb(s, nm))
        r, off = ex.resolve(s, a[1])
        np = fresh('streampos', 32); s.assume(ule(np, b.n))
        ex.rwrite(s, r, add(off, bv(P['stream_pos'], 64)), np, 4)
        return bv(1, 32)
    for q in u.ex.funcs:
        if u.ex.dname[q].startswith('(anonymous namespace)::parsePoolEntry(') or u.ex.dname[q].startswith('vm::parsePoolEntry('):
            u.ex.contracts[u.ex.dname[q]] = recurse
    u8 = {}
    if tag == 1:
        K = var('K', 32)
        def onintern(s, arr_):
            ln = zext(ulen, 64)
            o = orig(s, arr_)
            mk = [e for e in events(s, 'make') if e[1] == 'bytes' and e[2] is o]
            if not mk: return u.oblige(s, FALSE, what + ': the bytes are put into a fresh array')
            nm = o.args[0]
            u.oblige(s, eq(u.rd(s, nm, u.enum('ByteArrayLength'), 8), add(ln, bv(1, 64))), what + ': the array holds the bytes and a terminator')
            u.oblige(s, implies(ult(K, zext(ulen, 32)), eq(u.rd(s, nm, add(bv(u.enum('ByteArrayBody'), 64), zext(K, 64)), 1), u.ex.lread(b.st, b.a, b.log, add(zext(pos, 64), add(zext(K, 64), bv(3, 64))), 1))), what + ': byte K')
            u.oblige(s, eq(u.rd(s, nm, add(bv(u.enum('ByteArrayBody'), 64), ln), 1), bv(0, 8)), what + ': the terminator')
        st.ghost['onintern'] = onintern
    def post(s, kd, val):
        if kd == 'abort': return u.oblige(s, uge(i, count), what + ': the virtual machine gives up only on an index outside the pool')
        if kd == 'error': return u.oblige(s, over, what + ': an error is reported only beyond the end')
        if kd != 'ret': return u.oblige(s, FALSE, what + ': returns')
        u.oblige(s, band(ult(i, count), bnot(over)), what + ': an index outside the pool and reading beyond the end are reported')
        u.oblige(s, eq(val, bv(2 if tag in (5, 6) else 1, 32)), what + ': the number of pool slots it takes')
        got = u.rd(s, 'Pool', slot, 8)
        cell = lambda o, n: band(eq(o, slot), eq(n, bv(8, 64)))
        mk = [e for e in events(s, 'make')]
        cur = lambda n: u.curb(s, n)
        def stored(v):
            u.oblige(s, eq(got, v), what + ': its slot of the pool')
            m = events(s, 'mark')
            u.oblige(s, bor(FALSE, *[band(eq(e[1], base('Pool')), eq(zext(e[2], 64) if e[2].w < 64 else e[2], slot)) for e in m]), what + ': the store is reported to the collector')
        def made(k, *args):
            c = [e for e in mk if e[1] == k]
            if len(c) != 1: u.oblige(s, FALSE, what + ': makes one ' + k); return None
            e = c[0]
            for x, want in zip(e[3:], args):
                if want is None: continue
                u.oblige(s, eq(zext(x, want.w) if x.w < want.w else trunc(x, want.w) if x.w > want.w else x, want), what + ': contents of the %s' % k)
            return u.curb(s, e[2].args[0])
        if parsed and tag in OBJ:
            u.oblige(s, eq(got, cur('Old')), what + ': stays as it was read')
            u.oblige(s, TRUE if not mk else FALSE, what + ': nothing is made')
        elif tag in (3, 4): u.oblige(s, eq(got, zext(b.be(pos, 4, 1), 64)), what + ': the four bytes, big-endian')
        elif tag in (5, 6): u.oblige(s, eq(got, b.be(pos, 8, 1)), what + ': the eight bytes, big-endian')
        else:
            o0 = 'Operand0'; o1 = 'Operand0' if same else 'Operand1'
            z = bv(0, 64)
            if tag == 1:
                e = events(s, 'internBytes')
                if len(e) != 1: u.oblige(s, FALSE, what + ': interned once')
                else: stored(u.curb(s, e[0][1].args[0]))
            elif len(s.ghost.get('opdone', ())) < len(ops): u.oblige(s, FALSE, what + ': the constants it names are read')
            elif tag == 7:
                v = made('Reference', bv(0, 8), z, base(o0), z)
                if v is not None: stored(v)
            elif tag == 8:
                d, m, n = events(s, 'decode'), events(s, 'makeString'), events(s, 'intern')
                if len(d) != 1 or len(m) != 1 or len(n) != 1: u.oblige(s, FALSE, what + ': decoded, made and interned once')
                else:
                    u.oblige(s, eq(d[0][2], base(o0)), what + ': decodes the bytes it names')
                    u.oblige(s, eq(orig(s, m[0][1]), d[0][1]), what + ': a string over the decoded characters')
                    u.oblige(s, band(eq(m[0][2], bv(0, 32)), eq(zext(m[0][3], 64), sub(var('decodedLength', 64, 1, 1 << 30), bv(1, 64)))), what + ': of all characters')
                    u.oblige(s, TRUE if n[0][2].op == 'base' and n[0][2].args[0].startswith('newStr') else FALSE, what + ': the string is interned')
                    stored(u.curb(s, n[0][1].args[0]))
            elif tag in (9, 10, 11):
                v = made('Reference', bv(0, 8), base('Operand0name'), base('Operand1first'), base('Operand1second'))
                if v is not None: stored(v)
            elif tag == 12:
                v = made('Pair', base(o0), base(o1))
                if v is not None: stored(v)
            elif tag == 15:
                v = made('Reference', b.at(pos, 1), base('Operand0Class'), base('Operand0Name'), base('Operand0Spec'))
                if v is not None: stored(v)
            elif tag == 16: stored(cur(o0))
            elif tag == 18:
                sc = lambda n, w: trunc(var(n, 32, 0, 255), w)
                sp = events(s, 'scan')
                if len(sp) != 1: u.oblige(s, FALSE, what + ': scans the descriptor')
                else: u.oblige(s, band(eq(sp[0][1], add(base('Operand0second'), bv(u.enum('ByteArrayBody'), 64))), eq(trunc(sp[0][2], 1), bv(1, 1))), what + ': scans its own descriptor as that of a static method')
                v = made('Method', bv(0, 8), sc('scanReturn', 8), sc('scanCount', 8), sc('scanFootprint', 8), bv(8, 16), bv(0, 16), bv(0, 32), bv(0, 32), base('Operand0first'), base('Operand0second'), z, z, z)
                me = [e for e in mk if e[1] == 'Method']
                v2 = made('Invocation', b.be(pos, 2, 1), bv(0xffffffff, 32), z, base('Pool'), me[0][2] if me else z, z, z)
                if v2 is not None:
                    stored(v2)
                    la = events(s, 'listAppend')
                    u.oblige(s, band(eq(la[0][1], base('Inv')), eq(u.curb(s, la[0][2].args[0]), v2)) if len(la) == 1 and la[0][2].op == 'base' else FALSE, what + ': it is added to the list of call sites')
        allowed = {'Pool': lambda o, n: bor(cell(o, n), *[band(eq(o, add(bv(body, 64), mulc(zext(q, 64), 8))), eq(n, bv(8, 64))) for q, k in ops])}
        allowed['S'] = lambda o, n: band(eq(o, bv(P['stream_pos'], 64)), eq(n, bv(4, 64)))
        for nm in list(s.mem):
            if nm.startswith('Operand'): allowed[nm] = lambda o, n: TRUE
        u.unchanged(s, what, allowed)
    fn = [q for q in u.ex.funcs if '::parsePoolEntry(' in u.ex.dname[q] and 'v_parse' not in u.ex.dname[q]]
    if len(fn) != 1: raise Undecided('parsePoolEntry')
    f = u.ex.funcs[fn[0]]; f.mod.load(f); u.used.add(u.ex.dname[f.name])
    u.verify(res, what, f, [base('T'), base('S'), base('Idx'), base('Pool'), base('Inv'), i], st, post, expect=('ret', 'error') if parsed else ('ret', 'error', 'abort'))

# --------------------------------------------------------------- the whole pool
class PoolText(object):
    """constant k starts at byte c(k); second(k): slot k is the second one of a long or double"""
    def __init__(self, u, st, b, start, count):
        self.u = u; self.b = b; self.count = count
        self.K = var('K', 32, 0, 0xffff)
        # ghost: the pool is complete (every constant of a known kind and inside the file)
        self.complete = eq(var('complete', 1), bv(1, 1))
        st.assume(eq(self.c(bv(0, 32)), start)); st.assume(bnot(self.second(bv(0, 32))))
        for k in (bv(0, 32), self.K, sub(self.K, bv(1, 32))): st.assume(self.axiom(k))
    def c(self, k): return uf('cpos', (k,), 32)
    def second(self, k): return eq(uf('second', (k,), 1), bv(1, 1))
    def tag(self, k): return self.b.at(self.c(k))
    def isin(self, k, tags): return bor(*[eq(self.tag(k), bv(t, 8)) for t in tags])
    def size(self, k):
        r = zext(self.b.be(self.c(k), 2, 1), 32); r = add(r, bv(3, 32))
        for t, n in BODY.items():
            if n is not None: r = ite(eq(self.tag(k), bv(t, 8)), bv(n + 1, 32), r)
        return r
    def axiom(self, k):
        n, m = add(k, bv(1, 32)), add(k, bv(2, 32))
        wide = self.isin(k, (5, 6))
        good = band(self.isin(k, BODY), ule(add(zext(self.c(k), 64), zext(self.size(k), 64)), zext(self.b.n, 64)))
        end = add(self.c(k), self.size(k))
        return band(implies(band(self.complete, ult(k, self.count), bnot(self.second(k))), good), implies(band(ult(k, self.count), bnot(self.second(k)), good),
                       band(implies(wide, band(self.second(n), bnot(self.second(m)), eq(self.c(m), end), ult(n, self.count))), implies(bnot(wide), band(bnot(self.second(n)), eq(self.c(n), end))))))
    def back(self, k):
        """slot k is a second slot only if the slot before it holds a long or double"""
        p = sub(k, bv(1, 32))
        return implies(self.second(k), band(ult(bv(0, 32), k), bnot(self.second(p)), self.isin(p, (5, 6))))
    def obj(self, k): return band(bnot(self.second(k)), self.isin(k, OBJ))
    def flt(self, k): return bor(band(bnot(self.second(k)), self.isin(k, (4, 6))), band(self.second(k), eq(self.tag(sub(k, bv(1, 32))), bv(6, 8))))

def t_pool(u, res, part):
    st = world(u); P = u.P
    b = Bytes(u, st)
    pos = var('start', 32, 0, 1 << 30); st.assume(ule(pos, b.n))
    raw = b.be(pos, 2)
    count = sub(zext(raw, 32), bv(1, 32))
    st.ghost['count'] = count
    if u.bound: st.assume(ule(zext(raw, 32), bv(u.bound, 32)))
    st.new_region('Inv', None, 'heap')
    stream(u, st, b, pos)
    tx = PoolText(u, st, b, add(pos, bv(2, 32)), count)
    K = tx.K; st.assume(tx.back(K))
    st.assume(implies(tx.complete, band(ule(bv(1, 16), raw), ule(add(pos, bv(2, 32)), b.n))))
    what = 'parsePool'
    body = u.enum('SingletonBody')
    sc = add(count, lshr(add(count, bv(63, 32)), bv(6, 32)))
    def mksing(ex, s, a, ins):
        gc(u, s)
        n = a[1]
        u.oblige(s, eq(n, zext(add(sc, ite(eq(sc, bv(0, 32)), bv(0, 32), lshr(add(add(sc, bv(2, 32)), bv(63, 32)), bv(6, 32)))), 64)), what + ': the pool object has a slot for each constant, the float bits and the reference bits')
        size = add(bv(body, 64), mulc(n, 8))
        s.new_region('PoolObj', size, 'heap'); s.ghost['moved'] = dict(s.ghost['moved']); s.ghost['moved']['PoolObj'] = 'PoolObj'
        ex.mset(s, base('PoolObj'), bv(0, 8), size)
        u.w(s, 'PoolObj', u.enum('SingletonLength'), 8, n)
        return base('PoolObj')
    C = u.ex.contracts
    C['vm::makeSingleton'] = mksing
    def bits(s):
        mw = u.rd(s, 'PoolObj', add(bv(body, 64), add(mulc(zext(sc, 64), 8), mulc(zext(lshr(add(K, bv(2, 32)), bv(5, 32)), 64), 4))), 4)
        o = extract(lshr(mw, and_(add(K, bv(2, 32)), bv(31, 32))), 0, 0)
        fw = u.rd(s, 'PoolObj', add(bv(body, 64), mulc(zext(add(count, lshr(K, bv(6, 32))), 64), 8)), 8)
        f = extract(lshr(fw, zext(and_(K, bv(63, 32)), 64)), 0, 0)
        return eq(o, bv(1, 1)), eq(f, bv(1, 1))
    good = lambda k: band(tx.isin(k, BODY), ule(add(zext(tx.c(k), 64), zext(tx.size(k), 64)), zext(b.n, 64)))
    def idx(s, k):
        n = [r.name for r in s.regs.values() if r.name.startswith('Buf')]
        return u.rd(s, n[0], mulc(zext(k, 64), 4), 4) if n else None
    def gens(ctx):
        out = []
        for i in [v for v in ctx.vars if v.w == 32 and not v.temp]:
            A = lambda f, d, **kw: out.append(loops.Cand(f, d, **kw))
            A(lambda vals, s, i=i: tx.axiom(vals[i]), 'definition of the constants at ' + i.name, axiom=True)
            A(lambda vals, s, i=i: band(tx.back(vals[i])), 'definition of second slots at ' + i.name, axiom=True)
            A(lambda vals, s, i=i: bnot(tx.second(vals[i])), i.name + ' is the first slot of a constant')
            A(lambda vals, s, i=i: ule(vals[i], count), i.name + ' <= number of slots')
            A(lambda vals, s, i=i: ule(vals[i], b.n), i.name + ' is inside the class file')
            for p in ctx.vars:
                if p.w == 32 and not p.temp and p is not i: A(lambda vals, s, i=i, p=p: eq(vals[p], tx.c(vals[i])), '%s is the position of constant %s' % (p.name, i.name))
            if i.kind != 'phi': continue
            A(lambda vals, s, i=i: implies(band(ult(K, vals[i]), ult(K, count), bnot(tx.second(K))), good(K)), 'constants before %s are complete and known' % i.name)
            def fi(vals, s, i=i):
                x = idx(s, K)
                return TRUE if x is None else implies(band(ult(K, vals[i]), ult(K, count), bnot(tx.second(K))), eq(x, tx.c(K)))
            if part == 'positions': A(fi, 'positions of the constants before ' + i.name)
            def fz(vals, s, i=i):
                x = idx(s, K)
                return TRUE if x is None else implies(band(ult(K, count), bor(tx.second(K), ule(vals[i], K))), eq(x, bv(0, 32)))
            if part == 'positions': A(fz, 'no positions for second slots and from %s on' % i.name)
            if part == 'references': A(lambda vals, s, i=i: implies(ult(K, count), beq(bits(s)[0], band(ult(K, vals[i]), tx.obj(K)))), 'reference bits of the constants before ' + i.name)
            if part == 'floats': A(lambda vals, s, i=i: implies(ult(K, count), beq(bits(s)[1], band(ult(K, vals[i]), tx.flt(K)))), 'float bits of the constants before ' + i.name)
        return out
    st.ghost['gens'] = (gens,); st.ghost['nogeneric'] = True
    def entry(ex, s, a, ins):
        i = a[5]
        s.assume(tx.axiom(i)); s.assume(tx.back(i))
        live = ult(K, count)
        # what holds for the arbitrary K in this state holds for i
        u.oblige(s, implies(band(ult(K, count), bnot(tx.second(K))), good(K)), what + ': every constant is complete and of a known kind')
        s.assume(implies(band(ult(i, count), bnot(tx.second(i))), good(i)))
        u.oblige(s, band(ult(i, count), bnot(tx.second(i))), what + ': reads the constants at their first slots')
        u.oblige(s, band(eq(a[1], base('S')), eq(orig(s, a[3]), base('PoolObj')), eq(orig(s, a[4]), base('Inv'))), what + ': reads every constant into the pool')
        x = idx(s, K)
        o, f = bits(s)
        if part == 'positions':
            u.oblige(s, implies(band(live, bnot(tx.second(K))), eq(x, tx.c(K))), what + ': constant K is looked for where it is')
            u.oblige(s, implies(band(live, tx.second(K)), eq(x, bv(0, 32))), what + ': the second slot of a long or double is no constant')
        if part == 'references': u.oblige(s, implies(live, beq(o, tx.obj(K))), what + ': slot K is marked a reference exactly when constant K is an object')
        if part == 'floats': u.oblige(s, implies(live, beq(f, tx.flt(K))), what + ': slot K is marked floating point exactly when constant K is a float or double')
        rt = [ex.rread(s, r, off, 8) for r, off in protected(u, s)]
        u.oblige(s, TRUE if u.curb(s, 'PoolObj') in rt and u.curb(s, 'Inv') in rt else FALSE, what + ': the pool and the list are protected while a constant is read')
        s.event('entry')
        r, off = ex.resolve(s, a[1])
        np = fresh('streampos', 32); s.assume(ule(np, b.n))
        ex.rwrite(s, r, add(off, bv(P['stream_pos'], 64)), np, 4)
        return ite(tx.isin(i, (5, 6)), bv(2, 32), bv(1, 32))
    for q in u.ex.funcs:
        if '::parsePoolEntry(' in u.ex.dname[q] and 'v_parse' not in u.ex.dname[q]: C[u.ex.dname[q]] = entry
    def post(s, kd, val):
        if kd in ('error', 'abort'): return u.oblige(s, bnot(tx.complete), what + ': a complete pool of known constants is accepted')
        if kd != 'ret': return u.oblige(s, FALSE, what + ': returns')
        s.assume(tx.axiom(count))
        u.oblige(s, band(ule(bv(1, 16), raw)), what + ': a pool of no slots at all is refused')
        u.oblige(s, eq(val, u.curb(s, 'PoolObj')), what + ': returns the pool')
        u.oblige(s, eq(u.rd(s, 'S', P['stream_pos'], 4), tx.c(count)), what + ': the stream is left behind the last constant')
        o, f = bits(s)
        if part == 'references': u.oblige(s, implies(ult(K, count), beq(o, tx.obj(K))), what + ': slot K is a reference exactly when constant K is an object')
        if part == 'floats': u.oblige(s, implies(ult(K, count), beq(f, tx.flt(K))), what + ': slot K is floating point exactly when constant K is a float or double')
    fn = [q for q in u.ex.funcs if u.ex.dname[q].endswith('::parsePool(vm::Thread*, vm::Stream&, vm::GcList*)')]
    if len(fn) != 1: raise Undecided('parsePool')
    f = u.ex.funcs[fn[0]]; f.mod.load(f); u.used.add(u.ex.dname[f.name])
    u.verify(res, what, f, [base('T'), base('S'), base('Inv')], st, post, expect=('ret', 'error', 'abort'))

def t_sizes(u, res):
    """the number of constants and of bit words recovered from the length of a pool object"""
    for what in ('poolSize', 'singletonCount'):
        st = world(u)
        count = var('constants', 32, 0, 0xfffe)
        sc = add(count, lshr(add(count, bv(63, 32)), bv(6, 32)))
        L = add(sc, ite(eq(sc, bv(0, 32)), bv(0, 32), lshr(add(add(sc, bv(2, 32)), bv(63, 32)), bv(6, 32))))
        u.obj(st, 'Pool', 'Cls_Singleton', None)
        u.w(st, 'Pool', u.enum('SingletonLength'), 8, zext(L, 64))
        u.ex.contracts.pop('vm::' + what, None)
        if what == 'poolSize': u.ex.contracts.pop('vm::singletonCount', None)
        u.verify(res, what, u.fn('vm::' + what), [base('T'), base('Pool')], st,
                 lambda s, kd, val: u.oblige(s, eq(val, count if what == 'poolSize' else sc) if kd == 'ret' else FALSE, what + ': recovered from the length of the object'))
