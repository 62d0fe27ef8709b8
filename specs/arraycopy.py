"""System.arraycopy (src/avian/classpath-common.h arrayCopy through its native entry point)."""
from unit import *

PRIM = ('Byte', 1), ('Char', 2), ('Int', 4), ('Long', 8), ('Float', 4), ('Boolean', 1), ('Short', 2), ('Double', 8)
# array bytes stay below 4 GB (established by allocation, V02); byte offsets are 32-bit
LIMIT = 0xfffffff0

def unit():
    u = Unit('arraycopy', ['src/classpath-avian.cpp'], consts={'PrimitiveFlag': 'vm::PrimitiveFlag', 'ReferenceFlag': 'vm::ReferenceFlag'},
             exc=['NullPointerException', 'ArrayStoreException', 'IndexOutOfBoundsException', 'ArrayIndexOutOfBoundsException'])
    C = u.ex.contracts
    def mark(ex, st, a, ins):
        ev(st, 'mark', a[1], a[2], a[3] if len(a) > 3 else bv(1, 32))
    C['vm::mark'] = mark
    def assignable(ex, st, a, ins): return uf('assignable', (orig(st, a[1]), orig(st, a[2])), 1)
    C['vm::isAssignableFrom'] = assignable
    return u

def world(u):
    st = u.state()
    st.ghost['moved'] = {}
    return st

def cls(u, st, name, es, ref, elem=None, array=True):
    """a class: array of primitives (element size es), array of references, or not an array (es 0)"""
    st.new_region(name, None, 'heap')
    u.w(st, name, u.enum('ClassArrayElementSize'), 2, es if isinstance(es, T) else bv(es, 16))
    u.w(st, name, u.enum('ClassVmFlags'), 2, fresh('vmflags', 16))
    if array:
        u.w(st, name, u.enum('ClassVmFlags'), 2, bv(0, 16))
        u.w(st, name, u.enum('ClassArrayDimensions'), 1, bv(1, 8))
        e = 'Elem_' + name
        st.new_region(e, None, 'heap')
        u.w(st, e, u.enum('ClassVmFlags'), 2, bv(0 if ref else u.P['PrimitiveFlag'], 16))
        u.w(st, e, u.enum('ClassArrayElementSize'), 2, bv(0, 16))
        u.w(st, name, u.enum('ClassStaticTable'), 8, base(e))
        if ref:
            st.new_region('Mask', None, 'heap')
            u.w(st, name, u.enum('ClassObjectMask'), 8, base('Mask'))
        else: u.w(st, name, u.enum('ClassObjectMask'), 8, bv(0, 64))
    else:
        st.new_region('Mask_' + name, None, 'heap')
        u.w(st, name, u.enum('ClassObjectMask'), 8, base('Mask_' + name) if ref else bv(0, 64))

def arr(u, st, name, c, es, lo=0):
    ln = var('len' + name, 64, 0, 0x7fffffff)
    st.assume(ult(mulc(ln, es), bv(LIMIT - 64, 64)))
    body = u.P['ArrayBody']
    u.obj(st, name, None, add(bv(body, 64), mulc(ln, es)))
    u.w(st, name, 0, 8, base(c))
    u.w(st, name, u.enum('ArrayLength'), 8, ln)
    return ln

def call(u, st, src, so, dst, do, n):
    st.new_region('Args', bv(40, 64), 'native')
    for i, v in enumerate((src, sext(so, 64), dst, sext(do, 64), sext(n, 64))):
        u.w(st, 'Args', 8 * i, 8, v)
    return [base('T'), bv(0, 64), base('Args')]

def refused(u, s, what, kd, val, excs):
    if kd != 'throw': return u.oblige(s, FALSE, what + ': raises ' + excs[0])
    u.oblige(s, bor(*[eq(val, bv(u.P['E_' + e], val.w)) for e in excs]), what + ': the exception is ' + excs[0])
    u.oblige(s, TRUE if not events(s, 'mark') else FALSE, what + ': no store is reported to the collector')
    u.unchanged(s, what, {})

ENTRY = 'Avian_java_lang_System_arraycopy'

def t_null(u, res, which):
    st = world(u)
    cls(u, st, 'C', 4, False); arr(u, st, 'A', 'C', 4)
    so, do, n = var('srcOffset', 32), var('dstOffset', 32), var('length', 32)
    src, dst = (bv(0, 64) if which in (0, 2) else base('A')), (bv(0, 64) if which in (1, 2) else base('A'))
    what = 'arraycopy with a null array'
    u.verify(res, what, u.fn(ENTRY), call(u, st, src, so, dst, do, n), st, lambda s, k, v: refused(u, s, what, k, v, ['NullPointerException']), expect=('throw',))

def t_mismatch(u, res, kind):
    st = world(u)
    so, do, n = var('srcOffset', 32), var('dstOffset', 32), var('length', 32)
    what = 'arraycopy between %s' % kind
    for es1 in ((1, 2, 4, 8) if kind in ('primitive arrays', 'primitive and reference array', 'reference and primitive array') else (8,)):
        for es2 in (1, 2, 4, 8) if kind == 'primitive arrays' else (es1,):
            st = world(u)
            if kind == 'primitive arrays': cls(u, st, 'C', es1, False); cls(u, st, 'D', es2, False)
            elif kind == 'primitive and reference array': cls(u, st, 'C', es1, False); cls(u, st, 'D', 8, True); es2 = 8
            elif kind == 'reference and primitive array': cls(u, st, 'C', 8, True); cls(u, st, 'D', es2, False); es1 = 8
            elif kind == 'non-array source': cls(u, st, 'C', 0, True, array=False); cls(u, st, 'D', 8, True)
            elif kind == 'non-array target': cls(u, st, 'C', 8, True); cls(u, st, 'D', 0, True, array=False)
            elif kind == 'plain objects': cls(u, st, 'C', 0, True, array=False)
            elif kind == 'plain objects without references': cls(u, st, 'C', 0, False, array=False)
            arr(u, st, 'A', 'C', es1)
            if kind.startswith('plain'): arr(u, st, 'B', 'C', 8)
            else: arr(u, st, 'B', 'D', es2)
            u.verify(res, what, u.fn(ENTRY), call(u, st, base('A'), so, base('B'), do, n), st, lambda s, k, v: refused(u, s, what, k, v, ['ArrayStoreException']), expect=('throw',))
    if kind == 'plain objects':
        st = world(u); cls(u, st, 'C', 0, True, array=False); arr(u, st, 'A', 'C', 8)
        u.verify(res, what, u.fn(ENTRY), call(u, st, base('A'), so, base('A'), do, n), st, lambda s, k, v: refused(u, s, what, k, v, ['ArrayStoreException']), expect=('throw',))

def valid(so, ls, do, ld, n):
    z = bv(0, 32)
    return band(sle(z, so), sle(z, do), sle(z, n), sle(add(sext(so, 64), sext(n, 64)), ls), sle(add(sext(do, 64), sext(n, 64)), ld))

def t_copy(u, res, es, ref, same, ok):
    """ref: 0 primitive, 1 references of one class, 2 references of two array classes"""
    st = world(u)
    cls(u, st, 'C', es, bool(ref))
    if ref == 2: cls(u, st, 'D', es, True)
    ls = arr(u, st, 'A', 'C', es)
    if same: dst, ld, dn = base('A'), ls, 'A'
    else: ld = arr(u, st, 'B', 'D' if ref == 2 else 'C', es); dst, dn = base('B'), 'B'
    if ok:
        so, do, n = var('vsrcOffset', 32, 0, 0x7fffffff), var('vdstOffset', 32, 0, 0x7fffffff), var('vlength', 32, 0, 0x7fffffff)
        st.assume(valid(so, ls, do, ld, n))
    else:
        so, do, n = var('srcOffset', 32), var('dstOffset', 32), var('length', 32)
        st.assume(bnot(valid(so, ls, do, ld, n)))
    what = 'arraycopy (%s, element size %d)' % ('one array' if same else 'two arrays', es)
    body = bv(u.P['ArrayBody'], 64)
    at = lambda o, k: add(body, mulc(add(zext(o, 64), zext(k, 64)), es))
    K = var('K', 32, 0, 0x7fffffff)
    src0 = u.rd(st, 'A', at(so, K), es) if ok else None
    if u.bound: st.assume(slt(n, bv(u.bound, 32)))
    def post(s, kd, val):
        if not ok: return refused(u, s, what, kd, val, ['IndexOutOfBoundsException', 'ArrayIndexOutOfBoundsException'])
        if kd != 'ret': return u.oblige(s, FALSE, what + ': a valid range is copied')
        u.oblige(s, implies(ult(K, n), eq(u.rd(s, dn, at(do, K), es), src0)), what + ': element K of the target range is element K the source range held before')
        lo = at(do, bv(0, 32)); size = mulc(zext(n, 64), es)
        u.unchanged(s, what, {dn: rng(lo, size)})
        mk = events(s, 'mark')
        if ref:
            # every written word is reported to the collector
            hit = FALSE
            for m in mk:
                m2, m3 = [zext(x, 64) if x.w < 64 else x for x in (m[2], m[3])]
                hit = bor(hit, band(eq(m[1], dst), ule(m2, at(do, K)), ult(at(do, K), add(m2, mulc(m3, 8))), eq(trunc(m2, 3), bv(0, 3))))
            u.oblige(s, implies(ult(K, n), hit), what + ': the store of element K is reported to the collector')
        for m in mk:
            m2, m3 = [zext(x, 64) if x.w < 64 else x for x in (m[2], m[3])]
            u.oblige(s, band(eq(m[1], dst), ule(add(m2, mulc(m3, 8)), add(body, mulc(ld, es)))), what + ': only words of the target are reported to the collector')
    u.verify(res, what, u.fn(ENTRY), call(u, st, base('A'), so, dst, do, n), st, post, expect=('ret',) if ok else ('throw',))

def t_store(u, res):
    """references of two unrelated array classes: every element stored is an instance of the target's element class"""
    st = world(u)
    cls(u, st, 'C', 8, True); cls(u, st, 'D', 8, True)
    ls = arr(u, st, 'A', 'C', 8); ld = arr(u, st, 'B', 'D', 8)
    so, do, n = var('vsrcOffset', 32, 0, 0x7fffffff), var('vdstOffset', 32, 0, 0x7fffffff), var('vlength', 32, 0, 0x7fffffff)
    st.assume(valid(so, ls, do, ld, n))
    what = 'arraycopy between reference arrays'
    isin = var('sourceElementsAreInstancesOfTargetElementClass', 1)
    u.ex.contracts['vm::instanceOf'] = lambda ex, s, a, ins: fresh('instanceof', 1)
    def post(s, kd, val):
        if kd == 'ret': u.ex.oblige(s, 'store-check', bor(eq(n, bv(0, 32)), eq(isin, bv(1, 1))), what + ': an element that is not an instance of the target element class is refused', assume=False)
    u.verify(res, what, u.fn(ENTRY), call(u, st, base('A'), so, base('B'), do, n), st, post)
