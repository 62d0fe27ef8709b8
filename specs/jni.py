"""Native-interface functions on arrays and strings (src/jnienv.cpp): contracts from the JNI specification."""
from unit import *
import utf8 as T8

TYPES = {'Boolean': 1, 'Byte': 1, 'Char': 2, 'Short': 2, 'Int': 4, 'Long': 8, 'Float': 4, 'Double': 8}
SLOTS = 64

def unit():
    cs = {'state': '__builtin_offsetof(vm::Thread, state)', 'm_heap': '__builtin_offsetof(vm::Machine, heap)', 'm_classpath': '__builtin_offsetof(vm::Machine, classpath)',
          'm_processor': '__builtin_offsetof(vm::Machine, processor)', 'criticalLevel': '__builtin_offsetof(vm::Thread, criticalLevel)',
          'COMMIT': 'AVIAN_JNI_COMMIT', 'ABORT': 'AVIAN_JNI_ABORT', 'ActiveState': 'vm::Thread::ActiveState', 'IdleState': 'vm::Thread::IdleState'}
    txt = '''namespace vm { void* probe_heap_allocate(Heap* h) { return h->allocate(1); } void probe_heap_free(Heap* h) { h->free(0, 1); }
GcString* probe_classpath_makeString(Classpath* c, Thread* t) { return c->makeString(t, 0, 0, 0); }
jobject probe_processor_makeLocalReference(Processor* p, Thread* t) { return p->makeLocalReference(t, 0); } }
'''
    u = Unit('jnienv', ['src/jnienv.cpp'], consts=cs, extra_text=txt,
             exc=['ByteArray', 'CharArray', 'String', 'ArrayIndexOutOfBoundsException', 'StringIndexOutOfBoundsException', 'NullPointerException', 'Array', 'NegativeArraySizeException'])
    C = u.ex.contracts
    for i in range(SLOTS): C['__slot%d' % i] = lambda ex, st, a, ins, i=i: slot(u, st, i, a, ins)
    def enter(ex, st, a, ins):
        gc(u, st)
        u.w(st, 'T', u.P['state'], 4, a[1])
    C['vm::enter'] = enter
    def vmrun(ex, st, a, ins):
        prot = ex.rread(st, st.regs[base('T')], bv(u.P['protector'], 64), 8)
        def catch(ex, s, t):
            ex.rwrite(s, s.regs[base('T')], bv(u.P['protector'], 64), prot, 8)
            return fresh('runresult', 64)
        ex.enter_catching(st, a[0], [base('T'), a[1]], ins, catch)
    C['vmRun'] = vmrun
    def call(n, res=None):
        def f(ex, st, a, ins):
            for x in a[1:]:
                if x.w == 64 and [d for d in lin_parts(x)[1] if d in st.regs]: ex.resolve(st, x)
            ev(st, n, *a[1:])
            if res: return res(st, a)
        return f
    for n, res in (('stringUTFLength', lambda st, a: uf('utflen', (orig(st, a[1]), a[2], a[3]), 32, 0, 1 << 30)), ('stringUTFChars', None), ('stringChars', None)):
        for q in u.ex.bybase.get('vm::' + n, []):
            if u.ex.funcs[q].decl: C[u.ex.dname[q]] = call(n, res)
    # virtual functions: the slot is found by running a one-line caller compiled with the sources
    u.handlers = {}
    for obj in ('heap', 'classpath', 'processor'):
        for m in ('allocate', 'free', 'makeString', 'makeLocalReference'):
            n = 'vm::probe_%s_%s' % (obj, m)
            if n in u.ex.bybase:
                fn = u.ex.funcs[u.ex.bybase[n][0]]; fn.mod.load(fn)
                st = u.state(); vtobj(u, st, obj)
                u.probe = []
                u.ex.start(fn, [base('O_' + obj)] + ([base('T')] if len(fn.params) == 2 else []), st)
                u.ex.run(st, lambda s, k, v: None)
                if len(u.probe) != 1: raise Undecided('virtual slot of ' + n)
                u.handlers[(obj, u.probe[0])] = m
    u.probe = None
    return u

def vtobj(u, st, obj):
    st.new_region('O_' + obj, None, 'native'); st.new_region('VT_' + obj, None, 'native')
    u.w(st, 'O_' + obj, 0, 8, base('VT_' + obj))
    for i in range(SLOTS): u.w(st, 'VT_' + obj, 8 * i, 8, base('@__slot%d' % i))

def slot(u, st, i, a, ins):
    if u.probe is not None:
        u.probe.append(i); return bv(0, 64) if ins.ty.k != 'void' else None
    o = a[0].args[0][2:] if a[0].op == 'base' else '?'
    m = u.handlers.get((o, i))
    if m is None: raise Undecided('virtual function %d of %s' % (i, o))
    if m == 'allocate':
        nm = freshname('Buf')
        st.new_region(nm, a[1], 'native')
        st.event('allocate', base(nm), a[1])
        return base(nm)
    if m == 'free':
        st.event('free', a[1], a[2]); return
    if m == 'makeString':
        st.event('makeString', a[2], a[3], a[4])
        d = st.ghost['moved']
        nm = freshname('newStr')
        gc(u, st)
        st.new_region(nm, None, 'heap')
        return base(nm)
    if m == 'makeLocalReference':
        nm = freshname('Ref')
        st.new_region(nm, bv(8, 64), 'native')
        u.w(st, nm, 0, 8, a[2])
        ev(st, 'localref', a[2], base(nm))
        return ite(eq(a[2], bv(0, 64)), bv(0, 64), base(nm)) if a[2].op != 'base' else base(nm)

def world(u):
    st = T8.world(u)
    for o, f in (('heap', 'm_heap'), ('classpath', 'm_classpath'), ('processor', 'm_processor')):
        vtobj(u, st, o)
        u.w(st, 'Mach', u.P[f], 8, base('O_' + o))
    u.old = var('oldstate', 32, 0, 16)
    u.w(st, 'T', u.P['state'], 4, u.old)
    return st

def done(u, s, what, allowed=None):
    """thread state restored, nothing else written"""
    P = u.P
    u.oblige(s, eq(u.rd(s, 'T', P['state'], 4), u.old), what + ': leaves the thread in the state it was called in')
    al = {'T': lambda off, n: bor(band(eq(off, bv(P['state'], 64)), eq(n, bv(4, 64))), band(ule(bv(P['exception'], 64), off), ult(off, bv(P['exception'] + 8, 64))),
                                  band(ule(bv(P['protector'], 64), off), ult(off, bv(P['protector'] + 8, 64))), band(ule(bv(P['resource'], 64), off), ult(off, bv(P['resource'] + 8, 64))) if 'resource' in P else FALSE,
                                  *[band(ule(bv(P[q], 64), off), ult(off, bv(P[q] + 8, 64))) for q in ('checkpoint', 'criticalLevel') if q in P])}
    al.update(allowed or {})
    u.unchanged(s, what, al)

def thrown(u, s, what, cond, exc):
    """the specified exception is raised exactly when cond holds"""
    e = events(s, 'throwNew', 'throw')
    if not e:
        return u.oblige(s, bnot(cond), what + ': raises %s when the index is out of bounds' % exc)
    u.oblige(s, cond, what + ': raises an exception only when the region is invalid')
    if len(e) != 1 or e[0][1] is None or e[0][0] != 'throwNew': return u.oblige(s, FALSE, what + ': raises one exception')
    u.oblige(s, eq(e[0][1], bv(u.P['E_' + exc], e[0][1].w)), what + ': the exception is ' + exc)

def arrworld(u, ty):
    es = TYPES[ty]
    st = world(u)
    kind = ty + 'Array'
    ln = var('len', 64, 0, 0x7fffffff)
    st.assume(ult(mulc(ln, es), bv(0x7fffff00, 64)))
    body = u.enum(kind + 'Body')
    u.obj(st, 'Arr', 'Cls_' + kind, add(bv(body, 64), mulc(ln, es)))
    u.w(st, 'Arr', u.enum(kind + 'Length'), 8, ln)
    st.new_region('H', bv(8, 64), 'native'); u.w(st, 'H', 0, 8, base('Arr'))
    return st, es, ln, body

def inrange(off, n, ln):
    s, l = sext(off, 64), sext(n, 64)
    return band(sle(bv(0, 32), off), sle(bv(0, 32), n), ule(add(s, l), ln))

def region(st, ln, valid):
    """the (start, length) pairs of a valid region / all others: together every pair"""
    if valid:
        off, n = var('vstart', 32, 0, 0x7fffffff), var('vlength', 32, 0, 0x7fffffff)
        st.assume(ule(add(zext(off, 64), zext(n, 64)), ln))
        return off, n, TRUE
    off, n = var('start', 32), var('length', 32)
    st.assume(bnot(inrange(off, n, ln)))
    return off, n, FALSE

def t_region(u, res, get, ty, valid):
    st, es, ln, body = arrworld(u, ty)
    off, n, ok = region(st, ln, valid)
    what = '%s%sArrayRegion' % ('Get' if get else 'Set', ty)
    size = ite(ok, mulc(sext(n, 64), es), bv(0, 64))
    st.new_region('Buf', size, 'native')
    K = var('K', 64, 0, 0x7fffffff)
    a0 = u.rd(st, 'Arr', add(bv(body, 64), mulc(add(sext(off, 64), K), es)), es)
    b0 = u.rd(st, 'Buf', mulc(K, es), es)
    def post(s, kd, val):
        if kd != 'ret': return u.oblige(s, FALSE, what + ': returns')
        thrown(u, s, what, bnot(ok), 'ArrayIndexOutOfBoundsException')
        live = band(ok, ult(K, sext(n, 64)))
        if get: u.oblige(s, implies(live, eq(u.rd(s, 'Buf', mulc(K, es), es), a0)), what + ': element K of the buffer is element offset + K of the array')
        else: u.oblige(s, implies(live, eq(u.rd(s, 'Arr', add(bv(body, 64), mulc(add(sext(off, 64), K), es)), es), b0)), what + ': element offset + K of the array is element K of the buffer')
        lo = add(bv(body, 64), mulc(sext(off, 64), es))
        al = {'Buf': lambda o, m: band(ok, rng(0, size)(o, m))} if get else {'Arr': lambda o, m: band(ok, rng(lo, size)(o, m))}
        done(u, s, what, al)
    u.verify(res, what, u.fn('local::' + what), [base('T'), base('H'), off, n, base('Buf')], st, post)

def t_getel(u, res, ty, copyp):
    st, es, ln, body = arrworld(u, ty)
    what = 'Get%sArrayElements' % ty
    st.new_region('IsCopy', bv(1, 64), 'native')
    K = var('K', 64, 0, 0x7fffffff)
    a0 = u.rd(st, 'Arr', add(bv(body, 64), mulc(K, es)), es)
    def post(s, kd, val):
        if kd != 'ret': return u.oblige(s, FALSE, what + ': returns')
        al = events(s, 'allocate')
        if len(al) != 1 or al[0][1] is not val: return u.oblige(s, FALSE, what + ': returns a fresh buffer')
        u.oblige(s, eq(al[0][2], mulc(ln, es)), what + ': the buffer holds exactly the elements')
        r = s.regs[val]
        u.oblige(s, implies(ult(K, ln), eq(u.ex.rread(s, r, mulc(K, es), es), a0)), what + ': element K of the buffer is element K of the array')
        if copyp: u.oblige(s, bnot(eq(u.rd(s, 'IsCopy', 0, 1), bv(0, 8))), what + ': reports a copy')
        done(u, s, what, {'IsCopy': rng(0, 1)})
    u.verify(res, what, u.fn('local::' + what), [base('T'), base('H'), base('IsCopy') if copyp else bv(0, 64)], st, post)

def t_relel(u, res, ty):
    st, es, ln, body = arrworld(u, ty)
    what = 'Release%sArrayElements' % ty
    mode = var('mode', 32)
    P = u.P
    C, A = bv(P['COMMIT'] & 0xffffffff, 32), bv(P['ABORT'] & 0xffffffff, 32)
    st.assume(bor(eq(mode, bv(0, 32)), eq(mode, C), eq(mode, A)))
    size = mulc(ln, es)
    st.new_region('Buf', size, 'native')
    K = var('K', 64, 0, 0x7fffffff)
    a0 = u.rd(st, 'Arr', add(bv(body, 64), mulc(K, es)), es)
    b0 = u.rd(st, 'Buf', mulc(K, es), es)
    def post(s, kd, val):
        if kd != 'ret': return u.oblige(s, FALSE, what + ': returns')
        fr = events(s, 'free')
        back = bor(eq(mode, bv(0, 32)), eq(mode, C))
        rel = bor(eq(mode, bv(0, 32)), eq(mode, A))
        u.oblige(s, rel if fr else bnot(rel), what + ': frees the buffer unless the mode is COMMIT')
        for f in fr:
            u.oblige(s, band(eq(f[1], base('Buf')), eq(f[2], size)), what + ': frees the buffer with its size')
        if len(fr) > 1: u.oblige(s, FALSE, what + ': frees once')
        u.oblige(s, implies(ult(K, ln), eq(u.rd(s, 'Arr', add(bv(body, 64), mulc(K, es)), es), ite(back, b0, a0))), what + ': element K is written back unless the mode is ABORT')
        done(u, s, what, {'Arr': lambda o, m: band(back, rng(body, size)(o, m))})
    u.verify(res, what, u.fn('local::' + what), [base('T'), base('H'), base('Buf'), mode], st, post)

def objworld(u):
    st = world(u)
    ln = var('objlen', 64, 0, 0x0effffff)
    body = u.enum('ArrayBody')
    u.obj(st, 'Arr', 'Cls_Arr', add(bv(body, 64), mulc(ln, 8)))
    u.w(st, 'Arr', u.enum('ArrayLength'), 8, ln)
    st.new_region('H', bv(8, 64), 'native'); u.w(st, 'H', 0, 8, base('Arr'))
    return st, ln, body

def t_objget(u, res):
    what = 'GetObjectArrayElement'
    st, ln, body = objworld(u)
    i = var('index', 32)
    ok = band(sle(bv(0, 32), i), slt(sext(i, 64), ln))
    v0 = u.rd(st, 'Arr', add(bv(body, 64), mulc(sext(i, 64), 8)), 8)
    def post(s, kd, val):
        if kd != 'ret': return u.oblige(s, FALSE, what + ': returns')
        thrown(u, s, what, bnot(ok), 'ArrayIndexOutOfBoundsException')
        lr = events(s, 'localref')
        if events(s, 'throwNew'):
            u.oblige(s, TRUE if not lr else FALSE, what + ': no reference is made for an invalid index')
        elif len(lr) != 1: u.oblige(s, FALSE, what + ': makes a reference')
        else: u.oblige(s, eq(lr[0][1], v0), what + ': refers to the element at the index')
        done(u, s, what)
    u.verify(res, what, u.fn('local::' + what), [base('T'), base('H'), i], st, post)

def t_objset(u, res, null):
    what = 'SetObjectArrayElement'
    st, ln, body = objworld(u)
    i = var('index', 32)
    ok = band(sle(bv(0, 32), i), slt(sext(i, 64), ln))
    u.obj(st, 'Val', 'Cls_Val', None)
    st.new_region('HV', bv(8, 64), 'native'); u.w(st, 'HV', 0, 8, base('Val'))
    at = add(bv(body, 64), mulc(sext(i, 64), 8))
    def post(s, kd, val):
        if kd != 'ret': return u.oblige(s, FALSE, what + ': returns')
        thrown(u, s, what, bnot(ok), 'ArrayIndexOutOfBoundsException')
        want = bv(0, 64) if null else u.curb(s, 'Val')
        if not events(s, 'throwNew'):
            u.oblige(s, eq(u.rd(s, 'Arr', at, 8), want), what + ': the element is the value')
            mk = events(s, 'mark')
            if not null:
                u.oblige(s, TRUE if len(mk) == 1 else FALSE, what + ': tells the collector')
                for e in mk: u.oblige(s, band(eq(e[1], base('Arr')), eq(zext(e[2], 64) if e[2].w < 64 else e[2], at)), what + ': marks the written word')
        done(u, s, what, {'Arr': lambda o, m: band(ok, rng(at, 8)(o, m))})
    u.verify(res, what, u.fn('local::' + what), [base('T'), base('H'), i, bv(0, 64) if null else base('HV')], st, post)

def t_length(u, res):
    what = 'GetArrayLength'
    for ty in TYPES:
        st, es, ln, body = arrworld(u, ty)
        def post(s, kd, val):
            if kd != 'ret': return u.oblige(s, FALSE, what + ': returns')
            u.oblige(s, eq(zext(val, 64), ln), what + ': the length')
            done(u, s, what)
        u.verify(res, what, u.fn('local::' + what), [base('T'), base('H')], st, post)

# ------------------------------------------------------------- strings
def strworld(u, kind, region, valid=None):
    """string over an array of `kind`; region: arbitrary signed start/length"""
    st = world(u)
    off, slen = var('stroffset', 32, 0, 1 << 28), var('strlength', 32, 0, 1 << 28)
    alen = var('arraylength', 64, 0, 1 << 30)
    st.assume(ule(add(zext(off, 64), zext(slen, 64)), alen))
    es = 1 if kind == 'ByteArray' else 2
    u.obj(st, 'Data', 'Cls_' + kind, add(bv(u.enum(kind + 'Body'), 64), mulc(alen, es)))
    u.w(st, 'Data', u.enum(kind + 'Length'), 8, alen)
    u.obj(st, 'Str', 'Cls_String', None, StringData=(8, base('Data')), StringOffset=(4, off), StringLength=(4, slen))
    st.new_region('H', bv(8, 64), 'native'); u.w(st, 'H', 0, 8, base('Str'))
    if not region: return st, off, slen
    start, n, ok = globals()['region'](st, zext(slen, 64), valid)
    if u.bound: st.assume(slt(n, bv(u.bound, 32)))
    return st, off, slen, start, n, ok, es

def t_strregion(u, res, kind, valid):
    what = 'GetStringRegion(%s)' % kind
    st, off, slen, start, n, ok, es = strworld(u, kind, True, valid)
    size = ite(ok, mulc(sext(n, 64), 2), bv(0, 64))
    st.new_region('Out', size, 'native')
    K = var('K', 32, 0, 1 << 28)
    def ch(s, k):
        o = add(bv(u.enum(kind + 'Body'), 64), mulc(add(add(zext(off, 64), sext(start, 64)), zext(k, 64)), es))
        v = u.ex.lread(st0, a0, log0, o, es)
        return zext(v, 16) if es == 1 else v
    a0, log0 = st.mem['Data']
    st0 = st.copy()
    if es == 1:      # byte[]-backed strings hold ASCII
        st.assume(ult(ch(st, K), bv(0x80, 16)))
    def gens(ctx):
        o = []
        for k in [v for v in ctx.vars if v.w in (32, 64) and not v.temp]:
            k32 = lambda t: trunc(t, 32) if t.w == 64 else t
            o.append(loops.Cand(lambda vals, s, k=k: band(sle(bv(0, 32), k32(vals[k])), sle(k32(vals[k]), n)), '0 <= %s <= length' % k.name))
            o.append(loops.Cand(lambda vals, s, k=k: implies(ult(K, k32(vals[k])), eq(u.rd(s, 'Out', mulc(zext(K, 64), 2), 2), ch(s, K))), 'units below %s are copied' % k.name))
        return o
    st.ghost['gens'] = (gens,)
    def post(s, kd, val):
        if kd != 'ret': return u.oblige(s, FALSE, what + ': returns')
        thrown(u, s, what, bnot(ok), 'StringIndexOutOfBoundsException')
        u.oblige(s, implies(band(ok, ult(K, n)), eq(u.rd(s, 'Out', mulc(zext(K, 64), 2), 2), ch(s, K))), what + ': unit K')
        done(u, s, what, {'Out': lambda o, m: band(ok, rng(0, size)(o, m))})
    u.verify(res, what, u.fn('local::GetStringRegion'), [base('T'), base('H'), start, n, base('Out')], st, post)

def t_utfregion(u, res, kind, valid):
    what = 'GetStringUTFRegion(%s)' % kind
    st, off, slen, start, n, ok, es = strworld(u, kind, True, valid)
    st.new_region('Out', None, 'native')
    def post(s, kd, val):
        if kd != 'ret': return u.oblige(s, FALSE, what + ': returns')
        thrown(u, s, what, bnot(ok), 'StringIndexOutOfBoundsException')
        c = events(s, 'stringUTFChars')
        for e in events(s, 'stringUTFLength'):
            u.oblige(s, ok, what + ': encodes only a valid region')
        if events(s, 'throwNew'):
            return u.oblige(s, TRUE if not c else FALSE, what + ': writes nothing for an invalid region')
        if len(c) != 1: return u.oblige(s, FALSE, what + ': encodes the region once')
        e = c[0]
        u.oblige(s, band(eq(e[1], base('Str')), eq(e[2], start), eq(e[3], n), eq(e[4], base('Out')), eq(e[5], uf('utflen', (base('Str'), start, n), 32, 0, 1 << 30))), what + ': encodes exactly the region, with the length of its encoding')
        done(u, s, what)
    u.verify(res, what, u.fn('local::GetStringUTFRegion'), [base('T'), base('H'), start, n, base('Out')], st, post)

def t_strchars(u, res, utf, copyp):
    what = 'GetString%sChars' % ('UTF' if utf else '')
    st, off, slen = strworld(u, 'CharArray', False)
    st.new_region('IsCopy', bv(1, 64), 'native')
    ul = uf('utflen', (base('Str'), bv(0, 32), slen), 32, 0, 1 << 30)
    def post(s, kd, val):
        if kd != 'ret': return u.oblige(s, FALSE, what + ': returns')
        al = events(s, 'allocate'); c = events(s, 'stringUTFChars' if utf else 'stringChars')
        if len(al) != 1 or al[0][1] is not val or len(c) != 1: return u.oblige(s, FALSE, what + ': returns a fresh buffer it filled once')
        u.oblige(s, eq(al[0][2], add(zext(ul, 64), bv(1, 64)) if utf else mulc(add(zext(slen, 64), bv(1, 64)), 2)), what + ': the buffer holds the text and its terminator')
        e = c[0]
        u.oblige(s, band(eq(e[1], base('Str')), eq(e[2], bv(0, 32)), eq(e[3], slen), eq(e[4], val)), what + ': converts the whole string into the buffer')
        if utf: u.oblige(s, eq(e[5], ul), what + ': with the length of its encoding')
        if copyp: u.oblige(s, bnot(eq(u.rd(s, 'IsCopy', 0, 1), bv(0, 8))), what + ': reports a copy')
        done(u, s, what, {'IsCopy': rng(0, 1)})
    u.verify(res, what, u.fn('local::' + what), [base('T'), base('H'), base('IsCopy') if copyp else bv(0, 64)], st, post)

def t_relstr(u, res, utf):
    what = 'ReleaseString%sChars' % ('UTF' if utf else '')
    st, off, slen = strworld(u, 'CharArray', False)
    st.new_region('Buf', None, 'native')
    ul = uf('utflen', (base('Str'), bv(0, 32), slen), 32, 0, 1 << 30)
    def post(s, kd, val):
        if kd != 'ret': return u.oblige(s, FALSE, what + ': returns')
        f = events(s, 'free')
        if len(f) != 1: return u.oblige(s, FALSE, what + ': frees once')
        u.oblige(s, band(eq(f[0][1], base('Buf')), eq(f[0][2], add(zext(ul, 64), bv(1, 64)) if utf else mulc(add(zext(slen, 64), bv(1, 64)), 2))), what + ': frees the buffer with the size it was allocated with')
        done(u, s, what)
    u.verify(res, what, u.fn('local::' + what), [base('T'), base('H'), base('Buf')], st, post)

def t_strlen(u, res, utf):
    what = 'GetString%sLength' % ('UTF' if utf else '')
    st, off, slen = strworld(u, 'CharArray', False)
    def post(s, kd, val):
        if kd != 'ret': return u.oblige(s, FALSE, what + ': returns')
        u.oblige(s, eq(val, uf('utflen', (base('Str'), bv(0, 32), slen), 32, 0, 1 << 30) if utf else slen), what + ': the length')
        done(u, s, what)
    u.verify(res, what, u.fn('local::' + what), [base('T'), base('H')], st, post)

def t_critical(u, res, level):
    """GetPrimitiveArrayCritical / GetStringCritical of a char[]-backed string: the address of the elements themselves"""
    for what in ('GetPrimitiveArrayCritical', 'GetStringCritical'):
        if what[3] == 'P': st, es, ln, body = arrworld(u, 'Int')
        else: st, off, slen = strworld(u, 'CharArray', False)
        lv = var('level', 32, 0, 1000)
        st.assume(eq(lv, bv(0, 32)) if not level else bnot(eq(lv, bv(0, 32))))
        u.w(st, 'T', u.P['criticalLevel'], 4, lv)
        st.new_region('IsCopy', bv(1, 64), 'native')
        def post(s, kd, val):
            if kd != 'ret': return u.oblige(s, FALSE, what + ': returns')
            if what[3] == 'P': want = add(u.curb(s, 'Arr'), bv(body, 64))
            else: want = add(u.curb(s, 'Data'), add(bv(u.enum('CharArrayBody'), 64), mulc(zext(off, 64), 2)))
            u.oblige(s, eq(val, want), what + ': the address of the elements, where the collector has left them')
            u.oblige(s, eq(u.rd(s, 'T', u.P['criticalLevel'], 4), add(lv, bv(1, 32))), what + ': one level deeper')
            u.oblige(s, eq(u.rd(s, 'T', u.P['state'], 4), u.old if level else bv(u.P['ActiveState'], 32)), what + ': the thread is active')
            u.unchanged(s, what, {'IsCopy': rng(0, 1), 'T': lambda o, n: bor(band(eq(o, bv(u.P['criticalLevel'], 64)), eq(n, bv(4, 64))), band(eq(o, bv(u.P['state'], 64)), eq(n, bv(4, 64))))})
        u.verify(res, what, u.fn('local::' + what), [base('T'), base('H'), base('IsCopy')], st, post)
    for what in ('ReleasePrimitiveArrayCritical', 'ReleaseStringCritical'):
        if what[7] == 'P': st, es, ln, body = arrworld(u, 'Int')
        else: st, off, slen = strworld(u, 'CharArray', False)
        lv = var('level1', 32, 1, 1000)
        st.assume(eq(lv, bv(1, 32)) if not level else bnot(eq(lv, bv(1, 32))))
        u.w(st, 'T', u.P['criticalLevel'], 4, lv)
        def post(s, kd, val):
            if kd != 'ret': return u.oblige(s, FALSE, what + ': returns')
            u.oblige(s, eq(u.rd(s, 'T', u.P['criticalLevel'], 4), sub(lv, bv(1, 32))), what + ': one level up')
            u.oblige(s, eq(u.rd(s, 'T', u.P['state'], 4), u.old if level else bv(u.P['IdleState'], 32)), what + ': the thread is idle after the outermost release')
            u.unchanged(s, what, {'T': lambda o, n: bor(band(eq(o, bv(u.P['criticalLevel'], 64)), eq(n, bv(4, 64))), band(eq(o, bv(u.P['state'], 64)), eq(n, bv(4, 64))))})
        u.verify(res, what, u.fn('local::' + what), [base('T'), base('H'), bv(0, 64)] + ([bv(0, 32)] if what[7] == 'P' else []), st, post)
