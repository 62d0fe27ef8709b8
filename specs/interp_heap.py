"""Postconditions of the interpreter's array, field and type instructions (JVMS 6.5)."""
from interp import *

AB = 16      # checked against the code's own ArrayBody in the environment
# name: (load opcode, store opcode, element bytes, kind, load conversion)
ARRS = {'ba': (51, 84, 1, 'I', lambda e: sext(e, 32)), 'ca': (52, 85, 2, 'I', lambda e: zext(e, 32)), 'sa': (53, 86, 2, 'I', lambda e: sext(e, 32)),
        'ia': (46, 79, 4, 'I', lambda e: e), 'la': (47, 80, 8, 'J', lambda e: e), 'fa': (48, 81, 4, 'F', lambda e: e), 'da': (49, 82, 8, 'D', lambda e: e),
        'aa': (50, 83, 8, 'A', lambda e: e)}
ATYPE = {4: ('BooleanArray', 'boolean'), 5: ('CharArray', 'char'), 6: ('FloatArray', 'float'), 7: ('DoubleArray', 'double'),
         8: ('ByteArray', 'byte'), 9: ('ShortArray', 'short'), 10: ('IntArray', 'int'), 11: ('LongArray', 'long')}
FIELDS = {'Boolean': (1, 'I', lambda e: sext(e, 32)), 'Byte': (1, 'I', lambda e: sext(e, 32)), 'Char': (2, 'I', lambda e: zext(e, 32)),
          'Short': (2, 'I', lambda e: sext(e, 32)), 'Int': (4, 'I', lambda e: e), 'Float': (4, 'F', lambda e: e), 'Long': (8, 'J', lambda e: e),
          'Double': (8, 'D', lambda e: e), 'Object': (8, 'A', lambda e: e)}

def wmem(st, reg, off, n, v):
    a, log = st.mem[reg]
    st.mem[reg] = (a, log + (('w', off if isinstance(off, T) else bv(off, 64), n, v),))

def types_table(env, c):
    """t->m->types body: the class of each primitive array kind"""
    st = c.st
    M = st.regs[base('Mach')]
    tt = st.new_region('Types', None, 'heap')
    wmem(st, 'Types', env.enum('ArrayLength'), 8, bv(env.P['TypeCount'] + 2, 64))
    wmem(st, 'Mach', env.P['m_types'], 8, tt.base)
    for a in ARR:
        k = st.new_region('Cls_' + a, None, 'heap')
        wmem(st, 'Types', env.enum('ArrayBody') + 8 * env.P['T_' + a], 8, k.base)

def mk_array(env, c, esize, cls=None):
    st = c.st
    n = var('alength', 64, 0, (1 << 31) - 1)
    # arrays are at most 0x78000000 bytes long (arraySizeInBytes in machine.cpp refuses longer ones)
    st.assume(ule(n, bv((0x78000000 - AB) // esize, 64)))
    o = st.new_region('Arr', add(bv(AB, 64), mulc(n, esize)), 'heap')
    if cls:
        wmem(st, 'Arr', 0, 8, base('Cls_' + cls))
    else:
        st.new_region('ArrCls', None, 'heap')
        wmem(st, 'Arr', 0, 8, base('ArrCls'))
    wmem(st, 'Arr', 8, 8, n)
    c.alen = n; c.arr = o
    return o

def marks(st):
    return [e for e in st.trace if e[0] == 'mark']

def last_write_before_mark(env, c, st, region, off, what):
    """the collector is told about a stored reference (write barrier) exactly once"""
    m = marks(st)
    if len(m) != 1:
        env.ex.oblige(st, 'post', FALSE, what + ': the stored reference is announced to the collector exactly once', assume=False)
        return
    env.ex.oblige(st, 'post', band(eq(m[0][1], region.base), eq(zext(m[0][2], 64), off), eq(m[0][3], bv(1, m[0][3].w))),
                  what + ': the collector is told the address of the stored reference', assume=False)

def only_events(env, st, allowed, what):
    for e in st.trace:
        if e[0] not in allowed:
            env.ex.oblige(st, 'post', FALSE, '%s: no other effect (%s)' % (what, e[0]), assume=False)

def scenarios_array(env):
    out = []
    assert env.enum('ArrayBody') == AB and env.P['ArrayBody'] == AB
    for nm, (lo, so, es, ty, conv) in ARRS.items():
        variants = [None]
        if nm == 'ba': variants = ['ByteArray', 'BooleanArray']
        for var_ in variants + ['null']:
            tag = '' if var_ is None else ' (%s)' % var_
            def init(env, c, es=es, var_=var_):
                types_table(env, c)
                if var_ != 'null':
                    mk_array(env, c, es, var_)
            arr = ('A', base('Arr') if var_ != 'null' else bv(0, 64))
            def addr(c, es=es):
                return add(bv(AB, 64), mulc(sext(c.ops[1], 64), es))
            def inb(c):
                return band(sge(c.ops[1], bv(0, 32)), slt(sext(c.ops[1], 64), c.alen))
            def post_load(env, c, st, kind, val, addr=addr, inb=inb, nm=nm, es=es, ty=ty, conv=conv, var_=var_, name=nm + 'load' + tag):
                only_events(env, st, ('makeThrowable', 'handler'), name)
                if var_ == 'null':
                    return throws(env, c, st, kind, 'NullPointerException', what=name)
                if kind == 'next':
                    env.ex.oblige(st, 'post', inb(c), name + ': completes normally only for an index inside the array')
                    s0 = st.copy(); s0.mem = dict(st.mem); s0.mem['Arr'] = c.init_mem['Arr']
                    e = env.ex.rread(s0, c.arr, addr(c), es)
                    if var_ == 'BooleanArray':
                        st.assume(ule(e, bv(1, 8)))         # boolean elements are 0 or 1
                    normal(env, c, st, 2, [(ty, conv(e))], what=name)
                else:
                    env.ex.oblige(st, 'post', bnot(inb(c)), name + ': throws only for an index outside the array')
                    throws(env, c, st, kind, 'ArrayIndexOutOfBoundsException', what=name)
            out.append(Scn(nm + 'load' + tag, lo, (), [arr, 'I'], init=init, post=post_load,
                           expect=('throw',) if var_ == 'null' else ('next', 'throw')))
            def post_store(env, c, st, kind, val, addr=addr, inb=inb, nm=nm, es=es, ty=ty, var_=var_, name=nm + 'store' + tag):
                only_events(env, st, ('makeThrowable', 'handler', 'mark', 'instanceOf') if ty == 'A' else ('makeThrowable', 'handler'), name)
                k = 4 if ty in 'JD' else 3
                if var_ == 'null':
                    return throws(env, c, st, kind, 'NullPointerException', what=name)
                mk_ = [e for e in st.trace if e[0] == 'makeThrowable']
                if kind == 'next':
                    env.ex.oblige(st, 'post', inb(c), name + ': completes normally only for an index inside the array')
                    v = c.ops[2]
                    e = trunc(v, 8 * es) if ty == 'I' else v
                    if var_ == 'BooleanArray':
                        st.assume(ule(v, bv(1, 32)))        # the verifier only lets 0/1 into a boolean array
                    env.ex.oblige(st, 'post', eq(env.ex.rread(st, c.arr, addr(c), es), e), name + ': the element holds the stored value', assume=False)
                    if ty == 'A':
                        last_write_before_mark(env, c, st, c.arr, addr(c), name)
                        # array store check: a non-null value must have been found compatible with the element type
                        chk = [e_ for e_ in st.trace if e_[0] == 'instanceOf']
                        ok = bor(eq(v, bv(0, 64)), *[eq(x[2], v) for x in chk])
                        env.ex.oblige(st, 'store-check', ok, name + ': an incompatible element is rejected with ArrayStoreException', assume=False)
                    normal(env, c, st, k, [], what=name, allowed={'Arr': lambda off, n, a=addr(c), es=es: in_range(off, n, a, add(a, bv(es, 64)))})
                else:
                    st_exc = len(mk_) == 1 and smt.valid(st.pc, eq(mk_[0][1], bv(env.P['E_ArrayStoreException'], mk_[0][1].w))) is True
                    if ty == 'A' and st_exc:
                        env.ex.oblige(st, 'post', band(inb(c), ne(c.ops[2], bv(0, 64))), name + ': ArrayStoreException only for a valid index and a non-null value')
                        return throws(env, c, st, kind, 'ArrayStoreException', what=name)
                    env.ex.oblige(st, 'post', bnot(inb(c)), name + ': throws only for an index outside the array')
                    throws(env, c, st, kind, 'ArrayIndexOutOfBoundsException', what=name)
            vty = {'I': 'I', 'J': 'J', 'F': 'F', 'D': 'D', 'A': 'A'}[ty]
            out.append(Scn(nm + 'store' + tag, so, (), [arr, 'I', vty], init=init, post=post_store,
                           expect=('throw',) if var_ == 'null' else ('next', 'throw')))
    # arraylength
    for var_ in ('', 'null'):
        arr = ('A', base('Arr') if not var_ else bv(0, 64))
        def init(env, c, var_=var_):
            types_table(env, c)
            if not var_: mk_array(env, c, 1)
        def post(env, c, st, kind, val, var_=var_):
            only_events(env, st, ('makeThrowable', 'handler'), 'arraylength')
            if var_:
                return throws(env, c, st, kind, 'NullPointerException', what='arraylength')
            if kind != 'next': return bad(env, st, kind, 'arraylength')
            normal(env, c, st, 1, [('I', trunc(c.alen, 32))], what='arraylength')
        out.append(Scn('arraylength ' + var_, 190, (), [arr], init=init, post=post, expect=('throw',) if var_ else ('next',)))
    # allocation
    for at, (k, nm) in ATYPE.items():
        name = 'newarray ' + nm
        def post(env, c, st, kind, val, k=k, name=name):
            n = c.ops[0]
            al = [e for e in st.trace if e[0] == 'alloc']
            only_events(env, st, ('makeThrowable', 'handler', 'alloc'), name)
            if kind == 'next':
                env.ex.oblige(st, 'post', sge(n, bv(0, 32)), name + ': completes normally only for a non-negative size')
                if len(al) != 1 or al[0][1] != k:
                    return env.ex.oblige(st, 'post', FALSE, name + ': allocates one %s' % k, assume=False)
                env.ex.oblige(st, 'post', eq(zext(al[0][2][0], 64), sext(n, 64)), name + ': allocates exactly the requested length', assume=False)
                normal(env, c, st, 1, [('A', al[0][3])], what=name)
            else:
                env.ex.oblige(st, 'post', slt(n, bv(0, 32)), name + ': throws only for a negative size')
                env.ex.oblige(st, 'post', boolc(not al), name + ': a failing allocation has no effect', assume=False)
                throws(env, c, st, kind, 'NegativeArraySizeException', what=name)
        out.append(Scn(name, 188, (('c', at, 1),), ['I'], post=post, expect=('next', 'throw')))
    def post_an(env, c, st, kind, val):
        name = 'anewarray'
        n = c.ops[0]
        al = [e for e in st.trace if e[0] == 'alloc']
        rc = [e for e in st.trace if e[0] == 'resolveClassInPool']
        only_events(env, st, ('makeThrowable', 'handler', 'alloc', 'resolveClassInPool'), name)
        if kind == 'next':
            env.ex.oblige(st, 'post', sge(n, bv(0, 32)), name + ': completes normally only for a non-negative size')
            if len(al) != 1 or al[0][1] != 'ObjectArray' or len(rc) != 1:
                return env.ex.oblige(st, 'post', FALSE, name + ': allocates one object array', assume=False)
            env.ex.oblige(st, 'post', eq(rc[0][1][2], sub(zext(c.opnds[0], 32), bv(1, 32))), name + ': element class is the addressed constant', assume=False)
            env.ex.oblige(st, 'post', eq(rc[0][1][1], c.meth.base), name + ': resolved in the executing method', assume=False)
            env.ex.oblige(st, 'post', eq(al[0][2][0], base('Cls')), name + ': of the resolved class', assume=False)
            env.ex.oblige(st, 'post', eq(zext(al[0][2][1], 64), sext(n, 64)), name + ': allocates exactly the requested length', assume=False)
            normal(env, c, st, 1, [('A', al[0][3])], what=name)
        else:
            env.ex.oblige(st, 'post', slt(n, bv(0, 32)), name + ': throws only for a negative size')
            env.ex.oblige(st, 'post', boolc(not al), name + ': a failing allocation has no effect', assume=False)
            throws(env, c, st, kind, 'NegativeArraySizeException', what=name)
    out.append(Scn('anewarray', 189, ('u2',), ['I'], post=post_an, expect=('next', 'throw')))
    for dims in (1, 2, 3, 4, 5, 8):
        name = 'multianewarray %d' % dims
        def post(env, c, st, kind, val, dims=dims, name=name):
            neg_ = bor(*[slt(x, bv(0, 32)) for x in c.ops])
            al = [e for e in st.trace if e[0] == 'alloc']
            pm = [e for e in st.trace if e[0] == 'populateMultiArray']
            if kind == 'next':
                env.ex.oblige(st, 'post', bnot(neg_), name + ': completes normally only when no dimension is negative')
                if len(al) != 1 or len(pm) != 1:
                    return env.ex.oblige(st, 'post', FALSE, name + ': allocates one outer array and populates it', assume=False)
                a = pm[0][1]
                env.ex.oblige(st, 'post', eq(zext(al[0][2][0], 64), sext(c.ops[0], 64)), name + ': outer length is the first dimension', assume=False)
                env.ex.oblige(st, 'post', eq(a[1], al[0][3]), name + ': populates the new array', assume=False)
                env.ex.oblige(st, 'post', band(eq(a[3], bv(0, 32)), eq(a[4], bv(dims, 32))), name + ': from dimension 0 of %d' % dims, assume=False)
                o = env.ex.load(st, al[0][3], 8)
                env.ex.oblige(st, 'post', eq(and_(o, bv(-8, 64)), base('Cls')), name + ': the new array has the resolved class', assume=False)
                for i in range(dims):
                    v = st.ghost['counts'][i]
                    env.ex.oblige(st, 'post', eq(v, c.ops[i]), name + ': dimension %d is passed in order' % i, assume=False)
                normal(env, c, st, dims, [('A', al[0][3])], what=name)
            else:
                env.ex.oblige(st, 'post', neg_, name + ': throws only for a negative dimension')
                env.ex.oblige(st, 'post', boolc(not al), name + ': a failing allocation has no effect', assume=False)
                throws(env, c, st, kind, 'NegativeArraySizeException', what=name)
        out.append(Scn(name, 197, ('u2', ('c', dims, 1)), ['I'] * dims, post=post, expect=('next', 'throw'), unroll=True))
    return out

def scenarios_field(env):
    out = []
    offs = env.enum
    def mk_field(env, c, code, static, width, vol):
        st = c.st
        types_table(env, c)
        f = st.new_region('Fld', None, 'heap')
        fo = var('foffset', 16, 8, 60000)
        wmem(st, 'Fld', offs('FieldOffset'), 2, fo)
        wmem(st, 'Fld', offs('FieldCode'), 1, bv(env.P['F_' + code], 8))
        wmem(st, 'Fld', offs('FieldFlags'), 2, bv((8 if static else 0) | (0x40 if vol else 0), 16))
        wmem(st, 'Fld', offs('FieldClass'), 8, base('FCls'))
        st.new_region('FCls', None, 'heap')
        wmem(st, 'FCls', offs('ClassStaticTable'), 8, base('Obj') if static else bv(0, 64))
        c.fo = zext(fo, 64)
        size = var('osize', 64, 16, 65535)
        st.assume(ule(add(c.fo, bv(width, 64)), size))
        c.obj = st.new_region('Obj', size, 'heap')
        st.new_region('ObjCls', None, 'heap')
        wmem(st, 'Obj', 0, 8, base('ObjCls'))
    for code, (w, ty, conv) in FIELDS.items():
      for vol in (False, True):
        vt = ' volatile' if vol else ''
        for static in (True, False):
            for null in ((False,) if static else (False, True)):
                def init(env, c, code=code, static=static, w=w, vol=vol):
                    mk_field(env, c, code, static, w, vol)
                rcv = [] if static else [('A', bv(0, 64) if null else base('Obj'))]
                gname = ('getstatic ' if static else 'getfield ') + code + vt + (' null' if null else '')
                def post_get(env, c, st, kind, val, name=gname, w=w, ty=ty, conv=conv, null=null, static=static):
                    only_events(env, st, ('makeThrowable', 'handler', 'resolveField') + (('initClass',) if static else ()), name)
                    if null:
                        return throws(env, c, st, kind, 'NullPointerException', what=name)
                    if kind != 'next': return bad(env, st, kind, name)
                    field_ok(env, c, st, name, static)
                    s0 = st.copy(); s0.mem = dict(st.mem); s0.mem['Obj'] = c.init_mem['Obj']
                    normal(env, c, st, 0 if static else 1, [(ty, conv(env.ex.rread(s0, c.obj, c.fo, w)))], what=name)
                out.append(Scn(gname, 178 if static else 180, ('u2',), list(rcv), init=init, post=post_get, expect=('throw',) if null else ('next',)))
                pname = ('putstatic ' if static else 'putfield ') + code + vt + (' null' if null else '')
                def post_put(env, c, st, kind, val, name=pname, w=w, ty=ty, null=null, static=static):
                    only_events(env, st, ('makeThrowable', 'handler', 'resolveField') + (('initClass',) if static else ()) + (('mark',) if ty == 'A' else ()), name)
                    if null:
                        return throws(env, c, st, kind, 'NullPointerException', what=name)
                    if kind != 'next': return bad(env, st, kind, name)
                    field_ok(env, c, st, name, static)
                    v = c.ops[-1]
                    e = trunc(v, 8 * w) if v.w > 8 * w else v
                    env.ex.oblige(st, 'post', eq(env.ex.rread(st, c.obj, c.fo, w), e), name + ': the field holds the stored value', assume=False)
                    if ty == 'A':
                        last_write_before_mark(env, c, st, c.obj, c.fo, name)
                    k = (2 if ty in 'JD' else 1) + (0 if static else 1)
                    normal(env, c, st, k, [], what=name, allowed={'Obj': lambda off, n, w=w: in_range(off, n, c.fo, add(c.fo, bv(w, 64)))})
                out.append(Scn(pname, 179 if static else 181, ('u2',), rcv + [ty], init=init, post=post_put, expect=('throw',) if null else ('next',)))
    return out

def field_ok(env, c, st, name, static):
    rf = [e for e in st.trace if e[0] == 'resolveField']
    if len(rf) != 1:
        return env.ex.oblige(st, 'post', FALSE, name + ': resolves the field once', assume=False)
    a = rf[0][1]
    env.ex.oblige(st, 'post', band(eq(a[1], c.meth.base), eq(a[2], sub(zext(c.opnds[0], 32), bv(1, 32)))), name + ': resolves the addressed constant of the executing method', assume=False)
    if static:
        ic = [e for e in st.trace if e[0] == 'initClass']
        env.ex.oblige(st, 'post', bor(*[eq(e[1], base('FCls')) for e in ic]) if ic else FALSE, name + ': the declaring class is initialized first', assume=False)

def scenarios_type(env):
    out = []
    def init(env, c):
        types_table(env, c)
        st = c.st
        for n in ('Cls', 'ObjCls', 'NmA', 'NmB'):
            st.new_region(n, None, 'heap')
        st.new_region('Obj', None, 'heap')
        wmem(st, 'Obj', 0, 8, base('ObjCls'))
        wmem(st, 'ObjCls', env.enum('ClassName'), 8, base('NmA'))
        wmem(st, 'Cls', env.enum('ClassName'), 8, base('NmB'))
    isI = bvar('isInstance')
    def resolved(env, c, st, name):
        rc = [e for e in st.trace if e[0] == 'resolveClassInPool']
        io = [e for e in st.trace if e[0] == 'instanceOf']
        if len(rc) != 1 or len(io) != 1:
            return env.ex.oblige(st, 'post', FALSE, name + ': the type test is made once', assume=False)
        env.ex.oblige(st, 'post', band(eq(rc[0][1][1], c.meth.base), eq(rc[0][1][2], sub(zext(c.opnds[0], 32), bv(1, 32)))), name + ': against the addressed constant', assume=False)
        env.ex.oblige(st, 'post', band(eq(io[0][1], base('Cls')), eq(io[0][2], base('Obj'))), name + ': the type test relates the object to the resolved class', assume=False)
    for null in (False, True):
        rcv = ('A', bv(0, 64) if null else base('Obj'))
        sfx = ' null' if null else ''
        def post_cc(env, c, st, kind, val, null=null):
            name = 'checkcast'
            only_events(env, st, ('makeThrowable', 'handler', 'resolveClassInPool', 'instanceOf'), name)
            if null:
                return normal(env, c, st, 0, [], what=name) if kind == 'next' else bad(env, st, kind, name)
            resolved(env, c, st, name)
            if kind == 'next':
                env.ex.oblige(st, 'post', isI, name + ': succeeds only for an instance', assume=False)
                normal(env, c, st, 0, [], what=name)
            else:
                env.ex.oblige(st, 'post', bnot(isI), name + ': throws only for a non-instance')
                throws(env, c, st, kind, 'ClassCastException', what=name)
        out.append(Scn('checkcast' + sfx, 192, ('u2',), [rcv], init=init, post=post_cc, expect=('next',) if null else ('next', 'throw')))
        def post_io(env, c, st, kind, val, null=null):
            name = 'instanceof'
            only_events(env, st, ('resolveClassInPool', 'instanceOf'), name)
            if kind != 'next': return bad(env, st, kind, name)
            if not null: resolved(env, c, st, name)
            normal(env, c, st, 1, [('I', bv(0, 32) if null else ite(isI, bv(1, 32), bv(0, 32)))], what=name)
        out.append(Scn('instanceof' + sfx, 193, ('u2',), [rcv], init=init, post=post_io))
        for nm, op, ev in (('monitorenter', 194, 'acquire'), ('monitorexit', 195, 'release')):
            def post_m(env, c, st, kind, val, null=null, nm=nm, ev=ev):
                if null:
                    only_events(env, st, ('makeThrowable', 'handler'), nm)
                    return throws(env, c, st, kind, 'NullPointerException', what=nm)
                only_events(env, st, (ev,), nm)
                if kind != 'next': return bad(env, st, kind, nm)
                e = [x for x in st.trace if x[0] == ev]
                env.ex.oblige(st, 'post', eq(e[0][1], base('Obj')) if len(e) == 1 else FALSE, nm + ': acts once on the monitor of the object', assume=False)
                normal(env, c, st, 1, [], what=nm)
            out.append(Scn(nm + sfx, op, (), [rcv], init=init, post=post_m, expect=('throw',) if null else ('next',)))
        def post_at(env, c, st, kind, val, null=null):
            if null:
                return throws(env, c, st, kind, 'NullPointerException', what='athrow')
            only_events(env, st, ('handler',), 'athrow')
            if kind != 'throw': return bad(env, st, kind, 'athrow')
            o = lambda g, d: env.ex.oblige(st, 'exc', g, 'athrow: ' + d, assume=False)
            o(eq(env.tf(st, 'exception', 8), base('Obj')), 'the operand is the pending exception')
            sv = trunc(env.slot(st, add(c.frame, bv(env.P['FrameIpOffset'], 32)), 1), 32)
            o(ult(sub(sub(sv, bv(1, 32)), c.ip), bv(c.len, 32)), 'recorded address lies inside the faulting instruction')
            frame_ok(env, c, st, 'athrow', {'T': t_allowed(env, c, sub(c.sp, bv(c.n, 32)))}, c.init_mem)
        out.append(Scn('athrow' + sfx, 191, (), [rcv], init=init, post=post_at, expect=('throw',)))
    # new
    def post_new(env, c, st, kind, val):
        name = 'new'
        only_events(env, st, ('resolveClassInPool', 'initClass', 'alloc'), name)
        if kind != 'next': return bad(env, st, kind, name)
        tr = [e for e in st.trace if e[0] in ('resolveClassInPool', 'initClass', 'alloc')]
        if [e[0] for e in tr] != ['resolveClassInPool', 'initClass', 'alloc']:
            return env.ex.oblige(st, 'post', FALSE, name + ': resolves, initializes, then allocates', assume=False)
        env.ex.oblige(st, 'post', band(eq(tr[0][1][1], c.meth.base), eq(tr[0][1][2], sub(zext(c.opnds[0], 32), bv(1, 32)))), name + ': the addressed constant', assume=False)
        env.ex.oblige(st, 'post', band(eq(tr[1][1], base('Cls')), eq(tr[2][2][0], base('Cls'))), name + ': of the resolved class', assume=False)
        normal(env, c, st, 0, [('A', tr[2][3])], what=name)
    out.append(Scn('new', 187, ('u2',), [], init=init, post=post_new))
    # null receivers of the invoke instructions
    for nm, op, opn in (('invokevirtual', 182, ('u2',)), ('invokespecial', 183, ('u2',)), ('invokeinterface', 185, ('u2', 'u1', 'u1'))):
        for foot in (1, 2, 5):
            def init2(env, c, foot=foot):
                types_table(env, c)
                c.st.new_region('Callee', None, 'heap')
                wmem(c.st, 'Callee', env.enum('MethodParameterFootprint'), 1, bv(foot, 8))
            def post_inv(env, c, st, kind, val, nm=nm):
                only_events(env, st, ('makeThrowable', 'handler', 'resolveMethod'), nm)
                throws(env, c, st, kind, 'NullPointerException', what=nm + ' on null')
            out.append(Scn('%s null (%d words)' % (nm, foot), op, opn, [('A', bv(0, 64))] + ['I'] * (foot - 1), init=init2, post=post_inv, expect=('throw',)))
    return out
