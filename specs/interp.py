"""Postconditions of the interpreter's instructions, written from the JVM specification (section 6.5)."""
from interp_env import *

# ------------------------------------------------------------------ JVM arithmetic as spec functions over terms
I32MIN, I32MAX = bv(1 << 31, 32), bv((1 << 31) - 1, 32)
I64MIN, I64MAX = bv(1 << 63, 64), bv((1 << 63) - 1, 64)

def j_div(a, b):
    w = a.w
    ov = band(eq(a, bv(1 << (w - 1), w)), eq(b, bv(-1, w)))
    return ite(ov, a, sdiv(a, b))

def j_rem(a, b):
    w = a.w
    ov = band(eq(a, bv(1 << (w - 1), w)), eq(b, bv(-1, w)))
    return ite(ov, bv(0, w), srem(a, b))

def sh32(b): return and_(b, bv(31, 32))
def sh64(b): return zext(and_(b, bv(63, 32)), 64)

def cmp3(a, b):
    return ite(slt(a, b), bv(-1, 32), ite(eq(a, b), bv(0, 32), bv(1, 32)))

def fcmp3(a, b, nan):
    return ite(funo(a, b), bv(nan, 32), ite(flt(a, b), bv(-1, 32), ite(feq(a, b), bv(0, 32), bv(1, 32))))

def f2int(x, w):
    lo = fconst(-float(1 << (w - 1)), x.w); hi = fconst(float(1 << (w - 1)), x.w)
    return ite(fisnan(x), bv(0, w),
           ite(fle(hi, x), bv((1 << (w - 1)) - 1, w),
           ite(fle(x, lo), bv(1 << (w - 1), w), fptosi(x, w))))

def bin_(f):
    return lambda a, b: f(a, b)

ARITH = {   # mnemonic: (opcode, pops, pushes, function)
 'iadd': (96, 'II', 'I', add), 'ladd': (97, 'JJ', 'J', add), 'isub': (100, 'II', 'I', sub), 'lsub': (101, 'JJ', 'J', sub),
 'imul': (104, 'II', 'I', mul), 'lmul': (105, 'JJ', 'J', mul),
 'ineg': (116, 'I', 'I', neg), 'lneg': (117, 'J', 'J', neg),
 'ishl': (120, 'II', 'I', lambda a, b: shl(a, sh32(b))), 'lshl': (121, 'JI', 'J', lambda a, b: shl(a, sh64(b))),
 'ishr': (122, 'II', 'I', lambda a, b: ashr(a, sh32(b))), 'lshr': (123, 'JI', 'J', lambda a, b: ashr(a, sh64(b))),
 'iushr': (124, 'II', 'I', lambda a, b: lshr(a, sh32(b))), 'lushr': (125, 'JI', 'J', lambda a, b: lshr(a, sh64(b))),
 'iand': (126, 'II', 'I', and_), 'land': (127, 'JJ', 'J', and_), 'ior': (128, 'II', 'I', or_), 'lor': (129, 'JJ', 'J', or_),
 'ixor': (130, 'II', 'I', xor), 'lxor': (131, 'JJ', 'J', xor),
 'fadd': (98, 'FF', 'F', lambda a, b: fbin('fadd', a, b)), 'dadd': (99, 'DD', 'D', lambda a, b: fbin('fadd', a, b)),
 'fsub': (102, 'FF', 'F', lambda a, b: fbin('fsub', a, b)), 'dsub': (103, 'DD', 'D', lambda a, b: fbin('fsub', a, b)),
 'fmul': (106, 'FF', 'F', lambda a, b: fbin('fmul', a, b)), 'dmul': (107, 'DD', 'D', lambda a, b: fbin('fmul', a, b)),
 'fdiv': (110, 'FF', 'F', lambda a, b: fbin('fdiv', a, b)), 'ddiv': (111, 'DD', 'D', lambda a, b: fbin('fdiv', a, b)),
 'frem': (114, 'FF', 'F', lambda a, b: fbin('frem', a, b)), 'drem': (115, 'DD', 'D', lambda a, b: fbin('frem', a, b)),
 'fneg': (118, 'F', 'F', fneg), 'dneg': (119, 'D', 'D', fneg),
 'i2l': (133, 'I', 'J', lambda a: sext(a, 64)), 'i2f': (134, 'I', 'F', lambda a: sitofp(a, 32)), 'i2d': (135, 'I', 'D', lambda a: sitofp(a, 64)),
 'l2i': (136, 'J', 'I', lambda a: trunc(a, 32)), 'l2f': (137, 'J', 'F', lambda a: sitofp(a, 32)), 'l2d': (138, 'J', 'D', lambda a: sitofp(a, 64)),
 'f2i': (139, 'F', 'I', lambda a: f2int(a, 32)), 'f2l': (140, 'F', 'J', lambda a: f2int(a, 64)), 'f2d': (141, 'F', 'D', lambda a: fpext(a, 64)),
 'd2i': (142, 'D', 'I', lambda a: f2int(a, 32)), 'd2l': (143, 'D', 'J', lambda a: f2int(a, 64)), 'd2f': (144, 'D', 'F', lambda a: fptrunc(a, 32)),
 'i2b': (145, 'I', 'I', lambda a: sext(trunc(a, 8), 32)), 'i2c': (146, 'I', 'I', lambda a: zext(trunc(a, 16), 32)),
 'i2s': (147, 'I', 'I', lambda a: sext(trunc(a, 16), 32)),
 'lcmp': (148, 'JJ', 'I', cmp3), 'fcmpl': (149, 'FF', 'I', lambda a, b: fcmp3(a, b, -1)), 'fcmpg': (150, 'FF', 'I', lambda a, b: fcmp3(a, b, 1)),
 'dcmpl': (151, 'DD', 'I', lambda a, b: fcmp3(a, b, -1)), 'dcmpg': (152, 'DD', 'I', lambda a, b: fcmp3(a, b, 1)),
}
CONST = {'iconst_m1': (2, 'I', bv(-1, 32)), 'lconst_0': (9, 'J', bv(0, 64)), 'lconst_1': (10, 'J', bv(1, 64)),
         'fconst_0': (11, 'F', fconst(0.0, 32)), 'fconst_1': (12, 'F', fconst(1.0, 32)), 'fconst_2': (13, 'F', fconst(2.0, 32)),
         'dconst_0': (14, 'D', fconst(0.0, 64)), 'dconst_1': (15, 'D', fconst(1.0, 64)), 'aconst_null': (1, 'A', bv(0, 64))}
for _i in range(6):
    CONST['iconst_%d' % _i] = (3 + _i, 'I', bv(_i, 32))
DIVS = {'idiv': (108, 'I', j_div), 'ldiv': (109, 'J', j_div), 'irem': (112, 'I', j_rem), 'lrem': (113, 'J', j_rem)}
COND1 = {'ifeq': (153, lambda a: eq(a, bv(0, 32))), 'ifne': (154, lambda a: ne(a, bv(0, 32))), 'iflt': (155, lambda a: slt(a, bv(0, 32))),
         'ifge': (156, lambda a: sge(a, bv(0, 32))), 'ifgt': (157, lambda a: sgt(a, bv(0, 32))), 'ifle': (158, lambda a: sle(a, bv(0, 32)))}
COND2 = {'if_icmpeq': (159, eq), 'if_icmpne': (160, ne), 'if_icmplt': (161, slt), 'if_icmpge': (162, sge), 'if_icmpgt': (163, sgt), 'if_icmple': (164, sle)}
# stack shuffles: pops top n slots (bottom..top indices 0..n-1) and pushes the listed ones
SHUF = {'pop': (87, 1, []), 'pop2': (88, 2, []), 'dup': (89, 1, [0, 0]), 'dup_x1': (90, 2, [1, 0, 1]), 'dup_x2': (91, 3, [2, 0, 1, 2]),
        'dup2': (92, 2, [0, 1, 0, 1]), 'dup2_x1': (93, 3, [1, 2, 0, 1, 2]), 'dup2_x2': (94, 4, [2, 3, 0, 1, 2, 3]), 'swap': (95, 2, [1, 0])}

class Scn(object):
    def __init__(self, name, op, operands=(), pre=(), wide=False, init=None, post=None, replay=None, expect=('next',), ipmod=None, unroll=False):
        self.unroll = unroll
        self.ipmod = ipmod
        self.expect = expect
        self.name = name; self.op = op; self.operands = operands; self.pre = pre; self.wide = wide
        self.init = init; self.post = post; self.replay = replay

def push_words(env, pushes):
    """[(type, value)] -> [(tag, word)]"""
    out = []
    IT, OT = bv(env.P['IntTag'], 64), bv(env.P['ObjectTag'], 64)
    for ty, v in pushes:
        if ty in ('I', 'F'):
            out.append((IT, zext(v, 64)))
        elif ty in ('J', 'D'):
            out.append((IT, zext(extract(v, 63, 32), 64)))
            out.append((IT, zext(extract(v, 31, 0), 64)))
        elif ty == 'A':
            out.append((OT, v))
        elif ty == 'X':
            out.append(v)
    return out

def frame_ok(env, c, st, what, allowed, init):
    """every memory effect lies inside `allowed`: {region name: pred(off, len)}"""
    ex = env.ex
    for name, (a, log) in st.mem.items():
        if name not in init:
            continue                     # object created by the instruction
        a0, log0 = init[name]
        r = [q for q in st.regs.values() if q.name == name][0]
        if r.kind == 'alloca' or log is log0:
            continue
        old = set(id(e) for e in log0)
        pred = allowed.get(name)
        for e in log:
            if id(e) in old:
                continue
            off, n = e[1], (bv(e[2], 64) if e[0] == 'w' else e[2])
            ok = pred(off, n) if pred else FALSE
            if ok is not TRUE and e[0] == 'w':
                # writing back the same value is no effect
                if ex.lread(st, a0, log0, off, e[2]) is e[3]:
                    continue
            ex.oblige(st, 'frame', ok, '%s: nothing else is modified (write of %s bytes at %s in %s)' % (what, show(n), show(off), name), assume=False)

def in_range(off, n, lo, hi):
    """[off,off+n) within [lo,hi)"""
    return band(ule(lo, off), ule(add(off, n), hi), ule(off, add(off, n)))

def t_allowed(env, c, lowslot, locals_=()):
    P = env.P
    fields = [(P['sp'], 4), (P['ip'], 4), (P['frame'], 4), (P['code'], 8), (P['exception'], 8), (P['protector'], 8)]
    def pred(off, n):
        if isc(off) and isc(n):
            o, k = cv(off), cv(n)
            if any(f <= o and o + k <= f + s for f, s in fields):
                return TRUE
            if o + k <= P['stack']:
                return FALSE
        lo = env.slotoff(zext(lowslot, 64), 0)
        alts = [ule(lo, off)]
        for l in locals_:
            b = env.slotoff(zext(l, 64), 0)
            alts.append(in_range(off, n, b, add(b, bv(16, 64))))
        # the ip slot of the current frame is scratch
        b = env.slotoff(zext(add(c.frame, bv(P['FrameIpOffset'], 32)), 64), 0)
        alts.append(in_range(off, n, b, add(b, bv(16, 64))))
        return bor(*alts)
    return pred

def normal(env, c, st, pops, pushes, ip=None, locals_=(), what='', allowed=None):
    """the instruction completes normally"""
    ex = env.ex
    o = lambda kind, g, d: ex.oblige(st, kind, g, '%s: %s' % (what, d), assume=False)
    words = push_words(env, pushes)
    low = sub(c.sp, bv(pops, 32))
    newsp = add(low, bv(len(words), 32))
    o('post', eq(env.tf(st, 'sp', 4), newsp), 'stack depth changes by %d' % (len(words) - pops))
    o('post', eq(env.tf(st, 'ip', 4), ip if ip is not None else add(c.ip, bv(c.len, 32))), 'next instruction address')
    o('post', eq(env.tf(st, 'frame', 4), c.frame), 'same frame')
    o('post', eq(env.tf(st, 'code', 8), c.code.base), 'same code')
    o('post', eq(env.tf(st, 'exception', 8), bv(0, 64)), 'no pending exception')
    for i, (tag, word) in enumerate(words):
        idx = add(low, bv(i, 32))
        o('post', eq(env.slot(st, idx, 1), word), 'pushed value %d of %d' % (i + 1, len(words)))
        o('post', eq(env.slot(st, idx, 0), tag), 'kind tag of pushed value %d' % (i + 1))
    for idx, (tag, word) in locals_:
        o('post', eq(env.slot(st, idx, 1), word), 'local variable value')
        o('post', eq(env.slot(st, idx, 0), tag), 'local variable kind tag')
    al = {'T': t_allowed(env, c, low, [l for l, _ in locals_])}
    al.update(allowed or {})
    frame_ok(env, c, st, what, al, c.init_mem)

def throws(env, c, st, kind, exc, what='', allowed=None):
    """the instruction completes abruptly with the given exception type"""
    ex = env.ex
    P = env.P
    o = lambda k, g, d: ex.oblige(st, k, g, '%s: %s' % (what, d), assume=False)
    mk_ = [e for e in st.trace if e[0] == 'makeThrowable']
    if kind == 'throwNew':
        e = [e for e in st.trace if e[0] == 'throwNew'][-1]
        o('exc', eq(e[1], bv(P['E_' + exc], e[1].w)), 'throws ' + exc)
        return
    if kind != 'throw' or len(mk_) != 1:
        o('exc', FALSE, 'throws %s (path ends with %s)' % (exc, kind))
        return
    o('exc', eq(mk_[0][1], bv(P['E_' + exc], mk_[0][1].w)), 'throws ' + exc)
    o('exc', eq(env.tf(st, 'exception', 8), mk_[0][2]), 'the new exception is pending')
    sv = trunc(env.slot(st, add(c.frame, bv(P['FrameIpOffset'], 32)), 1), 32)
    d = sub(sub(sv, bv(1, 32)), c.ip)
    o('exc', ult(d, bv(c.len, 32)), 'recorded address lies inside the faulting instruction')
    o('exc', eq(env.tf(st, 'frame', 4), c.frame), 'same frame')
    al = {'T': t_allowed(env, c, sub(c.sp, bv(c.n, 32)))}
    al.update(allowed or {})
    frame_ok(env, c, st, what, al, c.init_mem)

# ------------------------------------------------------------------ scenarios
def scenarios_arith(env):
    out = []
    for name, (op, pops, push, f) in ARITH.items():
        np_ = sum(2 if x in 'JD' else 1 for x in pops)
        def post(env, c, st, kind, val, f=f, push=push, np_=np_, name=name):
            normal(env, c, st, np_, [(push, f(*c.ops))], what=name) if kind == 'next' else bad(env, st, kind, name)
        out.append(Scn(name, op, (), list(pops), post=post, replay=('expr', pops, push, f)))
    for name, (op, ty, v) in CONST.items():
        def post(env, c, st, kind, val, ty=ty, v=v, name=name):
            normal(env, c, st, 0, [(ty, v)], what=name) if kind == 'next' else bad(env, st, kind, name)
        out.append(Scn(name, op, (), [], post=post))
    def post_nop(env, c, st, kind, val):
        normal(env, c, st, 0, [], what='nop') if kind == 'next' else bad(env, st, kind, 'nop')
    out.append(Scn('nop', 0, post=post_nop))
    for name, op, kind_ in (('bipush', 16, 's1'), ('sipush', 17, 's2')):
        def post(env, c, st, kind, val, name=name):
            normal(env, c, st, 0, [('I', sext(c.opnds[0], 32))], what=name) if kind == 'next' else bad(env, st, kind, name)
        out.append(Scn(name, op, (kind_,), post=post))
    for name, (op, ty, f) in DIVS.items():
        np_ = 4 if ty == 'J' else 2
        def post(env, c, st, kind, val, f=f, ty=ty, np_=np_, name=name):
            a, b = c.ops
            z = eq(b, bv(0, b.w))
            if kind == 'next':
                env.ex.oblige(st, 'post', bnot(z), name + ': completes normally only for a non-zero divisor')
                normal(env, c, st, np_, [(ty, f(a, b))], what=name)
            else:
                env.ex.oblige(st, 'post', z, name + ': throws only for a zero divisor')
                throws(env, c, st, kind, 'ArithmeticException', what=name)
        out.append(Scn(name, op, (), [ty, ty], post=post, expect=('next', 'throw')))
    for name, (op, n, order) in SHUF.items():
        def post(env, c, st, kind, val, n=n, order=order, name=name):
            normal(env, c, st, n, [('X', c.ops[i]) for i in order], what=name) if kind == 'next' else bad(env, st, kind, name)
        out.append(Scn(name, op, (), ['X'] * n, post=post))
    # local variables
    for ty, ld, st_ in (('I', 21, 54), ('J', 22, 55), ('F', 23, 56), ('D', 24, 57), ('A', 25, 58)):
        nm = {'I': 'i', 'J': 'l', 'F': 'f', 'D': 'd', 'A': 'a'}[ty]
        sz = 2 if ty in 'JD' else 1
        variants = [('%sload' % nm, ld, ('u1',), None, False), ('wide %sload' % nm, ld, ('u2',), None, True)]
        base0 = {'I': 26, 'J': 30, 'F': 34, 'D': 38, 'A': 42}[ty]
        for i in range(4):
            variants.append(('%sload_%d' % (nm, i), base0 + i, (), i, False))
        for name, op, opnd, fixed, wide in variants:
            def init(env, c, ty=ty, fixed=fixed, sz=sz):
                ix = bv(fixed, 32) if fixed is not None else zext(c.opnds[0], 32)
                c.st.assume(ule(add(ix, bv(sz, 32)), c.nl))
                c.ix = add(c.fbase, ix)
                IT, OT = bv(env.P['IntTag'], 64), bv(env.P['ObjectTag'], 64)
                def w(off, v):
                    a, log = c.st.mem['T']
                    c.st.mem['T'] = (a, log + (('w', off, 8, v),))
                c.vals = [var('loc%d' % q, 32) for q in range(sz)] if ty != 'A' else [var('locA', 64)]
                for q in range(sz):
                    off = zext(add(c.ix, bv(q, 32)), 64)
                    w(env.slotoff(off, 0), OT if ty == 'A' else IT)
                    w(env.slotoff(off, 1), c.vals[q] if ty == 'A' else zext(c.vals[q], 64))
            def post(env, c, st, kind, val, ty=ty, sz=sz, name=name):
                v = c.vals[0] if sz == 1 else concat(c.vals[0], c.vals[1])
                normal(env, c, st, 0, [(ty, v)], what=name) if kind == 'next' else bad(env, st, kind, name)
            out.append(Scn(name, op, opnd, [], wide=wide, init=init, post=post))
        variants = [('%sstore' % nm, st_, ('u1',), None, False), ('wide %sstore' % nm, st_, ('u2',), None, True)]
        base1 = {'I': 59, 'J': 63, 'F': 67, 'D': 71, 'A': 75}[ty]
        for i in range(4):
            variants.append(('%sstore_%d' % (nm, i), base1 + i, (), i, False))
        for name, op, opnd, fixed, wide in variants:
            def init(env, c, fixed=fixed, sz=sz):
                ix = bv(fixed, 32) if fixed is not None else zext(c.opnds[0], 32)
                c.st.assume(ule(add(ix, bv(sz, 32)), c.nl))
                c.ix = add(c.fbase, ix)
            def post(env, c, st, kind, val, ty=ty, sz=sz, name=name):
                if kind != 'next':
                    return bad(env, st, kind, name)
                ws = push_words(env, [(ty, c.ops[0])])
                normal(env, c, st, sz, [], locals_=[(add(c.ix, bv(q, 32)), ws[q]) for q in range(sz)], what=name)
            out.append(Scn(name, op, opnd, [ty], wide=wide, init=init, post=post))
    for wide in (False, True):
        name = ('wide ' if wide else '') + 'iinc'
        def init(env, c):
            ix = zext(c.opnds[0], 32)
            c.st.assume(ult(ix, c.nl))
            c.ix = add(c.fbase, ix)
            c.v0 = var('locI', 32)
            a, log = c.st.mem['T']
            off = zext(c.ix, 64)
            c.st.mem['T'] = (a, log + (('w', env.slotoff(off, 0), 8, bv(env.P['IntTag'], 64)), ('w', env.slotoff(off, 1), 8, zext(c.v0, 64))))
        def post(env, c, st, kind, val, name=name):
            if kind != 'next':
                return bad(env, st, kind, name)
            r = add(c.v0, sext(c.opnds[1], 32))
            normal(env, c, st, 0, [], locals_=[(c.ix, (bv(env.P['IntTag'], 64), zext(r, 64)))], what=name)
        out.append(Scn(name, 132, ('u2', 's2') if wide else ('u1', 's1'), [], wide=wide, init=init, post=post))
    return out

def scenarios_branch(env):
    out = []
    def br(name, op, pre, cond, opnd='s2', extra=None):
        def post(env, c, st, kind, val):
            if kind != 'next':
                return bad(env, st, kind, name)
            cnd = cond(*c.ops)
            tgt = add(c.ip, sext(c.opnds[0], 32))
            normal(env, c, st, c.n, extra(c) if extra else [], ip=ite(cnd, tgt, add(c.ip, bv(c.len, 32))), what=name)
        out.append(Scn(name, op, (opnd,), pre, post=post))
    for name, (op, f) in COND1.items():
        br(name, op, ['I'], f)
    for name, (op, f) in COND2.items():
        br(name, op, ['I', 'I'], f)
    br('if_acmpeq', 165, ['A', 'A'], eq)
    br('if_acmpne', 166, ['A', 'A'], ne)
    br('ifnull', 198, ['A'], lambda a: eq(a, bv(0, 64)))
    br('ifnonnull', 199, ['A'], lambda a: ne(a, bv(0, 64)))
    br('goto', 167, [], lambda: TRUE)
    br('goto_w', 200, [], lambda: TRUE, 's4')
    br('jsr', 168, [], lambda: TRUE, 's2', extra=lambda c: [('I', add(c.ip, bv(3, 32)))])
    br('jsr_w', 201, [], lambda: TRUE, 's4', extra=lambda c: [('I', add(c.ip, bv(5, 32)))])
    for wide in (False, True):
        name = ('wide ' if wide else '') + 'ret'
        def init(env, c):
            ix = zext(c.opnds[0], 32)
            c.st.assume(ult(ix, c.nl))
            c.v0 = var('locR', 32)
            a, log = c.st.mem['T']
            off = zext(add(c.fbase, ix), 64)
            c.st.mem['T'] = (a, log + (('w', env.slotoff(off, 0), 8, bv(env.P['IntTag'], 64)), ('w', env.slotoff(off, 1), 8, zext(c.v0, 64))))
        def post(env, c, st, kind, val, name=name):
            normal(env, c, st, 0, [], ip=c.v0, what=name) if kind == 'next' else bad(env, st, kind, name)
        out.append(Scn(name, 169, ('u2',) if wide else ('u1',), [], wide=wide, init=init, post=post))
    return out

def be32(env, st, code, off):
    out = None
    for i in range(4):
        b = env.ex.rread(st, code, add(off, bv(i, 64)), 1)
        out = b if out is None else concat(out, b)
    return out

def switch_layout(env, c):
    # the operands start at the next multiple of four after the opcode
    c.p32 = add(c.ip, bv(4 - c.scn.ipmod, 32))
    p = zext(c.p32, 64)
    return add(p, bv(env.codebody(), 64)), p

def scenarios_switch(env):
    out = []
    def init_ts(env, c):
        st = c.st
        c.at, p = switch_layout(env, c)
        st.assume(ule(add(p, bv(12, 64)), c.clen))
        c.low = be32(env, st, c.code, add(c.at, bv(4, 64))); c.high = be32(env, st, c.code, add(c.at, bv(8, 64)))
        c.dflt = be32(env, st, c.code, c.at)
        st.assume(sle(c.low, c.high))
        n = sub(sext(c.high, 64), sext(c.low, 64))
        st.assume(ult(n, bv(1 << 18, 64)))
        st.assume(ule(add(add(p, bv(16, 64)), mulc(n, 4)), c.clen))
    def post_ts(env, c, st, kind, val):
        if kind != 'next':
            return bad(env, st, kind, 'tableswitch')
        key = c.ops[0]
        inr = band(sle(c.low, key), sle(key, c.high))
        # two separate goals: the table entry is only read when the key is in range
        o = lambda g, d: env.ex.oblige(st, 'post', g, 'tableswitch: ' + d, assume=False)
        got = env.tf(st, 'ip', 4)
        s2 = st.copy(); s2.assume(inr)
        if smt.feasible(s2.pc):
            # (key - low) < 2^18 by the precondition, so 32-bit arithmetic is exact
            tgt = add(c.ip, be32(env, s2, c.code, add(zext(add(add(c.p32, bv(12, 32)), mulc(sub(key, c.low), 4)), 64), bv(env.codebody(), 64))))
            env.ex.oblige(s2, 'post', eq(got, tgt), 'tableswitch: key inside [low,high] jumps to its table entry', assume=False)
        o(bor(inr, eq(got, add(c.ip, c.dflt))), 'key outside [low,high] jumps to the default')
        normal(env, c, st, 1, [], ip=got, what='tableswitch')
    for r in range(4):
        out.append(Scn('tableswitch at 4k+%d' % r, 170, (), ['I'], init=init_ts, post=post_ts, ipmod=r))

    def init_ls(env, c):
        st = c.st
        c.at, p = switch_layout(env, c)
        st.assume(ule(add(p, bv(8, 64)), c.clen))
        c.n_ = be32(env, st, c.code, add(c.at, bv(4, 64)))
        c.dflt = be32(env, st, c.code, c.at)
        st.assume(band(sge(c.n_, bv(0, 32)), slt(c.n_, bv(1 << 16, 32))))
        st.assume(ule(add(add(p, bv(8, 64)), mulc(zext(c.n_, 64), 8)), c.clen))
        B = bv(env.codebody(), 64)
        # pair index < 2^16 by the precondition, so 32-bit arithmetic is exact
        c.ent = lambda i, d=0: add(zext(add(add(c.p32, bv(8 + d, 32)), mulc(i, 8)), 64), B)
        c.i0 = var('i0', 32)                     # an arbitrary pair index
        K = lambda st, i: be32(env, st, c.code, c.ent(i))
        c.K = K
        c.k0 = K(st, c.i0)
        key = c.ops[0]
        hit = band(ult(c.i0, c.n_), eq(c.k0, key))
        c.hit = hit
        busy = [False]
        def on_load(ex, st, r, off, n):
            # precondition: the pairs are sorted by key; instance for (index being read, i0)
            if r.name != 'Code' or busy[0]:
                return
            d = sub(trunc(sub(off, B), 32), add(c.p32, bv(8, 32)))
            if tz(d) < 3 or isc(d):
                return
            m = lshr(d, bv(3, 32))
            busy[0] = True
            try:
                km = K(st, m)
            finally:
                busy[0] = False
            g = band(ult(m, c.n_), ult(c.i0, c.n_), eq(c.ent(m), off))
            st.assume(bor(bnot(g), bnot(ult(m, c.i0)), slt(km, c.k0)))
            st.assume(bor(bnot(g), bnot(ult(c.i0, m)), slt(c.k0, km)))
        env.ex.on_load = on_load
        def gens(ctx):
            out = []
            for v in ctx.vars:
                if v.w != 32: continue
                out.append(loops.Cand(lambda vals, st, v=v: bor(bnot(hit), ule(vals[v], c.i0)), 'matching index >= ' + v.name))
                out.append(loops.Cand(lambda vals, st, v=v: bor(bnot(hit), ult(c.i0, vals[v])), 'matching index < ' + v.name))
                out.append(loops.Cand(lambda vals, st, v=v: ule(vals[v], c.n_), v.name + ' <= pair count'))
            return out
        st.ghost['gens'] = (gens,)
    def post_ls(env, c, st, kind, val):
        if kind != 'next':
            return bad(env, st, kind, 'lookupswitch')
        got = env.tf(st, 'ip', 4)
        tgt = add(c.ip, be32(env, st, c.code, c.ent(c.i0, 4)))
        env.ex.oblige(st, 'post', bor(bnot(c.hit), eq(got, tgt)), 'lookupswitch: a pair whose match equals the key is taken', assume=False)
        # otherwise: either some pair matches (witness: the target taken comes from a pair with that key) or the default is taken
        alts = [eq(got, add(c.ip, c.dflt))]
        for m in c.read_idx(st):
            alts.append(band(ult(m, c.n_), eq(c.K(st, m), c.ops[0]),
                             eq(got, add(c.ip, be32(env, st, c.code, c.ent(m, 4))))))
        env.ex.oblige(st, 'post', bor(*alts), 'lookupswitch: otherwise the default is taken', assume=False)
        normal(env, c, st, 1, [], ip=got, what='lookupswitch')
    def init_ls2(env, c):
        init_ls(env, c)
        h = env.ex.on_load
        def on_load(ex, st, r, off, n):
            h(ex, st, r, off, n)
            if r.name == 'Code':
                d = sub(trunc(sub(off, bv(env.codebody(), 64)), 32), add(c.p32, bv(8, 32)))
                if not isc(d) and tz(d) >= 2:
                    m = lshr(d, bv(3, 32))
                    rd_ = st.ghost.get('idx', ())
                    if m not in rd_:
                        st.ghost['idx'] = rd_ + (m,)
        env.ex.on_load = on_load
        c.read_idx = lambda st: st.ghost.get('idx', ())
    for r in range(4):
        out.append(Scn('lookupswitch at 4k+%d' % r, 171, (), ['I'], init=init_ls2, post=post_ls, ipmod=r))
    return out

def bad(env, st, kind, name):
    env.ex.oblige(st, 'post', FALSE, '%s: unexpected outcome (%s)' % (name, kind), assume=False)

def run_scn(env, scn, on_state=None):
    """-> dict of results for one scenario"""
    ex = env.ex
    ex.failures = []
    ex.on_load = None
    o0, d0, t0 = ex.obligations, ex.discharged, smt.STATS['time']
    c = env.setup(scn.op, scn.operands, scn.pre, scn.wide, ipmod=scn.ipmod)
    c.scn = scn
    env.unroll = scn.unroll
    if scn.init:
        scn.init(env, c)
    c.init_mem = dict(c.st.mem)
    ex.start(env.fn, [c.T.base, c.base], c.st)
    kinds = set()
    def on_end(st, kind, val):
        if kind not in kinds and smt.feasible(st.pc):
            kinds.add(kind)
        scn.post(env, c, st, kind, val)
    n = ex.run(c.st, on_end)
    return dict(name=scn.name, paths=n, obligations=ex.obligations - o0, discharged=ex.discharged - d0,
                solver_s=smt.STATS['time'] - t0, failures=list(ex.failures), ctx=c, kinds=kinds)
