"""Modified UTF-8 decoding and encoding (src/machine.cpp) against ghost functions that say where each character lies.

P(k) is the byte position of character k of a well-formed modified UTF-8 text of N characters and L bytes; its defining
equations (class-file format, section 4.4.7) are instantiated at the loop variables.  The element obligations are proved
for one arbitrary index K."""
from unit import *

def unit():
    cs = {'stream_pos': '__builtin_offsetof(vm::AbstractStream, position_)'}
    u = Unit('machine', ['src/machine.cpp'], consts=cs, exc=['ByteArray', 'CharArray', 'String'])
    C = u.ex.contracts
    def alloc(kind, es):
        def f(ex, st, a, ins):
            n = a[1]
            gc(u, st)
            nm = freshname('new' + kind)
            st.new_region(nm, add(bv(u.enum(kind + 'Body'), 64), mulc(n, es)), 'heap')
            st.ghost['moved'] = dict(st.ghost['moved']); st.ghost['moved'][nm] = nm
            b = base(nm)
            ex.mset(st, b, bv(0, 8), add(bv(u.enum(kind + 'Body'), 64), mulc(n, es)))
            u.w(st, nm, 0, 8, u.curb(st, 'Cls_' + kind))
            u.w(st, nm, u.enum(kind + 'Length'), 8, n)
            st.ghost['arrays'] = st.ghost.get('arrays', ()) + ((nm, kind, es),)
            return b
        return f
    def two(kind, es):
        k = alloc(kind, es)
        def f(ex, st, a, ins):
            if len(a) != 2: raise Undecided('make%s with %d arguments' % (kind, len(a)))
            return k(ex, st, [a[0], zext(a[1], 64) if a[1].w < 64 else a[1]], ins)
        return f
    C['vm::makeByteArray'] = two('ByteArray', 1)
    C['vm::makeCharArray'] = two('CharArray', 2)
    return u

def world(u, data=None):
    st = u.state(); P = u.P
    st.new_region('Types', None, 'heap')
    u.w(st, 'Mach', P['m_types'], 8, base('Types'))
    u.w(st, 'Types', u.enum('ArrayLength'), 8, bv(P['TypeCount'] + 2, 64))
    for c in ('ByteArray', 'CharArray', 'String'):
        st.new_region('Cls_' + c, None, 'heap')
        u.w(st, 'Types', u.enum('ArrayBody') + 8 * P['E_' + c], 8, base('Cls_' + c))
    return st

# --------------------------------------------------------------- the text
class Text(object):
    """L bytes, N characters, byte(p)"""
    def __init__(self, u, st, reg, off0, L):
        self.u = u; self.L = L
        a, log = st.mem[reg]
        self.st = st; self.a = a; self.log = log; self.off0 = off0
        self.N = var('nchars', 32, 0, 1 << 28)
        self.K = var('K', 32, 0, 1 << 28)
        st.assume(eq(self.P(bv(0, 32)), bv(0, 32)))
        self.define(st, bv(0, 32))
        self.define(st, self.K)
        self.define(st, self.N)
    def P(self, k):
        return uf('pos', (k,), 32, 0, 1 << 30)
    def B(self, p):
        return self.u.ex.lread(self.st, self.a, self.log, add(self.off0, zext(p, 64)), 1)
    def axiom(self, k):
        p = self.P(k); n = self.P(add(k, bv(1, 32)))
        q = add(p, bv(1, 32)); r = add(p, bv(2, 32))
        a, b, c = self.B(p), self.B(q), self.B(r)
        cont = lambda x: eq(and_(x, bv(0xC0, 8)), bv(0x80, 8))
        f1 = band(ult(bv(0, 8), a), ult(a, bv(0x80, 8)), eq(n, q), ule(q, self.L))
        f2 = band(ule(bv(0xC0, 8), a), ult(a, bv(0xE0, 8)), cont(b), eq(n, r), ule(r, self.L))
        f3 = band(ule(bv(0xE0, 8), a), ult(a, bv(0xF0, 8)), cont(b), cont(c), eq(n, add(p, bv(3, 32))), ule(add(p, bv(3, 32)), self.L))
        return band(implies(ult(k, self.N), band(ult(p, self.L), bor(f1, f2, f3))), implies(eq(k, self.N), eq(p, self.L)))
    def define(self, st, k):
        st.assume(self.axiom(k))
    def char(self, k):
        p = self.P(k)
        a, b, c = self.B(p), self.B(add(p, bv(1, 32))), self.B(add(p, bv(2, 32)))
        lo = lambda x, m: zext(and_(x, bv(m, 8)), 16)
        two = or_(shl(lo(a, 0x1f), bv(6, 16)), lo(b, 0x3f))
        three = or_(or_(shl(lo(a, 0x0f), bv(12, 16)), shl(lo(b, 0x3f), bv(6, 16))), lo(c, 0x3f))
        return ite(ult(a, bv(0x80, 8)), zext(a, 16), ite(ult(a, bv(0xE0, 8)), two, three))

def elem(u, st, nm, kind, es, k):
    """element k of the array object `nm`, as 16 bits"""
    v = u.rd(st, nm, add(bv(u.enum(kind + 'Body'), 64), mulc(zext(k, 64) if k.w < 64 else k, es)), es)
    return zext(v, 16) if es == 1 else v

def decode_gens(u, tx):
    def g(ctx):
        out = []
        vs = [v for v in ctx.vars if v.w in (32, 64) and not v.temp]
        k32 = lambda t: trunc(t, 32) if t.w == 64 else t
        for k in vs:
            out.append(loops.Cand(lambda vals, st, k=k: tx.axiom(k32(vals[k])), 'definition of the character positions at ' + k.name, axiom=True))
            out.append(loops.Cand(lambda vals, st, k=k: ule(k32(vals[k]), tx.N), k.name + ' <= number of characters'))
            out.append(loops.Cand(lambda vals, st, k=k: ule(k32(vals[k]), tx.L), k.name + ' <= number of bytes'))
            for nm, kind, es in ctx.st0.ghost.get('arrays', ()):
                out.append(loops.Cand(lambda vals, st, k=k, nm=nm, kind=kind, es=es: implies(ult(tx.K, k32(vals[k])), eq(elem(u, st, nm, kind, es, tx.K), tx.char(tx.K))),
                                      'elements of %s below %s are the decoded characters' % (kind, k.name)))
                if es == 1:
                    out.append(loops.Cand(lambda vals, st, k=k, nm=nm, kind=kind, es=es: implies(ult(tx.K, k32(vals[k])), ult(tx.char(tx.K), bv(0x80, 16))),
                                      'characters below %s fit a byte' % k.name))
            out.append(loops.Cand(lambda vals, st, k=k: implies(ult(tx.K, k32(vals[k])), eq(tx.P(tx.K), tx.K)), 'characters below %s are one byte each' % k.name))
            out.append(loops.Cand(lambda vals, st, k=k: implies(ult(tx.K, k32(vals[k])), ult(tx.B(tx.P(tx.K)), bv(0x80, 8))), 'characters below %s are ASCII' % k.name))
            out.append(loops.Cand(lambda vals, st, k=k: eq(k32(vals[k]), tx.P(k32(vals[k]))), 'as many characters as bytes before ' + k.name))
            for p in vs:
                if p is not k:
                    out.append(loops.Cand(lambda vals, st, k=k, p=p: eq(k32(vals[p]), tx.P(k32(vals[k]))), '%s is the position of character %s' % (p.name, k.name)))
            cells = [v for v in vs if v.kind == 'cell' and v.w == 32]
            phis = [v for v in vs if v.kind == 'phi' and v.w == 32]
            NB = bv(0xFFFF, 32)
            if len(cells) <= 6 and k.kind == 'phi':
                for pos in cells:
                    for A in vs:
                        for Bv in vs + [None]:
                            if len({pos, A, Bv}) < 3 or A.w != 32 or (Bv and Bv.w != 32) or k in (pos, A, Bv): continue
                            def f(vals, st, k=k, pos=pos, A=A, Bv=Bv):
                                p = tx.P(vals[k]); a, b, q = vals[A], (vals[Bv] if Bv else NB), vals[pos]
                                s0 = band(eq(a, NB), eq(b, NB), eq(q, p))
                                s1 = band(eq(a, zext(tx.B(p), 32)), eq(b, NB), eq(q, add(p, bv(1, 32))), ult(vals[k], tx.N))
                                s2 = band(eq(a, zext(tx.B(p), 32)), eq(b, zext(tx.B(add(p, bv(1, 32))), 32)), eq(q, add(p, bv(2, 32))), ult(vals[k], tx.N), ult(a, bv(0xE0, 32)))
                                return bor(s0, s1, s2)
                            out.append(loops.Cand(f, 'pending bytes %s, %s of character %s, stream at %s' % (A.name, Bv.name if Bv else 'none', k.name, pos.name)))
        return out
    return g

def t_decode(u, res, form):
    st = world(u)
    L = var('bytes', 32, 0, 1 << 28)
    if u.bound: st.assume(ule(L, bv(u.bound, 32)))
    what = 'parseUtf8(%s)' % form
    if form == 'chars':
        st.new_region('In', zext(L, 64), 'native')
        tx = Text(u, st, 'In', bv(0, 64), L)
        fn = u.fn('vm::parseUtf8', 'char const*')
        args = [base('T'), base('In'), L]
    else:
        body = u.enum('ByteArrayBody')
        u.obj(st, 'In', 'Cls_ByteArray', add(bv(body + 1, 64), zext(L, 64)))
        u.w(st, 'In', u.enum('ByteArrayLength'), 8, add(zext(L, 64), bv(1, 64)))
        tx = Text(u, st, 'In', bv(body, 64), L)
        fn = u.fn('vm::parseUtf8', 'GcByteArray*')
        args = [base('T'), base('In')]
        u.other_protector = protector_visit(u)
    st.ghost['gens'] = (decode_gens(u, tx),)
    K = tx.K
    inner = [d for n, d in u.ex.dname.items() if u.ex.bname[n] == 'parseUtf8' and 'AbstractStream&' in d]
    for d in inner: u.ex.contracts.pop(d, None)
    if form == 'array' and not u.bound:
        if len(inner) != 1: raise Undecided('inner decoder')
        u.ex.contracts[inner[0]] = inner_contract(u, tx, L, what)
    def post(s, kind, val):
        if kind == 'decoder': return
        if kind != 'ret': return u.oblige(s, FALSE, what + ': returns (%s)' % kind)
        cands = [(n, k, e) for n, k, e in s.ghost.get('arrays', ()) if u.curb(s, n) is val]
        if val is u.curb(s, 'In'): cands = [('In', 'ByteArray', 1)]
        if len(cands) != 1: return u.oblige(s, FALSE, what + ': returns an array it made')
        nm, kd, es = cands[0]
        tx.define(s, K)
        ln = u.rd(s, nm, u.enum(kd + 'Length'), 8)
        n1 = trunc(sub(ln, bv(1, 64)), 32)
        tx.define(s, n1)
        u.oblige(s, eq(zext(tx.N, 64), sub(ln, bv(1, 64))), what + ': as many elements as characters, plus one')
        u.oblige(s, implies(ult(K, tx.N), eq(elem(u, s, nm, kd, es, K), tx.char(K))), what + ': element K is character K')
        u.unchanged(s, what)
    u.verify(res, what, fn, args, st, post, expect=('ret', 'decoder') if form == 'array' and not u.bound else ('ret',))

def inner_contract(u, tx, L, what):
    """the decoder on a stream (verified by the other overload, whose stream is a byte buffer): what it needs is a stream at position
    0 of all L bytes whose read1 yields byte after byte, wherever the collector has put the array meanwhile"""
    def f(ex, st, a, ins):
        u.oblige(st, eq(a[2], L), what + ': decodes all bytes')
        pos = add(a[1], bv(u.P['stream_pos'], 64))
        u.oblige(st, eq(ex.load(st, pos, 4), bv(0, 32)), what + ': decodes from the first byte')
        t = st.copy()
        gc(u, t)
        p = var('readpos', 32, 0, 1 << 28)
        t.assume(ult(p, L))
        r, off = ex.resolve(t, pos)
        ex.rwrite(t, r, off, p, 4)
        fr = t.frames; t.frames = []
        rd1 = u.fn('vm::AbstractStream::read1')
        ex.start(rd1, [a[1]], t)
        def end(s2, kind, val):
            if kind != 'ret': return u.oblige(s2, FALSE, what + ': read1 returns')
            u.oblige(s2, eq(val, tx.B(p)), what + ': read1 yields the byte at the position')
            u.oblige(s2, eq(ex.rread(s2, s2.regs[r.base], off, 4), add(p, bv(1, 32))), what + ': read1 advances by one')
        n = ex.run(t, end)
        if not n: raise Undecided('read1 has no path')
        raise Terminal('decoder')
    return f

def protector_visit(u):
    """a protector of a local class: its visit() is executed on a recording visitor to learn which variable it protects"""
    u.ex.contracts['__visit'] = lambda ex, st, a, ins: st.event('visit', a[1])
    def h(st, vt, r, off):
        ex = u.ex
        t = st.copy(); t.frames = []; t.trace = ()
        t.new_region('Visitor!', None, 'native'); t.new_region('VisitorVT!', None, 'native')
        u.w(t, 'Visitor!', 0, 8, base('VisitorVT!')); u.w(t, 'VisitorVT!', 0, 8, base('@__visit'))
        fnp = ex.load(t, ex.rread(t, r, off, 8), 8)
        if fnp.op != 'base': raise Undecided('visit of protector %s' % vt)
        f = ex.funcs[fnp.args[0][1:]]
        f.mod.load(f)
        ex.start(f, [add(r.base, off), base('Visitor!')], t)
        out = []
        k = ex.path(t, [], 0)
        for e in events(t, 'visit'):
            out.append(ex.resolve(st, e[1]))
        return out
    return h

# --------------------------------------------------------------- encoding
class Chars(object):
    """UTF-16 code units c(k) of a string region and the position Q(k) of the encoding of unit k"""
    def __init__(self, u, st, reg, kind, first, n):
        self.u = u; self.n = n; self.kind = kind; self.st = st
        self.a, self.log = st.mem[reg]
        self.body = u.enum(kind + 'Body'); self.es = 1 if kind == 'ByteArray' else 2
        self.first = first
        self.K = var('K', 32, 0, 1 << 28)
        st.assume(eq(self.Q(bv(0, 32)), bv(0, 32)))
        self.define(st, self.K); self.define(st, n)
    def Q(self, k): return uf('outpos', (k,), 32, 0, 1 << 30)
    def c(self, k):
        off = add(bv(self.body, 64), mulc(zext(add(self.first, k), 64), self.es))
        v = self.u.ex.lread(self.st, self.a, self.log, off, self.es)
        return zext(v, 16) if self.es == 1 else v
    def len(self, k):
        c = self.c(k)
        return ite(ult(c, bv(0x80, 16)), bv(1, 32), ite(ult(c, bv(0x800, 16)), bv(2, 32), bv(3, 32)))
    def axiom(self, k):
        q1 = self.Q(add(k, bv(1, 32)))
        ax = implies(ult(k, self.n), band(eq(q1, add(self.Q(k), self.len(k))), ule(q1, self.Q(self.n)), ule(k, self.Q(k))))
        if self.es == 1: ax = band(ax, implies(ult(k, self.n), ult(self.c(k), bv(0x80, 16))), implies(ule(k, self.n), eq(self.Q(k), k)))
        return ax
    def define(self, st, k): st.assume(self.axiom(k))
    def enc(self, k, i):
        """byte i of the encoding of unit k"""
        c = self.c(k)
        b = lambda t: extract(t, 7, 0)
        m = lambda sh, mask_, hi: b(or_(and_(lshr(c, bv(sh, 16)), bv(mask_, 16)), bv(hi, 16)))
        one = b(c)
        two = [m(6, 0x1f, 0xC0), m(0, 0x3f, 0x80), bv(0, 8)]
        three = [m(12, 0x0f, 0xE0), m(6, 0x3f, 0x80), m(0, 0x3f, 0x80)]
        return ite(ult(c, bv(0x80, 16)), one, ite(ult(c, bv(0x800, 16)), two[i], three[i]))

def encode_gens(u, ch, out, es):
    """out: name of the output buffer (None: only the length is computed)"""
    K = ch.K
    def g(ctx):
        o = []
        vs = [v for v in ctx.vars if v.w in (32, 64) and not v.temp]
        k32 = lambda t: trunc(t, 32) if t.w == 64 else t
        add_ = lambda f, d, **kw: o.append(loops.Cand(f, d, **kw))
        for k in vs:
            add_(lambda vals, st, k=k: ch.axiom(k32(vals[k])), 'definition of the encoding at ' + k.name, axiom=True)
            add_(lambda vals, st, k=k: ule(k32(vals[k]), ch.n), k.name + ' <= length')
            add_(lambda vals, st, k=k: implies(ult(K, k32(vals[k])), ule(add(ch.Q(K), ch.len(K)), ch.Q(k32(vals[k])))), 'earlier units are encoded before unit ' + k.name)
            for p in vs:
                if p is not k: add_(lambda vals, st, k=k, p=p: eq(k32(vals[p]), ch.Q(k32(vals[k]))), '%s is the position of unit %s' % (p.name, k.name))
            if out and es == 1:
                def f(vals, st, k=k):
                    rd_ = lambda i: u.rd(st, out, add(zext(ch.Q(K), 64), bv(i, 64)), 1)
                    return implies(ult(K, k32(vals[k])), band(*[implies(ult(bv(i, 32), ch.len(K)), eq(rd_(i), ch.enc(K, i))) for i in range(3)]))
                add_(f, 'units below %s are encoded' % k.name)
            if out:
                def f(vals, st, k=k):
                    v = u.rd(st, out, mulc(zext(K, 64), es), es)
                    return implies(ult(K, k32(vals[k])), eq(v, trunc(ch.c(K), 8) if es == 1 else ch.c(K)))
                add_(f, 'units below %s are stored one by one' % k.name)
        return o
    return g

def string_world(u, kind):
    st = world(u)
    n = var('length', 32, 0, 1 << 28)
    start, off, slen = var('start', 32, 0, 1 << 28), var('stroffset', 32, 0, 1 << 28), var('strlength', 32, 0, 1 << 28)
    alen = var('arraylength', 64, 0, 1 << 30)
    st.assume(ule(add(start, n), slen)); st.assume(ule(add(zext(off, 64), zext(slen, 64)), alen))
    if u.bound: st.assume(ule(n, bv(u.bound, 32)))
    es = 1 if kind == 'ByteArray' else 2
    u.obj(st, 'Data', 'Cls_' + kind, add(bv(u.enum(kind + 'Body'), 64), mulc(alen, es)))
    u.w(st, 'Data', u.enum(kind + 'Length'), 8, alen)
    u.obj(st, 'Str', 'Cls_String', None, StringData=(8, base('Data')), StringOffset=(4, off), StringLength=(4, slen))
    ch = Chars(u, st, 'Data', kind, add(off, start), n)
    return st, ch, start, n

def t_utflen(u, res, kind):
    st, ch, start, n = string_world(u, kind)
    what = 'stringUTFLength(%s)' % kind
    fn = u.fn('vm::stringUTFLength', 'unsigned int, unsigned int')
    st.ghost['gens'] = (encode_gens(u, ch, None, 1),)
    def post(s, kd, val):
        if kd != 'ret': return u.oblige(s, FALSE, what + ': returns')
        u.oblige(s, eq(val, ch.Q(n)), what + ': the number of bytes of the encoding')
        u.unchanged(s, what)
    u.verify(res, what, fn, [base('T'), base('Str'), start, n], st, post)

def t_utfchars(u, res, kind):
    st, ch, start, n = string_world(u, kind)
    what = 'stringUTFChars(%s)' % kind
    fn = u.fn('vm::stringUTFChars', 'unsigned int, unsigned int')
    size = add(zext(ch.Q(n), 64), bv(1, 64))
    st.new_region('Out', size, 'native')
    st.ghost['gens'] = (encode_gens(u, ch, 'Out', 1),)
    K = ch.K
    def post(s, kd, val):
        if kd != 'ret': return u.oblige(s, FALSE, what + ': returns')
        for i in range(3):
            u.oblige(s, implies(band(ult(K, n), ult(bv(i, 32), ch.len(K))), eq(u.rd(s, 'Out', add(zext(ch.Q(K), 64), bv(i, 64)), 1), ch.enc(K, i))), what + ': byte %d of unit K' % i)
        u.oblige(s, eq(u.rd(s, 'Out', zext(ch.Q(n), 64), 1), bv(0, 8)), what + ': terminated by zero')
        u.unchanged(s, what, {'Out': rng(0, size)})
    u.verify(res, what, fn, [base('T'), base('Str'), start, n, base('Out'), ch.Q(n)], st, post)

def t_chars(u, res, kind, es):
    st, ch, start, n = string_world(u, kind)
    what = 'stringChars(%s) to %s' % (kind, 'char' if es == 1 else 'uint16_t')
    fn = u.fn('vm::stringChars', 'unsigned int, unsigned int, ' + ('char*' if es == 1 else 'unsigned short*'))
    size = mulc(add(zext(n, 64), bv(1, 64)), es)
    st.new_region('Out', size, 'native')
    st.ghost['gens'] = (encode_gens(u, ch, 'Out', es),)
    K = ch.K
    def post(s, kd, val):
        if kd != 'ret': return u.oblige(s, FALSE, what + ': returns')
        v = u.rd(s, 'Out', mulc(zext(K, 64), es), es)
        u.oblige(s, implies(ult(K, n), eq(v, trunc(ch.c(K), 8) if es == 1 else ch.c(K))), what + ': unit K')
        u.oblige(s, eq(u.rd(s, 'Out', mulc(zext(n, 64), es), es), bv(0, 8 * es)), what + ': terminated by zero')
        u.unchanged(s, what, {'Out': rng(0, size)})
    u.verify(res, what, fn, [base('T'), base('Str'), start, n, base('Out')], st, post)
