"""Method descriptors (JVMS 4.3.3) as ghost functions of positions in the descriptor text.

Positions are 64-bit offsets from the opening parenthesis.  par(p): a parameter or the closing parenthesis starts at p;
END: position of the closing parenthesis; next(p): where the item after parameter p starts; index(p) / slot(p): number of
parameters / of argument words before p.  All are defined by recursion along next; instances of the definition are assumed
at loop variables, the facts about pairs of positions follow by induction (lemma_pairs)."""
from unit import *

WIDE = 'JD'
KINDS = 'BCDFIJSZL['
SEMI, RPAR, LPAR, LBR, L_ = ord(';'), ord(')'), ord('('), ord('['), ord('L')

class Spec(object):
    def __init__(self, u, st, reg, off0, tag=''):
        self.u = u; self.reg = reg; self.off0 = off0 if isinstance(off0, T) else bv(off0, 64)
        self.st = st; self.tagname = tag
        self.a, self.log = st.mem[reg]
        self.END = var('END' + tag, 64, 1, 1 << 16)
        self.K = var('param' + tag, 64, 1, 1 << 16)
        st.assume(eq(self.ch(bv(0, 64)), bv(LPAR, 8)))
        st.assume(self.par(bv(1, 64))); st.assume(eq(self.index(bv(1, 64)), bv(0, 32))); st.assume(eq(self.slot(bv(1, 64)), bv(0, 32)))
        st.assume(self.par(self.END))
        for p in (bv(1, 64), self.K, self.END): st.assume(self.axiom(p))
        st.assume(self.par(self.K)); st.assume(ult(self.K, self.END))
        st.assume(self.kind(add(self.END, bv(1, 64)), KINDS + 'V'))
    def ch(self, p): return self.u.ex.lread(self.st, self.a, self.log, add(self.off0, p), 1)
    def kind(self, p, ks): return bor(*[eq(self.ch(p), bv(ord(k), 8)) for k in ks])
    def f(self, n, p, w): return uf(n + self.tagname, (p,), w)
    def par(self, p): return eq(self.f('par', p, 1), bv(1, 1))
    def next(self, p): return self.f('nextpos', p, 64)
    def index(self, p): return self.f('index', p, 32)
    def slot(self, p): return self.f('slot', p, 32)
    def semi(self, p): return self.f('semicolon', p, 64)
    def elem(self, p): return self.f('element', p, 64)
    def size(self, p): return ite(self.kind(p, WIDE), bv(2, 32), bv(1, 32))
    def axiom(self, p):
        """definition at p"""
        one = bv(1, 64)
        n, e = self.next(p), self.elem(p)
        cl = band(eq(n, add(self.semi(p), one)), eq(self.ch(self.semi(p)), bv(SEMI, 8)), ult(p, self.semi(p)), ult(self.semi(p), self.END))
        ar = band(ult(p, e), ult(e, self.END), bor(band(eq(self.ch(e), bv(L_, 8)), ult(e, self.semi(e)), eq(self.ch(self.semi(e)), bv(SEMI, 8)), ult(self.semi(e), self.END), eq(n, add(self.semi(e), one))),
                                                   band(self.kind(e, 'BCDFIJSZ'), eq(n, add(e, one)))))
        item = band(self.kind(p, KINDS), implies(self.kind(p, 'L'), cl), implies(self.kind(p, '['), ar), implies(self.kind(p, 'BCDFIJSZ'), eq(n, add(p, one))),
                    self.par(n), ult(p, n), ule(n, self.END), eq(self.index(n), add(self.index(p), bv(1, 32))), eq(self.slot(n), add(self.slot(p), self.size(p))))
        return implies(self.par(p), band(ule(one, p), ule(p, self.END), ule(self.index(p), bv(255, 32)), ule(self.slot(p), bv(255, 32)), beq(eq(p, self.END), eq(self.ch(p), bv(RPAR, 8))), implies(bnot(eq(p, self.END)), item),
                   ule(self.index(p), self.slot(p)), ule(self.slot(p), mulc(self.index(p), 2))))
    def pair(self, p, q):
        return implies(band(self.par(p), self.par(q), ult(p, q)), band(ule(self.next(p), q), ult(self.index(p), self.index(q)), ule(add(self.slot(p), self.size(p)), self.slot(q))))
    def inside(self, p, q):
        """what lies between the start of a name or array and its end"""
        e = self.elem(p)
        nm = lambda a, b: implies(band(ule(a, q), ult(q, b)), band(bnot(eq(self.ch(q), bv(0, 8))), bnot(eq(self.ch(q), bv(SEMI, 8)))))
        return implies(self.par(p), band(implies(self.kind(p, 'L'), nm(p, self.semi(p))),
                                         implies(self.kind(p, '['), band(implies(band(ule(p, q), ult(q, e)), eq(self.ch(q), bv(LBR, 8))), implies(eq(self.ch(e), bv(L_, 8)), nm(e, self.semi(e)))))))
    def at(self, p):
        """everything known at a loop position"""
        return band(self.axiom(p), self.pair(p, self.K), self.pair(self.K, p), self.pair(p, self.END), implies(self.par(p), bor(eq(p, self.END), ult(p, self.END))))
    def ptr(self, b, p): return add(add(b, self.off0), p)
    def pos(self, st, v):
        """position a pointer into the text points at, or None"""
        for b in (base(self.reg), self.u.curb(st, self.reg)):
            if b in lin_parts(v)[1]: return sub(sub(v, b), self.off0)
        return None

def gens(u, sp, done=(), scan=None, words=()):
    """candidates for a loop over the parameters: done = [(description, state -> bool)] facts about parameter sp.K once it is behind;
    words = [(description, f(p) -> term)] further counters"""
    def g(ctx):
        out = []
        A = lambda f, d, **kw: out.append(loops.Cand(f, d, **kw))
        ptrs = [v for v in ctx.vars if v.w == 64 and not v.temp and v.pbase is not None and sp.pos(ctx.st0, v.entry) is not None]
        for p in ptrs:
            P = lambda vals, st, p=p: sp.pos(st, vals[p])
            A(lambda vals, st, P=P: sp.at(P(vals, st)), 'definition of the descriptor at ' + p.name, axiom=True)
            A(lambda vals, st, P=P: sp.par(P(vals, st)), p.name + ' is at a parameter or the end')
            A(lambda vals, st, P=P: ule(P(vals, st), sp.END), p.name + ' is inside the descriptor')
            if scan is not None:
                q = scan
                A(lambda vals, st, P=P, q=q: sp.inside(q, P(vals, st)), 'inside a parameter at ' + p.name, axiom=True)
                e = sp.elem(q)
                for lo, hi, d in ((q, sp.semi(q), 'class name'), (q, e, 'array'), (e, sp.semi(e), 'element class name')):
                    A(lambda vals, st, P=P, lo=lo, hi=hi: band(ule(lo, P(vals, st)), ule(P(vals, st), hi)), '%s is inside the %s' % (p.name, d))
            for v in ctx.vars:
                if v.temp or v is p or v.w not in (16, 32, 64) or v.pbase is not None: continue
                for f, d in ((sp.index, 'parameters'), (sp.slot, 'argument words')) + tuple((f_, d_) for d_, f_ in words):
                    A(lambda vals, st, P=P, v=v, f=f: eq(sub(vals[v], v.entry), resize(f(P(vals, st)), v.w)), '%s counts the %s before %s' % (v.name, d, p.name))
                    A(lambda vals, st, P=P, v=v, f=f: eq(sub(v.entry, vals[v]), resize(f(P(vals, st)), v.w)), '%s counts down the %s before %s' % (v.name, d, p.name))
                    if v.w == 64:
                        A(lambda vals, st, P=P, v=v, f=f: eq(sub(vals[v], v.entry), mulc(zext(f(P(vals, st)), 64), 8)), '%s is 8 times the %s before %s' % (v.name, d, p.name))
            for v in ctx.vars:
                if v.pbase is not None and v is not p and sp.pos(ctx.st0, v.entry) is None:
                    for f, d in ((sp.index, 'parameters'), (sp.slot, 'argument words')):
                        for k in (1, 8, 16):
                            A(lambda vals, st, P=P, v=v, f=f, k=k: eq(sub(vals[v], v.entry), mulc(zext(f(P(vals, st)), 64), k)), '%s advances %d per %s before %s' % (v.name, k, d, p.name))
            for d, f in done:
                A(lambda vals, st, P=P, f=f: implies(ult(sp.K, P(vals, st)), f(st)), d + ' once it is before ' + p.name)
        return out
    return g

def resize(t, w):
    return t if t.w == w else zext(t, w) if t.w < w else trunc(t, w)

def next_contract(u, spof, it_s):
    """MethodSpecIterator::next by its contract (proved by t_next)"""
    def f(ex, st, a, ins):
        r, off = ex.resolve(st, add(a[0], bv(it_s, 64)))
        v = ex.rread(st, r, off, 8)
        sp = spof(st)
        p = sp.pos(st, v)
        if p is None: raise Undecided('MethodSpecIterator over another text')
        u.oblige(st, band(sp.par(p), bnot(eq(p, sp.END))), 'next is only asked for while there is a parameter')
        st.assume(sp.at(p))
        n = sp.next(p)
        st.assume(sp.at(n))
        ex.rwrite(st, r, off, add(sub(v, p), n), 8)
        return v
    return f

def unit():
    cs = {'it_s': '__builtin_offsetof(vm::MethodSpecIterator, s)', 'it_t': '__builtin_offsetof(vm::MethodSpecIterator, t)', 'it_size': 'sizeof(vm::MethodSpecIterator)'}
    for k in ('Byte', 'Boolean', 'Char', 'Short', 'Int', 'Long', 'Float', 'Double', 'Object', 'Void'): cs['F_' + k] = 'vm::%sField' % k
    for k in ('VOID', 'INT8', 'INT16', 'INT32', 'INT64', 'FLOAT', 'DOUBLE', 'POINTER'): cs['Y_' + k] = k + '_TYPE'
    drv = '''
namespace vm {
const char* v_next(MethodSpecIterator* it) { return it->next(); }
bool v_hasNext(MethodSpecIterator* it) { return it->hasNext(); }
const char* v_returnSpec(MethodSpecIterator* it) { return it->returnSpec(); }
void v_scan(Thread* t, const char* s, bool st, unsigned* a, unsigned* b, unsigned* c) { scanMethodSpec(t, s, st, a, b, c); }
unsigned v_fieldSize(Thread* t, unsigned c) { return fieldSize(t, c); }
}
'''
    u = Unit('descr', ['src/machine.cpp'], consts=cs, extra_text=drv)
    return u

CODE = {'B': 'Byte', 'C': 'Char', 'D': 'Double', 'F': 'Float', 'I': 'Int', 'J': 'Long', 'S': 'Short', 'Z': 'Boolean', 'V': 'Void', 'L': 'Object', '[': 'Object'}
TYPE = {'Byte': 'INT8', 'Boolean': 'INT8', 'Char': 'INT16', 'Short': 'INT16', 'Int': 'INT32', 'Long': 'INT64', 'Float': 'FLOAT', 'Double': 'DOUBLE', 'Object': 'POINTER', 'Void': 'VOID'}
SIZE = {'Byte': 1, 'Boolean': 1, 'Char': 2, 'Short': 2, 'Int': 4, 'Float': 4, 'Long': 8, 'Double': 8, 'Object': 8, 'Void': 0}

def text(u, st, pre=4):
    """descriptor text in memory of its own; -> Spec"""
    n = var('textLength', 64, 3, 1 << 17)
    st.new_region('Text', n, 'native')
    sp = Spec(u, st, 'Text', 0)
    st.assume(ult(add(sp.END, bv(1, 64)), n))
    return sp

def codeof(u, st, sp, p, names, w=32):
    r = bv(0, w)
    for k, n in names.items(): r = ite(eq(sp.ch(p), bv(ord(k), 8)), bv(u.P[n], w), r)
    return r

def t_next(u, res):
    st = u.state(); P = u.P
    sp = text(u, st)
    p = var('p', 64, 1, 1 << 16)
    st.assume(sp.at(p)); st.assume(sp.par(p)); st.assume(bnot(eq(p, sp.END)))
    for q in (p, sp.elem(p)): st.assume(sp.inside(p, q))
    if u.bound: st.assume(ule(sp.next(p), add(p, bv(u.bound, 64))))
    st.new_region('It', bv(P['it_size'], 64), 'native')
    u.w(st, 'It', P['it_t'], 8, base('T')); u.w(st, 'It', P['it_s'], 8, add(base('Text'), p))
    st.ghost['gens'] = (gens(u, sp, scan=p),)
    u.ex.contracts.pop('vm::MethodSpecIterator::next', None)
    def post(s, kd, val):
        if kd != 'ret': return u.oblige(s, FALSE, 'next: returns')
        u.oblige(s, eq(val, add(base('Text'), p)), 'next: the parameter it is at')
        u.oblige(s, eq(u.rd(s, 'It', P['it_s'], 8), add(base('Text'), sp.next(p))), 'next: goes on to the parameter after it')
        u.unchanged(s, 'next', {'It': rng(P['it_s'], 8)})
    u.verify(res, 'next', u.fn('vm::v_next'), [base('It')], st, post)

def t_iter(u, res):
    for what in ('hasNext', 'returnSpec'):
        st = u.state(); P = u.P
        sp = text(u, st)
        p = var('p', 64, 1, 1 << 16)
        st.assume(sp.at(p)); st.assume(sp.par(p))
        if what == 'returnSpec': st.assume(eq(p, sp.END))
        st.new_region('It', bv(P['it_size'], 64), 'native')
        u.w(st, 'It', P['it_t'], 8, base('T')); u.w(st, 'It', P['it_s'], 8, add(base('Text'), p))
        def post(s, kd, val):
            if kd != 'ret': return u.oblige(s, FALSE, what + ': returns')
            if what == 'hasNext': u.oblige(s, beq(ne(trunc(val, 1) if val.w > 1 else val, bv(0, 1)) if val.w else val, bnot(eq(p, sp.END))), 'hasNext: exactly before the closing parenthesis')
            else: u.oblige(s, eq(val, add(base('Text'), add(sp.END, bv(1, 64)))), 'returnSpec: what follows the closing parenthesis')
            u.unchanged(s, what)
        u.verify(res, what, u.fn('vm::v_' + what), [base('It')], st, post)

def t_kinds(u, res):
    """fieldCode, fieldType, primitiveSize, fieldSize: finite tables"""
    P = u.P
    for k, n in CODE.items():
        st = u.state()
        u.verify(res, 'fieldCode ' + k, u.fn('vm::fieldCode'), [base('T'), bv(ord(k), 32)], st, lambda s, kd, val: u.oblige(s, eq(val, bv(P['F_' + n], 32)) if kd == 'ret' else FALSE, 'fieldCode: kind of ' + k))
    for n in TYPE:
        st = u.state()
        u.verify(res, 'fieldType ' + n, u.fn('vm::fieldType'), [base('T'), bv(P['F_' + n], 32)], st, lambda s, kd, val: u.oblige(s, eq(val, bv(P['Y_' + TYPE[n]], 32)) if kd == 'ret' else FALSE, 'fieldType: native type of ' + n))
        for fn in ('primitiveSize', 'v_fieldSize'):
            if n == 'Object' and fn == 'primitiveSize': continue
            st = u.state()
            u.verify(res, fn + ' ' + n, u.fn('vm::' + fn), [base('T'), bv(P['F_' + n], 32)], st, lambda s, kd, val: u.oblige(s, eq(val, bv(SIZE[n], 32)) if kd == 'ret' else FALSE, '%s: bytes of %s' % (fn, n)))

def t_count(u, res, what, static):
    st = u.state(); P = u.P
    sp = text(u, st)
    if u.bound: st.assume(ule(sp.index(sp.END), bv(u.bound, 32)))
    st.ghost['gens'] = (gens(u, sp),)
    u.ex.contracts['vm::MethodSpecIterator::next'] = next_contract(u, lambda s: sp, P['it_s'])
    thisw = bv(0 if static else 1, 32)
    name = '%s%s' % (what, ' (static)' if static else ' (instance)')
    words = add(sp.slot(sp.END), thisw)
    if what == 'parameterFootprint':
        def post(s, kd, val): u.oblige(s, eq(val, words) if kd == 'ret' else FALSE, name + ': argument words'); u.unchanged(s, name)
        u.verify(res, name, u.fn('vm::parameterFootprint'), [base('T'), base('Text'), (TRUE if static else FALSE)], st, post)
        return
    for r in 'ABC': st.new_region('Out' + r, bv(4, 64), 'native')
    def post(s, kd, val):
        if kd != 'ret': return u.oblige(s, FALSE, name + ': returns')
        u.oblige(s, eq(u.rd(s, 'OutA', 0, 4), sp.index(sp.END)), name + ': number of parameters')
        u.oblige(s, eq(u.rd(s, 'OutB', 0, 4), words), name + ': argument words')
        u.oblige(s, eq(u.rd(s, 'OutC', 0, 4), codeof(u, s, sp, add(sp.END, bv(1, 64)), {k: 'F_' + n for k, n in CODE.items()})), name + ': return kind')
        u.unchanged(s, name, {'Out' + r: rng(0, 4) for r in 'ABC'})
    u.verify(res, name, u.fn('vm::v_scan'), [base('T'), base('Text'), (TRUE if static else FALSE), base('OutA'), base('OutB'), base('OutC')], st, post)

def t_lemma(u, res):
    """the facts about pairs follow from the definition by induction along next: step for (p, q) -> (p, next(q)) and the base case"""
    st = u.state()
    sp = text(u, st)
    p, q = var('p', 64, 1, 1 << 16), var('q', 64, 1, 1 << 16)
    for x in (p, q): st.assume(sp.axiom(x)); st.assume(sp.par(x))
    st.assume(bnot(eq(q, sp.END)))
    n = sp.next(q)
    st.assume(sp.axiom(n))
    ex = u.ex
    before = runner.snapshot(ex); ex.failures = []
    s = st.copy(); s.assume(sp.pair(p, q)); s.assume(sp.pair(q, p))
    u.oblige(s, sp.pair(p, n), 'lemma: positions after p (induction step)')
    s2 = st.copy(); s2.assume(sp.pair(n, p))
    u.oblige(st.copy(), sp.pair(p, bv(1, 64)), 'lemma: no parameter starts before the first one')
    runner.account(res, ex, before)
    for f in ex.failures: res['failures'].append(runner.failure_rec('lemma', f))
    res['paths'] += 1
