"""Functions of the VM verified one by one against contracts.

A Unit is one extraction of real sources (a generated file that only #includes them and exports layout constants the
compiler computed).  `GC model`: a contract of a callee that may allocate moves every heap object: references held in
memory and in PROTECTed C variables (the protector list of the thread, walked as the code built it) are updated,
every other C reference becomes stale, and using a stale reference is a failed obligation."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'eng'))
from terms import *
import terms as TM
import smt, llir, build, loops, runner
from sym import *

BASE_CONSTS = {
 'm': '__builtin_offsetof(vm::Thread, m)', 'protector': '__builtin_offsetof(vm::Thread, protector)',
 'exception': '__builtin_offsetof(vm::Thread, exception)', 'flags': '__builtin_offsetof(vm::Thread, flags)',
 'prot_next': '__builtin_offsetof(vm::Thread::SingleProtector, next)', 'prot_p': '__builtin_offsetof(vm::Thread::SingleProtector, p)',
 'm_types': '__builtin_offsetof(vm::Machine, types)', 'm_roots': '__builtin_offsetof(vm::Machine, roots)', 'TypeCount': 'vm::TypeCount',
 'ArrayBody': 'vm::ArrayBody',
}

def fresh_id():
    return freshname('g').split('g')[-1]

class Unit(object):
    def __init__(self, name, sources, consts=None, jit=False, exc=(), extra_text='', flags=(), vm=True, policy=None, gen=True, more=()):
        txt = ''.join('#include "%s/%s"\n' % (build.REPO, s) for s in sources)
        txt += '#pragma clang diagnostic ignored "-Winvalid-offsetof"\n#pragma clang diagnostic ignored "-Weverything"\n' + extra_text + '\nextern "C" {\n'
        cs = dict(BASE_CONSTS) if vm else {}
        cs.update(consts or {})
        for e in exc:
            cs['E_' + e] = 'vm::Gc%s::Type' % e
        for n, v in sorted(cs.items()):
            txt += 'extern const unsigned long P_%s; const unsigned long P_%s = (unsigned long)(%s);\n' % (n, n, v)
        txt += '}\n'
        fl = ['-fno-access-control'] + list(flags)
        self.bc = build.ir(None, name=name, wrapper=txt, jit=jit, extra=fl, gen=gen)
        mods = [llir.Mod(self.bc)]
        for i, (src, kw) in enumerate(more):
            mods.append(llir.Mod(build.ir(src, extra=['-fno-access-control'], **kw)))
        self.mods = mods
        self.ex = Exec(mods if len(mods) > 1 else mods[0])
        self.P = {}
        for n in list(self.ex.globals):
            if n.startswith('P_'):
                v = self.ex.global_bytes(n).get(0)
                self.P[n[2:]] = cv(v[1]) if v else 0
        self.loops = loops.Loops(self.ex, gens=[lambda ctx: [c for g in ctx.st0.ghost.get('gens', ()) for c in g(ctx)]],
                                 policy=lambda f, lp: 'unroll' if self.bound else (self.policy(f, lp) if self.policy else 'infer'))
        self.bound = None
        self.policy = policy
        self.ex.loopmgr = self.loops
        self.used = set()
        if vm:
            self.vm_contracts()

    # ---- generated layout constants
    _enums = None
    def enum(self, n):
        if Unit._enums is None:
            Unit._enums = {}
            txt = open(os.path.join(build.types_dir(), 'type-declarations.cpp')).read()
            for m in re.finditer(r'const unsigned (\w+) = (\d+);', txt):
                Unit._enums[m.group(1)] = int(m.group(2))
            for m in re.finditer(r'#define (\w+) (\d+)', txt):
                Unit._enums.setdefault(m.group(1), int(m.group(2)))
        if n not in Unit._enums:
            raise Undecided('no layout constant ' + n)
        return Unit._enums[n]

    # ---- contracts every VM function may rely on
    def vm_contracts(self):
        C = self.ex.contracts
        def throwing(ex, st, a, ins):
            st.event('throwNew', a[1] if len(a) > 1 else None)
            raise Terminal('throw', a[1] if len(a) > 1 else None)
        C['vm::throwNew'] = throwing
        def throw_(ex, st, a, ins):
            st.event('throw', a[1])
            raise Terminal('throwobj', a[1])
        C['vm::throw_'] = throw_
        def abort_(ex, st, a, ins):
            ex.oblige(st, 'abort', FALSE, 'VM abort reached')
            raise PathEnd('abort')
        C['vm::abort'] = abort_
        for q in ('vm::Thread*', 'vm::System*', 'vm::Machine*', 'vm::MyThread*'): C['avian::util::abort<%s>' % q] = lambda ex, st, a, ins: C['vm::abort'](ex, st, a, ins)
        def mark(ex, st, a, ins):
            ev(st, 'mark', a[1], a[2])
        C['vm::mark'] = mark
        C['vm::collect'] = lambda ex, st, a, ins: gc(self, st)

    # ---- state building
    def state(self):
        st = State()
        st.new_region('T', None, 'thread')
        st.new_region('Mach', None, 'machine')
        self.w(st, 'T', self.P['m'], 8, base('Mach'))
        self.w(st, 'T', self.P['protector'], 8, bv(0, 64))
        return st

    def w(self, st, reg, off, n, v):
        if isinstance(v, int): v = bv(v, 8 * n)
        a, log = st.mem[reg]
        st.mem[reg] = (a, log + (('w', off if isinstance(off, T) else bv(off, 64), n, v),))

    def obj(self, st, name, cls=None, size=None, kind='heap', **fields):
        """heap object; fields: FieldConstantName=(bytes, value)"""
        r = st.new_region(name, size, kind)
        if cls is not None:
            if base(cls) not in st.regs:
                st.new_region(cls, None, 'heap')
            self.w(st, name, 0, 8, base(cls))
        for f, (n, v) in fields.items():
            self.w(st, name, self.enum(f), n, v)
        return r

    def cur(self, st, name):
        """name of the region that holds object `name` now (it may have been moved)"""
        return st.ghost.get('moved', {}).get(name, name)

    def curb(self, st, name):
        return base(self.cur(st, name))

    def rd(self, st, name, off, n):
        nm = self.cur(st, name)
        r = st.regs[base(nm)]
        return self.ex.rread(st, r, off if isinstance(off, T) else bv(off, 64), n)

    # ---- running one function
    def fn(self, name, sig=None):
        f = self.ex.find(name, sig)
        self.used.add(self.ex.dname[f.name])
        f.mod.load(f)
        return f

    def verify(self, res, name, fn, args, st, post, expect=('ret',), extra=None):
        ex = self.ex
        ex.failures = []; ex.invoked = {}; ex.inlined = set()
        before = runner.snapshot(ex)
        init = dict(st.mem)
        st.ghost['init_mem'] = init
        ex.start(fn, args, st)
        kinds = set()
        def on_end(s, kind, val):
            if kind not in kinds and smt.feasible(s.pc):
                kinds.add(kind)
            post(s, kind, val)
        try:
            n = ex.run(st, on_end)
        finally:
            runner.account(res, ex, before)
            for f in ex.failures:
                rec = runner.failure_rec(name, f)
                if extra is not None:
                    try: rec['extra'] = extra(rec['model'])
                    except Exception: pass
                res['failures'].append(rec)
        res['paths'] += n
        res['inlined'] = sorted(set(res['inlined']) | set(ex.bname[q] for q in ex.inlined))
        for k, v in ex.invoked.items():
            res['contracts'][k] = res['contracts'].get(k, 0) + v
        miss = set(expect) - kinds
        if (miss or n == 0) and not ex.failures:
            res['vacuous'].append('%s: outcome %s is never reached' % (name, sorted(miss)))
        return kinds

    def oblige(self, st, goal, desc, kind='post'):
        return self.ex.oblige(st, kind, goal, desc, assume=False)

    def unchanged(self, st, what, allowed=None, skip=()):
        """frame condition: every write lies in `allowed` {object name: pred(off, len)}; protector list excepted"""
        ex = self.ex
        init = st.ghost['init_mem']
        allowed = allowed or {}
        back = {v: k for k, v in st.ghost.get('moved', {}).items()}
        for name, (a, log) in list(st.mem.items()):
            orig = back.get(name, name)
            if orig not in init or orig in skip:
                continue
            r = st.regs.get(base(name)) or [q for q in st.regs.values() if q.name == name][0]
            if r.freed or r.kind == 'alloca' or name in st.ghost.get('dead', ()):
                continue
            a0, log0 = init[orig]
            if log is log0:
                continue
            pred = allowed.get(orig)
            m0 = st.ghost.get('reloc')
            for e in log:
                if any(e is q for q in log0):
                    continue
                off, n = e[1], (bv(e[2], 64) if e[0] == 'w' else e[2])
                if r.kind == 'thread' and isc(off) and cv(off) == self.P.get('protector', -1):
                    continue
                ok = pred(off, n) if pred else FALSE
                if ok is not TRUE and e[0] == 'w':
                    old = ex.lread(st, a0, log0, off, e[2])
                    if reloc(st, old) is e[3]:
                        continue
                    same = eq(reloc(st, old), e[3])
                    ok = bor(ok, same)
                ex.oblige(st, 'frame', ok, '%s: nothing else is modified (write of %s bytes at %s in %s)' % (what, show(n), show(off), orig), assume=False)

def rng(lo, n_):
    lo = lo if isinstance(lo, T) else bv(lo, 64)
    hi = add(lo, n_ if isinstance(n_, T) else bv(n_, 64))
    return lambda off, n: band(ule(lo, off), ule(add(off, n), hi), ule(off, add(off, n)))

# ---------------------------------------------------------------- moving collector
def reloc(st, v):
    m = st.ghost.get('relocmap')
    return subst(v, m) if m and isinstance(v, T) else v

def subst_log(log, m):
    out = []
    for e in log:
        if e[0] == 'w':
            v = subst(e[3], m)
            out.append(e if v is e[3] else (e[0], e[1], e[2], v))
        elif e[0] == 'cpy':
            out.append((e[0], e[1], e[2], e[3], subst_log(e[4], m), e[5]))
        else:
            out.append(e)
    return tuple(out)

def protected(unit, st):
    """[(region, offset)] of the C variables registered in the thread's protector list, read from the modelled memory"""
    ex = unit.ex; P = unit.P
    out = []
    T_ = st.regs[base('T')]
    p = ex.rread(st, T_, bv(P['protector'], 64), 8)
    for _ in range(64):
        if isc(p) and cv(p) == 0:
            return out
        r, off = ex.resolve(st, p)
        vt = ex.rread(st, r, off, 8)
        c, d = lin_parts(vt)
        vn = [a.args[0] for a in d if a.op == 'base']
        if vn and 'SingleProtector' in vn[0]:
            q = ex.rread(st, r, add(off, bv(P['prot_p'], 64)), 8)
            out.append(ex.resolve(st, q))
        elif not vn or ('SingleProtector' not in vn[0]):
            h = getattr(unit, 'other_protector', None)
            if h is None:
                raise Undecided('protector of unknown kind %s' % show(vt))
            out += h(st, vn[0] if vn else None, r, off)
        p = ex.rread(st, r, add(off, bv(P['prot_next'], 64)), 8)
    raise Undecided('protector list')

def gc(unit, st):
    ex = unit.ex
    roots = protected(unit, st)
    m = {}
    regs = [r for r in st.regs.values() if r.kind == 'heap' and not r.freed]
    for r in regs:
        m[r.base] = base(freshname(r.name.split('!')[0] + '!'))
    moved = dict(st.ghost.get('moved', {}))
    inv = {v: k for k, v in moved.items()}
    vals = []
    for r, off in roots:
        vals.append((r, off, ex.rread(st, r, off, 8)))
    new = {}
    for name, (a, log) in st.mem.items():
        r = None
        new[name] = (a, log)
    kinds = {r.name: r.kind for r in st.regs.values()}
    for name, (a, log) in list(new.items()):
        if kinds.get(name) in ('heap', 'thread', 'machine', 'native', 'global') or kinds.get(name) is None:
            new[name] = (a, subst_log(log, m))
    st.mem = new
    for r in regs:
        nb = m[r.base]
        nn = nb.args[0]
        nr = Region(nn, nb, r.size, r.kind, r.meta)
        st.regs[nb] = nr
        st.mem[nn] = st.mem[r.name]
        old = Region(r.name, r.base, r.size, r.kind, r.meta)
        old.freed = True
        st.regs[r.base] = old
        orig = inv.get(r.name, r.name)
        moved[orig] = nn
    st.ghost['moved'] = moved
    rm = {k: subst(v, m) for k, v in (st.ghost.get('relocmap') or {}).items()}
    rm.update(m)
    st.ghost['relocmap'] = rm
    for r, off, v in vals:
        if r.freed:
            raise Undecided('protected variable inside a heap object')
        ex.rwrite(st, r, off, subst(v, m), 8)
    st.event('gc')

def orig(st, v):
    """the value with every moved object written under its original name"""
    m = st.ghost.get('moved')
    if not m or not isinstance(v, T):
        return v
    return subst(v, {base(n): base(o) for o, n in m.items()})

def ev(st, name, *args):
    st.event(name, *[orig(st, a) for a in args])

def events(st, *names):
    return [e for e in st.trace if e[0] in names]
