"""Loop invariants.  At a loop head the loop-carried state (phi values, memory cells written by the body) is replaced by
arbitrary values about which only the invariant is known; the invariant is the largest inductive subset of a candidate
set (Houdini): generic linear/ordering templates plus the candidates a specification supplies.  Every invariant kept is
proved on entry and across the body; nothing is bounded."""
from terms import *
import terms as TM
import smt
import sym
from sym import Undecided, Terminal, PathEnd

class Var(object):
    __slots__ = ('kind', 'key', 'v', 'entry', 'name', 'w', 'n', 'temp', 'pbase')
    def __init__(self, kind, key, entry, name, n=None):
        self.kind = kind; self.key = key; self.entry = entry; self.name = name
        self.w = entry.w; self.n = n
        self.v = None
        self.pbase = None       # pointer variables are written pbase + offset (a mere renaming: every word is pbase + something)
        self.temp = kind == 'cell' and 'ref_tmp' in name    # clang's name of an expression temporary

class LoopCtx(object):
    """what candidate generators see"""
    def __init__(self, ex, st, fr, lp, vars_):
        self.ex = ex; self.st0 = st; self.fr = fr; self.lp = lp; self.vars = vars_
        self.fn = ex.bname[fr.fn.name]

class Cand(object):
    """f(vals: dict Var->T, state) -> T bool.  axiom: an instance of the definition of a ghost function at the loop
    variables; assumed at the loop head, never proved"""
    __slots__ = ('f', 'desc', 'axiom', 'generic')
    def __init__(self, f, desc, axiom=False):
        self.f = f; self.desc = desc; self.axiom = axiom; self.generic = False

class Active(object):
    pass

class Loops(object):
    def __init__(self, ex, gens=(), policy=None, generic=True, measure=True):
        """gens: functions ctx -> [Cand]; policy(fnbase, loop) -> 'infer' | 'unroll'"""
        self.ex = ex; self.gens = list(gens); self.policy = policy or (lambda f, l: 'infer')
        self.generic = generic
        self.log = []
        self.terminates = []

    def __call__(self, ex, st, fr, lp, back, work):
        act = fr.active.get(lp.header.idx)
        if back:
            if act is None:
                return None
            if act.mode == 'trial':
                raise Terminal('backedge')
            vals = self.current(st, fr, act)
            for c in act.axioms:
                st.assume(c.f(vals, st))
            for c in act.cands:
                ex.oblige(st, 'invariant', c.f(vals, st), 'loop invariant preserved: ' + c.desc, assume=False)
            raise PathEnd('backedge')
        if self.policy(ex.bname[fr.fn.name], lp) == 'unroll':
            return None
        self.enter(ex, st, fr, lp, work)
        return 'handled'

    # ------------------------------------------------------------------
    def current(self, st, fr, act):
        vals = {}
        for v in act.vars:
            if v.kind == 'phi':
                vals[v] = fr.env[v.key]
            else:
                r = [q for q in st.regs.values() if q.name == v.key[0]][0]
                vals[v] = self.ex.rread(st, r, bv(v.key[1], 64), v.n)
        return vals

    def havoc(self, st, fr, lp, vars_, arrays):
        for v in vars_:
            if v.v is None:
                if v.entry.w == 0:
                    v.v = TM.freshb(v.name) if hasattr(TM, 'freshb') else bvar(freshname(v.name))
                elif v.pbase is not None:
                    v.v = add(v.pbase, fresh(v.name, v.w))
                else:
                    v.v = fresh(v.name, v.w)
            if v.kind == 'phi':
                fr.env[v.key] = v.v
            else:
                r = [q for q in st.regs.values() if q.name == v.key[0]][0]
                wl = st.wlog; st.wlog = None
                self.ex.rwrite(st, r, bv(v.key[1], 64), v.v, v.n)
                st.wlog = wl
        for name in arrays:
            st.mem[name] = (arr(freshname('L_' + name)), ())

    def enter(self, ex, st, fr, lp, work):
        blk = lp.header
        def pointer(v):
            if v.w == 64:
                c, d = lin_parts(v.entry)
                bs = [a for a, k in d.items() if a.op == 'base']
                if len(bs) == 1 and d[bs[0]] == 1 and (bs[0] in st.regs): v.pbase = bs[0]
            return v
        phis = [Var('phi', p.id, fr.env[p.id], (p.name or 'p').replace('.', '_')) for p in blk.phis if not isinstance(fr.env[p.id], tuple)]
        for v in phis: pointer(v)
        if len(phis) != len(blk.phis):
            raise Undecided('aggregate loop variable')
        s0 = st.copy()
        cells = []
        arrays = []
        seen = {}
        nobase = set()
        act = Active()
        act.mode = 'trial'
        act.vars = phis
        act.header = lp.header
        hist = dict(ex.contracts and {})
        # 1. find what the body writes
        for it in range(12):
            t = s0.copy()
            t.wlog = set()
            tf = t.frames[-1]
            for v in phis + cells: v.v = None
            self.havoc(t, tf, lp, phis + cells, arrays)
            tf.active[lp.header.idx] = act
            w = t.wlog
            backs = self.trial(ex, t, lp, None)
            new = False
            for b in backs:
                for v in phis + cells:
                    if v.pbase is None: continue
                    x = b.frames[-1].env[v.key] if v.kind == 'phi' else ex.rread(b, [q for q in b.regs.values() if q.name == v.key[0]][0], bv(v.key[1], 64), v.n)
                    if v.pbase not in lin_parts(x)[1]:
                        v.pbase = None; nobase.add((v.kind, v.key)); new = True     # it points elsewhere later
            offs = {}
            for (rn, off, n) in w:
                if rn not in s0.mem:
                    continue            # object created in the body
                if off is None:
                    if rn not in arrays:
                        arrays.append(rn); new = True
                else:
                    offs.setdefault(rn, set()).add((off, n))
            for rn in arrays:
                offs.pop(rn, None)
            cells = [c for c in cells if c.key[0] not in arrays]
            for rn, os_ in offs.items():
                have = set((c.key[1], c.n) for c in cells if c.key[0] == rn)
                allc = have | os_
                allc = merge(allc)
                if allc != have:
                    new = True
                    cells = [c for c in cells if c.key[0] != rn]
                    r = [q for q in s0.regs.values() if q.name == rn][0]
                    for off, n in sorted(allc):
                        c = Var('cell', (rn, off), ex.rread(s0, r, bv(off, 64), n), '%s_%d' % (rn.replace('.', '_'), off), n)
                        cells.append(c if ('cell', c.key) in nobase else pointer(c))
            if not new:
                break
        else:
            raise Undecided('loop write set does not stabilise')
        vars_ = phis + cells
        act.vars = vars_
        ctx = LoopCtx(ex, s0, s0.frames[-1], lp, vars_)
        ctx.arrays = arrays
        for v in vars_: v.v = None
        # 2. candidates true on entry
        cands = []
        if self.generic:
            cands += generic(ctx)
            for c in cands: c.generic = True
        for g in self.gens:
            cands += g(ctx)
        ev = {v: v.entry for v in vars_}
        axioms = [c for c in cands if c.axiom]
        cands = [c for c in cands if not c.axiom]
        for c in axioms:
            g = c.f(ev, s0)
            s0.assume(g); st.assume(g)
        goals = []; ok = []
        for c in cands:
            try:
                goals.append((c, c.f(ev, s0)))
            except Undecided:
                continue
        bad = set(id(c) for c in refuted(s0.pc, [x for x in goals if x[1] is not TRUE]))
        cands = [c for c, g in goals if id(c) not in bad]
        # 3. Houdini
        for it in range(40):
            t = s0.copy()
            tf = t.frames[-1]
            for v in vars_: v.v = None
            self.havoc(t, tf, lp, vars_, arrays)
            tf.active[lp.header.idx] = act
            act.cands = cands
            vals = {v: v.v for v in vars_}
            for c in axioms + cands:
                t.assume(c.f(vals, t))
            backs = self.trial(ex, t, lp, act)
            drop = set()
            for s in backs:
                cur = self.current(s, s.frames[-1], act)
                for c in axioms:
                    s.assume(c.f(cur, s))
                goals = []
                for c in cands:
                    if id(c) in drop:
                        continue
                    try:
                        g = c.f(cur, s)
                    except Undecided:
                        drop.add(id(c)); continue
                    if g is not TRUE:
                        goals.append((c, g))
                for c in refuted(s.pc, goals):
                    drop.add(id(c))
            if not drop:
                break
            cands = [c for c in cands if id(c) not in drop]
        else:
            raise Undecided('invariant inference does not converge')
        # 4. continue from an arbitrary iteration
        for c in cands:
            ex.oblige(st, 'invariant', c.f(ev, st), 'loop invariant on entry: ' + c.desc, assume=False)
        for v in vars_: v.v = None
        self.havoc(st, fr, lp, vars_, arrays)
        if st.wlog is not None:
            for c in cells: st.wlog.add((c.key[0], c.key[1], c.n))
            for a in arrays: st.wlog.add((a, None, None))
        vals = {v: v.v for v in vars_}
        for c in axioms + cands:
            st.assume(c.f(vals, st))
        a2 = Active()
        a2.mode = 'final'; a2.vars = vars_; a2.cands = cands; a2.axioms = axioms; a2.header = lp.header
        fr.active[lp.header.idx] = a2
        self.log.append((ex.bname[fr.fn.name], blk.name, [c.desc for c in cands], [v.name for v in vars_], arrays))
        # termination measure (reported, not required)
        self.measure(ex, s0, lp, act, vars_, arrays, cands)

    def measure(self, ex, s0, lp, act, vars_, arrays, cands):
        pass

    def trial(self, ex, t, lp, act):
        """run one arbitrary iteration quietly; -> states at the back edges"""
        backs = []
        depth = len(t.frames)
        ex.quiet += 1
        old = ex.unreachable_ok if hasattr(ex, 'unreachable_ok') else False
        saved = getattr(ex, 'loop_exit', None)
        ex.loop_exit = (depth, lp)
        steps = ex.steps
        try:
            work = [t]
            while work:
                s = work.pop()
                try:
                    r = ex.path(s, work, depth - 1)
                except PathEnd:
                    continue
                if r is not None and r[0] == 'backedge' and len(s.frames) == depth:
                    backs.append(s)
                # any other end (exit, return, throw) leaves the loop
                if len(work) > 3000:
                    raise Undecided('too many paths in loop body')
        finally:
            ex.quiet -= 1
            ex.loop_exit = saved
        return backs

def refuted(pc, goals):
    """candidates of [(cand, goal)] that do not follow from pc.  One query refutes many at once: every goal that is false in a
    model of the path condition is dropped"""
    out = []
    rest = []
    for c, g in goals:
        if g is FALSE: out.append(c)
        elif any(x is g for x in pc): pass
        else: rest.append((c, g))
    single = []
    while rest:
        ng = bor(*[bnot(g) for _, g in rest])
        r, m = smt.check(list(pc) + [ng], want_model=True, timeout=6000)
        if r == 'unsat':
            return out
        if r == 'sat':
            no = [c for c, g in rest if smt.mval(m, g) is False]
            if no:
                ids = set(id(c) for c in no)
                out += no
                rest = [(c, g) for c, g in rest if id(c) not in ids]
                continue
        # no answer for all of them together: halve, then one by one
        if len(rest) > 8:
            h = len(rest) // 2
            return out + refuted(pc, rest[:h]) + refuted(pc, rest[h:])
        for c, g in rest:
            if smt.valid(pc, g, retry=not c.generic) is not True:
                out.append(c)
        return out
    return out

def merge(cells):
    """make cells disjoint: overlapping ones are split into bytes"""
    cells = sorted(cells)
    out = set()
    group = []
    end = -1
    def flush():
        if not group: return
        if len(set(group)) == 1:
            out.add(group[0])
        else:
            lo = min(o for o, n in group); hi = max(o + n for o, n in group)
            # keep non-overlapping partitions when one covers exactly
            for b in range(lo, hi): out.add((b, 1))
    for o, n in cells:
        if o >= end:
            flush(); group = []
            end = -1
        group.append((o, n)); end = max(end, o + n)
    flush()
    return out

def poff(x, v):
    """x as an offset from the base of pointer variable v"""
    return sub(x, v.pbase) if v.pbase is not None else x

def has_base(t):
    return any(a.op == 'base' for a in lin_parts(t)[1])

def generic(ctx):
    """ordering and equality templates between loop variables and loop-invariant terms"""
    out = []
    vs = [v for v in ctx.vars if v.w in (8, 16, 32, 64) and not v.temp]
    # a specification may ask for nothing but the unchanged words of arrays (its own candidates suffice)
    # loop-invariant terms worth comparing with: values in the frame's environment and constants of the exit conditions
    terms = []
    seen = set()
    def addt(t):
        if isinstance(t, T) and t.w in (8, 16, 32, 64) and t not in seen and not isc(t):
            seen.add(t); terms.append(t)
    body = ctx.lp.body
    phiids = set(v.key for v in ctx.vars if v.kind == 'phi')
    for b in body:
        for ins in ctx.fr.fn.blocks[b].ins:
            for o in ins.ops:
                if isinstance(o, tuple) and o and o[0] == 'v' and o[1] in ctx.fr.env and o[1] not in phiids:
                    addt(ctx.fr.env[o[1]])
    for v in vs:
        addt(v.entry)
    for t in getattr(ctx, 'extra_terms', ()):
        addt(t)
    terms = terms[:24]
    if ctx.st0.ghost.get('nogeneric'): vs = []
    for v in vs:
        def c(f, d, v=v):
            out.append(Cand(lambda vals, st, f=f, v=v: f(poff(vals[v], v)), d))
        w = v.w
        c(lambda x, e=poff(v.entry, v): eq(x, e), '%s unchanged' % v.name)
        if w == 8:
            continue
        c(lambda x: sge(x, bv(0, x.w)), '%s >= 0' % v.name)
        c(lambda x: sgt(x, bv(0, x.w)), '%s > 0' % v.name)
        c(lambda x: ne(x, bv(0, x.w)), '%s != 0' % v.name)
        for t in terms:
            if t.w != w:
                continue
            if (v.pbase is not None) != has_base(t): continue
            t = poff(t, v)
            if has_base(t): continue
            nm = show(t, 2)
            if t is not v.entry or True:
                c(lambda x, t=t: ule(x, t), '%s <=u %s' % (v.name, nm))
                c(lambda x, t=t: ult(x, t), '%s <u %s' % (v.name, nm))
                c(lambda x, t=t: sle(x, t), '%s <= %s' % (v.name, nm))
                c(lambda x, t=t: slt(x, t), '%s < %s' % (v.name, nm))
                c(lambda x, t=t: ule(t, x), '%s >=u %s' % (v.name, nm))
                c(lambda x, t=t: sle(t, x), '%s >= %s' % (v.name, nm))
                c(lambda x, t=t: ult(t, x), '%s >u %s' % (v.name, nm))
    for name in getattr(ctx, 'arrays', ()):
        r0 = [q for q in ctx.st0.regs.values() if q.name == name]
        if not r0: continue
        for off in (0, 8, 16, 24):
            e = ctx.ex.rread(ctx.st0, r0[0], bv(off, 64), 8)
            def f(vals, st, name=name, off=off, e=e):
                r = [q for q in st.regs.values() if q.name == name][0]
                return eq(ctx.ex.rread(st, r, bv(off, 64), 8), e)
            out.append(Cand(f, 'word %d of %s unchanged' % (off, name)))
    phi = [v for v in vs if v.kind == 'phi' and v.w in (32, 64)][:6]
    for x in phi:
        for i, y in enumerate(phi):
            for z in phi[i + 1:]:
                if x.w == y.w == z.w and x.pbase is None and y.pbase is None and z.pbase is None and x is not y and x is not z:
                    out.append(Cand(lambda vals, st, x=x, y=y, z=z: eq(vals[x], add(vals[y], vals[z])), '%s == %s + %s' % (x.name, y.name, z.name)))
    for i, a in enumerate(vs):
        for b in vs[i + 1:]:
            if a.w == b.w and a.w != 8 and a.pbase is b.pbase:
                for f, s in ((ule, '<=u'), (ult, '<u'), (sle, '<='), (slt, '<')):
                    out.append(Cand(lambda vals, st, f=f, a=a, b=b: f(poff(vals[a], a), poff(vals[b], b)), '%s %s %s' % (a.name, s, b.name)))
                    out.append(Cand(lambda vals, st, f=f, a=a, b=b: f(poff(vals[b], b), poff(vals[a], a)), '%s %s %s' % (b.name, s, a.name)))
            # linear relation of the increments
            if a.w in (32, 64) and b.w in (32, 64):
                for ka in (1, 2, 4, 8):
                    for kb in (1, 2, 4, 8):
                        if ka != 1 and kb != 1:
                            continue
                        for sg in (1, -1):
                            def f(vals, st, a=a, b=b, ka=ka, kb=kb, sg=sg):
                                da = sub(vals[a], a.entry); db = sub(vals[b], b.entry)
                                w = min(da.w, db.w)
                                if da.w != db.w:
                                    da = trunc(da, w) if da.w > w else da
                                    db = trunc(db, w) if db.w > w else db
                                return eq(mulc(da, ka), mulc(db, kb * sg))
                            out.append(Cand(f, '%d*d(%s) == %d*d(%s)' % (ka, a.name, kb * sg, b.name)))
    return out
