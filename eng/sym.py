"""Verification-condition generation by path-wise symbolic execution of the extracted LLVM IR.

A function is executed once for *all* inputs; callees with a body in the extracted unit are inlined, callees
without one need a contract (unknown callee => undecided, never 'holds').  Loops: see loops.py."""
import time, sys
from terms import *
import terms as TM
import smt
import llir

sys.setrecursionlimit(20000)

class Undecided(Exception):
    """outside the verifier's reach: reported as an error, never as a violation"""

class PathEnd(Exception):
    pass

class Region(object):
    __slots__ = ('name', 'base', 'size', 'kind', 'const', 'meta', 'freed')
    def __init__(self, name, base_, size, kind, meta=None):
        self.name = name; self.base = base_; self.size = size; self.kind = kind
        self.const = None; self.meta = meta or {}; self.freed = False
    def __repr__(self):
        return 'Region(%s)' % self.name

class Frame(object):
    __slots__ = ('fn', 'blk', 'idx', 'env', 'ret', 'unroll', 'active', 'allocas', 'catch')
    def __init__(self, fn):
        self.catch = None
        self.fn = fn; self.blk = None; self.idx = 0; self.env = {}; self.ret = None
        self.unroll = {}; self.active = {}
    def copy(self):
        f = Frame(self.fn)
        f.blk = self.blk; f.idx = self.idx; f.env = dict(self.env); f.ret = self.ret
        f.unroll = dict(self.unroll); f.active = dict(self.active); f.catch = self.catch
        return f

class State(object):
    __slots__ = ('frames', 'pc', 'mem', 'regs', 'trace', 'ghost', 'bind', 'depth', 'path', 'wlog', 'exec_', 'pend')
    def __init__(self):
        self.frames = []; self.pc = (); self.mem = {}; self.regs = {}; self.trace = ()
        self.ghost = {}; self.bind = {}; self.path = (); self.wlog = None; self.pend = None
    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.pc = self.pc; s.mem = dict(self.mem); s.regs = dict(self.regs)
        s.trace = self.trace; s.ghost = dict(self.ghost); s.bind = dict(self.bind)
        s.path = self.path
        s.wlog = self.wlog
        return s
    # -- regions
    def new_region(self, name, size=None, kind='heap', arrname=None, base_=None, meta=None):
        b = base_ if base_ is not None else base(name)
        r = Region(name, b, size, kind, meta)
        self.regs[b] = r
        self.mem[name] = (arr(arrname or ('M_' + name)), ())
        return r
    def assume(self, c):
        if c is TRUE:
            return
        if c.op == 'band':
            self.pc = self.pc + tuple(x for x in c.args if x not in self.pc)
        elif c not in self.pc:
            self.pc = self.pc + (c,)
    def event(self, *e):
        self.trace = self.trace + (e,)

class Failure(object):
    def __init__(self, kind, desc, state, goal, status, loc=None):
        self.kind = kind; self.desc = desc; self.state = state; self.goal = goal
        self.status = status   # 'refuted' | 'unknown'
        self.loc = loc
        self.pc = state.pc
    def model(self, extra=()):
        r, m = smt.check(list(self.pc) + [bnot(self.goal)] + list(extra), want_model=True)
        return m if r == 'sat' else None

class Exec(object):
    def __init__(self, mod, spec=None):
        self.mods = mod if isinstance(mod, list) else [mod]
        self.funcs = {}
        self.globals = {}
        for m in self.mods:
            for n, f in m.funcs.items():
                if n not in self.funcs or self.funcs[n].decl:
                    self.funcs[n] = f
            for n, g in m.globals.items():
                if n not in self.globals or self.globals[n][3] is None:
                    self.globals[n] = g + (m,)
        self.demangle()
        self.contracts = {}       # demangled base name or full signature -> handler
        self.invoked = {}         # contract name -> count
        self.inlined = set()
        self.failures = []
        self.obligations = 0
        self.discharged = 0
        self.kinds = {}
        self.max_unroll = 300
        self.loop_policy = None   # fn(exec, state, frame, loop, first) -> None|'unroll'|...
        self.lazy = None          # fn(exec, state, atom, off) -> Region
        self.steps = 0
        self.max_steps = 3000000
        self.max_paths = 20000
        self.quiet = 0            # >0: obligations not recorded (loop inference)
        self.deadline = None
        self.lazy_globals = True
        self.checked_kinds = None
        self.ub = True
        self.global_init_cache = {}
        self.on_store = None
        self.on_load = None
        self.loop_exit = None
        self.loopmgr = None
        self.tolerate_ub_shift = False
        self.indirect = None

    def demangle(self):
        import build
        names = list(self.funcs)
        dm = build.demangle(names)
        self.dname = dict(zip(names, dm))
        self.bname = {}
        for n, d in self.dname.items():
            self.bname[n] = basename(d).replace('(anonymous namespace)::', '')
        self.bybase = {}
        for n in names:
            self.bybase.setdefault(self.bname[n], []).append(n)

    def find(self, base_, sig=None):
        """function with a body by demangled qualified name (optionally containing sig)"""
        c = [n for n in self.bybase.get(base_, []) if not self.funcs[n].decl and (sig is None or sig in self.dname[n])]
        if len(c) > 1:
            # members of local classes share the prefix of the enclosing function
            c = [n for n in c if '::' not in strip_parens(self.dname[n][len(self.bname[n]):].replace('(anonymous namespace)::', ''))] or c
        if len(c) != 1:
            # anonymous namespaces: try suffix
            if not c:
                c = [n for n in self.funcs if not self.funcs[n].decl and
                     self.bname[n].replace('(anonymous namespace)::', '').endswith(base_) and
                     (sig is None or sig in self.dname[n])]
                c = [n for n in c if self.bname[n] == base_ or self.bname[n].replace('(anonymous namespace)::', '').endswith('::' + base_.split('::')[-1])]
            if len(c) != 1:
                raise Undecided('function %s %s: %d candidates %s' % (base_, sig or '', len(c), c[:5]))
        return self.funcs[c[0]]

    # ---------------------------------------------------------------- obligations
    def oblige(self, st, kind, goal, desc, loc=None, assume=True):
        if self.quiet:
            if assume:
                st.assume(goal)
            return True
        self.obligations += 1
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        v = smt.valid(st.pc, goal)
        if v is True:
            self.discharged += 1
            return True
        # an infeasible path cannot violate anything
        if not smt.feasible(st.pc):
            self.discharged += 1
            raise PathEnd('infeasible')
        f = Failure(kind, desc, st.copy(), goal, 'refuted' if v is False else 'unknown', loc or self.where(st))
        self.failures.append(f)
        if assume:
            if goal is FALSE:
                raise PathEnd('violated')
            st.assume(goal)
            if not smt.feasible(st.pc):
                raise PathEnd('violated')
        return False

    def where(self, st):
        return ' < '.join('%s:%s' % (self.bname.get(f.fn.name, f.fn.name), f.blk.name if f.blk else '?') for f in reversed(st.frames[-4:]))

    # ---------------------------------------------------------------- memory
    def resolve(self, st, addr, for_write=False):
        """-> (region, offset)"""
        for _ in range(12):
            c, d = lin_parts(addr)
            bs = [a for a, k in d.items() if k == 1 and a in st.regs]
            if len(bs) == 1:
                r = st.regs[bs[0]]
                return r, sub(addr, bs[0])
            if len(bs) > 1:
                raise Undecided('address with several bases: %s' % show(addr))
            bound = [a for a, k in d.items() if k == 1 and a in st.bind]
            if bound:
                addr = add(sub(addr, bound[0]), st.bind[bound[0]])
                continue
            ites = [a for a, k in d.items() if k == 1 and a.op == 'ite']
            if ites:
                # decide or fork
                a = ites[0]
                cnd = a.args[0]
                t = smt.valid(st.pc, cnd)
                if t is True:
                    addr = add(sub(addr, a), a.args[1]); continue
                t = smt.valid(st.pc, bnot(cnd))
                if t is True:
                    addr = add(sub(addr, a), a.args[2]); continue
                raise Fork(cnd)
            if not d:
                self.oblige(st, 'null-deref', FALSE, 'dereference of null/constant address %s' % show(addr))
                raise PathEnd('null')
            # a known global used through its base
            gb = [a for a, k in d.items() if k == 1 and a.op == 'base' and a.args[0].startswith('@')]
            if len(gb) == 1:
                self.global_region(st, gb[0].args[0][1:])
                continue
            if self.lazy is not None:
                at = [a for a, k in d.items() if k == 1]
                done = False
                for a in at:
                    r = self.lazy(self, st, a, addr)
                    if r is not None:
                        done = True
                        break
                if done:
                    continue
            raise Undecided('unresolved pointer %s' % show(addr))
        raise Undecided('unresolved pointer chain %s' % show(addr))

    def global_region(self, st, name):
        b = base('@' + name)
        if b in st.regs:
            return st.regs[b]
        if name in self.globals:
            g, ty, const, init, mod = self.globals[name]
            r = st.new_region('@' + name, bv(ty.size, 64), 'global', base_=b)
            if init is not None:
                bytes_ = self.global_bytes(name)
                if const:
                    r.const = bytes_
                    r.meta['const'] = True
                elif getattr(self, 'init_globals', False):
                    r.meta['init'] = bytes_
                    self.init_mem(st, r, bytes_)
            return r
        if name in self.funcs:
            return st.new_region('@' + name, bv(16, 64), 'func', base_=b)
        raise Undecided('unknown global ' + name)

    def init_mem(self, st, r, cells):
        log = []
        for off, (n, v) in sorted(cells.items()):
            log.append(('w', bv(off, 64), n, v))
        st.mem[r.name] = (st.mem[r.name][0], tuple(log))

    def global_bytes(self, name):
        """initialiser as dict off -> (nbytes, T)"""
        if name in self.global_init_cache:
            return self.global_init_cache[name]
        g, ty, const, init, mod = self.globals[name]
        cells = {}
        def put(c, ty, off):
            k = c[0]
            if k == 'c':
                n = max(1, (c[2] + 7) // 8)
                cells[off] = (n, bv(c[1], 8 * n))
            elif k == 'zero':
                t = ty
                if t.k in ('int',):
                    cells[off] = (t.size, bv(0, 8 * t.size))
                elif t.k == 'ptr':
                    cells[off] = (8, bv(0, 64))
                elif t.k in ('f32', 'f64'):
                    cells[off] = (t.size, bv(0, 8 * t.size))
                elif t.k == 'struct':
                    for e, o in zip(t.elems, t.offs):
                        put(('zero', e), e, off + o)
                elif t.k == 'array':
                    if t.n * t.elt.size > 65536:
                        return
                    for i in range(t.n):
                        put(('zero', t.elt), t.elt, off + i * t.elt.size)
            elif k == 'agg':
                t = c[1]
                if t.k == 'struct':
                    for e, o, x in zip(t.elems, t.offs, c[2]):
                        put(x, e, off + o)
                else:
                    for i, x in enumerate(c[2]):
                        put(x, t.elt, off + i * t.elt.size)
            elif k == 'g':
                cells[off] = (8, base('@' + c[1]))
            elif k == 'ce':
                v = self.const_expr(c)
                cells[off] = (v.w // 8, v)
            elif k == 'undef':
                pass
            else:
                raise Undecided('global initialiser %r' % (c[:2],))
        put(mod.const(init), ty, 0)
        self.global_init_cache[name] = cells
        return cells

    def const_expr(self, c):
        _, op, ty, ops, x = c
        vals = [self.cval(o) for o in ops]
        if op == 'gep':
            return self.gep(x, vals[0], vals[1:])
        if op in ('ptrtoint', 'inttoptr', 'bitcast'):
            v = vals[0]
            return trunc(v, ty.w) if ty.w < v.w else v
        if op == 'sub': return sub(vals[0], vals[1])
        if op == 'add': return add(vals[0], vals[1])
        if op == 'trunc': return trunc(vals[0], ty.w)
        raise Undecided('constant expression ' + str(op))

    def cval(self, o):
        k = o[0]
        if k == 'c':
            if o[2] == 1:
                return boolc(o[1] & 1)
            return bv(o[1], o[2])
        if k == 'g':
            return base('@' + o[1])
        if k == 'ce':
            return self.const_expr(o)
        if k == 'undef' or k == 'zero':
            t = o[1]
            return self.zero(t, k == 'undef')
        if k == 'agg':
            t = o[1]
            return tuple(self.cval(x) for x in o[2])
        raise Undecided('constant %r' % (o,))

    def zero(self, t, undef=False):
        if t.k == 'struct':
            return tuple(self.zero(e, undef) for e in t.elems)
        if t.k == 'array':
            return tuple(self.zero(t.elt, undef) for i in range(t.n))
        if t.k == 'int' and t.w == 1:
            return FALSE
        if t.k in ('int', 'ptr', 'f32', 'f64'):
            # an undefined value is arbitrary
            return fresh('undef', t.w) if undef else bv(0, t.w)
        raise Undecided('zero of ' + t.k)

    def bounds(self, st, r, off, n, write):
        if r.size is None:
            return
        size = r.size if isinstance(r.size, T) else bv(r.size, 64)
        nn = n if isinstance(n, T) else bv(n, 64)
        if isc(nn) and isc(size) and isc(off):
            ok = cv(off) + cv(nn) <= cv(size)
            if not ok:
                self.oblige(st, 'bounds', FALSE, '%s of %d bytes at offset %s outside %s (size %s)' %
                            ('write' if write else 'read', cv(nn), show(off), r.name, show(size)))
            return
        g = band(ule(nn, size), ule(off, sub(size, nn)))
        self.oblige(st, 'bounds', g, '%s of %s bytes at offset %s inside %s (size %s)' %
                    ('write' if write else 'read', show(nn), show(off), r.name, show(size)))

    def load_agg(self, st, p, t):
        if t.k == 'struct':
            return tuple(self.load_agg(st, add(p, bv(o, 64)), e) for e, o in zip(t.elems, t.offs))
        if t.k == 'array':
            return tuple(self.load_agg(st, add(p, bv(i * t.elt.size, 64)), t.elt) for i in range(t.n))
        v = self.load(st, p, t.size)
        if t.k == 'int' and t.w != 8 * t.size:
            v = trunc(v, t.w) if t.w > 1 else ne(extract(v, 0, 0), bv(0, 1))
        return v

    def load(self, st, addr, n, check=True):
        r, off = self.resolve(st, addr)
        if r.freed:
            self.oblige(st, 'stale', FALSE, 'read through stale pointer into %s' % r.name)
            raise PathEnd('stale')
        if check and r.kind != 'func':
            self.bounds(st, r, off, n, False)
        if self.on_load is not None:
            self.on_load(self, st, r, off, n)
        return self.rread(st, r, off, n)

    def rread(self, st, r, off, n):
        if r.const is not None:
            return self.const_read(st, r, off, n)
        a, log = st.mem[r.name]
        return self.lread(st, a, log, off, n)

    def const_read(self, st, r, off, n):
        if isc(off):
            return self.cells_read(r, cv(off), n)
        # symbolic index into a constant table: finite case split
        cells = r.const
        size = cv(r.size)
        cand = []
        z = 1 << tz(off) if tz(off) < 6 else 8
        lo, hi = off.lo, min(off.hi, size - n)
        cnt = 0
        o = lo
        rem = 0
        step = max(1, z) if (lo % max(1, z)) == 0 else 1
        res = None
        offs = list(range(lo, hi + 1, step))
        if len(offs) > 1024:
            raise Undecided('symbolic read of large constant table ' + r.name)
        vals = {}
        for o in offs:
            try:
                v = self.cells_read(r, o, n)
            except Undecided:
                continue
            vals.setdefault(v, []).append(o)
        if not vals:
            raise Undecided('constant table read ' + r.name)
        # prune by feasibility when few
        items = sorted(vals.items(), key=lambda kv: -len(kv[1]))
        res = items[0][0]
        for v, os_ in items[1:]:
            c = bor(*[eq(off, bv(o, 64)) for o in os_])
            res = ite(c, v, res)
        return res

    def cells_read(self, r, o, n):
        cells = r.const
        c = cells.get(o)
        if c is not None:
            if c[0] == n:
                return c[1]
            if c[0] > n:
                return extract(c[1], 8 * n - 1, 0)
        # bytewise
        out = None
        i = 0
        while i < n:
            b = None
            for k in range(0, 9):
                c = cells.get(o + i - k)
                if c is not None:
                    if c[0] > k:
                        b = extract(c[1], 8 * k + 7, 8 * k)
                    break
            if b is None:
                b = bv(0, 8)
            out = b if out is None else concat(b, out)
            i += 1
        return out

    def lread(self, st, a, log, off, n):
        pend = []      # list of (cond, value): newest first
        i = len(log) - 1
        pc = st.pc
        while i >= 0:
            e = log[i]
            k = e[0]
            if k == 'w':
                d = sub(off, e[1])
                en = e[2]
                if isc(d):
                    dd = scv(d)
                    if dd >= en or dd + n <= 0:
                        i -= 1; continue
                    if dd >= 0 and dd + n <= en:
                        v = e[3]
                        v = v if (dd == 0 and n == en) else extract(v, 8 * (dd + n) - 1, 8 * dd)
                        return self._wrap(pend, v)
                    # partial: bytewise
                    return self._wrap(pend, self.bytes_read(st, a, log[:i + 1], off, n))
                # interval
                w = 64
                if d.lo >= en and d.hi <= (1 << 64) - n:
                    i -= 1; continue
                sg = self.sdiff(off, e[1])
                if sg is not None and (sg[0] >= en or sg[1] <= -n):
                    i -= 1; continue
                z = tz(d)
                same = eq(d, bv(0, 64))
                al = n == en and (1 << z) >= n
                if al and same is FALSE:
                    i -= 1; continue
                # same symbolic element?
                if al or smt.valid(pc, ule(add(d, bv(n - 1, 64)), bv(en + n - 2, 64)) if en + n >= 2 else FALSE) is not None:
                    dis = band(ule(bv(en, 64), d), ule(d, bv((1 << 64) - n, 64)))
                    if al:
                        v1 = smt.valid(pc, same)
                        if v1 is True:
                            return self._wrap(pend, e[3])
                        if smt.valid(pc, bnot(same)) is True:
                            i -= 1; continue
                        pend.append((same, e[3]))
                        i -= 1; continue
                    if smt.valid(pc, dis) is True:
                        i -= 1; continue
                    if n <= en:
                        # exact containment at a known delta?
                        got = None
                        for delta in range(0, en - n + 1):
                            if smt.valid(pc, eq(d, bv(delta, 64))) is True:
                                got = delta; break
                        if got is not None:
                            v = extract(e[3], 8 * (got + n) - 1, 8 * got)
                            return self._wrap(pend, v)
                    if n > 1:
                        return self._wrap(pend, self.bytes_read(st, a, log[:i + 1], off, n))
                    # single byte: symbolic position inside the entry
                    inside = ult(d, bv(en, 64))
                    val = e[3]
                    byte = None
                    for q in range(en):
                        bq = extract(val, 8 * q + 7, 8 * q)
                        byte = bq if byte is None else ite(eq(d, bv(q, 64)), bq, byte)
                    pend.append((inside, byte))
                    i -= 1; continue
                raise Undecided('alias')
            elif k == 'cpy':
                _, o2, ln, sa, slog, soff = e
                d = sub(off, o2)
                nn = bv(n, 64)
                lenok = ule(nn, ln)
                inside = band(ult(d, ln), ule(add(d, nn), ln), ule(d, add(d, nn)))
                outside = band(bor(ule(ln, d), FALSE), bor(ule(d, bv((1 << 64) - n, 64))))
                ti = self.quick(pc, inside)
                if ti is True:
                    return self._wrap(pend, self.lread(st, sa, slog, add(soff, d), n))
                to = self.quick(pc, outside)
                if to is True:
                    i -= 1; continue
                if n > 1 and smt.valid(pc, bor(inside, outside)) is not True:
                    return self._wrap(pend, self.bytes_read(st, a, log[:i + 1], off, n))
                pend.append((inside, self.lread(st, sa, slog, add(soff, d), n)))
                i -= 1
            elif k == 'set':
                _, o2, ln, b = e
                d = sub(off, o2)
                nn = bv(n, 64)
                inside = band(ult(d, ln), ule(add(d, nn), ln), ule(d, add(d, nn)))
                outside = band(ule(ln, d), ule(d, bv((1 << 64) - n, 64)))
                v = b
                for _ in range(n - 1):
                    v = concat(b, v)
                ti = self.quick(pc, inside)
                if ti is True:
                    return self._wrap(pend, v)
                to = self.quick(pc, outside)
                if to is True:
                    i -= 1; continue
                if n > 1 and smt.valid(pc, bor(inside, outside)) is not True:
                    return self._wrap(pend, self.bytes_read(st, a, log[:i + 1], off, n))
                pend.append((inside, v))
                i -= 1
            else:
                raise Exception(k)
        return self._wrap(pend, rd(a, off, n))

    def quick(self, pc, g):
        if g is TRUE: return True
        if g is FALSE: return False
        return smt.valid(pc, g)

    def sdiff(self, a, b):
        """exact integer interval of a-b for unsigned offsets that do not wrap"""
        pa = exact(a); pb = exact(b)
        if pa is None or pb is None:
            return None
        c = pa[0] - pb[0]
        d = dict(pa[1])
        for k, v in pb[1].items():
            d[k] = d.get(k, 0) - v
        lo = hi = c
        for x, k in d.items():
            if k > 0:
                lo += k * x.lo; hi += k * x.hi
            elif k < 0:
                lo += k * x.hi; hi += k * x.lo
        return lo, hi

    def _wrap(self, pend, v):
        for c, x in reversed(pend):
            v = ite(c, x, v)
        return v

    def bytes_read(self, st, a, log, off, n):
        out = None
        for i in range(n):
            b = self.lread(st, a, log, add(off, bv(i, 64)), 1)
            out = b if out is None else concat(b, out)
        return out

    def store(self, st, addr, val, n, check=True):
        r, off = self.resolve(st, addr, True)
        if r.freed:
            self.oblige(st, 'stale', FALSE, 'write through stale pointer into %s' % r.name)
            raise PathEnd('stale')
        if r.const is not None:
            self.oblige(st, 'const-write', FALSE, 'write to constant ' + r.name)
            raise PathEnd('const')
        if check:
            self.bounds(st, r, off, n, True)
        self.rwrite(st, r, off, val, n)

    def rwrite(self, st, r, off, val, n):
        if val.w == 0:
            val = zext(val, 8 * n)
        if val.w != 8 * n:
            if val.w < 8 * n:
                val = zext(val, 8 * n)
            else:
                raise Exception('store width %d/%d' % (val.w, n))
        if self.on_store is not None:
            self.on_store(self, st, r, off, n, val)
        if st.wlog is not None:
            st.wlog.add((r.name, cv(off) if isc(off) else None, n))
        a, log = st.mem[r.name]
        # drop an overwritten identical cell when everything newer is disjoint from it
        for j in range(len(log) - 1, max(-1, len(log) - 40), -1):
            e = log[j]
            if e[0] != 'w':
                break
            d = sub(e[1], off)
            if not isc(d):
                sg = self.sdiff(e[1], off)
                if sg is not None and (sg[0] >= n or sg[1] <= -e[2]):
                    continue
                break
            dd = scv(d)
            if dd == 0 and e[2] == n:
                log = log[:j] + log[j + 1:]
                break
            if dd >= n or dd + e[2] <= 0:
                continue
            break
        st.mem[r.name] = (a, log + (('w', off, n, val),))

    def mcopy(self, st, dst, src, ln):
        if isc(ln) and cv(ln) == 0:
            return
        rs, so = self.resolve(st, src)
        rd_, do = self.resolve(st, dst)
        if rs.freed or rd_.freed:
            self.oblige(st, 'stale', FALSE, 'copy through stale pointer')
            raise PathEnd('stale')
        if not isc(ln):
            z = smt.valid(st.pc, eq(ln, bv(0, 64)))
            if z is True:
                return
        self.bounds(st, rs, so, ln, False)
        self.bounds(st, rd_, do, ln, True)
        if isc(ln) and cv(ln) <= 64:
            n = cv(ln)
            # copy by words where possible
            vals = []
            i = 0
            while i < n:
                k = 8 if n - i >= 8 else (4 if n - i >= 4 else (2 if n - i >= 2 else 1))
                vals.append((i, k, self.rread(st, rs, add(so, bv(i, 64)), k)))
                i += k
            for i, k, v in vals:
                self.rwrite(st, rd_, add(do, bv(i, 64)), v, k)
            return
        if rs.const is not None:
            if not isc(ln):
                raise Undecided('symbolic copy from constant')
            for i in range(cv(ln)):
                v = self.rread(st, rs, add(so, bv(i, 64)), 1)
                self.rwrite(st, rd_, add(do, bv(i, 64)), v, 1)
            return
        sa, slog = st.mem[rs.name]
        a, log = st.mem[rd_.name]
        if st.wlog is not None:
            st.wlog.add((rd_.name, None, None))
        st.mem[rd_.name] = (a, log + (('cpy', do, ln, sa, slog, so),))

    def mset(self, st, dst, byte, ln):
        if isc(ln) and cv(ln) == 0:
            return
        r, off = self.resolve(st, dst)
        self.bounds(st, r, off, ln, True)
        if isc(ln) and cv(ln) <= 32 and isc(off):
            i = 0
            n = cv(ln)
            while i < n:
                k = 8 if n - i >= 8 else (4 if n - i >= 4 else 1)
                v = byte
                for _ in range(k - 1):
                    v = concat(byte, v)
                self.rwrite(st, r, add(off, bv(i, 64)), v, k)
                i += k
            return
        if st.wlog is not None:
            st.wlog.add((r.name, None, None))
        a, log = st.mem[r.name]
        st.mem[r.name] = (a, log + (('set', off, ln, byte),))

    # ---------------------------------------------------------------- execution
    def gep(self, ty, p, idx):
        off = mulc(sext(idx[0], 64) if idx[0].w < 64 else idx[0], ty.size)
        t = ty
        for ix in idx[1:]:
            if t.k == 'struct':
                i = cv(ix)
                off = add(off, bv(t.offs[i], 64))
                t = t.elems[i]
            elif t.k in ('array', 'vector'):
                t = t.elt
                off = add(off, mulc(sext(ix, 64) if ix.w < 64 else ix, t.size))
            else:
                raise Undecided('gep into ' + t.k)
        return add(p, off)

    def val(self, fr, o):
        if o[0] == 'v':
            return fr.env[o[1]]
        return self.cval(o)

    def start(self, fn, args, st):
        fn.mod.load(fn)
        fr = Frame(fn)
        fr.blk = fn.blocks[0]
        for (pid, ty, nm), a in zip(fn.params, args):
            if isinstance(a, T) and ty.k != 'struct' and a.w != ty.w and not (ty.w == 1 and a.w == 0):
                raise Undecided('argument width of %s in %s: %d for %d' % (nm, fn.name, a.w, ty.w))
            fr.env[pid] = a
        if len(args) != len(fn.params):
            raise Undecided('argument count for ' + fn.name)
        st.frames.append(fr)
        return st

    def enter_catching(self, st, fnp, args, ins, catch):
        """contract helper: call the function pointer; catch(ex, st, terminal) gives the result when it throws"""
        if fnp.op != 'base' or not fnp.args[0].startswith('@'): raise Undecided('call through %s' % show(fnp))
        name = fnp.args[0][1:]
        fn = self.funcs.get(name)
        if fn is None or fn.decl: raise Undecided('no body for ' + name)
        self.inlined.add(name)
        self.start(fn, args, st)
        fr = st.frames[-1]
        fr.ret = ins.id if ins.ty.k != 'void' else None
        fr.catch = catch

    def run(self, st, on_end):
        """explore all paths; on_end(state, kind, value) at each end.  kind: 'ret', or whatever a contract raised."""
        work = [st]
        base_depth = len(st.frames) - 1
        paths = 0
        while work:
            s = work.pop()
            try:
                r = self.path(s, work, base_depth)
            except PathEnd as e:
                continue
            if r is not None:
                paths += 1
                if paths > self.max_paths:
                    raise Undecided('too many paths')
                try:
                    on_end(s, r[0], r[1])
                except PathEnd:
                    pass
        return paths

    def path(self, st, work, base_depth):
        while True:
            self.steps += 1
            if self.steps > self.max_steps:
                raise Undecided('step limit')
            if self.deadline and (self.steps & 255) == 0 and time.time() > self.deadline:
                raise Undecided('time limit')
            fr = st.frames[-1]
            try:
                if st.pend is not None:
                    b, st.pend = st.pend, None
                    self.goto(st, fr, b, work)
                    continue
                ins = fr.blk.ins[fr.idx]
                fr.idx += 1
                r = self.step(st, fr, ins, work, base_depth)
            except Fork as f:
                # re-execute the instruction under both assumptions
                fr.idx -= 1
                a = f.cond
                s2 = None
                if smt.feasible(st.pc, bnot(a)):
                    s2 = st.copy()
                    s2.assume(bnot(a))
                if smt.feasible(st.pc, a):
                    if s2 is not None:
                        work.append(s2)
                    st.assume(a)
                    continue
                if s2 is None:
                    raise PathEnd('infeasible')
                st.pc = s2.pc
                continue
            except Terminal as t:
                if t.kind in ('throw', 'throwobj'):
                    # a frame entered through a catching contract (see enter_catching) receives the exception
                    k = len(st.frames) - 1
                    while k > base_depth and st.frames[k].catch is None: k -= 1
                    if k > base_depth:
                        f = st.frames[k]
                        del st.frames[k:]
                        v = f.catch(self, st, t)
                        if f.ret is not None: st.frames[-1].env[f.ret] = v
                        continue
                return (t.kind, t.value)
            if r is not None:
                return r

    def goto(self, st, fr, blk, work):
        prev = fr.blk.idx
        le = self.loop_exit
        if le is not None and len(st.frames) == le[0] and blk.idx not in le[1].body:
            raise Terminal('exit')
        vals = []
        for p in blk.phis:
            for b, o in p.ops:
                if b == prev:
                    vals.append((p.id, self.val(fr, o)))
                    break
            else:
                raise Undecided('phi')
        for i, v in vals:
            fr.env[i] = v
        src = fr.blk
        fr.blk = blk
        fr.idx = 0
        lp = fr.fn.loops.get(blk.idx)
        if lp is not None:
            back = src.idx in lp.body
            if self.loopmgr is not None:
                r = self.loopmgr(self, st, fr, lp, back, work)
                if r == 'handled':
                    return
            if not back:
                fr.unroll[blk.idx] = 0
            else:
                fr.unroll[blk.idx] = fr.unroll.get(blk.idx, 0) + 1
                if fr.unroll[blk.idx] > self.max_unroll:
                    raise Undecided('loop at %s in %s exceeds %d iterations without invariant' %
                                    (blk.name, self.bname[fr.fn.name], self.max_unroll))

    def branch(self, st, fr, c, bt, bf, work):
        if c is TRUE:
            self.goto(st, fr, bt, work); return
        if c is FALSE:
            self.goto(st, fr, bf, work); return
        ft = smt.feasible(st.pc, c)
        ff = smt.feasible(st.pc, bnot(c))
        if ft and ff:
            s2 = st.copy()
            s2.assume(bnot(c))
            s2.path = st.path + ((fr.fn.name, fr.blk.idx, 0),)
            s2.pend = bf
            work.append(s2)
            st.assume(c)
            self.goto(st, fr, bt, work)
        elif ft:
            self.goto(st, fr, bt, work)
        elif ff:
            self.goto(st, fr, bf, work)
        else:
            raise PathEnd('infeasible')

    def step(self, st, fr, ins, work, base_depth):
        op = ins.op
        env = fr.env
        V = lambda i: self.val(fr, ins.ops[i])
        if op == 'br':
            if ins.ops:
                self.branch(st, fr, V(0), ins.x[0], ins.x[1], work)
            else:
                self.goto(st, fr, ins.x[0], work)
            return
        if op == 'load':
            t = ins.ty
            p = V(0)
            if t.k in ('struct', 'array'):
                env[ins.id] = self.load_agg(st, p, t)
                return
            if t.k == 'vector':
                raise Undecided('vector load')
            n = t.size
            v = self.load(st, p, n)
            if t.k == 'int' and t.w != 8 * n:
                v = trunc(v, t.w) if t.w > 1 else ne(extract(v, 0, 0), bv(0, 1))
            env[ins.id] = v
            return
        if op == 'store':
            v = V(0)
            if isinstance(v, tuple):
                self.store_agg(st, V(1), v, ins.x)
                return
            n = ins.x.size
            self.store(st, V(1), v if v.w else zext(v, 8 * n), n)
            return
        if op == 'gep':
            idx = [self.val(fr, o) for o in ins.ops[1:]]
            env[ins.id] = self.gep(ins.x[0], V(0), idx)
            return
        if op in BINOPS:
            a, b = V(0), V(1)
            if op in ('udiv', 'sdiv', 'urem', 'srem') and self.ub:
                self.oblige(st, 'div-zero', ne(b, bv(0, b.w)), 'divisor of %s is non-zero' % op)
                if op in ('sdiv', 'srem'):
                    self.oblige(st, 'div-overflow', bor(ne(a, bv(1 << (a.w - 1), a.w)), ne(b, bv(-1, b.w))),
                                '%s does not overflow (MIN / -1 traps)' % op)
            if op in ('shl', 'lshr', 'ashr') and a.w and not isc(b) and self.ub and not self.tolerate_ub_shift:
                self.oblige(st, 'shift', ult(b, bv(a.w, a.w)), 'shift amount below width')
            env[ins.id] = BINOPS[op](a, b)
            return
        if op == 'icmp':
            a, b = V(0), V(1)
            env[ins.id] = CMPS[ins.x[0]](a, b) if a.w else self.bcmp(ins.x[0], a, b)
            return
        if op == 'call':
            return self.call(st, fr, ins, work, base_depth)
        if op == 'ret':
            v = V(0) if ins.ops else None
            st.frames.pop()
            if len(st.frames) == base_depth:
                return ('ret', v)
            c = st.frames[-1]
            if fr.ret is not None and v is not None:
                c.env[fr.ret] = v
            return
        if op in ('zext', 'sext', 'trunc'):
            v = V(0)
            if op == 'zext': r = zext(v, ins.ty.w)
            elif op == 'sext': r = sext(v, ins.ty.w)
            else: r = trunc(v, ins.ty.w) if ins.ty.w > 1 else ne(extract(v, 0, 0), bv(0, 1))
            env[ins.id] = r
            return
        if op in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast', 'freeze'):
            v = V(0)
            if isinstance(v, T) and v.w and ins.ty.w and ins.ty.w != v.w:
                v = trunc(v, ins.ty.w) if ins.ty.w < v.w else zext(v, ins.ty.w)
            env[ins.id] = v
            return
        if op == 'select':
            c, a, b = V(0), V(1), V(2)
            if isinstance(a, tuple):
                env[ins.id] = tuple(ite(c, x, y) for x, y in zip(a, b))
            else:
                env[ins.id] = ite(c, a, b)
            return
        if op == 'alloca':
            cnt = V(0)
            size = mulc(zext(cnt, 64), ins.x.size)
            nm = freshname('%s.%s' % (self.bname[fr.fn.name].split('::')[-1], ins.name))
            r = st.new_region(nm, size, 'alloca')
            env[ins.id] = r.base
            return
        if op == 'switch':
            c = V(0)
            dflt, cases = ins.x
            if isc(c):
                for k, b in cases:
                    if k == cv(c):
                        self.goto(st, fr, b, work); return
                self.goto(st, fr, dflt, work); return
            bt = {}
            for k, b in cases:
                bt.setdefault(b.idx, (b, []))[1].append(k)
            rest = []
            opts = []
            for bi, (b, ks) in bt.items():
                cond = bor(*[eq(c, bv(k, c.w)) for k in ks])
                rest.append(bnot(cond))
                if b is not dflt:
                    opts.append((cond, b))
            used = [bnot(o[0]) for o in opts]
            opts.append((band(*used), dflt))
            opts = [o for o in opts if smt.feasible(st.pc, o[0])]
            if not opts:
                raise PathEnd('infeasible')
            for cond, b in opts[1:]:
                s2 = st.copy()
                s2.assume(cond)
                s2.pend = b
                work.append(s2)
            st.assume(opts[0][0])
            self.goto(st, fr, opts[0][1], work)
            return
        if op == 'fcmp':
            a, b = V(0), V(1)
            env[ins.id] = fcmp(ins.x, a, b)
            return
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            env[ins.id] = fbin(op, V(0), V(1)); return
        if op == 'fneg':
            env[ins.id] = fneg(V(0)); return
        if op == 'fptosi' or op == 'fptoui':
            a = V(0)
            if a.w == 80:
                raise Undecided('x87')
            w = ins.ty.w
            if self.ub:
                if op == 'fptosi':
                    lo = fconst(-float(1 << (w - 1)), a.w); hi = fconst(float(1 << (w - 1)), a.w)
                    # x > -2^(w-1)-1 and x < 2^(w-1)
                    if a.w == 64 and w <= 32:
                        g = band(flt(fconst(-float(1 << (w - 1)) - 1, 64), a), flt(a, hi))
                    else:
                        g = band(fle(lo, a), flt(a, hi))
                else:
                    g = band(flt(fconst(-1.0, a.w), a), flt(a, fconst(float(1 << w), a.w)))
                self.oblige(st, 'fp-to-int', g, '%s: value in range of the %d-bit result' % (op, w))
            env[ins.id] = (fptosi if op == 'fptosi' else fptoui)(a, w)
            return
        if op == 'sitofp':
            env[ins.id] = sitofp(V(0), ins.ty.w); return
        if op == 'uitofp':
            env[ins.id] = uitofp(V(0), ins.ty.w); return
        if op == 'fpext':
            if ins.ty.w == 80: raise Undecided('x87')
            env[ins.id] = fpext(V(0), ins.ty.w); return
        if op == 'fptrunc':
            env[ins.id] = fptrunc(V(0), ins.ty.w); return
        if op == 'extractvalue':
            v = V(0)
            for i in ins.x:
                v = v[i]
            env[ins.id] = v
            return
        if op == 'insertvalue':
            def upd(v, ix, x):
                if not ix: return x
                l = list(v); l[ix[0]] = upd(l[ix[0]], ix[1:], x); return tuple(l)
            env[ins.id] = upd(V(0), ins.x, V(1))
            return
        if op == 'unreachable':
            if getattr(self, 'unreachable_ok', False):
                raise PathEnd('unreachable')
            self.oblige(st, 'unreachable', FALSE, 'unreachable code reached')
            raise PathEnd('unreachable')
        if op == 'fence':
            return
        if op == 'cmpxchg':
            p, exp, new = V(0), V(1), V(2)
            n = exp.w // 8
            old = self.load(st, p, n)
            ok = eq(old, exp)
            self.store(st, p, ite(ok, new, old), n)
            env[ins.id] = (old, ok)
            return
        if op == 'atomicrmw':
            p, x = V(0), V(1)
            n = x.w // 8
            old = self.load(st, p, n)
            f = {0: lambda: x, 1: lambda: add(old, x), 2: lambda: sub(old, x), 3: lambda: and_(old, x), 5: lambda: or_(old, x), 6: lambda: xor(old, x)}[ins.x]
            self.store(st, p, f(), n)
            env[ins.id] = old
            return
        raise Undecided('instruction %s' % op)

    def bcmp(self, p, a, b):
        if p == 'eq': return beq(a, b)
        if p == 'ne': return bnot(beq(a, b))
        raise Undecided('icmp i1 ' + p)

    def store_agg(self, st, p, v, ty):
        if ty.k == 'struct':
            for x, e, o in zip(v, ty.elems, ty.offs):
                if isinstance(x, tuple):
                    self.store_agg(st, add(p, bv(o, 64)), x, e)
                else:
                    self.store(st, add(p, bv(o, 64)), x if x.w else zext(x, 8), e.size)
        else:
            raise Undecided('aggregate store')

    # ---------------------------------------------------------------- calls
    def contract_for(self, name):
        d = self.dname.get(name, name)
        c = self.contracts.get(d)
        if c is None:
            c = self.contracts.get(self.bname.get(name, name))
        if c is None:
            c = self.contracts.get(name)
        return c

    def call(self, st, fr, ins, work, base_depth):
        x = ins.x
        if x[0] == 'asm':
            if 'sideeffect ""' in x[1] or 'asm ""' in x[1] or 'mfence' in x[1] or 'pause' in x[1]:
                return
            h = self.contracts.get('asm')
            if h is not None:
                args = [self.val(fr, o) for o in ins.ops]
                v = h(self, st, args, ins)
                if v is not None: fr.env[ins.id] = v
                return
            raise Undecided('inline assembly ' + x[1][:100])
        if x[0] == 'g':
            name = x[1]
        else:
            f = self.val(fr, x)
            while f.op == 'ite':
                t = smt.valid(st.pc, f.args[0])
                if t is True: f = f.args[1]
                elif smt.valid(st.pc, bnot(f.args[0])) is True: f = f.args[2]
                else: raise Fork(f.args[0])
            if f.op == 'base' and f.args[0].startswith('@'):
                name = f.args[0][1:]
            elif f in st.bind and st.bind[f].op == 'base':
                name = st.bind[f].args[0][1:]
            elif self.indirect is not None:
                name = self.indirect(self, st, f, ins)
                if name is None:
                    raise Undecided('indirect call through %s in %s' % (show(f), self.where(st)))
            else:
                raise Undecided('indirect call through %s in %s' % (show(f), self.where(st)))
        args = [self.val(fr, o) for o in ins.ops]
        return self.invoke(st, fr, name, args, ins, work, base_depth)

    def invoke(self, st, fr, name, args, ins, work, base_depth):
        h = self.contract_for(name)
        if h is None and name.startswith('llvm.'):
            h = intrinsic(name)
            if h is None:
                raise Undecided('intrinsic ' + name)
        if h is None and name in LIBC:
            h = LIBC[name]
        if h is not None:
            if not name.startswith('llvm.'):
                k = self.bname.get(name, name)
                self.invoked[k] = self.invoked.get(k, 0) + 1
            r = h(self, st, args, ins)
            if isinstance(r, list):
                # [(state, value), ...]; first may be st itself
                if not r:
                    raise PathEnd('infeasible')
                keep = None
                for s2, v in r:
                    if v is not None:
                        s2.frames[-1].env[ins.id] = v
                    if s2 is st:
                        keep = st
                    else:
                        work.append(s2)
                if keep is None:
                    raise PathEnd('split')
                return
            if r is not None:
                fr.env[ins.id] = r
            return
        fn = self.funcs.get(name)
        if fn is None or fn.decl:
            raise Undecided('no contract for external function %s (in %s)' % (self.dname.get(name, name), self.where(st)))
        if len(st.frames) > 80:
            raise Undecided('inlining depth (%s)' % name)
        if getattr(self, 'noinline', None) and self.noinline(self.bname.get(name, name)):
            raise Undecided('not inlinable: ' + name)
        self.inlined.add(name)
        fn.mod.load(fn)
        nf = Frame(fn)
        nf.blk = fn.blocks[0]
        nf.ret = ins.id if ins.ty.k != 'void' else None
        if len(args) < len(fn.params):
            raise Undecided('argument count')
        for (pid, ty, nm), a in zip(fn.params, args):
            nf.env[pid] = a
        st.frames.append(nf)

class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond

class Terminal(Exception):
    """a contract ends the path (throw, exit...)"""
    def __init__(self, kind, value=None):
        self.kind = kind; self.value = value

BINOPS = {'add': lambda a, b: add(a, b) if a.w else bxor(a, b), 'sub': sub, 'mul': mul, 'udiv': udiv, 'sdiv': sdiv, 'urem': urem, 'srem': srem,
          'shl': shl, 'lshr': lshr, 'ashr': ashr, 'and': and_, 'or': or_, 'xor': xor}
CMPS = {'eq': eq, 'ne': ne, 'ugt': ugt, 'uge': uge, 'ult': ult, 'ule': ule, 'sgt': sgt, 'sge': sge, 'slt': slt, 'sle': sle}

def fcmp(p, a, b):
    un = funo(a, b)
    if p == 'false': return FALSE
    if p == 'true': return TRUE
    if p == 'ord': return bnot(un)
    if p == 'uno': return un
    base_ = {'eq': feq, 'gt': lambda x, y: flt(y, x), 'ge': lambda x, y: fle(y, x), 'lt': flt, 'le': fle}
    if p == 'one': return band(bnot(un), bnot(feq(a, b)))
    if p == 'une': return bnot(feq(a, b))
    f = base_[p[1:]](a, b)
    return f if p[0] == 'o' else bor(un, f)

def strip_parens(x):
    out = ''; d = 0
    for ch in x:
        if ch == '(': d += 1
        elif ch == ')': d -= 1
        elif d == 0: out += ch
    return out

def basename(d):
    """qualified name without parameter list (keeps template arguments and anonymous namespaces)"""
    depth = 0
    i = 0
    out = d
    # find the '(' that opens the parameter list: last top-level '(' before optional ' const'
    pos = None
    ang = 0; par = 0
    j = 0
    while j < len(d):
        ch = d[j]
        if d.startswith('(anonymous namespace)', j):
            j += len('(anonymous namespace)'); continue
        if d.startswith('operator()', j):
            j += len('operator()'); continue
        if d.startswith('operator<<', j) or d.startswith('operator>>', j):
            j += len('operator<<'); continue
        if d.startswith('operator->', j):
            j += len('operator->'); continue
        if d.startswith('operator<', j) or d.startswith('operator>', j):
            j += len('operator<'); continue
        if ch == '<': ang += 1
        elif ch == '>': ang -= 1
        elif ch == '(' and ang == 0:
            pos = j; break
        j += 1
    s = d if pos is None else d[:pos]
    # strip return type of templates: cut at last top-level space
    ang = 0; cut = -1
    j = 0
    while j < len(s):
        if s.startswith('(anonymous namespace)', j):
            j += len('(anonymous namespace)'); continue
        if s.startswith('operator ', j):
            break
        if s[j] == '<': ang += 1
        elif s[j] == '>': ang -= 1
        elif s[j] == ' ' and ang == 0: cut = j
        j += 1
    return s[cut + 1:]

# ---------------------------------------------------------------- intrinsics and libc
def _memcpy(ex, st, args, ins):
    ex.mcopy(st, args[0], args[1], zext(args[2], 64))
    return None

def _memset(ex, st, args, ins):
    ex.mset(st, args[0], trunc(args[1], 8) if args[1].w > 8 else args[1], zext(args[2], 64))
    return None

def _ret0(ex, st, args, ins):
    return args[0]

def _nop(ex, st, args, ins):
    return None

def intrinsic(name):
    n = name[5:]
    if n.startswith('memcpy') or n.startswith('memmove'):
        return _memcpy
    if n.startswith('memset'):
        return _memset
    if n.startswith(('lifetime', 'dbg', 'assume', 'stackrestore', 'va_end', 'prefetch', 'experimental.noalias', 'donothing')):
        return _nop
    if n.startswith('stacksave'):
        return lambda ex, st, a, i: bv(0, 64)
    if n.startswith('expect'):
        return _ret0
    if n.startswith('fabs'):
        return lambda ex, st, a, i: and_(a[0], bv(mask(a[0].w - 1), a[0].w))
    if n.startswith('bswap'):
        def bs(ex, st, a, i):
            v = a[0]; out = None
            for k in range(v.w // 8):
                b = extract(v, 8 * k + 7, 8 * k)
                out = b if out is None else concat(out, b)
            return out
        return bs
    if n.startswith('smax'):
        return lambda ex, st, a, i: ite(slt(a[0], a[1]), a[1], a[0])
    if n.startswith('smin'):
        return lambda ex, st, a, i: ite(slt(a[0], a[1]), a[0], a[1])
    if n.startswith('umax'):
        return lambda ex, st, a, i: ite(ult(a[0], a[1]), a[1], a[0])
    if n.startswith('umin'):
        return lambda ex, st, a, i: ite(ult(a[0], a[1]), a[0], a[1])
    if n.startswith('abs.'):
        return lambda ex, st, a, i: ite(slt(a[0], bv(0, a[0].w)), neg(a[0]), a[0])
    if n.startswith('usub.sat'):
        return lambda ex, st, a, i: ite(ult(a[0], a[1]), bv(0, a[0].w), sub(a[0], a[1]))
    if n.startswith('fshl'):
        def fshl(ex, st, a, i):
            w = a[0].w
            if not isc(a[2]): raise Undecided('fshl')
            k = cv(a[2]) % w
            return or_(shl(a[0], bv(k, w)), lshr(a[1], bv(w - k, w))) if k else a[0]
        return fshl
    if n.startswith('umul.with.overflow'):
        def um(ex, st, a, i):
            w = a[0].w
            p = mul(zext(a[0], 2 * w), zext(a[1], 2 * w))
            return (trunc(p, w), ne(extract(p, 2 * w - 1, w), bv(0, w)))
        return um
    if n.startswith('trap'):
        def trap(ex, st, a, i):
            ex.oblige(st, 'trap', FALSE, 'trap reached')
            raise PathEnd('trap')
        return trap
    return None

def _abort(ex, st, args, ins):
    ex.oblige(st, 'abort', FALSE, 'abort() reached')
    raise PathEnd('abort')

def _fmod(w):
    return lambda ex, st, a, i: fbin('frem', a[0], a[1])

LIBC = {'abort': _abort, 'fmod': _fmod(64), 'fmodf': _fmod(32), 'memcpy': lambda ex, st, a, i: (_memcpy(ex, st, a, i), a[0])[1],
        'memmove': lambda ex, st, a, i: (_memcpy(ex, st, a, i), a[0])[1],
        'memset': lambda ex, st, a, i: (_memset(ex, st, a, i), a[0])[1]}
