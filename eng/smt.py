"""SMT back end: z3 (primary), cvc5 (second opinion on 'unknown')."""
import time, os
import z3
from terms import *
import terms as TM

STATS = {'queries': 0, 'time': 0.0, 'z3': 0, 'cvc5': 0, 'unknown': 0, 'trivial': 0, 'max': 0.0}
TIMEOUT = int(os.environ.get('VERIF_SMT_MS', '20000'))

_arrsort = z3.ArraySort(z3.BitVecSort(64), z3.BitVecSort(8))
_F32 = z3.Float32(); _F64 = z3.Float64()
_RNE = z3.RNE(); _RTZ = z3.RTZ()
_ufs = {}

def fsort(w):
    return _F32 if w == 32 else _F64

def tz3(t):
    """term -> z3 expression (memoised on the term)"""
    if t.z is not None:
        return t.z
    stack = [t]
    while stack:
        x = stack[-1]
        if x.z is not None:
            stack.pop(); continue
        todo = [c for c in children(x) if c.z is None]
        if todo:
            stack.extend(todo); continue
        stack.pop()
        x.z = _conv(x)
    return t.z

def _conv(t):
    op = t.op; w = t.w
    if op == 'c':
        return z3.BoolVal(bool(t.args[0])) if w == 0 else z3.BitVecVal(t.args[0], w)
    if op in ('v', 'base'):
        if w == 0:
            return z3.Bool(t.args[0])
        return z3.BitVec(('&' if op == 'base' else '') + t.args[0], w)
    if op == 'arr':
        return z3.Array(t.args[0], z3.BitVecSort(64), z3.BitVecSort(8))
    ch = [c.z for c in children(t)]
    if op == 'lin':
        r = None
        c, parts = t.args
        half = 1 << (w - 1)
        for (k, _), z in zip(parts, ch):
            if k == 1:
                m = z
            elif k == mask(w):
                m = -z
            elif k & (k - 1) == 0:
                m = z << (k.bit_length() - 1)
            else:
                m = z * z3.BitVecVal(k, w)
            r = m if r is None else r + m
        if c:
            r = r + z3.BitVecVal(c, w)
        return r
    if op == 'mul': return ch[0] * ch[1]
    if op == 'udiv': return z3.UDiv(ch[0], ch[1])
    if op == 'urem': return z3.URem(ch[0], ch[1])
    if op == 'sdiv': return ch[0] / ch[1]
    if op == 'srem': return z3.SRem(ch[0], ch[1])
    if op == 'and': return ch[0] & ch[1]
    if op == 'or': return ch[0] | ch[1]
    if op == 'xor': return ch[0] ^ ch[1]
    if op == 'shl': return ch[0] << ch[1]
    if op == 'lshr': return z3.LShR(ch[0], ch[1])
    if op == 'ashr': return ch[0] >> ch[1]
    if op == 'zext': return z3.ZeroExt(w - t.args[0].w, ch[0])
    if op == 'sext': return z3.SignExt(w - t.args[0].w, ch[0])
    if op == 'extract': return z3.Extract(t.args[1], t.args[2], ch[0])
    if op == 'concat': return z3.Concat(ch[0], ch[1])
    if op == 'rd':
        a, off = ch
        n = t.args[2]
        bs = []
        for i in range(n):
            o = add(t.args[1], bv(i, 64))
            bs.append(z3.Select(a, tz3(o)))
        return bs[0] if n == 1 else z3.Concat(*reversed(bs))
    if op == 'uf':
        args = t.args[1:]
        key = (t.args[0], tuple(a.w for a in args), w)
        f = _ufs.get(key)
        if f is None:
            srt = lambda ww: z3.BoolSort() if ww == 0 else (_arrsort if ww == -1 else z3.BitVecSort(ww))
            f = z3.Function(t.args[0] + '/%d' % len(_ufs), *([srt(a.w) for a in args] + [srt(w)]))
            _ufs[key] = f
        return f(*ch)
    if op == 'not': return z3.Not(ch[0])
    if op == 'band': return z3.And(*ch)
    if op == 'bor': return z3.Or(*ch)
    if op == 'beq': return ch[0] == ch[1]
    if op == 'ite': return z3.If(ch[0], ch[1], ch[2])
    if op == 'eq': return ch[0] == ch[1]
    if op == 'ult': return z3.ULT(ch[0], ch[1])
    if op == 'ule': return z3.ULE(ch[0], ch[1])
    if op == 'slt': return ch[0] < ch[1]
    if op == 'sle': return ch[0] <= ch[1]
    if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
        a = z3.fpBVToFP(ch[0], fsort(w)); b = z3.fpBVToFP(ch[1], fsort(w))
        f = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op]
        return z3.fpToIEEEBV(f(_RNE, a, b))
    if op == 'frem':
        key = ('frem', w)
        f = _ufs.get(key)
        if f is None:
            f = _ufs[key] = z3.Function('frem%d' % w, z3.BitVecSort(w), z3.BitVecSort(w), z3.BitVecSort(w))
        return f(*ch)
    if op == 'fptosi':
        return z3.fpToSBV(_RTZ, z3.fpBVToFP(ch[0], fsort(t.args[0].w)), z3.BitVecSort(w))
    if op == 'fptoui':
        return z3.fpToUBV(_RTZ, z3.fpBVToFP(ch[0], fsort(t.args[0].w)), z3.BitVecSort(w))
    if op == 'sitofp':
        return z3.fpToIEEEBV(z3.fpSignedToFP(_RNE, ch[0], fsort(w)))
    if op == 'uitofp':
        return z3.fpToIEEEBV(z3.fpUnsignedToFP(_RNE, ch[0], fsort(w)))
    if ABSTRACT_FP and op in ('fpext', 'fptrunc'):
        # conversions as uninterpreted functions: what is proved holds for any conversion
        key = (op, t.args[0].w, w)
        f = _ufs.get(key)
        if f is None: f = _ufs[key] = z3.Function('%s%d_%d' % key, z3.BitVecSort(t.args[0].w), z3.BitVecSort(w))
        return f(ch[0])
    if op == 'fpext' or op == 'fptrunc':
        return z3.fpToIEEEBV(z3.fpFPToFP(_RNE, z3.fpBVToFP(ch[0], fsort(t.args[0].w)), fsort(w)))
    raise Exception('conv ' + op)

def range_axioms(leaves, terms):
    out = []
    for v in leaves:
        if isinstance(v, tuple) or v.w <= 0:
            continue
        if v.lo > 0 or v.hi < mask(v.w):
            z = tz3(v)
            if v.lo > 0:
                out.append(z3.ULE(z3.BitVecVal(v.lo, v.w), z))
            if v.hi < mask(v.w):
                out.append(z3.ULE(z, z3.BitVecVal(v.hi, v.w)))
            if v.op == 'base':
                out.append(z3.Extract(3, 0, z) == 0)
    return out

def atoms_with_range(terms):
    """rd/uf atoms whose declared range is narrower than their sort"""
    seen = set(); out = []
    st = list(terms)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ('rd', 'uf') and x.w > 0 and (x.lo > 0 or x.hi < mask(x.w)):
            out.append(x)
        st.extend(children(x))
    return out

def axioms(terms):
    leaves = set()
    for t in terms:
        leaves |= free(t)
    ax = range_axioms(leaves, terms)
    for x in atoms_with_range(terms):
        z = tz3(x)
        if x.lo > 0:
            ax.append(z3.ULE(z3.BitVecVal(x.lo, x.w), z))
        if x.hi < mask(x.w):
            ax.append(z3.ULE(z, z3.BitVecVal(x.hi, x.w)))
    return ax

_cache = {}
ABSTRACT_FP = False
_models = []      # recent (conjuncts, model): a model of more than what is asked settles a query
NMODELS = 8

def slice_pc(pc, goal):
    """cone of influence"""
    want = set(free(goal))
    rest = [(c, free(c)) for c in pc]
    out = []
    changed = True
    while changed:
        changed = False
        nr = []
        for c, f in rest:
            if not f or f & want:
                out.append(c); want |= f; changed = True
            else:
                nr.append((c, f))
        rest = nr
    return out

class Result(object):
    __slots__ = ('r', 'model')
    def __init__(self, r, model=None):
        self.r = r; self.model = model

def _has_fp(ts):
    seen = set(); st = list(ts)
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fptosi', 'fptoui', 'sitofp', 'uitofp') or (x.op in ('fpext', 'fptrunc') and not ABSTRACT_FP):
            return True
        st.extend(children(x))
    return False

def check(pc, want_model=False, timeout=None, sliced=None, seed=None):
    """satisfiability of the conjunction; -> ('sat'|'unsat'|'unknown', model)"""
    ts = []
    for c in pc:
        if c is FALSE:
            return 'unsat', None
        if c is TRUE:
            continue
        ts.append(c)
    if not ts:
        if want_model:
            s = z3.Solver(); s.check()
            return 'sat', s.model()
        return 'sat', None
    key = frozenset(t.id for t in ts)
    if not want_model:
        r = _cache.get(key)
        if r is not None:
            return r, None
        last = ts[-1]
        k0 = key - {last.id}
        for i, (ids, m) in enumerate(_models):
            if k0 <= ids and z3.is_true(m.eval(tz3(last), model_completion=True)) and all(z3.is_true(m.eval(a, model_completion=True)) for a in axioms([last])):
                if i: _models.insert(0, _models.pop(i))
                STATS['bymodel'] = STATS.get('bymodel', 0) + 1
                _cache[key] = 'sat'
                return 'sat', None
    t0 = time.time()
    STATS['queries'] += 1
    s = z3.SolverFor('QF_AUFBV') if not _has_fp(ts) else z3.Solver()
    s.set('timeout', timeout or TIMEOUT)
    if seed is not None:
        s.set('random_seed', seed)
    for a in axioms(ts):
        s.add(a)
    for t in ts:
        s.add(tz3(t))
    r = str(s.check())
    STATS['z3'] += 1
    m = None
    if r == 'sat':
        m = s.model()
        _models.insert(0, (key, m)); del _models[NMODELS:]
    if r == 'unknown':
        r2 = cvc5_check(s, timeout or TIMEOUT)
        if r2 in ('sat', 'unsat') and not (r2 == 'sat' and want_model):
            r = r2
            STATS['cvc5'] += 1
        else:
            STATS['unknown'] += 1
    dt = time.time() - t0
    STATS['time'] += dt
    if dt > STATS['max']:
        STATS['max'] = dt
    if r != 'unknown':
        _cache[key] = r
    return r, m

def cvc5_check(s, timeout):
    import subprocess, tempfile
    txt = s.to_smt2()
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % timeout, '-'],
                           input='(set-logic ALL)\n' + txt, capture_output=True, text=True,
                           timeout=timeout / 1000.0 + 5)
        o = p.stdout.strip().split('\n')[0] if p.stdout.strip() else 'unknown'
        return o if o in ('sat', 'unsat') else 'unknown'
    except Exception:
        return 'unknown'

RETRY = int(os.environ.get('VERIF_SMT_RETRY_MS', '90000'))

def valid(pc, goal, timeout=None, retry=True):
    """pc |= goal ? -> True / False / None(unknown)"""
    if goal is TRUE:
        STATS['trivial'] += 1
        return True
    for c in pc:
        if c is goal:
            STATS['trivial'] += 1
            return True
    ng = bnot(goal)
    q = slice_pc(pc, goal) + [ng]
    r, _ = check(q, timeout=timeout)
    if r == 'unknown' and retry and timeout is None:
        STATS['retried'] = STATS.get('retried', 0) + 1
        r, _ = check(q, timeout=RETRY, seed=7)
    if r == 'unsat':
        return True
    if r == 'sat':
        return False
    return None

def feasible(pc, c=None):
    """may the path continue? unknown counts as feasible"""
    if c is not None:
        if c is FALSE: return False
        if c is TRUE: return True
        r, _ = check(slice_pc(pc, c) + [c], timeout=5000)
    else:
        r, _ = check(pc, timeout=5000)
    return r != 'unsat'

def mval(m, t):
    """concrete value of term in model"""
    v = m.eval(tz3(t), model_completion=True)
    if t.w == 0:
        return z3.is_true(v)
    return v.as_long()
