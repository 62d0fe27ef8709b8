"""Hash-consed term layer: bit-vectors (w>0), booleans (w==0), byte arrays (w==-1).

Every constructor simplifies, so that most obligations become syntactically true
and only the hard residue is handed to the SMT back ends (smt.py).
Ranges declared on variables are *preconditions* of the contract that declared them.
"""
import struct, math

class T(object):
    __slots__ = ('op', 'args', 'w', 'id', 'z', 'lo', 'hi', 'vars_', 'tz_')
    def __repr__(self):
        return show(self)

_tab = {}
_n = [0]

def mk(op, args, w, lo=None, hi=None):
    key = (op, args, w)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op; t.args = args; t.w = w; t.z = None; t.vars_ = None; t.tz_ = None
        t.id = _n[0]; _n[0] += 1
        if w > 0:
            if lo is None:
                lo = 0
            if hi is None:
                hi = (1 << w) - 1
        t.lo = lo; t.hi = hi
        _tab[key] = t
    return t

def mask(w):
    return (1 << w) - 1

_consts = {}
def bv(v, w):
    v &= (1 << w) - 1
    k = (v, w)
    t = _consts.get(k)
    if t is None:
        t = mk('c', (v,), w, v, v)
        _consts[k] = t
    return t

TRUE = mk('c', (1,), 0)
FALSE = mk('c', (0,), 0)
def boolc(b):
    return TRUE if b else FALSE

def isc(t):
    return t.op == 'c'

def cv(t):
    return t.args[0]

def scv(t):
    v = t.args[0]
    return v - (1 << t.w) if v >> (t.w - 1) else v

def sval(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v

# variables -------------------------------------------------------------
VARS = {}
def var(name, w, lo=None, hi=None):
    t = mk('v', (name,), w, lo, hi)
    if lo is not None and (t.lo != lo or (hi is not None and t.hi != hi)):
        raise Exception('variable %s redeclared with another range' % name)
    VARS[name] = t
    return t

def bvar(name):
    return mk('v', (name,), 0)

def base(name):
    """address of an object: non-null, 16-aligned, below 2^47"""
    return mk('base', (name,), 64, 1 << 16, (1 << 47) - 16)

_fresh = [0]
def fresh(prefix, w, lo=None, hi=None):
    _fresh[0] += 1
    return var('%s!%d' % (prefix, _fresh[0]), w, lo, hi)

def freshname(prefix):
    _fresh[0] += 1
    return '%s!%d' % (prefix, _fresh[0])

def arr(name):
    return mk('arr', (name,), -1)

# ranges ----------------------------------------------------------------
def rng(t):
    return t.lo, t.hi

def srng(t):
    w = t.w
    h = 1 << (w - 1)
    if t.hi < h:
        return t.lo, t.hi
    if t.lo >= h:
        return t.lo - (1 << w), t.hi - (1 << w)
    if t.op == 'sext':
        return srng(t.args[0])
    if t.op == 'lin':
        return -h, h - 1
    return -h, h - 1

def tz(t):
    """known trailing zero bits"""
    r = t.tz_
    if r is not None:
        return r
    op = t.op
    if op == 'c':
        v = t.args[0]
        r = t.w if v == 0 else (v & -v).bit_length() - 1
    elif op == 'base':
        r = 4
    elif op == 'lin':
        c, parts = t.args
        r = t.w if c == 0 else (c & -c).bit_length() - 1
        for k, a in parts:
            r = min(r, (k & -k).bit_length() - 1 + tz(a))
        r = min(r, t.w)
    elif op in ('zext', 'sext'):
        r = tz(t.args[0])
        if r == t.args[0].w:
            r = t.w
    elif op == 'ite':
        r = min(tz(t.args[1]), tz(t.args[2]))
    elif op == 'and':
        r = max(tz(t.args[0]), tz(t.args[1]))
    elif op in ('or', 'xor'):
        r = min(tz(t.args[0]), tz(t.args[1]))
    elif op == 'shl' and isc(t.args[1]):
        r = min(t.w, tz(t.args[0]) + cv(t.args[1]))
    elif op == 'shl':
        r = tz(t.args[0])
    elif op == 'mul':
        r = min(t.w, tz(t.args[0]) + tz(t.args[1]))
    else:
        r = 0
    t.tz_ = r
    return r

# linear ----------------------------------------------------------------
def lin_parts(t):
    """-> (const, {atom: coef})"""
    if t.op == 'c':
        return t.args[0], {}
    if t.op == 'lin':
        return t.args[0], {a: k for k, a in t.args[1]}
    return 0, {t: 1}

def _mklin(c, d, w):
    m = (1 << w) - 1
    c &= m
    parts = []
    for a, k in d.items():
        k &= m
        if k:
            parts.append((k, a))
    if not parts:
        return bv(c, w)
    if c == 0 and len(parts) == 1 and parts[0][0] == 1:
        return parts[0][1]
    parts.sort(key=lambda p: p[1].id)
    # ranges
    lo = hi = c
    ok = True
    half = 1 << (w - 1)
    for k, a in parts:
        if k < half:
            lo += k * a.lo; hi += k * a.hi
        else:
            k2 = k - (1 << w)
            lo += k2 * a.hi; hi += k2 * a.lo
    if c >= half and lo > m:
        lo -= 1 << w; hi -= 1 << w
    elif c >= half and lo >= (1 << w) - half and hi > m and lo - (1 << w) >= 0:
        lo -= 1 << w; hi -= 1 << w
    # try shifting by multiples of 2^w so that [lo,hi] fits
    q = lo >> w
    lo -= q << w; hi -= q << w
    if hi > m:
        lo, hi = 0, m
    return mk('lin', (c, tuple(parts)), w, lo, hi)

def add(a, b):
    if a.op == 'c' and b.op == 'c':
        return bv(a.args[0] + b.args[0], a.w)
    if b.op == 'c' and b.args[0] == 0:
        return a
    if a.op == 'c' and a.args[0] == 0:
        return b
    # push constants into ites with constant leaves
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    if len(da) < len(db):
        da, db = db, da
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + v
    return _mklin(ca + cb, d, a.w)

def neg(a):
    return mulc(a, -1)

def sub(a, b):
    return add(a, mulc(b, -1))

def mulc(a, k):
    w = a.w
    k &= mask(w)
    if k == 1:
        return a
    c, d = lin_parts(a)
    return _mklin(c * k, {x: v * k for x, v in d.items()}, w)

def mul(a, b):
    if a.op == 'c':
        return mulc(b, a.args[0])
    if b.op == 'c':
        return mulc(a, b.args[0])
    if a.id > b.id:
        a, b = b, a
    hi = a.hi * b.hi
    if hi > mask(a.w):
        return mk('mul', (a, b), a.w)
    return mk('mul', (a, b), a.w, a.lo * b.lo, hi)

def udiv(a, b):
    if isc(b) and cv(b):
        if isc(a):
            return bv(cv(a) // cv(b), a.w)
        if cv(b) == 1:
            return a
        d = cv(b)
        if d & (d - 1) == 0:
            return lshr(a, bv(d.bit_length() - 1, a.w))
        return mk('udiv', (a, b), a.w, a.lo // d, a.hi // d)
    return mk('udiv', (a, b), a.w)

def urem(a, b):
    if isc(b) and cv(b):
        if isc(a):
            return bv(cv(a) % cv(b), a.w)
        d = cv(b)
        if d & (d - 1) == 0:
            return and_(a, bv(d - 1, a.w))
        if a.hi < d:
            return a
        return mk('urem', (a, b), a.w, 0, d - 1)
    return mk('urem', (a, b), a.w)

def sdiv(a, b):
    if isc(a) and isc(b) and cv(b):
        x, y = scv(a), scv(b)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return bv(q, a.w)
    if isc(b) and cv(b) == 1:
        return a
    if isc(b) and scv(b) > 0 and a.hi < (1 << (a.w - 1)):
        return udiv(a, b)
    return mk('sdiv', (a, b), a.w)

def srem(a, b):
    if isc(a) and isc(b) and cv(b):
        x, y = scv(a), scv(b)
        r = abs(x) % abs(y)
        if x < 0:
            r = -r
        return bv(r, a.w)
    if isc(b) and scv(b) > 0 and a.hi < (1 << (a.w - 1)):
        return urem(a, b)
    return mk('srem', (a, b), a.w)

# bitwise -----------------------------------------------------------------
def and_(a, b):
    w = a.w
    if w == 0:
        return band(a, b)
    if isc(a):
        a, b = b, a
    if isc(a):
        return bv(cv(a) & cv(b), w)
    if a is b:
        return a
    if isc(b):
        m = cv(b)
        if m == 0:
            return b
        if m == mask(w):
            return a
        if a.op == 'and' and isc(a.args[1]):
            return and_(a.args[0], bv(m & cv(a.args[1]), w))
        # high mask: aligned already?
        inv = mask(w) & ~m
        if inv & (inv + 1) == 0:     # m = ~(2^k-1)
            k = inv.bit_length()
            if tz(a) >= k:
                return a
            if a.op == 'lin':
                # (x + c) & ~7 where x aligned: drop low bits of c
                c, parts = a.args
                if all(min(w, (kk & -kk).bit_length() - 1 + tz(x)) >= k for kk, x in parts):
                    return _mklin(c & m, {x: kk for kk, x in parts}, w)
        if m & (m + 1) == 0:         # low mask 2^k-1
            k = m.bit_length()
            if a.hi <= m:
                return a
            if k < w:
                return zext(extract(a, k - 1, 0), w)
        if a.hi <= m and (m & (m + 1)) == 0:
            return a
        # single contiguous field in the middle
        t = (m & -m).bit_length() - 1
        mm = m >> t
        if mm & (mm + 1) == 0:
            k = mm.bit_length()
            return mulc(zext(extract(a, t + k - 1, t), w), 1 << t)
        return mk('and', (a, b), w, 0, min(a.hi, m))
    if a.id > b.id:
        a, b = b, a
    return mk('and', (a, b), w, 0, min(a.hi, b.hi))

def or_(a, b):
    w = a.w
    if w == 0:
        return bor(a, b)
    if isc(a):
        a, b = b, a
    if isc(a):
        return bv(cv(a) | cv(b), w)
    if a is b:
        return a
    if isc(b):
        if cv(b) == 0:
            return a
        if cv(b) == mask(w):
            return b
    # disjoint bits -> add
    if disjoint(a, b):
        return tile(add(a, b))
    if a.id > b.id:
        a, b = b, a
    n = max(a.hi.bit_length(), b.hi.bit_length())
    return mk('or', (a, b), w, max(a.lo, b.lo), mask(n) if n else 0)

def tile(r):
    """a sum of zero-extended pieces that tile the low bits without gap or overlap -> concatenation"""
    if r.op != 'lin' or r.args[0] or len(r.args[1]) < 2:
        return r
    ps = []
    for k, x in r.args[1]:
        if k & (k - 1):
            return r
        y = x.args[0] if x.op == 'zext' else x
        ps.append((k.bit_length() - 1, y))
    ps.sort(key=lambda q: q[0])
    at = 0
    for k, y in ps:
        if k != at:
            return r
        at += y.w
    if at > r.w:
        return r
    out = ps[-1][1]
    for k, y in reversed(ps[:-1]):
        out = concat(out, y)
    return zext(out, r.w)

def bitmask(t):
    """superset of possibly-set bits"""
    op = t.op
    w = t.w
    if op == 'c':
        return t.args[0]
    if op == 'zext':
        return bitmask(t.args[0])
    if op == 'and':
        return bitmask(t.args[0]) & bitmask(t.args[1])
    if op in ('or', 'xor'):
        return bitmask(t.args[0]) | bitmask(t.args[1])
    if op == 'ite':
        return bitmask(t.args[1]) | bitmask(t.args[2])
    if op == 'concat':
        return (bitmask(t.args[0]) << t.args[1].w) | bitmask(t.args[1])
    if op == 'lin':
        c, parts = t.args
        acc = c
        for k, a in parts:
            if k & (k - 1):
                acc = None; break
            m = bitmask(a) << (k.bit_length() - 1)
            if m >> w or (acc & m):
                acc = None; break
            acc |= m
        if acc is not None:
            return acc
    m = mask(t.hi.bit_length()) if t.hi else 0
    z = tz(t)
    return m & ~mask(z)

def disjoint(a, b):
    return (bitmask(a) & bitmask(b)) == 0

def xor(a, b):
    w = a.w
    if w == 0:
        return bxor(a, b)
    if isc(a):
        a, b = b, a
    if isc(a):
        return bv(cv(a) ^ cv(b), w)
    if a is b:
        return bv(0, w)
    if isc(b):
        if cv(b) == 0:
            return a
        if cv(b) == mask(w):
            return sub(b, a)          # ~a == -1 - a
        if a.op == 'xor' and isc(a.args[1]):
            return xor(a.args[0], bv(cv(b) ^ cv(a.args[1]), w))
        return mk('xor', (a, b), w)
    if a.id > b.id:
        a, b = b, a
    n = max(a.hi.bit_length(), b.hi.bit_length())
    return mk('xor', (a, b), w, 0, mask(n) if n else 0)

def bnot_bits(a):
    return xor(a, bv(mask(a.w), a.w))

def shl(a, b):
    w = a.w
    if isc(b):
        k = cv(b)
        if k >= w:
            return bv(0, w)
        return mulc(a, 1 << k)
    if isc(a) and cv(a) == 0:
        return a
    return mk('shl', (a, b), w)

def lshr(a, b):
    w = a.w
    if isc(b):
        k = cv(b)
        if k == 0:
            return a
        if k >= w:
            return bv(0, w)
        if isc(a):
            return bv(cv(a) >> k, w)
        return zext(extract(a, w - 1, k), w)
    return mk('lshr', (a, b), w, 0, a.hi)

def ashr(a, b):
    w = a.w
    if isc(b):
        k = min(cv(b), w - 1)
        if k == 0:
            return a
        if isc(a):
            return bv(scv(a) >> k, w)
        return sext(extract(a, w - 1, k), w)
    return mk('ashr', (a, b), w)

# width changes -------------------------------------------------------------
def zext(a, w):
    if a.w == w:
        return a
    if a.w == 0:
        return ite(a, bv(1, w), bv(0, w))
    if isc(a):
        return bv(cv(a), w)
    if a.op == 'zext':
        return zext(a.args[0], w)
    if a.op == 'ite' and isc(a.args[1]) and isc(a.args[2]):
        return ite(a.args[0], zext(a.args[1], w), zext(a.args[2], w))
    if a.op == 'lin':
        r = _ext_lin(a, w, False)
        if r is not None:
            return r
    if a.op == 'mul':
        x, y = a.args
        if x.hi * y.hi <= mask(a.w):
            return mul(zext(x, w), zext(y, w))
    if a.op == 'concat' and isc(a.args[0]) and cv(a.args[0]) == 0:
        return zext(a.args[1], w)
    return mk('zext', (a,), w, a.lo, a.hi)

def _ext_lin(a, w, signed):
    c, parts = a.args
    ww = a.w
    half = 1 << (ww - 1)
    full = 1 << ww
    # all coefficients as signed; compute the exact integer range
    for cc in ((c, c - full) if c else (c,)):
        lo = hi = cc
        for k, x in parts:
            k2 = k - full if k >= half else k
            if signed:
                xl, xh = srng(x)
            else:
                xl, xh = x.lo, x.hi
            if k2 >= 0:
                lo += k2 * xl; hi += k2 * xh
            else:
                lo += k2 * xh; hi += k2 * xl
        if signed:
            if lo >= -half and hi < half:
                d = {}
                for k, x in parts:
                    k2 = k - full if k >= half else k
                    e = sext(x, w)
                    ec, ed = lin_parts(e)
                    cc += k2 * ec
                    for y, q in ed.items():
                        d[y] = d.get(y, 0) + q * k2
                return _mklin(cc, d, w)
        else:
            if lo >= 0 and hi < full:
                d = {}
                for k, x in parts:
                    k2 = k - full if k >= half else k
                    e = zext(x, w)
                    ec, ed = lin_parts(e)
                    cc += k2 * ec
                    for y, q in ed.items():
                        d[y] = d.get(y, 0) + q * k2
                return _mklin(cc, d, w)
    return None

def sext(a, w):
    if a.w == w:
        return a
    if a.w == 0:
        return ite(a, bv(mask(w), w), bv(0, w))
    if isc(a):
        return bv(scv(a), w)
    if a.hi < (1 << (a.w - 1)):
        return zext(a, w)
    if a.op == 'sext':
        return sext(a.args[0], w)
    if a.op == 'zext':
        return zext(a.args[0], w)
    if a.op == 'lin':
        r = _ext_lin(a, w, True)
        if r is not None:
            return r
    if a.op == 'ite' and isc(a.args[1]) and isc(a.args[2]):
        return ite(a.args[0], sext(a.args[1], w), sext(a.args[2], w))
    return mk('sext', (a,), w)

def trunc(a, w):
    if w == 0:
        return ne(extract(a, 0, 0), bv(0, 1))
    if a.w == w:
        return a
    return extract(a, w - 1, 0)

def extract(a, hi, lo):
    n = hi - lo + 1
    if n == a.w:
        return a
    op = a.op
    if op == 'c':
        return bv(cv(a) >> lo, n)
    if op == 'extract':
        return extract(a.args[0], a.args[2] + hi, a.args[2] + lo)
    if op == 'zext' or op == 'sext':
        x = a.args[0]
        if hi < x.w:
            return extract(x, hi, lo)
        if op == 'zext':
            if lo >= x.w:
                return bv(0, n)
            return zext(extract(x, x.w - 1, lo), n)
        if lo == 0:
            return sext(x, n)
        if lo < x.w:
            return sext(extract(x, x.w - 1, lo), n)
        return sext(extract(x, x.w - 1, x.w - 1), n)
    if op == 'concat':
        h, l = a.args
        if hi < l.w:
            return extract(l, hi, lo)
        if lo >= l.w:
            return extract(h, hi - l.w, lo - l.w)
        return concat(extract(h, hi - l.w, 0), extract(l, l.w - 1, lo))
    if op == 'ite':
        c, x, y = a.args
        if isc(x) or isc(y) or lo == 0:
            return ite(c, extract(x, hi, lo), extract(y, hi, lo))
    if op in ('and', 'or', 'xor'):
        f = {'and': and_, 'or': or_, 'xor': xor}[op]
        return f(extract(a.args[0], hi, lo), extract(a.args[1], hi, lo))
    if lo == 0:
        if op == 'lin':
            c, parts = a.args
            r = bv(c, n)
            for k, x in parts:
                kk = k & mask(n)
                if kk:
                    r = add(r, mulc(extract(x, hi, 0), kk))
            return r
        if op == 'mul':
            return mul(extract(a.args[0], hi, 0), extract(a.args[1], hi, 0))
        if op == 'rd':
            ar, off, nb = a.args
            if n % 8 == 0:
                return rd(ar, off, n // 8)
    elif op == 'rd' and lo % 8 == 0 and n % 8 == 0:
        ar, off, nb = a.args
        return rd(ar, add(off, bv(lo // 8, 64)), n // 8)
    elif op == 'lin':
        # bits [hi:lo] of c + sum(k_i x_i): if disjoint fields then pick
        c, parts = a.args
        low = mask(lo)
        hipart = {}
        ok = True
        lowsum = c & low
        keep = []
        for k, x in parts:
            if min(a.w, (k & -k).bit_length() - 1 + tz(x)) >= lo:
                keep.append((k, x))
            else:
                half = 1 << (a.w - 1)
                if k >= half:
                    ok = False; break
                lowsum += k * x.hi
                if lowsum > low:
                    ok = False; break
        if ok and (len(keep) != len(parts) or (c & low)):
            return extract(_mklin(c & ~low, {x: k for k, x in keep}, a.w), hi, lo)
        if ok and len(keep) == len(parts) and not (c & low):
            # everything is a multiple of 2^lo: divide
            nn = a.w - lo
            r = bv(c >> lo, nn)
            good = True
            for k, x in keep:
                kz = (k & -k).bit_length() - 1
                if kz >= lo:
                    r = add(r, mulc(extract(x, nn - 1, 0) if x.w > nn else x, (k >> lo)))
                else:
                    good = False; break
            if good:
                return extract(r, hi - lo, 0)
    lo_, hi_ = 0, mask(n)
    if hi == a.w - 1 or a.hi >> (hi + 1) == 0:
        lo_, hi_ = a.lo >> lo, a.hi >> lo
    elif lo == 0 and (a.lo >> n) == (a.hi >> n):
        lo_, hi_ = a.lo & mask(n), a.hi & mask(n)
    if lo_ == hi_:
        return bv(lo_, n)
    return mk('extract', (a, hi, lo), n, lo_, hi_)

def concat(h, l):
    w = h.w + l.w
    if isc(h) and isc(l):
        return bv((cv(h) << l.w) | cv(l), w)
    if isc(h) and cv(h) == 0:
        return zext(l, w)
    if isc(l) and cv(l) == 0:
        return mulc(zext(h, w), 1 << l.w)
    if h.op == 'extract' and l.op == 'extract' and h.args[0] is l.args[0] and h.args[2] == l.args[1] + 1:
        return extract(h.args[0], h.args[1], l.args[2])
    if h.op == 'rd' and l.op == 'rd' and h.args[0] is l.args[0] and \
            add(l.args[1], bv(l.args[2], 64)) is h.args[1]:
        return rd(h.args[0], l.args[1], h.args[2] + l.args[2])
    if l.op == 'concat' and l.args[0].op == 'extract' and h.op == 'extract':
        x = l.args[0]
        if h.args[0] is x.args[0] and h.args[2] == x.args[1] + 1:
            return concat(extract(h.args[0], h.args[1], x.args[2]), l.args[1])
    if l.op == 'concat' and l.args[0].op == 'rd' and h.op == 'rd':
        x = l.args[0]
        if h.args[0] is x.args[0] and add(x.args[1], bv(x.args[2], 64)) is h.args[1]:
            return concat(rd(x.args[0], x.args[1], x.args[2] + h.args[2]), l.args[1])
    # sign/zero parts
    if h.op == 'sext' and h.args[0].op == 'extract' and h.args[0].w == 1:
        x = h.args[0]
        if x.args[0] is l and x.args[1] == l.w - 1:
            return sext(l, w)
    return mk('concat', (h, l), w, (h.lo << l.w) + l.lo, (h.hi << l.w) + l.hi)

# memory atoms ----------------------------------------------------------------
RD_RANGE = {}     # (array name, nbytes) -> function(off) -> (lo,hi) or None
def rd(ar, off, n):
    """n little-endian bytes of byte array `ar` at offset `off` (64-bit)"""
    lo, hi = 0, mask(8 * n)
    f = RD_RANGE.get(ar.args[0])
    if f is not None:
        r = f(off, n)
        if r is not None:
            lo, hi = r
    return mk('rd', (ar, off, n), 8 * n, lo, hi)

def uf(name, args, w, lo=None, hi=None):
    return mk('uf', (name,) + tuple(args), w, lo, hi)

# booleans ----------------------------------------------------------------
def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'ult':
        return ule(a.args[1], a.args[0])
    if a.op == 'ule':
        return ult(a.args[1], a.args[0])
    if a.op == 'slt':
        return sle(a.args[1], a.args[0])
    if a.op == 'sle':
        return slt(a.args[1], a.args[0])
    return mk('not', (a,), 0)

def band(*ts):
    out = []
    seen = set()
    for t in ts:
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        if t.op == 'band':
            for x in t.args:
                if x.id not in seen:
                    seen.add(x.id); out.append(x)
            continue
        if t.id not in seen:
            seen.add(t.id); out.append(t)
    for t in out:
        if t.op == 'not' and t.args[0].id in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda x: x.id)
    return mk('band', tuple(out), 0)

def bor(*ts):
    out = []
    seen = set()
    for t in ts:
        if t is TRUE:
            return TRUE
        if t is FALSE:
            continue
        if t.op == 'bor':
            for x in t.args:
                if x.id not in seen:
                    seen.add(x.id); out.append(x)
            continue
        if t.id not in seen:
            seen.add(t.id); out.append(t)
    for t in out:
        if t.op == 'not' and t.args[0].id in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda x: x.id)
    return mk('bor', tuple(out), 0)

def bxor(a, b):
    if isc(a):
        a, b = b, a
    if isc(b):
        return bnot(a) if b is TRUE else a
    if a is b:
        return FALSE
    return bnot(beq(a, b))

def beq(a, b):
    if isc(a):
        a, b = b, a
    if isc(b):
        return a if b is TRUE else bnot(a)
    if a is b:
        return TRUE
    if a.id > b.id:
        a, b = b, a
    return mk('beq', (a, b), 0)

def implies(a, b):
    return bor(bnot(a), b)

def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.w == 0:
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return bnot(c)
        return band(bor(bnot(c), a), bor(c, b))
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk('ite', (c, a, b), a.w, min(a.lo, b.lo), max(a.hi, b.hi))

DISTINCT_BASES = True

def eq(a, b):
    if a is b:
        return TRUE
    if a.w == 0:
        return beq(a, b)
    w = a.w
    if isc(a) and isc(b):
        return FALSE
    if isc(a):
        a, b = b, a
    if a.hi < b.lo or b.hi < a.lo:
        return FALSE
    if isc(b):
        v = cv(b)
        if a.op in ('zext',):
            x = a.args[0]
            if v > mask(x.w):
                return FALSE
            return eq(x, bv(v, x.w))
        if a.op == 'sext':
            x = a.args[0]
            if sval(v, w) != sval(v & mask(x.w), x.w):
                return FALSE
            return eq(x, bv(v, x.w))
        if a.op == 'ite':
            c, x, y = a.args
            if isc(x) and isc(y):
                ex, ey = cv(x) == v, cv(y) == v
                if ex and ey: return TRUE
                if ex: return c
                if ey: return bnot(c)
                return FALSE
            if isc(x) or isc(y):
                return ite(c, eq(x, b), eq(y, b))
        if a.op == 'concat':
            h, l = a.args
            return band(eq(h, bv(v >> l.w, h.w)), eq(l, bv(v, l.w)))
        if a.op == 'lin':
            c, parts = a.args
            if len(parts) == 1:
                k, x = parts[0]
                if k & 1:
                    inv = pow(k, -1, 1 << w)
                    return eq(x, bv((v - c) * inv, w)) if x.op != 'lin' else mk('eq', (a, b), 0)
                z = (k & -k).bit_length() - 1
                d = (v - c) & mask(w)
                if d & mask(z):
                    return FALSE
                # k*x == d with no wrap?
                if k * x.hi <= mask(w):
                    if d % k:
                        return FALSE
                    return eq(x, bv(d // k, w))
            zz = min([ (k & -k).bit_length() - 1 + tz(x) for k, x in parts])
            if ((v - c) & mask(w)) & mask(min(zz, w)):
                return FALSE
            if c:
                a2 = _mklin(0, {x: k for k, x in parts}, w)
                if a2.op != 'lin' or a2.args[0] == 0:
                    return _eqlin(a2, bv(v - c, w))
        return mk('eq', (a, b), 0)
    # both symbolic
    if a.op == 'zext' and b.op == 'zext':
        x, y = a.args[0], b.args[0]
        if x.w == y.w:
            return eq(x, y)
        if x.w < y.w:
            return eq(zext(x, y.w), y)
        return eq(x, zext(y, x.w))
    if a.op == 'sext' and b.op == 'sext' and a.args[0].w == b.args[0].w:
        return eq(a.args[0], b.args[0])
    if a.op == 'lin' or b.op == 'lin' or a.op == 'base' or b.op == 'base':
        ca, da = lin_parts(a)
        cb, db = lin_parts(b)
        d = dict(da)
        for k, v in db.items():
            d[k] = d.get(k, 0) - v
        df = _mklin(ca - cb, d, w)
        if isc(df):
            return boolc(cv(df) == 0)
        if df.lo > 0:
            return FALSE
        if w == 64:
            c, parts = df.args if df.op == 'lin' else (0, ((1, df),))
            bs = [(k, x) for k, x in parts if x.op == 'base']
            if bs and DISTINCT_BASES:
                one = [x for k, x in bs if k == 1]
                mone = [x for k, x in bs if k == mask(64)]
                if len(bs) == 2 and len(one) == 1 and len(mone) == 1:
                    return FALSE
                if len(bs) == 1 and len(parts) == 1:
                    # base + c == 0
                    sc = sval(c, 64)
                    if abs(sc) < (1 << 16):
                        return FALSE
        if df.op == 'lin':
            c, parts = df.args
            zz = min([(k & -k).bit_length() - 1 + tz(x) for k, x in parts])
            if c & mask(min(zz, w)):
                return FALSE
            # cancel common terms: put negative coefs on the right
            half = 1 << (w - 1)
            L = {x: k for k, x in parts if k < half}
            R = {x: (1 << w) - k for k, x in parts if k >= half}
            cc = sval(c, w)
            if not L:
                L, R = R, L
                cc = -cc
            la = _mklin(max(cc, 0), L, w)
            ra = _mklin(max(-cc, 0), R, w)
            return _eqlin(la, ra)
    return _eqlin(a, b)

def _eqlin(a, b):
    if a is b:
        return TRUE
    if isc(a) and isc(b):
        return boolc(cv(a) == cv(b))
    if a.hi < b.lo or b.hi < a.lo:
        return FALSE
    if isc(b) and a.op != 'lin':
        return eq(a, b)
    if isc(a) and b.op != 'lin':
        return eq(b, a)
    if a.op == 'zext' and b.op == 'zext' and a.args[0].w == b.args[0].w:
        return eq(a.args[0], b.args[0])
    if a.op == 'sext' and b.op == 'sext' and a.args[0].w == b.args[0].w:
        return eq(a.args[0], b.args[0])
    if a.id > b.id and not isc(b):
        a, b = b, a
    return mk('eq', (a, b), 0)

def ne(a, b):
    return bnot(eq(a, b))

def ult(a, b):
    if a is b:
        return FALSE
    if isc(a) and isc(b):
        return boolc(cv(a) < cv(b))
    if a.hi < b.lo:
        return TRUE
    if a.lo >= b.hi:
        return FALSE
    if a.op == 'zext':
        x = a.args[0]
        if b.op == 'zext' and b.args[0].w == x.w:
            return ult(x, b.args[0])
        if isc(b):
            return ult(x, bv(cv(b), x.w)) if cv(b) <= mask(x.w) else TRUE
    if b.op == 'zext' and isc(a):
        y = b.args[0]
        return ult(bv(cv(a), y.w), y) if cv(a) <= mask(y.w) else FALSE
    if isc(b) and cv(b) == 1:
        return eq(a, bv(0, a.w))
    if isc(a) and cv(a) == 0:
        return ne(b, a)
    r = _lincmp(a, b, False)
    if r is not None:
        return r
    return mk('ult', (a, b), 0)

def _lincmp(a, b, orequal):
    """a < b for unsigned ranges that provably do not wrap: decide by difference"""
    if a.op == 'lin' or b.op == 'lin':
        pa = exact(a); pb = exact(b)
        if pa is None or pb is None:
            return None
        ca, da = pa; cb, db = pb
        c = cb - ca
        d = dict(db)
        for k, v in da.items():
            d[k] = d.get(k, 0) - v
        lo = hi = c
        for x, k in d.items():
            if k > 0:
                lo += k * x.lo; hi += k * x.hi
            elif k < 0:
                lo += k * x.hi; hi += k * x.lo
        # b - a in [lo,hi]
        if orequal:
            if lo >= 0: return TRUE
            if hi < 0: return FALSE
        else:
            if lo > 0: return TRUE
            if hi <= 0: return FALSE
    return None

def exact(t):
    """integer-exact linear form of unsigned value: (const,{atom:int coef}) or None"""
    if t.op == 'c':
        return t.args[0], {}
    if t.op != 'lin':
        return 0, {t: 1}
    c, parts = t.args
    w = t.w
    half = 1 << (w - 1); full = 1 << w
    for cc in (c, c - full):
        lo = hi = cc
        d = {}
        for k, x in parts:
            k2 = k - full if k >= half else k
            d[x] = k2
            if k2 >= 0:
                lo += k2 * x.lo; hi += k2 * x.hi
            else:
                lo += k2 * x.hi; hi += k2 * x.lo
        if lo >= 0 and hi < full:
            return cc, d
    return None

def ule(a, b):
    if a is b:
        return TRUE
    if isc(a) and isc(b):
        return boolc(cv(a) <= cv(b))
    if a.hi <= b.lo:
        return TRUE
    if a.lo > b.hi:
        return FALSE
    if isc(b) and cv(b) < mask(a.w):
        return ult(a, bv(cv(b) + 1, a.w))
    if isc(a) and cv(a) > 0:
        return ult(bv(cv(a) - 1, a.w), b)
    if a.op == 'zext':
        x = a.args[0]
        if b.op == 'zext' and b.args[0].w == x.w:
            return ule(x, b.args[0])
    r = _lincmp(a, b, True)
    if r is not None:
        return r
    return mk('ule', (a, b), 0)

def slt(a, b):
    if a is b:
        return FALSE
    if isc(a) and isc(b):
        return boolc(scv(a) < scv(b))
    la, ha = srng(a); lb, hb = srng(b)
    if ha < lb:
        return TRUE
    if la >= hb:
        return FALSE
    if la >= 0 and lb >= 0:
        return ult(a, b)
    if a.op == 'sext' and b.op == 'sext' and a.args[0].w == b.args[0].w:
        return slt(a.args[0], b.args[0])
    if a.op == 'sext' and isc(b):
        x = a.args[0]
        v = scv(b); h = 1 << (x.w - 1)
        if -h <= v < h:
            return slt(x, bv(v, x.w))
    if b.op == 'sext' and isc(a):
        x = b.args[0]
        v = scv(a); h = 1 << (x.w - 1)
        if -h <= v < h:
            return slt(bv(v, x.w), x)
    return mk('slt', (a, b), 0)

def sle(a, b):
    if a is b:
        return TRUE
    if isc(a) and isc(b):
        return boolc(scv(a) <= scv(b))
    la, ha = srng(a); lb, hb = srng(b)
    if ha <= lb:
        return TRUE
    if la > hb:
        return FALSE
    if la >= 0 and lb >= 0:
        return ule(a, b)
    if isc(b) and scv(b) < (1 << (a.w - 1)) - 1:
        return slt(a, bv(scv(b) + 1, a.w))
    if isc(a) and scv(a) > -(1 << (a.w - 1)):
        return slt(bv(scv(a) - 1, a.w), b)
    if a.op == 'sext' and b.op == 'sext' and a.args[0].w == b.args[0].w:
        return sle(a.args[0], b.args[0])
    return mk('sle', (a, b), 0)

def ugt(a, b): return ult(b, a)
def uge(a, b): return ule(b, a)
def sgt(a, b): return slt(b, a)
def sge(a, b): return sle(b, a)

# floating point (values are IEEE bit patterns) --------------------------------
def _f(w, bits):
    return struct.unpack('<f' if w == 32 else '<d', struct.pack('<I' if w == 32 else '<Q', bits))[0]

def fbits(w, x):
    if w == 32:
        try:
            return struct.unpack('<I', struct.pack('<f', x))[0]
        except OverflowError:
            return 0x7f800000 if x > 0 else 0xff800000
    return struct.unpack('<Q', struct.pack('<d', x))[0]

def fparam(w):
    return (8, 23) if w == 32 else (11, 52)

def fisnan(a):
    e, m = fparam(a.w)
    return ult(bv(mask(e) << m, a.w), and_(a, bv(mask(a.w - 1), a.w)))

def fconst(x, w):
    return bv(fbits(w, x), w)

def _key(a):
    """monotone map of non-NaN floats to unsigned ints, with -0 == +0"""
    w = a.w
    sgn = extract(a, w - 1, w - 1)
    mag = and_(a, bv(mask(w - 1), w))
    return ite(eq(sgn, bv(1, 1)), sub(bv(0, w), mag), mag)

def flt(a, b):
    if isc(a) and isc(b):
        return boolc(_f(a.w, cv(a)) < _f(b.w, cv(b)))
    return band(bnot(fisnan(a)), bnot(fisnan(b)), slt(_key(a), _key(b)))

def fle(a, b):
    if isc(a) and isc(b):
        return boolc(_f(a.w, cv(a)) <= _f(b.w, cv(b)))
    return band(bnot(fisnan(a)), bnot(fisnan(b)), sle(_key(a), _key(b)))

def feq(a, b):
    if isc(a) and isc(b):
        return boolc(_f(a.w, cv(a)) == _f(b.w, cv(b)))
    return band(bnot(fisnan(a)), bnot(fisnan(b)), eq(_key(a), _key(b)))

def funo(a, b):
    return bor(fisnan(a), fisnan(b))

def fbin(op, a, b):
    if isc(a) and isc(b) and a.w == 64 and op in ('fadd', 'fsub', 'fmul'):
        x, y = _f(64, cv(a)), _f(64, cv(b))
        r = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y}[op]()
        if r == r:
            return bv(fbits(64, r), 64)
    if op in ('fadd', 'fmul') and a.id > b.id:
        a, b = b, a
    return mk(op, (a, b), a.w)

def fneg(a):
    return xor(a, bv(1 << (a.w - 1), a.w))

def fptosi(a, w):
    return mk('fptosi', (a,), w)

def fptoui(a, w):
    return mk('fptoui', (a,), w)

def sitofp(a, w):
    if isc(a) and w == 64 and a.w <= 32:
        return bv(fbits(64, float(scv(a))), 64)
    return mk('sitofp', (a,), w)

def uitofp(a, w):
    return mk('uitofp', (a,), w)

def fpext(a, w):
    if isc(a):
        x = _f(32, cv(a))
        if x == x:
            return bv(fbits(64, x), 64)
    return mk('fpext', (a,), w)

def fptrunc(a, w):
    return mk('fptrunc', (a,), w)

# traversal -----------------------------------------------------------------
def children(t):
    op = t.op
    if op in ('c', 'v', 'base', 'arr'):
        return ()
    if op == 'lin':
        return tuple(x for k, x in t.args[1])
    if op == 'extract':
        return (t.args[0],)
    if op == 'rd':
        return (t.args[0], t.args[1])
    if op == 'uf':
        return t.args[1:]
    return t.args

def free(t):
    """frozenset of leaf symbols"""
    if t.vars_ is not None:
        return t.vars_
    stack = [t]
    while stack:
        x = stack[-1]
        if x.vars_ is not None:
            stack.pop(); continue
        todo = [c for c in children(x) if c.vars_ is None]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        if x.op in ('v', 'base', 'arr'):
            x.vars_ = frozenset((x,))
        else:
            s = frozenset()
            for c in children(x):
                if not c.vars_ <= s:
                    s = s | c.vars_
            if x.op == 'uf':
                s = s | frozenset((('uf', x.args[0]),))
            x.vars_ = s
    return t.vars_

def rebuild(t, ch):
    op = t.op
    if op == 'lin':
        r = bv(t.args[0], t.w)
        for (k, _), c in zip(t.args[1], ch):
            r = add(r, mulc(c, k))
        return r
    if op == 'extract':
        return extract(ch[0], t.args[1], t.args[2])
    if op == 'rd':
        return rd(ch[0], ch[1], t.args[2])
    if op == 'uf':
        return mk('uf', (t.args[0],) + tuple(ch), t.w, t.lo, t.hi)
    f = _REB.get(op)
    if f is not None:
        return f(*ch)
    if op in ('zext', 'sext'):
        return (zext if op == 'zext' else sext)(ch[0], t.w)
    if op in ('fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc'):
        return globals()[op](ch[0], t.w)
    if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
        return fbin(op, ch[0], ch[1])
    raise Exception('rebuild ' + op)

_REB = {'mul': mul, 'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem, 'and': and_, 'or': or_,
        'xor': xor, 'shl': shl, 'lshr': lshr, 'ashr': ashr, 'concat': concat, 'not': bnot,
        'band': band, 'bor': bor, 'beq': beq, 'ite': ite, 'eq': eq, 'ult': ult, 'ule': ule,
        'slt': slt, 'sle': sle}

def subst(t, m, memo=None):
    """m: dict T->T"""
    if memo is None:
        memo = {}
    keys = frozenset(m.keys())
    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in ('c', 'v', 'base', 'arr'):
            return x
        ch = children(x)
        n = tuple(go(c) for c in ch)
        r = x if all(p is q for p, q in zip(n, ch)) else rebuild(x, n)
        memo[x] = r
        return r
    return go(t)

def show(t, depth=6):
    if depth == 0:
        return '..'
    op = t.op
    if op == 'c':
        if t.w == 0:
            return 'true' if t.args[0] else 'false'
        v = scv(t)
        return str(v) if abs(v) < 65536 else hex(cv(t))
    if op in ('v', 'arr'):
        return t.args[0]
    if op == 'base':
        return '&' + t.args[0]
    d = depth - 1
    if op == 'lin':
        s = []
        for k, a in t.args[1]:
            kk = sval(k, t.w)
            s.append(('%d*' % kk if kk != 1 else '') + show(a, d))
        if t.args[0]:
            s.append(str(sval(t.args[0], t.w)))
        return '(' + ' + '.join(s) + ')'
    if op == 'extract':
        return '%s[%d:%d]' % (show(t.args[0], d), t.args[1], t.args[2])
    if op == 'rd':
        return '%s{%s,%d}' % (t.args[0].args[0], show(t.args[1], d), t.args[2])
    if op == 'uf':
        return '%s(%s)' % (t.args[0], ','.join(show(a, d) for a in t.args[1:]))
    if op in ('zext', 'sext', 'fptosi', 'sitofp'):
        return '%s%d(%s)' % (op, t.w, show(t.args[0], d))
    return '%s(%s)' % (op, ', '.join(show(a, d) for a in t.args))
