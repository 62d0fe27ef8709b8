"""Concrete programs with a known answer, run on a VM built from the current tree.  Used to *confirm* a failed
obligation on the real code (the deciding step is the verifier); never used to accept anything."""
import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'eng'))
from terms import *
import jasm, vm
from jasm import Code, ClassFile

def s32(v): v &= 0xffffffff; return v - (1 << 32) if v >> 31 else v
def s64(v): v &= (1 << 64) - 1; return v - (1 << 64) if v >> 63 else v
def isnan_bits(ty, v):
    if ty == 'F':
        return (v & 0x7fffffff) > 0x7f800000
    return (v & (2**63 - 1)) > 0x7ff0000000000000

BOUND = {
 'I': [0, 1, -1, 2, -2, 5, 7, -7, 31, 32, 33, 63, 64, 127, 128, 255, 256, 32767, 32768, 65535, 65536, -128, -129, -32768, -32769,
       2**31 - 1, -2**31, 2**31 - 2, -2**31 + 1, 0x12345678, -0x12345678, 1 << 30, 97, -3],
 'J': [0, 1, -1, 2, -2, 7, -7, 255, 65536, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32 - 1, 2**32, 2**32 + 1, 2**63 - 1, -2**63, -2**63 + 1,
       0x123456789abcdef0, -0x123456789abcdef0, 1 << 62, 1 << 40, -(1 << 40), 3, 10, 2**63 - 1025, -3],
 'F': [0x00000000, 0x80000000, 0x3f800000, 0xbf800000, 0x40000000, 0x3f000000, 0x7f800000, 0xff800000, 0x7fc00000, 0xffc00000, 0x7f7fffff,
       0x00000001, 0x80000001, 0x4f000000, 0xcf000000, 0x4effffff, 0xcf000001, 0x5f000000, 0xdf000000, 0x5effffff, 0x5f000001, 0xdf000001, 0x40490fdb, 0xc0490fdb, 0x4b000001, 0x40a00000,
       0x7e967699],
 'D': [0, 1 << 63, 0x3ff0000000000000, 0xbff0000000000000, 0x4000000000000000, 0x3fe0000000000000, 0x7ff0000000000000, 0xfff0000000000000,
       0x7ff8000000000000, 0xfff8000000000000, 0x7fefffffffffffff, 1, (1 << 63) | 1, 0x41e0000000000000, 0xc1e0000000000000, 0x41dfffffffc00000,
       0x41dfffffffe00000, 0xc1e0000000200000, 0x43e0000000000000, 0xc3e0000000000000, 0x43dfffffffffffff, 0x43e0000000000001, 0x400921fb54442d18,
       0xc00921fb54442d18, 0x4330000000000001, 0x4014000000000000, 0x7e37e43c8800759c, 0x47efffffe0000000, 0x47effffff0000000, 0x36a0000000000000],
}

def konst(ty, v):
    return bv(v, 64 if ty in 'JD' else 32)

def result_of(ty, t):
    if not isc(t):
        return None
    return s64(cv(t)) if ty in 'JD' else s32(cv(t))

LOAD = {'I': 21, 'J': 22, 'F': 23, 'D': 24, 'A': 25}
STORE = {'I': 54, 'J': 55, 'F': 56, 'D': 57, 'A': 58}
RET = {'I': 172, 'J': 173, 'F': 174, 'D': 175, 'A': 176, 'V': 177}

class Battery(object):
    """cases: (name, [expected lines]) each compiled to one static method"""
    def __init__(self, cls='B'):
        self.cf = ClassFile(cls); self.cls = cls
        jasm.add_out(self.cf)
        self.cases = []
        self.extra = {}
        self.helpers = set()
    def case(self, name, emit, expect, stack=40, locals_=40, exc=None):
        """expect: list of ('I'|'J'|'F'|'D', value) | '!class' (thrown, last) | 'text'"""
        c = Code(self.cf)
        emit(c)
        c.op(177)
        n = 'c%d' % len(self.cases)
        code = c.done()
        self.cf.method(n, '()V', code, stack, locals_, exc=[(c.labels[a], c.labels[b], c.labels[h], k) for a, b, h, k in c.exc])
        self.cases.append((name, expect))
    def main(self, lo, hi):
        c = Code(self.cf)
        # one method per case so that a thrown exception is caught and named
        for i in range(lo, hi):
            c.op(19).u2(self.cf.string('#%d' % i)) if False else None
            c.op(18, 0) if False else None
            c.push('I', i)
            c.invoke_static(self.cls, 'mark', '(I)V')
            c.label('s%d' % i)
            c.invoke_static(self.cls, 'c%d' % i, '()V')
            c.label('e%d' % i)
            c.jump(167, 'n%d' % i)
            c.label('h%d' % i)
            c.invoke_static(self.cls, 'exc', '(Ljava/lang/Throwable;)V')
            c.label('n%d' % i)
            c.exc.append(('s%d' % i, 'e%d' % i, 'h%d' % i, None))
        return c
    def build(self):
        cf = self.cf
        c = Code(cf)
        c.getstatic('java/lang/System', 'out', 'Ljava/io/PrintStream;').op(19).u2(cf.string('#'))
        c.invoke_virtual('java/io/PrintStream', 'print', '(Ljava/lang/String;)V')
        c.op(26).invoke_static(self.cls, 'out', '(I)V').op(177)
        cf.method('mark', '(I)V', c.done())
        c = Code(cf)
        c.getstatic('java/lang/System', 'out', 'Ljava/io/PrintStream;').op(19).u2(cf.string('!'))
        c.invoke_virtual('java/io/PrintStream', 'print', '(Ljava/lang/String;)V')
        c.op(42).invoke_virtual('java/lang/Object', 'getClass', '()Ljava/lang/Class;').invoke_virtual('java/lang/Class', 'getName', '()Ljava/lang/String;')
        c.invoke_static(self.cls, 'out', '(Ljava/lang/String;)V').op(177)
        cf.method('exc', '(Ljava/lang/Throwable;)V', c.done())
        n = len(self.cases)
        step = 200
        m = Code(cf)
        for k, lo in enumerate(range(0, n, step)):
            cc = self.main(lo, min(n, lo + step))
            cc.op(177)
            code = cc.done()
            cf.method('run%d' % k, '()V', code, 8, 4, exc=[(cc.labels[a], cc.labels[b], cc.labels[h], kk) for a, b, h, kk in cc.exc])
            m.invoke_static(self.cls, 'run%d' % k, '()V')
        m.op(177)
        cf.method('main', '([Ljava/lang/String;)V', m.done(), 4, 4)
        d = {self.cls: cf.bytes()}
        d.update(self.extra)
        return d
    def run(self, process, timeout=120):
        """-> list of (case name, expected, got) that differ"""
        exe = vm.vm(process)
        rc, out, err = vm.run(exe, self.build(), self.cls, timeout)
        got = {}
        cur = None
        for line in out.split('\n'):
            if line.startswith('#'):
                try:
                    cur = int(line[1:]); got[cur] = []
                    continue
                except ValueError:
                    pass
            if cur is not None and line:
                got[cur].append(line)
        bad = []
        for i, (name, exp) in enumerate(self.cases):
            g = got.get(i)
            if g is None:
                bad.append((name, exp, 'VM ended before this case (exit %s): %s' % (rc, err.strip()[-300:])))
                break
            last = (i == cur)
            if not self.same(exp, g):
                bad.append((name, exp, ' '.join(g) + (' [VM exit %s %s]' % (rc, err.strip()[-200:]) if last and rc != 0 else '')))
        if rc != 0 and not bad:
            bad.append(('exit', [], 'VM exit status %s: %s' % (rc, err.strip()[-300:])))
        return bad
    def same(self, exp, g):
        if len(exp) != len(g):
            return False
        for e, x in zip(exp, g):
            if isinstance(e, tuple):
                ty, v = e
                try:
                    y = int(x)
                except ValueError:
                    return False
                if ty in 'FD':
                    m = (1 << (32 if ty == 'F' else 64)) - 1
                    if isnan_bits(ty, v & m):
                        if not isnan_bits(ty, y & m):
                            return False
                        continue
                    if (v & m) != (y & m):
                        return False
                elif y != (s64(v) if ty == 'J' else s32(v)):
                    return False
            elif e != x:
                return False
        return True

def arith_cases(B, names=None, models=()):
    """models: {mnemonic: [operand tuples]}"""
    import interp as S
    for name, (op, pops, push, f) in S.ARITH.items():
        if names is not None and name not in names:
            continue
        combos = [(a,) for a in BOUND[pops[0]]] if len(pops) == 1 else [(a, b) for a in BOUND[pops[0]] for b in BOUND[pops[1]]]
        if len(combos) > 150 and names is None:
            combos = combos[::max(1, len(combos) // 150)]
        for vals in list(dict(models).get(name, [])) + combos:
            emit_arith(B, name, op, pops, push, f, vals)
    for name, (op, ty, f) in S.DIVS.items():
        if names is not None and name not in names:
            continue
        combos = [(a, b) for a in BOUND[ty] for b in BOUND[ty]]
        if names is None:
            combos = combos[::5] + [(-2**31, -1), (-2**63, -1)]
        for vals in list(dict(models).get(name, [])) + combos:
            if konst(ty, vals[1]) is konst(ty, 0):
                B.case('%s%r' % (name, vals), lambda c, vals=vals: args_call(B, c, op, ty * 2, ty, vals), ['!java.lang.ArithmeticException'])
            else:
                emit_arith(B, name, op, ty * 2, ty, f, vals)

def op_method(B, op, pops, push):
    n = 'op%d' % op
    if n not in B.helpers:
        B.helpers.add(n)
        c = Code(B.cf)
        k = 0
        for p in pops:
            c.op(LOAD[p], k); k += 2 if p in 'JD' else 1
        c.op(op).op(RET[push])
        B.cf.method(n, '(%s)%s' % (pops, push), c.done())
    return n

def args_call(B, c, op, pops, push, vals):
    n = op_method(B, op, pops, push)
    for p, v in zip(pops, vals):
        c.push(p, v)
    c.invoke_static(B.cls, n, '(%s)%s' % (pops, push))
    c.print_value(push)

def emit_arith(B, name, op, pops, push, f, vals):
    r = result_of(push, f(*[konst(p, v) for p, v in zip(pops, vals)]))
    if r is None:
        return
    def e(c):
        args_call(B, c, op, pops, push, vals)
        for p, v in zip(pops, vals):
            c.push(p, v)
        c.op(op).print_value(push)
    B.case('%s%r' % (name, tuple(vals)), e, [(push, r), (push, r)])

def stack_cases(B):
    import interp as S
    for name, (op, n, order) in S.SHUF.items():
        def e(c, op=op, n=n, order=order):
            c.push('I', 77)
            for i in range(n):
                c.push('I', 1000 + i)
            c.op(op)
            for _ in order:
                c.print_value('I')
            c.print_value('I')
        B.case(name, e, [('I', 1000 + i) for i in reversed(order)] + [('I', 77)])
        # 64-bit operands
    for name, (op, ty, v) in S.CONST.items():
        if ty == 'A':
            continue
        B.case(name, lambda c, op=op, ty=ty: c.op(op).print_value(ty), [(ty, result_of(ty, v))])
    for v in (-128, -1, 0, 127):
        B.case('bipush %d' % v, lambda c, v=v: c.op(16, v).print_value('I'), [('I', v)])
    for v in (-32768, -129, -1, 255, 256, 32767):
        B.case('sipush %d' % v, lambda c, v=v: c.op(17).u2(v).print_value('I'), [('I', v)])

def local_cases(B):
    vals = {'I': 0x12345678, 'J': 0x123456789abcdef0, 'F': 0x40490fdb, 'D': 0x400921fb54442d18}
    base0 = {'I': 26, 'J': 30, 'F': 34, 'D': 38}; base1 = {'I': 59, 'J': 63, 'F': 67, 'D': 71}
    for ty in 'IJFD':
        for i in range(4):
            def e(c, ty=ty, i=i):
                # surround with sentinels
                for j in range(0, 7):
                    c.push('I', 500 + j).op(54, j)
                c.push(ty, vals[ty]).op(base1[ty] + i).op(base0[ty] + i).print_value(ty)
                for j in range(0, 7):
                    if j == i or (ty in 'JD' and j == i + 1):
                        continue
                    c.op(21, j).print_value('I')
            B.case('%sstore_%d/load' % (ty, i), e, [(ty, vals[ty])] + [('I', 500 + j) for j in range(7) if not (j == i or (ty in 'JD' and j == i + 1))])
        for i in (0, 5, 200, 255):
            def e(c, ty=ty, i=i):
                c.push(ty, vals[ty]).op(STORE[ty], i).op(LOAD[ty], i).print_value(ty)
            B.case('%sstore/load %d' % (ty, i), e, [(ty, vals[ty])], locals_=300)
        for i in (0, 5, 255, 256, 300, 1000):
            def e(c, ty=ty, i=i):
                c.push(ty, vals[ty]).op(196, STORE[ty]).u2(i).op(196, LOAD[ty]).u2(i).print_value(ty)
            B.case('wide %sstore/load %d' % (ty, i), e, [(ty, vals[ty])], locals_=1100)
    for d in (1, -1, 127, -128):
        B.case('iinc %d' % d, lambda c, d=d: c.push('I', 100).op(54, 3).op(132, 3, d).op(21, 3).print_value('I'), [('I', 100 + d)])
    for d in (1, -1, 127, -128, 300, 32767, -32768):
        B.case('wide iinc %d' % d, lambda c, d=d: c.push('I', 100).op(54, 3).op(196, 132).u2(3).u2(d).op(21, 3).print_value('I'), [('I', 100 + d)])
        B.case('wide iinc at 300 %d' % d, lambda c, d=d: c.push('I', 2**31 - 1).op(196, 54).u2(300).op(196, 132).u2(300).u2(d).op(196, 21).u2(300).print_value('I'), [('I', s32(2**31 - 1 + d))], locals_=400)

def big_local_cases(B):
    # indexes above 32767 need a large frame; kept apart because the interpreter's stack is bounded
    for ty, v in (('I', 5), ('J', 2**40 + 3), ('F', 0x40490fdb), ('D', 0x400921fb54442d18)):
        for i in (32767, 32768, 40000):
            B.case('wide %sstore/load %d' % (ty, i), lambda c, ty=ty, v=v, i=i: c.push(ty, v).op(196, STORE[ty]).u2(i).op(196, LOAD[ty]).u2(i).print_value(ty), [(ty, v)], locals_=40010)

def branch_cases(B):
    import interp as S
    def prog(name, pushes, op, taken):
        def e(c):
            for ty, v in pushes: c.push(ty, v)
            c.jump(op, 't').push('I', 0).print_value('I').jump(167, 'x').label('t').push('I', 1).print_value('I').label('x')
        B.case(name, e, [('I', 1 if taken else 0)])
        def e2(c):   # through arguments (no constants) and backwards
            n = 'br%d' % op
            d = ''.join(ty for ty, v in pushes).replace('A', 'Ljava/lang/Object;')
            if n not in B.helpers:
                B.helpers.add(n)
                cc = Code(B.cf)
                cc.jump(167, 's').label('t').push('I', 1).op(172).label('s')
                for i, (ty, v) in enumerate(pushes): cc.op(LOAD[ty], i)
                cc.jump(op, 't').push('I', 0).op(172)
                B.cf.method(n, '(%s)I' % d, cc.done())
            for ty, v in pushes: c.push(ty, v)
            c.invoke_static(B.cls, n, '(%s)I' % d).print_value('I')
        B.case(name + ' backwards', e2, [('I', 1 if taken else 0)])
    vs = [0, 1, -1, 2, 2**31 - 1, -2**31, 256, 65536, -65536]
    for name, (op, f) in S.COND1.items():
        for v in vs:
            prog('%s %d' % (name, v), [('I', v)], op, f(bv(v, 32)) is TRUE)
    for name, (op, f) in S.COND2.items():
        for a in vs:
            for b in vs:
                prog('%s %d %d' % (name, a, b), [('I', a), ('I', b)], op, f(bv(a, 32), bv(b, 32)) is TRUE)
    for nm, op, cond in (('ifnull', 198, lambda a: a), ('ifnonnull', 199, lambda a: not a)):
        for isnull in (True, False):
            def e(c, op=op, isnull=isnull):
                if isnull: c.op(1)
                else: c.op(19).u2(B.cf.string('x'))
                c.jump(op, 't').push('I', 0).print_value('I').jump(167, 'x').label('t').push('I', 1).print_value('I').label('x')
            B.case('%s %s' % (nm, isnull), e, [('I', 1 if cond(isnull) else 0)])
    for nm, op, same in (('if_acmpeq', 165, 1), ('if_acmpne', 166, 0)):
        for eq_ in (0, 1):
            def e(c, op=op, eq_=eq_):
                c.op(19).u2(B.cf.string('x')).op(19).u2(B.cf.string('x' if eq_ else 'y'))
                c.jump(op, 't').push('I', 0).print_value('I').jump(167, 'x').label('t').push('I', 1).print_value('I').label('x')
            B.case('%s %d' % (nm, eq_), e, [('I', 1 if same == eq_ else 0)])
    # far branches
    for pad in (100, 200, 255, 256, 300, 1000, 30000):
        def e(c, pad=pad):
            c.jump(167, 'a')
            c.label('b').push('I', 2).print_value('I').jump(167, 'x')
            for _ in range(pad): c.op(0)
            c.label('a').push('I', 1).print_value('I').jump(167, 'b')
            c.label('x')
        B.case('goto over %d' % pad, e, [('I', 1), ('I', 2)])
        def e(c, pad=pad):
            c.jump(200, 'a', True)
            c.label('b').push('I', 2).print_value('I').jump(200, 'x', True)
            for _ in range(pad): c.op(0)
            c.label('a').push('I', 1).print_value('I').jump(200, 'b', True)
            c.label('x')
        B.case('goto_w over %d' % pad, e, [('I', 1), ('I', 2)])
        if pad <= 1000:
            for w in (False, True):
                def e(c, pad=pad, w=w):
                    c.jump(201 if w else 168, 'sub', w)
                    c.push('I', 3).print_value('I').jump(167, 'x')
                    for _ in range(pad): c.op(0)
                    c.label('sub').op(58, 9).push('I', 1).print_value('I').op(169, 9)
                    c.label('x')
                B.case('jsr%s/ret over %d' % ('_w' if w else '', pad), e, [('I', 1), ('I', 3)])

def switch_cases(B):
    for lo, hi in ((0, 3), (-2, 2), (5, 5), (2**31 - 3, 2**31 - 1), (-2**31, -2**31 + 2)):
        n = 'ts%d' % len(B.helpers); B.helpers.add(n)
        for pad in range(4):
            nm = n + '_%d' % pad
            cc = Code(B.cf)
            for _ in range(pad): cc.op(0)
            cc.op(26)
            at = len(cc.b)
            cc.op(170)
            while len(cc.b) % 4: cc.op(0)
            pos = len(cc.b)
            cc.s4(0).s4(lo).s4(hi)
            for k in range(lo, hi + 1): cc.s4(0)
            tg = []
            for k in range(lo, hi + 1):
                tg.append(len(cc.b) - at); cc.push('I', k - lo + 100).op(172)
            d = len(cc.b) - at
            cc.push('I', -7).op(172)
            import struct
            cc.b[pos:pos + 4] = struct.pack('>i', d)
            for q, t in enumerate(tg):
                cc.b[pos + 12 + 4 * q:pos + 16 + 4 * q] = struct.pack('>i', t)
            B.cf.method(nm, '(I)I', cc.done())
            for v in sorted(set(x for x in [lo - 1, lo, lo + 1, hi - 1, hi, hi + 1, 0, -1, 1, 2**31 - 1, -2**31] if -2**31 <= x < 2**31)):
                B.case('tableswitch[%d..%d] pad %d key %d' % (lo, hi, pad, v),
                       lambda c, nm=nm, v=v: c.push('I', v).invoke_static(B.cls, nm, '(I)I').print_value('I'),
                       [('I', v - lo + 100 if lo <= v <= hi else -7)])
    import struct
    for keys in ([], [0], [-5, 0, 9], [-2**31, -1, 0, 1, 2**31 - 1], [-2**31 + 1, -5, 9, 2**31 - 1], [-2**31, 2**31 - 1], [-2**31, -2**30, -2**29, 2**29, 2**30, 2**31 - 2], list(range(-50, 50, 7)), [10, 20, 30, 40]):
        n = 'ls%d' % len(B.helpers); B.helpers.add(n)
        for pad in range(4):
            nm = n + '_%d' % pad
            cc = Code(B.cf)
            for _ in range(pad): cc.op(0)
            cc.op(26)
            at = len(cc.b)
            cc.op(171)
            while len(cc.b) % 4: cc.op(0)
            pos = len(cc.b)
            cc.s4(0).s4(len(keys))
            for k in keys: cc.s4(k).s4(0)
            for q, k in enumerate(keys):
                cc.b[pos + 12 + 8 * q:pos + 16 + 8 * q] = struct.pack('>i', len(cc.b) - at)
                cc.push('I', q + 100).op(172)
            cc.b[pos:pos + 4] = struct.pack('>i', len(cc.b) - at)
            cc.push('I', -7).op(172)
            B.cf.method(nm, '(I)I', cc.done())
            test = set(keys) | set(k + 1 for k in keys) | set(k - 1 for k in keys) | {0, 1, -1, 2**31 - 1, -2**31}
            for v in sorted(x for x in test if -2**31 <= x < 2**31):
                B.case('lookupswitch%r pad %d key %d' % (keys, pad, v),
                       lambda c, nm=nm, v=v: c.push('I', v).invoke_static(B.cls, nm, '(I)I').print_value('I'),
                       [('I', keys.index(v) + 100 if v in keys else -7)])

if __name__ == '__main__':
    for p in sys.argv[1:]:
        for f in (arith_cases, stack_cases, local_cases, big_local_cases, branch_cases, switch_cases):
            B = Battery('B')
            f(B)
            bad = B.run(p)
            print(p, f.__name__, len(B.cases), 'bad', len(bad))
            for b in bad[:12]: print('   ', b)
