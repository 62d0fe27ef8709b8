"""Class files with varied constant pools, run on the built virtual machines (replay of V18 findings only)."""
import struct, random
import jasm, vm

SPECIAL_I = [0, 1, -1, 0x7fffffff, -0x80000000, 0x80, 0xff, 0x8000, 0xff00, 0x12345678, 0x00800000, 0x89abcdef - (1 << 32)]
SPECIAL_J = [0, 1, -1, 2**63 - 1, -2**63, 0xffffffff, 0x100000000, 0x80000000, -0x100000000, 0x123456789abcdef0, 0x00ff00ff00ff00ff, -0x123456789abcdef]
SPECIAL_F = [0, 0x80000000, 0x3f800000, 0x7f800000, 0xff800000, 0x7fc00001, 0x00000001, 0x12345678]
SPECIAL_D = [0, 1 << 63, 0x3ff0000000000000, 0x7ff << 52, 0xfff << 52, 1, 0x123456789abcdef0, 0x40091eb851eb851f]

def sgn(v, n): return v - (1 << n) if v >> (n - 1) & 1 else v

def unit(name, seed, n, extra=()):
    """-> (ClassFile, expected lines): loads n constants of random kinds, laid out in the pool in random order"""
    r = random.Random(seed)
    cf = jasm.ClassFile(name)
    todo = []
    for _ in range(n):
        k = r.choice('IJFDSC')
        v = {'I': lambda: r.choice(SPECIAL_I + [sgn(r.getrandbits(32), 32)]), 'J': lambda: r.choice(SPECIAL_J + [sgn(r.getrandbits(64), 64)]),
             'F': lambda: r.choice(SPECIAL_F), 'D': lambda: r.choice(SPECIAL_D), 'S': lambda: 's%d' % r.randrange(60),
             'C': lambda: r.choice(['java.lang.String', 'java.lang.Object', 'java.lang.Integer', '[I'])}[k]()
        todo.append((k, v))
    for x in extra: cf.utf8(x)
    def index(k, v):
        return {'I': cf.int_, 'J': cf.long_, 'F': cf.float_, 'D': cf.double_, 'S': cf.string, 'C': lambda x: cf.class_(x.replace('.', '/'))}[k](v)
    for k, v in todo:
        if k not in 'C': index(k, v)
        if r.random() < .3: cf.utf8('filler%d' % r.randrange(1000))
        if r.random() < .1: cf._add(('mh', r.random()), b'\x0f\x06' + struct.pack('>H', cf.methodref('java/lang/Object', 'm%d' % r.randrange(9), '()V')))
        if r.random() < .1: cf._add(('mt', r.random()), b'\x10' + struct.pack('>H', cf.utf8('(IJ)V')))
    jasm.add_out(cf)
    exp = []
    for part in range(0, len(todo), 40):
        c = jasm.Code(cf)
        for k, v in todo[part:part + 40]:
            i = index(k, v)
            c.op(20 if k in 'JD' else 19).u2(i)
            if k == 'C':
                c.invoke_virtual('java/lang/Class', 'getName', '()Ljava/lang/String;'); exp.append(v)
                c.invoke_static(name, 'out', '(Ljava/lang/String;)V')
            elif k == 'S':
                exp.append(v); c.invoke_static(name, 'out', '(Ljava/lang/String;)V')
            else:
                exp.append(str(v if k in 'IJ' else sgn(v, 32 if k == 'F' else 64)))
                c.print_value(k)
        c.op(177)
        cf.method('part%d' % part, '()V', c.done())
    m = jasm.Code(cf)
    for part in range(0, len(todo), 40):
        m.invoke_static(name, 'part%d' % part, '()V')
        m.invoke_static('java/lang/System', 'gc', '()V')
    m.op(177)
    cf.method('main', '([Ljava/lang/String;)V', m.done())
    return cf, exp

def pool_end(b):
    n, p, i = struct.unpack('>H', b[8:10])[0], 10, 1
    size = {3: 4, 4: 4, 5: 8, 6: 8, 7: 2, 8: 2, 9: 4, 10: 4, 11: 4, 12: 4, 15: 3, 16: 2, 18: 4}
    starts = []
    while i < n:
        starts.append(p)
        t = b[p]
        p += 3 + struct.unpack('>H', b[p + 1:p + 3])[0] if t == 1 else 1 + size[t]
        i += 2 if t in (5, 6) else 1
    return p, starts

def run(processes=('interpret', 'compile')):
    out = []
    for proc in processes:
        exe = vm.vm(proc)
        for seed, n in ((1, 6), (2, 20), (3, 60), (4, 120), (5, 33), (6, 250), (7, 12)):
            cf, exp = unit('P%d' % seed, seed, n, ['L' * 255, 'M' * 256, 'N' * 32767, 'O' * 32768, 'P' * 40001, 'Q' * 65535] if seed == 7 else ())
            rc, o, e = vm.run(exe, {cf.name: cf.bytes()}, cf.name)
            got = o.split('\n')[:-1]
            if got != exp or rc != 0:
                at = next((i for i, (a, b) in enumerate(zip(got + [None], exp)) if a != b), len(exp))
                out.append('%s virtual machine, class file with a constant pool of random layout (seed %d, %d constants): constant %d should be %s, got %s (exit %s)' %
                           (proc, seed, n, at, exp[at] if at < len(exp) else 'absent', got[at] if at < len(got) else 'nothing', rc))
                break
        # damaged class files must be refused, not followed
        cf, exp = unit('Q', 9, 8)
        b = cf.bytes(); end, starts = pool_end(b)
        def damaged(what, bb):
            rc, o, e = vm.run(exe, {'Q': bytes(bb)}, 'Q', timeout=30)
            if rc in (0, -11, -7, 'timeout', 139): out.append('%s virtual machine, class file Q %s: the virtual machine ended with %s' % (proc, what, rc))
        for cut in sorted(set([10, 11, starts[1] + 1, starts[len(starts) // 2] + 2, end - 1])): damaged('cut off after byte %d' % cut, b[:cut])
        for s in starts:
            if b[s] == 1:
                bb = bytearray(b); bb[s + 1:s + 3] = b'\xff\xff'
                damaged('with a UTF-8 constant (byte %d) longer than the file' % s, bb); break
        for s in starts:
            if b[s] in (7, 8, 12, 10):
                bb = bytearray(b); bb[s + 1:s + 3] = b'\xff\xf0'
                damaged('whose constant at byte %d refers to constant 65520' % s, bb)
                break
        # attribute lengths around 2^32: the position must never run backwards into accepted bytes
        c2, e2 = unit('Q', 9, 8); at = c2.utf8('Unknown'); whole = c2.bytes()
        ok = whole[:-2] + struct.pack('>HHI', 1, at, 0)
        rc, o, e = vm.run(exe, {'Q': ok}, 'Q', timeout=60)
        if rc != 0 or o.split('\n')[:-1] != e2: out.append('%s virtual machine, class file Q with an empty unknown attribute: exit %s' % (proc, rc))
        for n in (1, 2, 0x7fffffff, 0x80000000, 0xffff0000, 0xfffffff8, 0xfffffffa, 0xffffffff): damaged('whose last attribute claims %d bytes' % n, ok[:-4] + struct.pack('>I', n))
        bb = bytearray(b); bb[starts[0]] = 99
        damaged('with a constant of kind 99', bb)
        bb = bytearray(b); bb[8:10] = b'\xff\xff'
        damaged('that claims 65534 constants', bb)
    return out
