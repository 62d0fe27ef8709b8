"""Tiny class-file assembler (version 49: no stack maps) used to turn counterexamples into runnable programs."""
import struct

class ClassFile(object):
    def __init__(self, name, sup='java/lang/Object', version=49, access=0x21, interfaces=()):
        self.name = name; self.sup = sup; self.version = version; self.access = access
        self.cp = []; self.idx = {}; self.methods = []; self.fields = []; self.interfaces = list(interfaces)
    def _add(self, key, data, wide=False):
        if key in self.idx:
            return self.idx[key]
        i = len(self.cp) + 1
        self.cp.append(data)
        if wide:
            self.cp.append(None)
        self.idx[key] = i
        return i
    def utf8(self, s):
        b = s if isinstance(s, bytes) else s.encode('utf-8')
        return self._add(('u', b), b'\x01' + struct.pack('>H', len(b)) + b)
    def int_(self, v):
        return self._add(('i', v & 0xffffffff), b'\x03' + struct.pack('>I', v & 0xffffffff))
    def float_(self, bits):
        return self._add(('f', bits), b'\x04' + struct.pack('>I', bits & 0xffffffff))
    def long_(self, v):
        return self._add(('l', v & (2**64 - 1)), b'\x05' + struct.pack('>Q', v & (2**64 - 1)), True)
    def double_(self, bits):
        return self._add(('d', bits), b'\x06' + struct.pack('>Q', bits & (2**64 - 1)), True)
    def class_(self, n):
        u = self.utf8(n)
        return self._add(('c', u), b'\x07' + struct.pack('>H', u))
    def string(self, s):
        u = self.utf8(s)
        return self._add(('s', u), b'\x08' + struct.pack('>H', u))
    def nat(self, n, d):
        a, b = self.utf8(n), self.utf8(d)
        return self._add(('n', a, b), b'\x0c' + struct.pack('>HH', a, b))
    def ref(self, tag, c, n, d):
        a, b = self.class_(c), self.nat(n, d)
        return self._add((tag, a, b), bytes([tag]) + struct.pack('>HH', a, b))
    def fieldref(self, c, n, d): return self.ref(9, c, n, d)
    def methodref(self, c, n, d): return self.ref(10, c, n, d)
    def imethodref(self, c, n, d): return self.ref(11, c, n, d)
    def field(self, name, desc, access=0x9, attrs=b'', nattrs=0):
        self.fields.append(struct.pack('>HHHH', access, self.utf8(name), self.utf8(desc), nattrs) + attrs)
    def method(self, name, desc, code, stack=20, locals_=20, access=0x9, exc=()):
        """code: bytes; exc: [(start,end,handler,classname|None)]"""
        b = struct.pack('>HHI', stack, locals_, len(code)) + bytes(code)
        b += struct.pack('>H', len(exc))
        for s, e, h, c in exc:
            b += struct.pack('>HHHH', s, e, h, self.class_(c) if c else 0)
        b += struct.pack('>H', 0)
        a = struct.pack('>HI', self.utf8('Code'), len(b)) + b
        self.methods.append(struct.pack('>HHHH', access, self.utf8(name), self.utf8(desc), 1) + a)
    def abstract(self, name, desc, access=0x401):
        self.methods.append(struct.pack('>HHHH', access, self.utf8(name), self.utf8(desc), 0))
    def bytes(self):
        t, s = self.class_(self.name), self.class_(self.sup) if self.sup else 0
        ifs = [self.class_(i) for i in self.interfaces]
        out = struct.pack('>IHH', 0xcafebabe, 0, self.version) + struct.pack('>H', len(self.cp) + 1)
        out += b''.join(x for x in self.cp if x is not None)
        out += struct.pack('>HHHH', self.access, t, s, len(ifs)) + b''.join(struct.pack('>H', i) for i in ifs)
        out += struct.pack('>H', len(self.fields)) + b''.join(self.fields)
        out += struct.pack('>H', len(self.methods)) + b''.join(self.methods)
        out += struct.pack('>H', 0)
        return out

class Code(object):
    """bytecode buffer with labels"""
    def __init__(self, cf):
        self.cf = cf; self.b = bytearray(); self.labels = {}; self.fix = []; self.exc = []
    def op(self, *bs):
        for x in bs: self.b.append(x & 255)
        return self
    def u2(self, v):
        self.b += struct.pack('>H', v & 0xffff); return self
    def s4(self, v):
        self.b += struct.pack('>I', v & 0xffffffff); return self
    def label(self, n):
        self.labels[n] = len(self.b); return self
    def jump(self, op, n, wide=False):
        self.fix.append((len(self.b), len(self.b) + 1, n, 4 if wide else 2))
        self.b.append(op); self.b += b'\0' * (4 if wide else 2)
        return self
    def push(self, ty, v):
        c = self.cf
        if ty == 'I':
            self.op(19).u2(c.int_(v))
        elif ty == 'F':
            self.op(19).u2(c.float_(v))
        elif ty == 'J':
            self.op(20).u2(c.long_(v))
        elif ty == 'D':
            self.op(20).u2(c.double_(v))
        elif ty == 'A':
            self.op(1)
        return self
    def invoke_static(self, c, n, d):
        return self.op(184).u2(self.cf.methodref(c, n, d))
    def invoke_virtual(self, c, n, d):
        return self.op(182).u2(self.cf.methodref(c, n, d))
    def getstatic(self, c, n, d):
        return self.op(178).u2(self.cf.fieldref(c, n, d))
    def done(self):
        for at, pos, n, sz in self.fix:
            d = self.labels[n] - at
            self.b[pos:pos + sz] = struct.pack('>h' if sz == 2 else '>i', d)
        return bytes(self.b)
    # output helpers: one line per printed value
    def print_value(self, ty):
        """value of type ty on the stack -> printed as a signed integer (bits for F/D)"""
        if ty == 'F':
            self.invoke_static('java/lang/Float', 'floatToRawIntBits', '(F)I'); ty = 'I'
        if ty == 'D':
            self.invoke_static('java/lang/Double', 'doubleToRawLongBits', '(D)J'); ty = 'J'
        self.invoke_static(self.cf.name, 'out', '(%s)V' % ty)
        return self

def add_out(cf):
    """static out(int)/out(long)/outs(String): print one line"""
    for ty, ld in (('I', 26), ('J', 30)):
        c = Code(cf)
        c.getstatic('java/lang/System', 'out', 'Ljava/io/PrintStream;')
        c.op(ld)
        c.invoke_virtual('java/io/PrintStream', 'println', '(%s)V' % ty)
        c.op(177)
        cf.method('out', '(%s)V' % ty, c.done())
    c = Code(cf)
    c.getstatic('java/lang/System', 'out', 'Ljava/io/PrintStream;').op(42)
    c.invoke_virtual('java/io/PrintStream', 'println', '(Ljava/lang/String;)V').op(177)
    cf.method('out', '(Ljava/lang/String;)V', c.done())
