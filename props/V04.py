import jit_runtime as J
import runner, smt, os
from unit import *

class V04(runner.Check):
    id = 'V04'
    assumptions = [
        'arguments arrive as compiled code passes them: (method, reference) pairs for unresolved constants, operands of multianewarray on the compiled frame with the last dimension lowest (which compiled code does: V03)',
        'signed overflow in C++ wraps (the helpers are obliged not to trap or to shift out of range); IEEE-754 host arithmetic',
        'member offsets lie inside the object (V09) and virtual table slots inside the table',
        'multianewarray helpers are proved for each dimension count 1..5 and 8 (the count is a constant of the call site; other counts differ only in the number of loop iterations)',
    ]
    trusted = ['assumed contracts: vm::resolveClass, findInHierarchyOrNull, initClass, getJClass, make* (fresh object; every one may run the collector, which moves all objects), isAssignableFrom/instanceOf/isSuperclass (V08), acquire/release, populateMultiArray, vm::mark, local::compile (sets the entry point of the method it is given)',
               'the entry point a method has before and after compile() is the same symbolic word']
    def prepare(self):
        self.ua = J.unit_arith()
        self.u = J.unit_jit()
        self.units = [self.ua, self.u]
    def functions(self):
        return [f for u in getattr(self, 'units', []) for f in u.used]
    def tasks(self, tier):
        T_ = runner.Task
        u = self.u
        out = []
        for n, (ar, sp, ext) in sorted(J.pure().items()):
            out.append(T_(n, lambda res, n, ar, sp, ext: J.t_pure(self.ua, res, n, ar, sp, ext), n, ar, sp, ext))
        def add(name, f, *a):
            out.append(T_(name, lambda res, *b: f(u, res, *b), *a))
        for n in ('divideLong', 'divideInt', 'moduloLong', 'moduloInt'):
            add(n, J.t_div, n)
        for a in J.ATY: add('makeBlankArray %d' % a, J.t_newarray, a)
        for r in (False, True):
            add('makeBlankObjectArray%s' % r, J.t_anewarray, r)
            for d in (1, 2, 3, 4, 5, 8): add('makeMultidimensionalArray %s %d' % (r, d), J.t_multi, r, d)
        for n in ('makeNewGeneral64', 'makeNew64', 'makeNewFromReference'): add(n, J.t_new, n)
        for n in ('checkCast', 'checkCastFromReference', 'instanceOf64', 'instanceOfFromReference'):
            for null in (False, True): add('%s %s' % (n, null), J.t_cast, n, null)
        for null in (False, True):
            add('setMaybeNull %s' % null, J.t_setmaybenull, null)
            add('throw_ %s' % null, J.t_throw, null)
            for n in ('acquireMonitorForObject', 'acquireMonitorForObjectOnEntrance', 'releaseMonitorForObject', 'acquireMonitorForClassOnEntrance', 'releaseMonitorForClass'):
                add('%s %s' % (n, null), J.t_monitor, n, null)
        for n in ('getJClass64', 'getJClassFromReference'): add(n, J.t_jclass, n)
        add('lookUpAddress', J.t_lookup)
        for code in J.SZ:
            for res_ in (True, False):
                for vol in (False, True):
                    for st_, nu in ((True, False), (False, False), (False, True)):
                        add('get %s %s %s %s %s' % (code, res_, vol, st_, nu), J.t_get, code, st_, nu, res_, vol)
                        add('set %s %s %s %s %s' % (code, res_, vol, st_, nu), J.t_set, code, st_, nu, res_, vol)
                        if not vol:
                            add('get %s %s %s %s wrong kind' % (code, res_, st_, nu), J.t_get, code, st_, nu, res_, vol, True)
                            add('set %s %s %s %s wrong kind' % (code, res_, st_, nu), J.t_set, code, st_, nu, res_, vol, True)
        for res_ in (True, False):
            for n in ('findSpecialMethodFromReference', 'findStaticMethodFromReference', 'findVirtualMethodFromReference', 'findInterfaceMethodFromInstanceAndReference'):
                add('%s %s' % (n, res_), J.t_method, n, res_)
                add('%s %s missing' % (n, res_), J.t_method, n, res_, False, False)
                if n[4] in 'VI': add('%s %s null' % (n, res_), J.t_method, n, res_, True)
        add('findInterfaceMethodFromInstance', J.t_method, 'findInterfaceMethodFromInstance', True)
        add('findInterfaceMethodFromInstance missing', J.t_method, 'findInterfaceMethodFromInstance', True, False, False)
        add('findInterfaceMethodFromInstance null', J.t_method, 'findInterfaceMethodFromInstance', True, True)
        add('findInterfaceMethodFromInstance bootstrap', J.t_method, 'findInterfaceMethodFromInstance', True, False, True, True)
        return out
    # ---- replay on the real code
    SKIP_OPS = ()
    def native_pure(self, recs):
        """call the real runtime.cpp helpers (compiled from the tree) on the counterexamples and boundary operands"""
        import ctypes, vm, build
        import battery as BT, interp_common as IC
        pure = J.pure()
        want = set(r['task'] for r in recs if r['task'] in pure) or (set(pure) if not recs else set())
        if not want:
            return []
        txt = '#include "%s/src/codegen/runtime.cpp"\n' % build.REPO
        f = self.ua
        sigs = {}
        for n in sorted(want):
            fn = f.fn('avian::codegen::runtime::' + n)
            ws = [ty.w for _, ty, _ in fn.params]
            sigs[n] = ws
            txt += 'extern "C" __attribute__((visibility("default"))) unsigned long long H_%s(%s) { return (unsigned long long)avian::codegen::runtime::%s(%s); }\n' % (
                n, ', '.join('uint%d_t p%d' % (w, i) for i, w in enumerate(ws)), n, ', '.join('p%d' % i for i in range(len(ws))))
        so = vm.native('helpers', txt, ['-I%s/src' % build.REPO, '-I%s/include' % build.REPO, '-I%s' % build.REPO, '-D__STDC_LIMIT_MACROS', '-DAVIAN_VERSION=""', '-DAVIAN_INFO=""'])
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                lib = ctypes.CDLL(so)
                for n in sorted(want):
                    ar, spec, ext = pure[n]
                    ws = sigs[n]
                    B = list(BT.BOUND['J']) + list(BT.BOUND['D']) if 64 in ws else list(BT.BOUND['I']) + list(BT.BOUND['F'])
                    B = B + [v for v in BT.BOUND['F']] if 'loat' in n else B
                    cases = [tuple(r['extra']['args']) for r in recs if r['task'] == n and r.get('extra') and None not in r['extra']['args']]
                    cases += [(x, y) for x in B for y in B] if ar == 2 else [(x,) for x in B]
                    fp = getattr(lib, 'H_' + n)
                    fp.restype = ctypes.c_uint64
                    fp.argtypes = [getattr(ctypes, 'c_uint%d' % w) for w in ws]
                    for c in cases:
                        c = tuple(v & ((1 << w) - 1) for v, w in zip(c, ws))
                        t = [bv(v, w) for v, w in zip(c, ws)]
                        e = spec(t[1], t[0]) if ar == 2 else spec(t[0])
                        if not isc(e): continue
                        os.write(wr, ('?%s%r\n' % (n, c)).encode())
                        g = fp(*c) & ((1 << e.w) - 1)
                        os.write(wr, b'.\n')
                        q = 'D' if e.w == 64 else 'F'
                        if g != cv(e) and not (BT.isnan_bits(q, g) and BT.isnan_bits(q, cv(e))):
                            os.write(wr, ('!%s%s = 0x%x, expected 0x%x\n' % (n, tuple(hex(v) for v in c), g, cv(e))).encode()); break
            finally:
                os._exit(0)
        os.close(wr)
        data = b''
        with os.fdopen(rd, 'rb') as f:
            lines = f.read().decode().split('\n')
        _, stt = os.waitpid(pid, 0)
        out = [{'text': 'src/codegen/runtime.cpp compiled from the tree: ' + l[1:], 'key': None} for l in lines if l.startswith('!')]
        last = [l for l in lines if l]
        if stt != 0 and last and last[-1].startswith('?'):
            out.append({'text': 'src/codegen/runtime.cpp compiled from the tree: %s trapped (status %d)' % (last[-1][1:], stt), 'key': None})
        return out
    def replay(self, recs):
        import vm
        import battery as BT
        out = self.native_pure(recs)
        if out: return out
        H = ['HeapCases$' + x for x in ('F', 'S', 'B', 'C', 'I1', 'H', 'H2', 'HI')]
        for kw in ({'args': ['lazy'], 'hide': H}, {}):
            out += [{'text': 'compiling virtual machine, specs/java/HeapCases.java %s: %s' % (kw.get('args', ''), b), 'key': None} for b in vm.java_cases('HeapCases', 'compile', **kw)]
            if out: return out[:10]
        for f in (lambda B: BT.arith_cases(B, None, {}), BT.switch_cases):
            B = BT.Battery('B'); f(B)
            out += [{'text': 'compiling virtual machine: %s: expected %s, printed: %s' % r, 'key': None} for r in B.run('compile')]
            if out: return out[:10]
        for b in vm.link_cases('compile'):
            out.append({'text': 'compiling virtual machine: ' + b, 'key': None})
        return out
CHECK = V04()
