import arraycopy as S
import runner

class V11(runner.Check):
    id = 'V11'
    assumptions = [
        'array layout (class word, length word, body) as the generated type declarations state; the byte size of an array is below 4 GB (what allocation establishes: V02)',
        'array classes: element size 1, 2, 4 or 8, a reference mask exactly for reference arrays; other classes have element size 0',
        'IndexOutOfBoundsException or its subclass ArrayIndexOutOfBoundsException is accepted for an invalid range',
    ]
    trusted = ['assumed contracts: vm::throwNew does not return, vm::mark (GC write barrier); memmove/memcpy as the C standard defines them (memcpy obliges disjoint ranges)']
    def prepare(self): self.u = S.unit()
    def functions(self): return self.u.used if hasattr(self, 'u') else []
    def tasks(self, tier):
        u = self.u
        T_ = lambda name, f, *a: runner.Task(name, lambda res, *b: f(u, res, *b), *a, unit=u, bound=3)
        out = [T_('null %d' % i, S.t_null, i) for i in range(3)]
        out += [T_('mismatch: ' + k, S.t_mismatch, k) for k in ('primitive arrays', 'primitive and reference array', 'reference and primitive array', 'non-array source', 'non-array target', 'plain objects', 'plain objects without references')]
        for ok in (True, False):
            for same in (True, False):
                for es in (1, 2, 4, 8): out.append(T_('copy es=%d same=%s valid=%s' % (es, same, ok), S.t_copy, es, 0, same, ok))
                out.append(T_('copy references same=%s valid=%s' % (same, ok), S.t_copy, 8, 1, same, ok))
            out.append(T_('copy references between classes valid=%s' % ok, S.t_copy, 8, 2, False, ok))
        out.append(T_('store check', S.t_store))
        return out
    def key(self, rec):
        return 'arraycopy-store-check' if rec['kind'] == 'store-check' else None
    def replay(self, recs):
        import vm
        return [{'text': '%s virtual machine, specs/java/CopyCases.java: %s' % (p, b), 'key': 'arraycopy-store-check' if b.startswith('store check') else None}
                for p in ('interpret', 'compile') for b in vm.java_cases('CopyCases', p)]
CHECK = V11()
