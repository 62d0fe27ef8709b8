import classfile as S
import runner

class V18(runner.Check):
    id = 'V18'
    assumptions = [
        'class files up to 1 GB; the position of the stream is inside the file when a constant is read (established by parsePool)',
        'a long or double constant is not the last slot of the pool, a constant does not refer to itself, and the constants it names have the kind its own kind requires (class-file verification; Avian has none)',
        'parsePool is proved partially correct: termination is not shown',
    ]
    trusted = ['assumed contracts: makeReference/makePair/makeMethod/makeInvocation/makeByteArray/makeSingleton (fresh object, may run the collector, which moves every object), internByteArray, intern, listAppend, makeString, heap allocate/free, vm::parseUtf8 (V10), scanMethodSpec (V07)',
               'ghost functions cpos(k) / second(k) (where constant k starts, which slots are second slots) are defined by recursion on k; instances of the definition are assumed at loop variables']
    def prepare(self): self.u = S.unit()
    def functions(self): return self.u.used if hasattr(self, 'u') else []
    def tasks(self, tier):
        u = self.u
        S.pool_contracts(u)
        T_ = lambda name, f, *a, **kw: runner.Task(name, lambda res, *b: f(u, res, *b), *a, **kw)
        # the long ones first
        out = [T_('parsePool: ' + part, S.t_pool, part, unit=u, bound=4, limit=620) for part in ('positions', 'references', 'floats')]
        out += [T_(w, S.t_stream, w, n) for w, n in (('read1', 1), ('read2', 2), ('read4', 4), ('read8', 8), ('readFloat', 4), ('readDouble', 8))]
        out += [T_('skip', S.t_skip), T_('read', S.t_read)]
        for k in S.TAGS:
            for parsed in ((False, True) if S.TAGS[k] in S.OBJ else (False,)):
                for same in ((False, True) if k == 'NameAndType' and not parsed else (False,) if len(S.OPER[k]) == 2 else (None,)):
                    out.append(T_('constant %s%s%s' % (k, ' again' if parsed else '', ' (one operand)' if same else ''), S.t_entry, k, parsed, same))
        out.append(T_('sizes', S.t_sizes))
        return out
    def replay(self, recs):
        import poolcases
        return [{'text': b, 'key': None} for b in poolcases.run()]
CHECK = V18()
