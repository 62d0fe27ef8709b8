import descr as S
import runner

class V07(runner.Check):
    id = 'V07'
    assumptions = ['descriptors are well formed as JVMS 4.3.3 requires (at most 255 parameters and argument words)']
    trusted = ['ghost functions over positions of the descriptor are defined by recursion; instances of the definition are assumed at loop variables; the facts about pairs of positions are proved by induction']
    def prepare(self): self.u = S.unit()
    def functions(self): return self.u.used if hasattr(self, 'u') else []
    def tasks(self, tier):
        u = self.u
        T_ = lambda name, f, *a, **kw: runner.Task(name, lambda res, *b: f(u, res, *b), *a, **kw)
        out = [T_('next', S.t_next, unit=u, bound=6), T_('iterator', S.t_iter), T_('kinds', S.t_kinds), T_('lemmas', S.t_lemma)]
        for w in ('parameterFootprint', 'scanMethodSpec'):
            for st in (False, True): out.append(T_('%s static=%s' % (w, st), S.t_count, w, st, unit=u, bound=4))
        return out
    def replay(self, recs): return []
CHECK = V07()
