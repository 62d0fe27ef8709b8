"""shared by the interpreter checks"""
import interp as S
from interp_env import *
import smt, runner

class InterpCheck(runner.Check):
    def prepare(self):
        self.env = S.Env()
    def scns(self): return []
    def tasks(self, tier):
        return [runner.Task(s.name, self.one, s) for s in self.scns()]
    def functions(self):
        return [self.env.ex.dname[self.env.fn.name]] if hasattr(self, 'env') else []
    def one(self, res, scn):
        env = self.env
        ex = env.ex
        ex.invoked = {}; ex.inlined = set()
        before = runner.snapshot(ex)
        r = S.run_scn(env, scn)
        runner.account(res, ex, before)
        res['paths'] = r['paths']
        res['inlined'] = sorted(ex.bname[n] for n in ex.inlined)
        res['contracts'] = dict(ex.invoked)
        if r['paths'] == 0 and not r['failures']:
            res['vacuous'].append(scn.name + ': no path reaches an end')
        miss = set(scn.expect or ()) - r['kinds']
        if miss and not r['failures']:
            res['vacuous'].append('%s: outcome %s is never reached' % (scn.name, sorted(miss)))
        for f in r['failures']:
            rec = runner.failure_rec(scn.name, f, extra=None)
            rec['extra'] = self.concrete(r['ctx'], scn, rec['model'])
            res['failures'].append(rec)
    def concrete(self, c, scn, model):
        """operand values of the counterexample"""
        out = []
        for v in c.ops:
            if isinstance(v, tuple):
                out.append(None); continue
            x = evalt(v, model)
            out.append(x)
        return {'ops': out, 'opnds': [evalt(v, model) for v in c.opnds]}

def evalt(t, model):
    sub_ = {}
    for v in free(t):
        if v.op == 'v':
            val = model.get(v.args[0], 0)
            sub_[v] = (TRUE if val else FALSE) if v.w == 0 else bv(val, v.w)
    r = subst(t, sub_)
    return cv(r) if isc(r) else None
