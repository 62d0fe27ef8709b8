import interp as S
from interp_common import *
import battery as BT

class V01(InterpCheck):
    id = 'V01'
    assumptions = [
        'the frame precondition (representation invariant): locals and operand stack of the current frame are laid out as Env.setup in specs/interp_env.py states, the code array holds the whole instruction, and operands have the kinds the class-file verifier would guarantee',
        'signed overflow in C++ wraps and a shift count is below the width (the latter is an obligation); compiled without -fwrapv by gcc -O3',
        'IEEE-754 arithmetic of the host for fadd/fsub/fmul/fdiv/fmod; NaN results are compared as the host instruction produces them',
        'makeThrowable returns a fresh throwable of the requested type (assumed contract); findExceptionHandler is specified by V05',
        'no garbage collection or other thread changes the frame during one instruction (safepoint contract assumed)',
    ]
    trusted = ['assumed contracts: vm::makeThrowable, vm::safePoint/enter, vm::mark (GC write barrier)']
    def scns(self):
        return S.scenarios_arith(self.env) + S.scenarios_branch(self.env) + S.scenarios_switch(self.env)
    def replay(self, recs):
        import interp as S_
        models = {}
        for r in recs:
            nm = r['task']
            if r.get('extra') and nm in S.ARITH or nm in S.DIVS:
                ops = [x for x in r['extra']['ops']]
                if None not in ops:
                    tys = S.ARITH[nm][1] if nm in S.ARITH else S.DIVS[nm][1] * 2
                    models.setdefault(nm, []).append(tuple(ops))
        out = []
        names = set(r['task'] for r in recs)
        todo = []
        ar = [n for n in names if n in S.ARITH or n in S.DIVS]
        if ar or not recs:
            todo.append(lambda B: BT.arith_cases(B, set(ar) or None, models))
        todo += [BT.stack_cases, BT.local_cases, BT.branch_cases, BT.switch_cases]
        for f in todo:
            B = BT.Battery('B')
            f(B)
            for name, exp, got in B.run('interpret'):
                out.append({'text': 'interpreter: %s: expected %s, the VM printed: %s' % (name, exp, got), 'key': None})
            if out:
                break
        return out

CHECK = V01()
