"""Common driver of the checks: generate and discharge obligations (in parallel), confirm refutations on the real code,
write evidence, print VIOLATION / KNOWN-FINDING lines.  Exit status: 0 all obligations discharged, 1 violation, 2 no answer."""
import os, sys, json, time, traceback, multiprocessing, re, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, smt
from terms import *
import sym

VERIF = build.VERIF

class Rec(dict):
    """one failed obligation, picklable"""

def failure_rec(task, f, extra=None):
    m = None
    try:
        m = f.model()
    except Exception:
        pass
    mv = {}
    if m is not None:
        vs = set()
        for x in list(f.pc) + [f.goal]:
            free_vars(x, vs)
        for v in vs:
            try:
                mv[v.args[0]] = smt.mval(m, v)
            except Exception:
                pass
    return Rec(task=task, kind=f.kind, desc=f.desc, loc=f.loc, status=f.status, model=mv, goal=show(f.goal)[:2000],
               pc=[show(x)[:300] for x in f.pc[-12:]], extra=extra)

def free_vars(t, out):
    for v in free(t):
        if isinstance(v, T) and v.op == 'v':
            out.add(v)

class Result(dict):
    def __init__(self, name):
        dict.__init__(self, name=name, obligations=0, discharged=0, kinds={}, failures=[], undecided=[], paths=0, inlined=[], contracts={},
                      solver_s=0.0, vacuous=[], z3=0, cvc5=0, trivial=0, wall=0.0, notes=[])

def account(res, ex, before):
    o, d, k, st = before
    res['obligations'] += ex.obligations - o
    res['discharged'] += ex.discharged - d
    for q, v in ex.kinds.items():
        dv = v - k.get(q, 0)
        if dv: res['kinds'][q] = res['kinds'].get(q, 0) + dv
    res['solver_s'] += smt.STATS['time'] - st['time']
    for q in ('z3', 'cvc5', 'trivial'):
        res[q] += smt.STATS.get(q, 0) - st.get(q, 0)

def snapshot(ex):
    return ex.obligations, ex.discharged, dict(ex.kinds), dict(smt.STATS)

class Task(object):
    """unit/bound: when the unbounded proof does not go through (no inductive invariant among the candidates, or a failure that
    may be due to a weak invariant), the task is repeated with every loop unrolled exactly for inputs of at most `bound`
    elements.  A failure there is a genuine counterexample; success is reported as bounded, never as proved."""
    def __init__(self, name, fn, *args, **kw):
        self.name = name; self.fn = fn; self.args = args
        self.unit = kw.get('unit'); self.bound = kw.get('bound')
        self.limit = kw.get('limit', 420 if self.bound else 800); self.blimit = kw.get('blimit', 260)

class TimeUp(BaseException):
    pass

def _alarm(sig, frame):
    raise TimeUp()

_TASKS = None
def _run(i):
    t = _TASKS[i]
    t0 = time.time()
    if t.bound and t.unit is not None:
        t.unit.bound = None
    res = _run1(t, t.limit)
    if t.bound and t.unit is not None and (res['failures'] or res['undecided'] or res['vacuous']):
        t.unit.bound = t.bound
        r2 = _run1(t, t.blimit)
        t.unit.bound = None
        why = (['%s [%s]' % (f['desc'], f['status']) for f in res['failures']] + res['undecided'] + res['vacuous'])
        if r2['failures']:
            res = r2
        elif not r2['undecided'] and not r2['vacuous']:
            r2['bounded'] = 'at most %d elements (unbounded proof not accepted: %s)' % (t.bound, '; '.join(why)[:600])
            res = r2
    res['wall'] = time.time() - t0
    return dict(res)

def _run1(t, limit):
    t0 = time.time()
    res = Result(t.name)
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            t.fn(res, *t.args)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except TimeUp:
        res['undecided'].append('%s: not decided within %d s' % (t.name, limit))
    except sym.Undecided as e:
        res['undecided'].append('%s: %s' % (t.name, e))
    except build.BuildError as e:
        res['undecided'].append('%s: build: %s' % (t.name, str(e)[-1500:]))
    except RecursionError as e:
        res['undecided'].append('%s: recursion' % t.name)
    except Exception as e:
        res['undecided'].append('%s: internal error %s' % (t.name, traceback.format_exc()[-700:]))
    res['wall'] = time.time() - t0
    return dict(res)

def known_findings(prop):
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    out = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out

class Check(object):
    id = None
    level = 'proof'
    assumptions = ()
    trusted = ()
    def prepare(self): pass
    def tasks(self, tier): return []
    def replay(self, recs):
        """-> list of confirmations: dict(text=..., key=...) found by running the real code"""
        return []
    def search(self):
        """concrete search on the real code when the verifier gives no answer -> as replay"""
        return self.replay([])
    def key(self, rec):
        return None
    def functions(self): return []

TRUSTED = ['clang 18 C++ front end and LLVM mem2reg/simplifycfg (source to IR; the production build uses gcc)',
           'the VC generator in /verif/eng (symbolic execution of LLVM IR; its term simplifier is differentially tested against z3 by eng/test_terms.py)',
           'z3 5.3.2 (and cvc5 1.1.2 as fallback)']

DEADLINE = 700     # seconds after which tasks without an answer count as undecided
ENOUGH = 500       # seconds after which a failed obligation ends the run

def main(check, argv):
    global _TASKS
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    only = argv[argv.index('--only') + 1] if '--only' in argv else None
    verbose = '-v' in argv
    seed = int(os.environ.get('VERIF_SEED', '1'))
    check.tier = tier; check.seed = seed
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    replay_path = os.path.join(evdir, '%s.replay.txt' % check.id)
    if os.path.exists(replay_path):
        os.unlink(replay_path)
    results = []
    errors = []
    try:
        check.prepare()
        tasks = check.tasks(tier)
    except (sym.Undecided, build.BuildError) as e:
        errors.append('extraction: %s%s' % ('build: ' if isinstance(e, build.BuildError) else '', e))
        tasks = []
    except Exception as e:
        errors.append('extraction: internal error %s' % traceback.format_exc()[-700:])
        tasks = []
    if only:
        tasks = [t for t in tasks if only in t.name]
    _TASKS = tasks
    n = int(os.environ.get('VERIF_JOBS', '8'))
    if tasks:
        if n > 1 and len(tasks) > 1:
            mp = multiprocessing.get_context('fork')
            with mp.Pool(min(n, len(tasks)), maxtasksperchild=getattr(check, 'maxtasks', None)) as pool:
                it = pool.imap_unordered(_run, range(len(tasks)), 1)
                for _ in range(len(tasks)):
                    try:
                        r = it.next(timeout=max(1, DEADLINE - (time.time() - t0)))
                    except multiprocessing.TimeoutError:
                        done = set(r['name'] for r in results)
                        errors.append('no answer within %d s: %s' % (DEADLINE, ', '.join(t.name for t in tasks if t.name not in done)[:400]))
                        break
                    results.append(r)
                    if verbose:
                        report(r)
                    if r['failures'] and time.time() - t0 > ENOUGH:
                        break
        else:
            for i in range(len(tasks)):
                r = _run(i)
                results.append(r)
                if verbose:
                    report(r)
    fails = [f for r in results for f in r['failures']]
    und = errors + [u for r in results for u in r['undecided']] + ['vacuous: ' + v for r in results for v in r['vacuous']]
    unk = [f for f in fails if f['status'] == 'unknown']
    ref = [f for f in fails if f['status'] != 'unknown']
    # known findings
    kf = known_findings(check.id)
    kfkeys = dict(kf)
    seen_kf = {}
    live = []
    for f in ref:
        k = check.key(f)
        f['key'] = k
        if k is not None and k in kfkeys:
            seen_kf.setdefault(k, []).append(f)
        else:
            live.append(f)
    for k, t in kf:
        print('KNOWN-FINDING: property=%s %s' % (check.id, t))
    violations = 0
    confirmed = []
    bnd = [r for r in results if r.get('bounded')]
    for r in bnd:
        print('BOUNDED %s: %s' % (r['name'], r['bounded'][:300]))
    if live or unk or und or bnd:
        try:
            confirmed = check.replay(live + unk) if (live or unk) else []
            if not confirmed and (und or live or unk or bnd):
                confirmed = check.search() or []
            confirmed = [c for c in confirmed if c.get('key') not in kfkeys]
        except Exception as e:
            print('replay failed: %s' % traceback.format_exc()[-1500:])
    # an obligation the verifier does not accept is a failed obligation, with or without a counterexample; when the code could
    # not even be extracted because it does not compile, there is nothing to say (exit 2)
    nobuild = [u for u in und if 'build:' in u or 'BuildError' in u]
    open_ = (unk or und) and not nobuild and tasks and not only
    if live or confirmed or open_:
        violations = len(live) or len(confirmed) or len(unk) + len(und)
        with open(replay_path, 'w') as f:
            f.write('property %s\n' % check.id)
            if confirmed:
                f.write('\n== confirmed on the real code (built from the current tree) ==\n')
                for c in confirmed[:20]:
                    f.write(c['text'] + '\n')
            f.write('\n== failed obligations ==\n')
            for r in (live + unk)[:40]:
                f.write('- task %s\n  obligation [%s] %s\n  at %s\n  solver: %s\n  counterexample: %s\n  goal: %s\n  path: %s\n' %
                        (r['task'], r['kind'], r['desc'], r['loc'], r['status'], fmt_model(r['model']), r['goal'], '\n        '.join(r['pc'])))
            for u in und[:20]:
                f.write('- undecided: %s\n' % u)
    wall = time.time() - t0
    obl = sum(r['obligations'] for r in results); dis = sum(r['discharged'] for r in results)
    nkf = sum(len(v) for v in seen_kf.values())
    kinds = {}
    contracts = {}
    inl = set()
    for r in results:
        for k, v in r['kinds'].items(): kinds[k] = kinds.get(k, 0) + v
        for k, v in r['contracts'].items(): contracts[k] = contracts.get(k, 0) + v
        inl |= set(r['inlined'])
    ev = {'property': check.id, 'tier': tier, 'seed': seed, 'level': check.level,
          'coverage': {'obligations': obl, 'discharged': dis, 'checker_cmd': 'python3-vt /verif/check.py %s --tier %s' % (check.id, tier),
                       'trusted_base': list(TRUSTED) + list(check.trusted),
                       'known_findings_excluded': nkf,
                       'tasks': len(results), 'paths': sum(r['paths'] for r in results),
                       'obligation_kinds': kinds,
                       'discharged_by': {'simplifier (term normal forms)': sum(r['trivial'] for r in results), 'z3 queries': sum(r['z3'] for r in results),
                                         'cvc5 queries': sum(r['cvc5'] for r in results)},
                       'solver_s': round(sum(r['solver_s'] for r in results), 2),
                       'functions_under_contract': sorted(set(list(check.functions()))),
                       'callees_verified_inline': sorted(inl)[:400],
                       'assumed_contracts_used': contracts,
                       'task_names': sorted(r['name'] for r in results)[:400],
                       'bounded_not_proved': {r['name']: r['bounded'] for r in results if r.get('bounded')},
                       'notes': sorted(set(x for r in results for x in r['notes']))[:60]},
          'assumptions': list(check.assumptions), 'wall_s': round(wall, 2), 'violations': violations}
    ev['coverage'].update(getattr(check, 'extra_cov', {}))
    with open(os.path.join(evdir, '%s.json' % check.id), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d tasks, %d obligations, %d discharged, %d paths, solver %.1fs, wall %.1fs' %
          (check.id, len(results), obl, dis, ev['coverage']['paths'], ev['coverage']['solver_s'], wall))
    if violations:
        for r in (live + unk)[:8]:
            print('  failed obligation: [%s] %s (%s)' % (r['kind'], r['desc'], r['task']))
        for x in und[:6]:
            print('  obligation not established: %s' % x[-300:])
        for c in confirmed[:5]:
            print('  replay: %s' % c['text'][:400])
        print('VIOLATION property=%s replay=%s%s' % (check.id, replay_path, '' if confirmed else ' no-failing-input-found'))
        return 1
    if und or unk or not results or obl == 0:
        for u in und[:10]:
            print('UNDECIDED %s' % u[-600:])
        for u in unk[:10]:
            print('UNKNOWN %s %s (%s)' % (u['task'], u['desc'], u['loc']))
        if not results:
            print('UNDECIDED: nothing was checked')
        return 2
    if dis + nkf != obl:
        print('UNDECIDED: %d obligations, %d discharged' % (obl, dis))
        return 2
    return 0

def fmt_model(m):
    return ', '.join('%s=%s' % (k, (hex(v) if isinstance(v, int) and not isinstance(v, bool) else v)) for k, v in sorted(m.items())[:40]) if m else '(none)'

def report(r):
    print('%-28s paths %d obl %d ok %d %.2fs %s' % (r['name'], r['paths'], r['obligations'], r['discharged'], r['wall'],
          'VACUOUS ' + str(r['vacuous']) if r['vacuous'] else ''))
    for f in r['failures'][:6]:
        print('    FAIL %s [%s] %s | %s | %s' % (f['status'], f['kind'], f['desc'], f['loc'], fmt_model(f['model'])[:300]))
    for u in r['undecided']:
        print('    UNDECIDED', u)
    sys.stdout.flush()
