"""Check driver:  python3-vt -B pydv/main.py C08 [quick|thorough]

1. every contract of the property: interpret the current /repo source, discharge every obligation;
2. the same contracts evaluated on real calls (vacuity guard, failing-input search, bounded stand-in);
3. verdict, evidence, replay file.
"""
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
PYREAL = '/opt/venv/bin/python'


def proof_task(cname, sname, budget, timeout, conn):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        sys.setrecursionlimit(20000)
        import contracts
        contracts.load()
        from contracts.base import REGISTRY
        from pydv.runner import run_contract
        c = REGISTRY[cname]
        r = run_contract(c, budget=budget, timeout=timeout, only=sname)
        r['functions'] = sorted(r['functions'])
        r['summaries'] = sorted(r['summaries'])
        conn.send(r)
    except BaseException as e:          # reported as an undecided contract
        try:
            conn.send({'error': '%s: %s' % (type(e).__name__, e)})
        except Exception:
            pass
    conn.close()


def run_proofs(tasks, nproc, deadline, budget, timeout):
    """tasks: [(contract, scenario)] -> results in order"""
    ctx = mp.get_context('fork')
    res = [None] * len(tasks)
    todo = list(range(len(tasks)))
    live = {}
    while todo or live:
        while todo and len(live) < nproc and time.time() < deadline:
            i = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=proof_task, args=(tasks[i][0], tasks[i][1], budget, timeout, b), daemon=True)
            p.start()
            b.close()
            live[i] = (p, a, time.time())
        if time.time() >= deadline:
            for i in todo:
                res[i] = {'error': 'time budget of the check exhausted before this contract'}
            todo = []
        for i, (p, a, t) in list(live.items()):
            done = False
            if a.poll(0):
                try:
                    res[i] = a.recv()
                except EOFError:
                    res[i] = {'error': 'prover process died (exit %s)' % p.exitcode}
                done = True
            elif not p.is_alive():
                res[i] = {'error': 'prover process died (exit %s)' % p.exitcode}
                done = True
            elif time.time() > deadline:
                p.kill()
                res[i] = {'error': 'time budget of the check exhausted'}
                done = True
            if done:
                p.join(5)
                if p.is_alive():
                    p.kill()
                del live[i]
        time.sleep(0.02)
    return res


class Rac:
    def __init__(self, prop, seed, budget, contracts=(), inputs=None):
        self.inputs = None
        self.out = os.path.join(HERE, 'evidence', '.rac_%s_%d.json' % (prop, os.getpid()))
        env = dict(os.environ, NUMBA_DISABLE_JIT='1', PYTHONDONTWRITEBYTECODE='1', VERIF_REPO=REPO,
                   OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
        self.cmd = [PYREAL, '-B', os.path.join(HERE, 'harness', 'rac.py'), '--prop', prop, '--seed', str(seed),
                    '--budget', str(budget), '--out', self.out]
        if contracts:
            self.cmd += ['--contracts', ','.join(contracts)]
        if inputs:
            self.inputs = self.out + '.in'
            with open(self.inputs, 'w') as f:
                json.dump(inputs, f)
            self.cmd += ['--inputs', self.inputs]
        self.log = open(self.out + '.log', 'w')
        self.p = subprocess.Popen(self.cmd, stdout=self.log, stderr=subprocess.STDOUT, env=env, cwd=HERE)
        self.lim = budget * 2 + 90

    def result(self):
        try:
            self.p.wait(self.lim)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        self.log.close()
        r = None
        try:
            with open(self.out) as f:
                r = json.load(f)
        except (OSError, ValueError):
            with open(self.out + '.log') as f:
                r = {'fails': [], 'stats': {}, 'errors': {'harness': {'message': f.read()[-1500:], 'count': 1}},
                     'samples': [], 'crashed': True}
        for x in (self.out, self.out + '.log', self.inputs or self.out):
            try:
                os.unlink(x)
            except OSError:
                pass
        return r


def known(prop):
    try:
        with open(os.path.join(HERE, 'known_findings.json')) as f:
            return [k for k in json.load(f) if k.get('property') == prop and not k.get('fixed')]
    except OSError:
        return []


def matches(k, f):
    return k.get('contract') == f['contract'] and k.get('obligation') == f['obligation'] and \
        k.get('scenario', f['scenario']) == f['scenario']


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
    import contracts
    contracts.load()
    from contracts.base import REGISTRY
    cs = [c for c in REGISTRY.values() if c.prop == prop]
    if not cs:
        print('no contracts for', prop)
        return 0
    quick = tier == 'quick'
    racb = (25 if quick else 240)
    rac = Rac(prop, seed, racb)
    tasks = [(c.name, s['name']) for c in cs if c.prove for s in c.scenarios]
    # long ones first
    order = sorted(range(len(tasks)), key=lambda i: -REGISTRY[tasks[i][0]].weight)
    tasks = [tasks[i] for i in order]
    deadline = t0 + (420 if quick else 2400)
    res = run_proofs(tasks, 7, deadline, None if quick else 240, None if quick else 30000)
    R = rac.result()
    racs = [R]
    # ------------------------------------------------------------- collect
    obls, undecided, refuted, functions, backends = [], [], [], set(), {}
    queries, solver_s, models, summ = 0, 0.0, [], set()
    for (cn, sn), r in zip(tasks, res):
        if r.get('error'):
            undecided.append({'contract': cn, 'scenario': sn, 'obligation': '*', 'why': r['error']})
            continue
        functions |= set(r['functions'])
        summ |= set(r['summaries'])
        queries += r['queries']
        solver_s += r['solver_s']
        models += [(cn,) + tuple(m) for m in r['models']]
        for s, why in r['unsupported']:
            undecided.append({'contract': cn, 'scenario': s, 'obligation': '*', 'why': why})
        for s, nm, status, be, dt, det in r['obligations']:
            o = {'contract': cn, 'scenario': s, 'obligation': nm, 'status': status, 'backend': be, 's': dt}
            obls.append(o)
            if status == 'proved':
                backends[be] = backends.get(be, 0) + 1
            elif status == 'refuted':
                refuted.append(dict(o, detail=det))
            else:
                undecided.append({'contract': cn, 'scenario': s, 'obligation': nm, 'why': det or be})
    bounded = sorted({c.name for c in cs if not c.prove} | {u['contract'] for u in undecided})
    fails = list(R['fails'])
    given = [dict(contract=m[0], scenario=m[1], obligation=m[2], args=m[4]) for m in models if m[4]]
    if given and not fails:             # the verifier's counter-examples, replayed on the real code
        R1 = Rac(prop, seed, 5, inputs=given[:200]).result()
        racs.append(R1)
        fails += R1['fails']
    if (refuted or undecided) and not fails:
        # deeper search for a failing input on the contracts that were not fully proved
        names = sorted({x['contract'] for x in refuted} | set(bounded))
        left = (700 if quick else 3000) - (time.time() - t0)
        b = max(10, min(60 if refuted or quick else 400, left - 120))
        for sd in ((seed + 7919,) if quick else (seed + 7919, seed + 104729)):
            R2 = Rac(prop, sd, b, names).result()
            racs.append(R2)
            fails += R2['fails']
            if fails:
                break
    # ------------------------------------------------------------- verdict
    kf = known(prop)
    shown = set()
    real = []
    for f in fails:
        k = next((k for k in kf if matches(k, f)), None)
        if k is None:
            real.append(f)
        elif k['id'] not in shown:
            shown.add(k['id'])
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    ref2 = []
    for r in refuted:
        k = next((k for k in kf if matches(k, r)), None)
        if k is None:
            ref2.append(r)
        elif k['id'] not in shown:
            shown.add(k['id'])
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for k in kf:
        if k['id'] not in shown and k.get('always'):
            shown.add(k['id'])
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    viol = 0
    code = 0
    rp = os.path.join(HERE, 'replay', '%s.json' % prop)
    if os.path.exists(rp):
        os.unlink(rp)
    if real or ref2:
        viol = len({(f['contract'], f['obligation']) for f in real}) or len(ref2)
        doc = {'property': prop, 'failing_inputs': real[:6],
               'failed_obligations': ref2[:20],
               'verifier_models': [{'contract': m[0], 'scenario': m[1], 'obligation': m[2], 'model': m[3]}
                                   for m in models[:5]]}
        if real:
            f = real[0]
            if 'inputs' in f['at']:
                doc['inputs'] = [f['at']['inputs']]
                doc['replay_cmd'] = '%s -B %s/harness/rac.py --prop %s --inputs %s' % (PYREAL, HERE, prop, rp)
            else:
                doc['replay_cmd'] = '%s -B %s/harness/rac.py --prop %s --contracts %s --scenario "%s" --seed %s --one %s' % (
                PYREAL, HERE, prop, f['contract'], f['scenario'], seed, f['at'].get('seed'))
        with open(rp, 'w') as fh:
            json.dump(doc, fh, indent=1)
        for f in real[:3]:
            print('  failing input: contract %s (%s) scenario "%s" obligation "%s" index %s' % (
                f['contract'], f['target'], f['scenario'], f['obligation'], f['index']))
        for r in ref2[:5]:
            print('  refuted: contract %s scenario "%s" obligation "%s" (%s)' % (
                r['contract'], r['scenario'], r['obligation'], r['backend']))
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if real else ' no-failing-input-found'))
        code = 1
    # ------------------------------------------------------------- evidence
    proved = [o for o in obls if o['status'] == 'proved']
    calls = sum(s.get('calls', 0) for r in racs for s in r['stats'].values())
    nontriv = sum(s.get('nontrivial', 0) for r in racs for s in r['stats'].values())
    unproved_obls = len(obls) - len(proved)
    cov = {
        'obligations': len(obls),
        'discharged': len(proved),
        'checker_cmd': '/verif/check %s %s' % (prop, tier),
        'trusted_base': TRUSTED + ['contract of %s assumed at call sites, itself checked by its own contract' % s
                                   for s in sorted(summ)],
        'functions_under_contract': sorted({c.target for c in cs}),
        'functions_interpreted': sorted(functions),
        'back_ends': backends,
        'solver_queries': queries,
        'solver_s': round(solver_s, 2),
        'per_obligation': [[o['contract'], o['scenario'], o['obligation'], o['status'], o['backend'], o['s']]
                           for o in obls],
        'bounded_only': [{'contract': c.name, 'target': c.target, 'why': c.why or 'outside the verifier\'s reach'}
                         for c in cs if not c.prove],
        'undecided': undecided[:40],
        'evaluations': calls,
        'distinct_nontrivial': nontriv,
        'rule': 'bounded side: each contract evaluated on real calls of the real function with generated inputs '
                '(one case per generator seed); a case counts as non-trivial when its precondition held and at '
                'least one obligation was evaluated',
        'runtime_obligation_evaluations': {n: s['obligations'] for r in racs for n, s in r['stats'].items()},
        'harness_errors': {k: v['count'] for r in racs for k, v in r['errors'].items()},
        'samples': [s for r in racs for s in r['samples']][:6] or ['none'],
    }
    from contracts.base import LEVELS
    lvl = LEVELS.get(prop) or ('proof' if any(c.prove for c in cs) else 'exploration')
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': lvl, 'coverage': cov,
          'assumptions': ASSUME + sorted({a for c in cs for a in c.assumes}),
          'wall_s': round(time.time() - t0, 2), 'violations': viol}
    with open(os.path.join(HERE, 'evidence', '%s.json' % prop), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d/%d obligations proved (%s), %d undecided, %d refuted; %d real calls checked (%d non-trivial); %.1f s'
          % (prop, tier, len(proved), len(obls), ', '.join('%s %d' % x for x in sorted(backends.items())),
             len(undecided), len(refuted), calls, nontriv, time.time() - t0))
    for u in undecided[:12]:
        print('  bounded only: %s / %s / %s: %s' % (u['contract'], u['scenario'], u['obligation'], u['why'][:160]))
    for r in racs:
        for k, v in list(r['errors'].items())[:6]:
            print('  harness note: %s x%s: %s' % (k, v['count'], v['message'][:200]))
    return code


TRUSTED = ['pydv: symbolic semantics of the Python/numpy subset used by /repo (interp.py, npshim.py)',
           'pydv canon: rational-function normaliser', 'z3 4.x', 'cvc5 1.1']
ASSUME = ['float64 arithmetic treated as real arithmetic; x/0 totalised to 0 in the logic',
          'numba-compiled code behaves as the Python source of the function',
          'array indices are in bounds; distinct array attributes are not aliased unless the code aliases them']

if __name__ == '__main__':
    sys.exit(main())
