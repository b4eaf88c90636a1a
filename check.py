"""check.py <property>: decide one property on /repo's current tree.

1. contracts/<id>.py: the functions the property depends on are read from /repo's source, executed symbolically against
   their contracts, and every obligation is handed to the prover (no bound on inputs or iterations).
2. rt/run.py <id>: the runtime oracle of the property runs the real code on generated inputs.  It replays failed
   obligations on the real code, and stands in (bounded, never counted as proved) for functions out of the verifier's reach.
"""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
VPY = os.environ.get('VERIF_PY', '/opt/venv/bin/python')
RT = os.path.join(HERE, 'rt', 'run.py')
EV = os.path.join(HERE, 'evidence')


class Runtime:
    def __init__(self, prop, seed, shards, seconds, n, tag=''):
        self.parts = []
        os.makedirs(EV, exist_ok=True)
        env = dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
        for s in range(shards):
            out = os.path.join(EV, '%s%s.rt%d.json' % (prop, tag, s))
            if os.path.exists(out):
                os.unlink(out)
            p = subprocess.Popen([VPY, '-W', 'ignore', RT, prop, '--seed', str(seed), '--shard', str(s), '--n', str(n), '--seconds', str(seconds), '--out', out],
                                 env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
            self.parts.append((p, out))
        self.deadline = time.time() + seconds + 90

    def result(self):
        res = dict(evaluations=0, distinct=0, failures=[], samples=[], rule='', shards=len(self.parts), broken=0)
        for p, out in self.parts:
            try:
                p.wait(max(1, self.deadline - time.time()))
            except subprocess.TimeoutExpired:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                p.wait()
            try:
                d = json.load(open(out))
                os.unlink(out)
            except (OSError, ValueError):
                res['broken'] += 1
                continue
            res['evaluations'] += d['evaluations']
            res['distinct'] += d['distinct']
            res['failures'] += d['failures']
            res['samples'] += d['samples'][:1]
            res['rule'] = d.get('rule', '') or res['rule']
        return res


def known(prop):
    out = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('open: property=%s ' % prop):
                m, _, what = l.split('match=', 1)[1].partition(' | ')
                out.append((m.strip(), what.strip()))
    return out


def main():
    prop = sys.argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2 and sys.argv[2] == '--thorough':
        tier = 'thorough'
    thorough = tier == 'thorough'
    t0 = time.time()
    rt = Runtime(prop, seed, 6 if thorough else 2, 240 if thorough else 18, 10 ** 6 if thorough else 1500)
    items, failed, unsupported, obl_n, assumptions, derr = [], [], [], 0, [], ''
    have = os.path.exists(os.path.join(HERE, 'contracts', prop.lower() + '.py'))
    level = 'exploration'
    proof_s = 0.0
    skipped = 0
    if have:
        import importlib
        from pyver.harness import Ctx
        from pyver.values import Unsupported
        tp = time.time()
        try:
            mod = importlib.import_module('contracts.' + prop.lower())
            level = getattr(mod, 'LEVEL', 'proof')
            assumptions = list(getattr(mod, 'ASSUMPTIONS', []))
            ctx = Ctx(prop)
            ctx.parallel([mod.run], force=True)
            failed = [(it, o) for it in ctx.items for o in it.obls if not o.result and not o.skipped]
            skipped = sum(1 for it in ctx.items for o in it.obls if o.skipped)
            items = ctx.items
            unsupported = [it for it in items if it.status != 'ok']
            obl_n = sum(len(it.obls) for it in items if it.status == 'ok')
            failed = [(it, o) for it, o in failed if it.status == 'ok']
        except Exception as e:
            import traceback
            derr = '%s: %s' % (type(e).__name__, e)
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
        proof_s = time.time() - tp
    res = rt.result()
    proved = have and not derr and not unsupported and not failed and obl_n > 0
    if have and not proved and not res['failures']:
        # look harder for an input: other seeds, more time
        more = Runtime(prop, seed + 1000, 7, 60 if not thorough else 200, 10 ** 6, 'x').result()
        for k in ('evaluations', 'distinct'):
            res[k] += more[k]
        res['failures'] += more['failures']
    kn = known(prop)
    fails, hits = [], set()
    for f in res['failures']:
        m = next((w for k, w in kn if k in f['msg']), None)
        if m is None:
            fails.append(f)
        else:
            hits.add(m)
    for k, w in kn:
        print('KNOWN-FINDING: property=%s %s' % (prop, w))
    rc = 0
    replay = os.path.join(EV, prop + '.replay.json')
    if os.path.exists(replay):
        os.unlink(replay)
    fobl = [dict(function=it.fn, obligation=o.name, solver=o.info[:3000]) for it, o in failed]
    if fails:
        rc = 1
        json.dump(dict(property=prop, case=fails[0]['case'], message=fails[0]['msg'], failed_obligations=fobl, how='/opt/venv/bin/python rt/run.py --replay FILE'), open(replay, 'w'), indent=1)
        for o in fobl:
            print('failed obligation: %s: %s' % (o['function'], o['obligation']))
        print('input: %s' % json.dumps(fails[0]['case'])[:3000])
        print('observed: %s' % fails[0]['msg'])
        print('VIOLATION property=%s replay=%s' % (prop, replay))
    elif failed:
        rc = 1
        json.dump(dict(property=prop, failed_obligations=fobl, note='the runtime oracle found no failing input in %d evaluations' % res['evaluations']), open(replay, 'w'), indent=1)
        for o in fobl:
            print('failed obligation: %s: %s\n  %s' % (o['function'], o['obligation'], o['solver'][:1500]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay))
    elif res['evaluations'] == 0 and not proved:
        rc = 1
        json.dump(dict(property=prop, failed_obligations=[], note='neither the contracts nor the runtime oracle could be applied: ' + derr), open(replay, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay))
    ev = evidence(prop, tier, seed, level, proved, items, failed, unsupported, obl_n, derr, res, assumptions, proof_s, time.time() - t0, len(fails) + (len(failed) if not fails else 0))
    json.dump(ev, open(os.path.join(EV, prop + '.json'), 'w'), indent=1)
    print('%s %s: %d obligations of %d functions, %d failed, %d not attempted after a failure, %d functions out of reach%s; %d runtime evaluations, %d failures; %.0f s' % (
        prop, 'proved' if proved else 'not proved' if have else 'bounded', obl_n, len([i for i in items if i.obls]), len(failed), skipped, len(unsupported),
        ' (%s)' % '; '.join('%s: %s' % (i.fn, i.why) for i in unsupported) if unsupported else (' (' + derr + ')' if derr else ''), res['evaluations'], len(fails), time.time() - t0))
    return rc


TRUSTED = ['the symbolic executor /verif/pyver (semantics of the Python subset, numpy/pandas/networkx/scipy calls as axiomatised there)',
           'z3 5.3.2 and the rewriting rules of pyver/prover.py for unbounded sums, products and counts (the rules themselves are discharged as induction lemmas where a contract lists them)',
           'CPython, numpy, pandas, networkx, scipy as installed']
GENERAL = ['floating point numbers are treated as real numbers and machine integers as mathematical integers',
           'library calls behave as axiomatised in pyver/lib*.py; every axiom used is listed per function under lib']


def evidence(prop, tier, seed, level, proved, items, failed, unsupported, obl_n, derr, res, assumptions, proof_s, wall, viol):
    bad = {id(o) for _, o in failed}
    good = [it for it in items if it.status == 'ok']
    if level == 'proof' and not proved:
        level = 'exploration'
    cov = dict(evaluations=res['evaluations'], distinct_nontrivial=res['distinct'], rule='runtime oracle on the real code: ' + res['rule'], samples=res['samples'][:2])
    if items:
        disch = sum(1 for it in good for o in it.obls if o.result)
        cov.update(obligations=obl_n, discharged=disch, checker_cmd='python3-vt /verif/check.py ' + prop, trusted_base=TRUSTED,
                   functions_under_contract=[dict(function=it.fn, status=it.status if not any(id(o) in bad for o in it.obls) else 'failed', why=it.why, paths=it.paths, obligations=len(it.obls),
                                                  solver_s=round(sum(o.time or 0 for o in it.obls), 2), inlined=it.inlined, callee_contracts=it.used, library_axioms=it.lib) for it in items],
                   backend='z3 5.3.2 (python3-vt) driven by pyver/prover.py', solver_s=round(sum(o.time or 0 for it in items for o in it.obls), 2), proof_wall_s=round(proof_s, 1),
                   failed=[dict(function=it.fn, obligation=o.name) for it, o in failed],
                   out_of_reach=[dict(function=it.fn, why=it.why) for it in unsupported] + ([dict(function='contract module', why=derr)] if derr else []))
        if unsupported or derr:
            cov['explanation'] = 'functions out of the verifier\'s reach on this tree are covered by the runtime oracle only: bounded, not proved'
        cov['vacuity'] = 'preconditions checked satisfiable (no contradiction found) before execution; a function with no feasible path is reported as out of reach'
    else:
        cov['explanation'] = 'bounded: decided by the runtime oracle alone'
    return dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=GENERAL + assumptions, wall_s=round(wall, 1), violations=viol)


if __name__ == '__main__':
    sys.exit(main())
