"""Runtime oracles on the real code.  run.py PROP --seed S --n N --seconds T --out F | run.py --replay F"""
import contextlib
import io
import json
import os
import random
import signal
import sys
import time
import traceback
import hashlib

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout('no answer within the time limit')


def one(O, case, limit=25):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            import numpy as np
            random.seed(case.get('seed', 0))
            np.random.seed(case.get('seed', 0) % (2 ** 32))
            msgs = O.run(case)
        return list(msgs or [])
    except Timeout:
        return ['the call did not return within %d s' % limit]
    except Exception as e:
        return ['unexpected %s: %s | %s' % (type(e).__name__, str(e)[:200], ' <- '.join(l.strip() for l in traceback.format_exc().splitlines()[-7:-1])[:900])]
    finally:
        signal.alarm(0)


def main():
    a = sys.argv[1:]
    if a[0] == '--replay':
        d = json.load(open(a[1]))
        if 'case' not in d:
            print('this replay names a failed obligation and carries no input:')
            print(json.dumps(d, indent=1)[:6000])
            return 1
        import oracles
        msgs = one(getattr(oracles, d['property']), d['case'])
        for m in msgs:
            print(m)
        print('REPRODUCED' if msgs else 'not reproduced')
        return 1 if msgs else 0
    opt = dict(zip(a[1::2], a[2::2]))
    seed, n, secs, out = int(opt.get('--seed', 1)), int(opt.get('--n', 100)), float(opt.get('--seconds', 20)), opt.get('--out')
    skip = int(opt.get('--shard', 0))
    t0 = time.time()
    res = dict(property=a[0], evaluations=0, failures=[], samples=[], distinct=0)
    try:
        import oracles
        O = getattr(oracles, a[0])
        res['rule'] = ' '.join((O.__doc__ or '').split())
    except Exception as e:
        res['failures'].append(dict(case={}, msg='the package cannot be imported: ' + traceback.format_exc()[-1500:]))
        json.dump(res, open(out, 'w'))
        return 0
    seen = set()
    for i in range(n):
        if time.time() - t0 > secs:
            break
        rng = random.Random('%s/%s/%s/%s' % (a[0], seed, skip, i))
        case = O.gen(rng, i)
        case['seed'] = rng.randrange(10 ** 6)
        case = json.loads(json.dumps(case))
        h = hashlib.md5(json.dumps({k: v for k, v in case.items() if k != 'seed'}, sort_keys=True).encode()).hexdigest()
        msgs = one(O, case)
        res['evaluations'] += 1
        if h not in seen and O.nontrivial(case):
            seen.add(h)
        if i < 2:
            res['samples'].append(case)
        if msgs:
            res['failures'].append(dict(case=case, msg='; '.join(msgs)[:2000]))
            if len(res['failures']) >= 3:
                break
    res['distinct'] = len(seen)
    res['wall'] = time.time() - t0
    json.dump(res, open(out, 'w')) if out else print(json.dumps({k: v for k, v in res.items() if k != 'samples'}, indent=1)[:5000])
    return 0


if __name__ == '__main__':
    sys.exit(main())
