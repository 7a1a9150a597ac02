"""Run the oracles of one property on the real code (or replay one case)."""
import argparse
import importlib
import json
import os
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
import numpy as np          # noqa
import common               # noqa


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--deep', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--only')
    a = ap.parse_args()
    out = {'evaluations': 0, 'distinct_nontrivial': 0, 'violations': [],
           'by_oracle': {}, 'samples': [],
           'rule': 'cases drawn from the generators of rac/%s.py (every '
                   'case calls the real code and is distinct by its JSON '
                   'text)' % a.pid}
    budget = 70. if a.tier == 'quick' else 1500.
    if a.deep:
        budget = 240. if a.tier == 'quick' else 1500.
    try:
        importlib.import_module(a.pid)
    except Exception:
        out['error'] = traceback.format_exc()[-3000:]
        out['code_error'] = 'chaosmagpy' in out['error']
        print(json.dumps(out))
        return
    if a.replay:
        with open(a.replay) as f:
            v = json.load(f)['input']
        for o in common.ORACLES:
            if o.name == v['oracle']:
                print('replayed:', _run(o, v['case']))
        return
    seen = set()
    t0 = time.time()
    ors = [o for o in common.ORACLES if not a.only or a.only in o.name]
    wsum = sum(o.weight for o in ors) or 1
    full = a.tier != 'quick' or a.deep
    state = {o.name: [0, 0, True] for o in ors}    # cases, failures, go on

    def cases(o, upto, until):
        st = state[o.name]
        while st[2] and st[0] < upto and time.time() < until:
            k = st[0]
            rng = np.random.default_rng([a.seed, k, abs(hash_(o.name))])
            try:
                case = o.gen(rng, k)
            except Exception:
                out['error'] = f'generator {o.name}: ' + \
                    traceback.format_exc()[-2000:]
                st[2] = False
                return
            if case is None:
                st[2] = False
                return
            txt = json.dumps(case, cls=common.J, sort_keys=True)
            case = json.loads(txt)
            msg = _run(o, case)
            st[0] += 1
            seen.add((o.name, txt))
            if k == 0 and len(out['samples']) < 6:
                out['samples'].append({'oracle': o.name,
                                       'case': txt[:400]})
            if msg:
                st[1] += 1
                out['violations'].append(
                    {'key': o.name, 'oracle': o.name, 'case': case,
                     'message': msg[:1500]})
                st[2] = st[1] < 3

    for o in ors:
        cases(o, o.n*(8 if full else 1), min(
            t0 + budget, time.time() + 2*budget*o.weight/wsum))
    if not full:
        # more of the same where it is cheap
        for r in range(2, 9):
            for o in ors:
                cases(o, r*o.n, t0 + 12.)
    for o in ors:
        out['by_oracle'][o.name] = state[o.name][0]
        out['evaluations'] += state[o.name][0]
    out['distinct_nontrivial'] = len(seen)
    out['wall'] = time.time() - t0
    print(json.dumps(out, cls=common.J))


def hash_(s):
    import zlib
    return zlib.crc32(s.encode())


def _run(o, case):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                return o.check(case)
    except Exception as e:
        tb = traceback.format_exc()
        return f'unexpected {type(e).__name__}: {e}\n{tb[-900:]}'


if __name__ == '__main__':
    main()
