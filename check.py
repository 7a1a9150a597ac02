#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decide one property.

1. Every contract of contracts/<id>.py is verified against /repo's current
   source (pydv: VC generation, ring / z3 / cvc5 back ends).
2. A contract whose unbounded proof is not found is verified in its labelled
   bounded form.
3. The property's concrete oracle (rac/<id>.py) runs the real code: it
   replays failures and reports its executions separately; it never counts
   as proof.
"""
import argparse
import importlib
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')


def known_findings(pid):
    out = []
    try:
        with open(os.path.join(HERE, 'KNOWN_FINDINGS.txt')) as f:
            for line in f:
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
                if m and m.group(1) == pid:
                    out.append((m.group(2), m.group(3).strip()))
    except FileNotFoundError:
        pass
    return out


def rac_start(pid, tier, seed, deep=False):
    path = os.path.join(HERE, 'rac', pid.lower() + '.py')
    if not os.path.exists(path):
        return None
    env = dict(os.environ, PYTHONPATH=REPO, OMP_NUM_THREADS='1',
               PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
               HDF5_USE_FILE_LOCKING='FALSE')
    cmd = [PY, '-W', 'ignore', os.path.join(HERE, 'rac', 'run.py'),
           pid.lower(), '--seed', str(seed), '--tier', tier]
    if deep:
        cmd.append('--deep')
    return subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE,
                            stderr=subprocess.PIPE, text=True, cwd=HERE)


def rac_result(p, timeout):
    if p is None:
        return None
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        o, e = p.communicate()
        return {'error': 'timeout', 'evaluations': 0, 'violations': []}
    try:
        return json.loads(o.strip().split('\n')[-1])
    except (ValueError, IndexError):
        return {'error': (e or o)[-3000:], 'evaluations': 0,
                'violations': []}


def digest(r):
    """What was checked under one contract, over all of its instances."""
    d = {}
    for m in ('proof', 'bounded'):
        obs = r.get(m, [])
        if not obs:
            continue
        e = d[m] = {'instances': len(obs), 'status': {}, 'obligations': 0,
                    'discharged': 0, 'paths': 0, 'undefined': 0,
                    'undefined_proved': 0, 'by_backend': {}}
        for o in obs:
            e['status'][o['status']] = e['status'].get(o['status'], 0) + 1
            for k in ('obligations', 'discharged', 'paths', 'undefined',
                      'undefined_proved'):
                v = o.get(k)
                e[k] += len(v) if isinstance(v, (list, dict)) else (v or 0)
            for k, n in (o.get('by_backend') or {}).items():
                e['by_backend'][k] = e['by_backend'].get(k, 0) + n
        for k in ('bound', 'reason'):
            v = sorted({str(o[k])[:300] for o in obs if o.get(k)})
            if v:
                e[k] = v[:10]
        for k in ('names', 'invariants'):
            v = list(dict.fromkeys(str(n)[:160] for o in obs
                                   for n in (o.get(k) or [])))
            e[k] = v[:12]
            if len(v) > 12:
                e['distinct_' + k] = len(v)
    return d


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--no-rac', action='store_true')
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid, tier = a.pid, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    for f in os.listdir(os.path.join(HERE, 'replays')):
        if f.startswith(pid + '-'):
            os.remove(os.path.join(HERE, 'replays', f))

    rac_p = None if a.no_rac else rac_start(pid, tier, seed)
    from pydv import registry
    mod = importlib.import_module(f'contracts.{pid.lower()}')
    cs = [c for c in mod.R.contracts
          if (tier == 'thorough' or not c.thorough_only)
          and (not a.only or a.only in c.name)]
    quick = tier == 'quick'
    per, total = (200, 420) if quick else (1500, 3000)
    res = registry.run_all(
        [((i, 'proof'), c, 'proof') for i, c in enumerate(cs)
         if 'proof' in c.modes], tier, 7, per, total)

    def proved(r):
        return r[0] == 'ok' and r[1] and all(
            o['status'] == 'proved' for o in r[1])

    def limit(r, soft=False):
        # the verifier could not process the code (as opposed to: an
        # obligation it generated is not discharged); soft: bounded contracts
        # of the same functions say what a missing invariant means
        return r[0] == 'timeout' or (r[0] == 'ok' and all(
            o['status'] == 'proved' or o['limit'] or soft
            and o['status'] == 'undecided' and o['reason'].startswith(
                ('no inductive', 'unsupported', 'not attempted'))
            for o in r[1]))

    need = []
    for i, c in enumerate(cs):
        r = res.get((i, 'proof'))
        if r is None or not proved(r):
            if 'bounded' in c.modes:
                need.append(((i, 'bounded'), c, 'bounded'))
    regress = [i for i, c in enumerate(cs) if 'proof' in c.modes
               and not proved(res[i, 'proof'])]
    if need:
        res.update(registry.run_all(need, tier, 7, per, 240 if quick
                                    else total))
    rac = rac_result(rac_p, 300 if quick else 3000)
    deep = None
    if regress and not (rac or {}).get('violations') and not a.no_rac:
        # a proof is gone: search harder for a failing input
        deep = rac_result(rac_start(pid, tier, seed + 7919, deep=True),
                          max(60, (800 if quick else 4000)
                              - (time.time() - t0)))

    # ------------------------------------------------------------ decision
    viol = []       # (kind, text, replay payload)
    undecided = []
    rows = []
    for i, c in enumerate(cs):
        rp, rb = res.get((i, 'proof')), res.get((i, 'bounded'))
        row = {'contract': c.name, 'functions': c.functions}
        for mode, r in (('proof', rp), ('bounded', rb)):
            if r is not None:
                row[mode] = r[1] if r[0] == 'ok' else \
                    [{'status': r[0], 'reason': str(r[1])}]
        if rp is not None and proved(rp):
            row['verdict'] = 'proved'
        elif rb is not None and proved(rb) and (
                rp is None or limit(rp, c.soft)):
            row['verdict'] = 'bounded'
        elif (rp is None or limit(rp, c.soft)) and (
                rb is None or limit(rb)) and (
                deep or rac or {}).get('evaluations') and not (
                deep or rac).get('error'):
            # outside the reach of the verifier: the concrete cases stand in
            row['verdict'] = 'oracle'
            print(f'{pid}: not decided by proof (limit of the verifier), '
                  f'concrete cases stand in: {c.name}')
        else:
            row['verdict'] = 'failed'
        # a definite counterexample of the bounded obligations, or of a
        # proof without uninterpreted invariants
        rows.append(row)
    known = known_findings(pid)
    hits = set()

    def key_known(key):
        for k, t in known:
            if re.fullmatch(k.replace('*', '.*'), key):
                hits.add((k, t))
                return True
        return False

    vs = [('first', v) for v in (rac or {}).get('violations', [])] + \
         [('deep', v) for v in (deep or {}).get('violations', [])]
    vs = [(w, v) for w, v in vs if not key_known(v['key'])]
    failed_rows = [r for r in rows if r['verdict'] == 'failed']
    failed_rows = [r for r in failed_rows
                   if not key_known('contract:' + r['contract'])]
    obl_fail = []
    for r in rows:
        for mode in ('proof', 'bounded'):
            for o in r.get(mode, []):
                if o.get('status') != 'proved':
                    obl_fail.append({'contract': r['contract'], 'mode': mode,
                                     **{k: o.get(k) for k in
                                        ('name', 'status', 'reason',
                                         'failed')}})
    lines = []
    if vs:
        w, v = vs[0]
        path = os.path.join(HERE, 'replays', f'{pid}-1.json')
        with open(path, 'w') as f:
            json.dump({'property': pid, 'input': v,
                       'how': f'{PY} {HERE}/rac/run.py {pid.lower()} '
                              f'--replay {path}',
                       'all': [x for _, x in vs][:20],
                       'failed_obligations': obl_fail}, f, indent=1,
                      default=str)
        lines.append(f'VIOLATION property={pid} replay={path}')
        print(f'{pid}: {v["key"]}: {v["message"]}')
        for o in obl_fail[:8]:
            print(f'  obligation: {o["contract"]} [{o["mode"]}]: '
                  f'{o["status"]} ' + str(o['reason'])[:300].replace('\n', ' '))
    elif failed_rows:
        path = os.path.join(HERE, 'replays', f'{pid}-obligation.json')
        with open(path, 'w') as f:
            json.dump({'property': pid, 'failed_obligations': obl_fail}, f,
                      indent=1, default=str)
        for o in obl_fail[:8]:
            print(f'  obligation: {o["contract"]} [{o["mode"]}]: '
                  f'{o["status"]} ' + str(o['reason'])[:300].replace('\n', ' '))
        lines.append(f'VIOLATION property={pid} replay={path} '
                     'no-failing-input-found')
    rac_err = (rac or {}).get('error')
    if rac_err and not lines:
        print(f'{pid}: note: concrete oracle did not run: {rac_err[-800:]}')
        if rac.get('code_error'):
            path = os.path.join(HERE, 'replays', f'{pid}-oracle.json')
            with open(path, 'w') as f:
                json.dump({'property': pid, 'oracle_error': rac_err}, f)
            lines.append(f'VIOLATION property={pid} replay={path} '
                         'no-failing-input-found')
    for k, t in sorted(hits):
        print(f'KNOWN-FINDING: property={pid} {t}')

    # ------------------------------------------------------------ evidence
    tot = {'obligations': 0, 'discharged': 0, 'bounded_obligations': 0,
           'bounded_discharged': 0}
    backend, bbackend = {}, {}
    solver = 0.
    for r in rows:
        mode = 'bounded' if r['verdict'] == 'bounded' else 'proof'
        for o in r.get(mode, []) if mode in r else []:
            if 'obligations' not in o:
                continue
            pre = 'bounded_' if mode == 'bounded' else ''
            tot[pre + 'obligations'] += o['obligations']
            tot[pre + 'discharged'] += o['discharged']
            b = bbackend if pre else backend
            for k, n in o['by_backend'].items():
                b[k] = b.get(k, 0) + n
            solver += o['solver_time']
    fns = sorted({f for r in rows for f in r['functions']})
    trusted = list(getattr(mod, 'TRUSTED', [])) + [
        t for c in cs for t in c.trusted]
    base = ['pydv (the VC generator, its numpy model and its ring normaliser,'
            ' /verif/pydv)', 'z3 4.x / cvc5 1.1', 'CPython 3.12 ast']
    assumptions = ['machine arithmetic treated as exact real arithmetic; '
                   'integers unbounded'] + list(
                       getattr(mod, 'ASSUMPTIONS', []))
    cov = {
        'obligations': tot['obligations'],
        'discharged': tot['discharged'],
        'checker_cmd': f'python3-vt /verif/check.py {pid} --tier {tier}',
        'trusted_base': base + sorted(set(trusted)),
        'functions_under_contract': fns,
        'discharged_by_back_end': backend,
        'solver_seconds': round(solver, 2),
        'bounded': {'obligations': tot['bounded_obligations'],
                    'discharged': tot['bounded_discharged'],
                    'by_back_end': bbackend,
                    'contracts': [
                        {'contract': r['contract'],
                         'bounds': sorted({o.get('bound', '')
                                           for o in r['bounded']})}
                        for r in rows if r['verdict'] == 'bounded']},
        'contracts': [
            {'contract': r['contract'], 'functions': r['functions'],
             'verdict': r['verdict'],
             **digest(r)}
            for r in rows],
        'samples': [n for r in rows for o in r.get('proof', [])
                    for n in o.get('names', [])[:3]][:12],
    }
    if rac is not None:
        cov['runtime_oracle'] = {
            k: rac.get(k) for k in ('evaluations', 'distinct_nontrivial',
                                    'rule', 'by_oracle', 'samples', 'error')}
        cov['runtime_oracle']['note'] = (
            'concrete executions of the real code against the same spec; '
            'used to replay failed obligations, not counted as proof')
    if not tot['obligations']:
        cov['explanation'] = (
            'bounded deductive check: obligations generated from the current '
            'source for symbolic values at the concrete sizes listed in '
            '"bounded", all discharged by the named back ends; none of them '
            'is an unbounded proof')
    ev = {'property': pid, 'tier': tier, 'seed': seed,
          'level': getattr(mod, 'LEVEL', 'proof'), 'coverage': cov,
          'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2),
          'violations': len(vs) + len(failed_rows)}
    with open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for r in rows:
        if a.v or r['verdict'] != 'proved':
            ob = [o for m in ('proof', 'bounded') for o in r.get(m, [])]
            print(f'{pid}: {r["contract"]}: {r["verdict"]} ' + '; '.join(
                f'{o.get("name", "")}[{o.get("mode", "")}] {o["status"]} '
                f'{o.get("discharged", 0)}/{o.get("obligations", 0)} '
                f'{o.get("wall", 0):.1f}s '
                + str(o.get('reason', ''))[:160].replace('\n', ' ')
                for o in ob)[:2500])
    n = sum(1 for r in rows if r['verdict'] == 'proved')
    nb = sum(1 for r in rows if r['verdict'] == 'bounded')
    print(f'{pid}: {n} of {len(rows)} contracts proved, {nb} bounded; '
          f'{tot["discharged"]}/{tot["obligations"]} obligations'
          f' (+{tot["bounded_discharged"]}/{tot["bounded_obligations"]} '
          f'bounded); {(rac or {}).get("evaluations", 0)} executions; '
          f'{time.time() - t0:.1f} s')
    for ln in lines:
        print(ln)
    return 1 if lines else 0


if __name__ == '__main__':
    try:
        code = main()
    except SystemExit:
        raise
    sys.stdout.flush()
    os._exit(code)
