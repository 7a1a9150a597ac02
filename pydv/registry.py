"""Contracts of one property and the process pool that verifies them."""
import multiprocessing as mp
import os
import time
import traceback

MODULES = ('model_utils', 'coordinate_utils', 'data_utils', 'config_utils',
           'chaos', 'plot_utils')


class Contract:
    """run(mode, tier) -> Outcome, list of Outcomes, or None (no such mode).

    mode 'proof': unbounded deductive verification; 'bounded': the same
    obligations with the stated sizes fixed."""

    def __init__(self, name, functions, run, modes=('proof', 'bounded'),
                 trusted=(), thorough_only=False, soft=False):
        # soft: where no invariant is found (and every obligation reached is
        # discharged), a bounded contract of the same functions and the
        # oracle stand in
        self.soft = soft
        self.name, self.functions, self.run = name, functions, run
        self.modes, self.trusted = modes, list(trusted)
        self.thorough_only = thorough_only


class Registry:
    def __init__(self, pid):
        self.pid = pid
        self.contracts = []

    def contract(self, name, functions, modes=('proof', 'bounded'),
                 trusted=(), thorough_only=False, soft=False):
        def deco(f):
            self.contracts.append(Contract(name, functions, f, modes, trusted,
                                           thorough_only, soft))
            return f
        return deco


def plain(out):
    """Picklable form of an Outcome."""
    names = {}
    for o in out.obls:
        if o.status == 'proved':
            names[o.name] = names.get(o.name, 0) + 1
    return {'name': out.name, 'mode': out.mode, 'status': out.status,
            'reason': out.reason[:2000], 'limit': out.limit, 'obligations': len(out.obls),
            'discharged': sum(o.status == 'proved' for o in out.obls),
            'by_backend': out.stats, 'paths': out.paths, 'wall': out.wall,
            'solver_time': out.solver_time, 'bound': out.bound,
            'functions': out.functions, 'undefined': out.undefined,
            'undefined_proved': out.undefined_proved,
            'invariants': [list(x) for x in out.invariants],
            'failed': out.fail_text, 'names': sorted(names)[:60]}


def _work(contract, mode, tier, conn):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        import sys
        sys.setrecursionlimit(20000)
        r = contract.run(mode, tier)
        if r is None:
            conn.send(('none', None))
            return
        if not isinstance(r, list):
            r = [r]
        conn.send(('ok', [plain(o) for o in r]))
    except BaseException as e:           # noqa
        conn.send(('crash', f'{type(e).__name__}: {e}\n'
                   + traceback.format_exc()[-3000:]))
    finally:
        conn.close()


def run_all(jobs, tier, workers=8, timeout=240, total=600):
    """jobs: list of (key, contract, mode); yields key -> (kind, payload)."""
    ctx = mp.get_context('fork')
    t_end = time.time() + total
    todo = list(jobs)
    live = {}
    res = {}
    while todo or live:
        while todo and len(live) < workers:
            key, c, mode = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_work, args=(c, mode, tier, b),
                            daemon=True)
            p.start()
            b.close()
            live[key] = (p, a, time.time())
        for key in list(live):
            p, a, t0 = live[key]
            if a.poll(0.02):
                try:
                    res[key] = a.recv()
                except EOFError:
                    res[key] = ('crash', 'worker died')
                p.join(5)
                if p.is_alive():
                    p.kill()
                del live[key]
            elif not p.is_alive():
                if a.poll(0.1):
                    continue
                res[key] = ('crash', 'worker died (memory?)')
                del live[key]
            elif time.time() - t0 > timeout or time.time() > t_end:
                p.kill()
                p.join()
                res[key] = ('timeout', f'{time.time() - t0:.0f} s')
                del live[key]
        if time.time() > t_end:
            for key, c, mode in todo:
                res[key] = ('timeout', 'total budget exhausted')
            todo = []
    return res
