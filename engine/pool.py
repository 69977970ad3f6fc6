"""Runs independent groups of obligations in forked processes and merges their ledgers in
the order given, so that the outcome does not depend on the schedule."""
import os, pickle, tempfile, traceback, time
from . import core

def parallel(led, jobs, workers=8):
    """jobs: list of (name, function of a ledger)"""
    if os.environ.get('VX_SERIAL') or len(jobs) == 1:
        for name, fn in jobs: one(led, name, fn)
        return
    d = tempfile.mkdtemp(prefix='vx_pool_')
    todo = list(range(len(jobs))); running = {}
    try:
        while todo or running:
            while todo and len(running) < workers:
                k = todo.pop(0)
                pid = os.fork()
                if pid == 0:
                    try:
                        sub = core.Ledger()
                        one(sub, *jobs[k])
                        with open(os.path.join(d, '%d.tmp' % k), 'wb') as f: pickle.dump(sub, f)
                        os.rename(os.path.join(d, '%d.tmp' % k), os.path.join(d, '%d' % k))
                    finally: os._exit(0)
                running[pid] = k
            pid, _ = os.wait()
            running.pop(pid, None)
        for k, (name, fn) in enumerate(jobs):
            p = os.path.join(d, '%d' % k)
            if not os.path.exists(p): led.add(name, 'unknown', 'engine', detail='the worker ended without a result'); continue
            with open(p, 'rb') as f: led.merge(pickle.load(f))
    finally:
        for n in os.listdir(d): os.remove(os.path.join(d, n))
        os.rmdir(d)

def one(led, name, fn):
    try: fn(led)
    except (Exception, core.Unsupported, core.Infeasible, core.PathLimit): led.add(name, 'unknown', 'engine', detail=traceback.format_exc()[-1500:])
