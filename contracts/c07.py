"""C07: the cached prefix: invariant of the backends' cache, kept by every run from any
earlier cache, with the results of an uncached run."""
from contracts.runs import *
from contracts import runs, c05, c06, c25
from engine.pool import parallel

def circuit(led):
    cm = sys.modules['blueqat.circuit']; C = cm.Circuit
    def path():
        c = cur(); log = []
        class B:
            vx_static = True
            def __init__(self): self.res = Opaque('result %d' % id(self))
            def run(self, g, n, *a, **k): log.append((self, 'run', g, n, a, k)); return self.res
            def make_cache(self, g, n): log.append((self, 'cache', g, n, (), {}))
            def copy(self): return B()
        m = Machine(); setup(m)
        old = dict(cm.BACKENDS)
        cm.BACKENDS.update({cm.DEFAULT_BACKEND_NAME: B, 'vx': B})
        try:
            k, k2 = C(SInt(m.n)), C(SInt(m.n))
            for x in (k, k2):
                x.ops = Ops(m.seq, 0, m.seq.N); x.ops.shared = True
            how = c.choose(4, 'way of running')
            a, kw = (Opaque('argument'),), {'option': Opaque('option')}
            if how == 1: k.set_default_backend('vx')
            def go(x):
                if how in (0, 1): return x.run(*a, **kw)
                if how == 2: return x.run(*a, backend='vx', **kw)
                return x.run_with_vx(*a, **kw)
            def mk(x):
                if how in (0, 1): return x.make_cache()
                return x.make_cache(backend='vx')
            first = c.choose(2, 'cache first')
            if first: mk(k)
            nlog = len(log)
            r = go(k); e = log[-1]
            c.require(len(log) == nlog + 1 and e[1] == 'run', 'run runs the backend once')
            def good(e): return isinstance(e[2], Ops) and e[2].seq is m.seq and same(e[2].lo, 0) and same(e[2].hi, m.seq.N) and not e[2].junk and same(zn(e[3]), m.n)
            c.require(all(good(x) for x in log), 'the backend is given the operations and the size of the circuit')
            c.require(e[4] == a and e[5] == kw, 'the arguments are passed on')
            c.require(r is e[0].res, 'the result is that of the backend')
            go(k); c.require(len({id(x[0]) for x in log}) >= 1 and good(log[-1]), 'running again is given the operations of the circuit')
            mine = {id(x[0]) for x in log}
            go(k2); c.require(id(log[-1][0]) not in mine, 'another circuit has another backend')
            d = k.copy(); go(d); c.require(id(log[-1][0]) not in mine, 'a copy has another backend')
        finally:
            cm.BACKENDS.clear(); cm.BACKENDS.update(old)
    run_explore(led, 'Circuit.run, make_cache, copy', path)
    for f in ('run', 'make_cache', 'copy', '__getattr__'): led.functions['blueqat.circuit.Circuit.' + f] = 'any operations, arguments and backend'
def random_actions(led, numba):
    """after a random operation nothing is cached any more; what such an action stores itself is the
    state before it (the laws of the outcomes are C05 and C25)"""
    if numba:
        impl, _ = c25.load_kernels(); kw = dict(cls=impl.NumbaBackend, mkctx=c25.context(impl))
    else: load_repo(); kw = {}
    for kind in ('measure', 'reset'):
        for k in (None, 1):
            sub = core.Ledger(); c05.action(sub, kind, k, keeps=numba, **kw)
            sub.obs = [o for o in sub.obs if 'cache' in o.name or o.status == 'unknown']
            led.merge(sub)
def run(led, tier='quick'):
    bs = c06.backends(); c06.record(led, bs)
    jobs = [('Circuit', circuit)] + [('random operations', lambda l, nb=nb: random_actions(l, nb)) for nb in (False, True)]
    def add(mod, cls, numba, conc, sel): jobs.append((cls.__name__ + '.run', lambda l: run_contract(l, mod, cls, numba, 'cache', conc, sel)))
    for b in bs:
        jobs.append((b[1].__name__, lambda l, b=b: new_contract(l, b[0], b[1])))
        led.functions[b[0].__name__ + '.' + b[1].__name__ + '.__init__'] = led.functions[b[0].__name__ + '.' + b[1].__name__ + '.copy'] = led.functions[b[0].__name__ + '.' + b[1].__name__ + '.make_cache'] = 'any cache'
        for kind in ('valid', 'stale'):
            for sel in ((None, 0, 0), ('shots', 1, 0)): add(*b, None, sel + (kind, 0))
        for sel in (('statevector', 0, 0), ('statevector_and_shots', 1, 0)): add(*b, None, sel + ('valid', 0))
        for sel in ((None, 0, 0), ('shots', 1, 0)): add(*b, None, sel + ('fresh', 0))
        if not b[2]: add(*b, None, (None, 0, 1, 'valid', 0))
        else: add(*b, None, ('shots', 1, 0, 'valid', 1))
        for conc in ((1, 0, 2), (1, 1, 1), (2, 1, 2), (2, 2, 1)):
            for kind in ('earlier', 'fresh'): add(*b, conc, ('statevector_and_shots', 1, 0, kind, 0))
    parallel(led, jobs)
    led.need = 200
ASSUMPTIONS = c06.ASSUMPTIONS[:-1] + ['At least one qubit and one shot. The loop invariants are inferred: relations of every number on the heap to the position and to sizes, per shape of the heap.',
 'Every history of a backend is a sequence of runs and copies, so the invariant of the cache (state after exactly the remembered operations, none random) holds before every run; circuits never share a backend (also C08).',
 'Operations are not changed after they were appended; a returned state changed by the caller is the caller\'s own array.']
