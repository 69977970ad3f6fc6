import numpy as np, itertools
import oracle as O
from blueqat import Circuit
import blueqat.gate as gate
from blueqat.backends.numpy_backend import NumPyBackend, _NumPyBackendContext
def one(t, n, g, ps, tg, psi, what='gate action'):
    inp = {'gate': g, 'n': n, 'params': ps, 'targets': tg}
    t.case(inp, nontrivial=bool(O.op_matrix(g, ps, tg, n)))
    be = NumPyBackend()
    ctx = _NumPyBackendContext(n); ctx.prepare(None)
    ctx.qubits[:] = psi
    def go(op, ctx):
        a = be._get_action(op)
        if a is not None: return a(op, ctx)
        for h in op.fallback(n): ctx = go(h, ctx)
        return ctx
    ctx = go(getattr(gate, O.CLS[g])(tg, *ps), ctx)
    want = psi
    for m, qs in O.op_matrix(g, ps, tg, n): want = O.apply(want, m, qs, n)
    ok = O.close(ctx.qubits, want) if be._get_action(getattr(gate, O.CLS[g])(tg, *ps)) is not None else O.phase_close(ctx.qubits, want)
    if not ok: t.fail('%s: the state is not the gate matrix applied to each target' % what, inp, None)
    if ctx.qubits is ctx.qubits_buf: t.fail('state and work buffer are one array', inp)
def public(t, n, ops):
    inp = {'n': n, 'ops': ops}
    t.case(inp)
    c = O.build(Circuit, ops, n)
    v = c.run(backend='numpy')
    want = O.run(ops, n)
    if not O.phase_close(v, want): t.fail('statevector of the circuit differs from the product of the gate matrices', inp)
    names = set(g for g, _, _ in ops)
    if all(hasattr(NumPyBackend, 'gate_' + g) for g in names) and not O.close(v, want): t.fail('statevector differs by a phase from the exact product', inp)
def check(t):
    t.rule = 'every gate on every target shape with random parameters and states; random circuits; non-trivial = at least one target'
    t.bounds = ['registers of at most 6 qubits (up to 18 for a few), at most 12 operations (up to 1100 for a few)']
    r = np.random.RandomState(t.seed)
    for c in t.cases:
        t.guard('replay', one, t, c['n'], c['gate'], tuple(c['params']), tuple(c['targets']) if isinstance(c['targets'], list) else c['targets'], O.rstate(r, c['n']), 'replayed counterexample')
    def sweep():
        for g in O.G:
            k, p, _ = O.G[g]
            if k == 3:
                tgs = [(n, q) for n in (3, 4, 5) for q in itertools.permutations(range(n), 3)][:70]
            elif k == 2:
                tgs = [(n, q) for n in (2, 3, 4) for q in itertools.permutations(range(n), 2)]
                tgs += [(n, O.rtarget2(t.rng, n)) for n in (3, 4, 5, 6) for _ in range(4)] + [(4, (slice(0, 2), slice(2, 4))), (5, (slice(0, 3), slice(1, 4))), (4, ((0, 1, 2), (1, 2, 3))), (3, ((0, 0), (1, 2)))]
            else:
                tgs = [(n, q) for n in (1, 2, 3, 4) for q in range(-n, n)] + [(n, O.rtarget1(t.rng, n)) for n in (2, 3, 4, 5, 6) for _ in range(4)]
                tgs += [(3, (0, 0)), (3, slice(None)), (4, slice(None, None, -1)), (2, ()), (3, slice(2, 1)), (1, 0)]
            for n, q in tgs:
                if k == 2 and isinstance(q[0], tuple): pass
                for _ in range(2 if p else 1):
                    one(t, n, g, tuple(O.rangle(t.rng) for _ in range(p)), q, O.rstate(r, n))
            if p:
                for a in O.ANGLES:
                    q = {1: 1, 2: (2, 0), 3: (0, 2, 1)}[k]
                    one(t, 3, g, tuple([a] + [O.rangle(t.rng) for _ in range(p - 1)]), q, O.rstate(r, 3))
    t.guard('every gate', sweep)
    def rnd():
        for i in range(400 if t.thorough else 120):
            n = t.rng.randint(1, 6)
            public(t, n, O.rcircuit(t.rng, n, t.rng.randint(1, 12)))
        for n in (9, 11, 12):
            public(t, n, O.rcircuit(t.rng, n, 8))
        public(t, 1, []); public(t, 3, [])
    t.guard('random circuits', rnd)
    def large():
        for n, d in ((13, 30), (15, 16), (17, 12), (18, 6)):
            public(t, n, [('h', (), slice(None))] + O.rcircuit(t.rng, n, d) + [('u3', (.3, 1.1, -.4), slice(None, None, -1)), ('rz', (.7,), tuple(range(n)) * 2)])
        n = 16
        public(t, n, [('ry', (.3 + q / 5,), q) for q in range(n)] + [('rzz', (.4,), (slice(0, n - 1), slice(1, n))), ('cx', (), (slice(0, n - 1), slice(1, n))), ('cu3', (.2, .9, -1.3), (slice(15, 7, -1), slice(0, 8)))])
        for n, d in ((3, 400), (2, 1100), (5, 200), (1, 300)): public(t, n, O.rcircuit(t.rng, n, d))
        for g in O.G:
            k, p, _ = O.G[g]
            if k < 3: public(t, 9, [('h', (), slice(None)), ('t', (), slice(0, None, 2)), (g, (1.3, -.6, 2.9)[:p], tuple(range(9)) if k == 1 else (slice(0, 8), slice(1, 9)))])
            for a in ((1e-5, 12345.678, -777.0, np.float64(.9), 3) if p else ()): one(t, 3, g, tuple([a] + [O.rangle(t.rng) for _ in range(p - 1)]), {1: 1, 2: (2, 0), 3: (0, 2, 1)}[k], O.rstate(r, 3))
    t.guard('large circuits', large)
    def hist():
        for _ in range(30 if t.thorough else 14):
            for c, ops, n in O.history(t.rng, Circuit, 14, 5):
                t.case(('history', n, repr(ops)))
                if not O.phase_close(c.run(), O.run(ops, n), 1e-8): t.fail('a circuit changed step by step: statevector differs', (n, ops)); break
    t.guard('histories', hist)
