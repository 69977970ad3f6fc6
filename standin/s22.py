import numpy as np
import oracle as O
from blueqat import Circuit, BlueqatGlobalSetting
from blueqat.experimental.utils import circuit_to_unitary
def check(t):
    t.rule = 'every gate; random circuits; run options; default backends'
    t.bounds = ['at most 5 qubits, 10 operations (8 qubits, 150 operations for a few)']
    def one(n, ops, kw=None):
        c = O.build(Circuit, ops, n); n = c.n_qubits; inp = (n, ops, kw); t.case((n, repr(ops), repr(kw)))
        before = (c.n_qubits, repr(c), len(c.ops)); want = O.unitary(ops, n)
        if t.rng.random() < .5: c.run() if n else None
        U = circuit_to_unitary(c, **(kw or {}))
        if U.shape != (2 ** n, 2 ** n) or not O.phase_close(U, want, 1e-7): t.fail('wrong matrix', inp); return
        # every column, not only up to its own phase: relative phases of columns are covered by phase_close of the whole
        if (c.n_qubits, repr(c), len(c.ops)) != before: t.fail('the circuit changed', inp)
        U2 = circuit_to_unitary(c, **(kw or {}))
        if not O.close(U, U2): t.fail('second call gives another matrix', inp)
        if n and not O.close(c.run(), U[:, 0], 1e-9): t.fail('first column is not the state of a run', inp)
    def gates():
        for g, (k, p, _) in O.G.items():
            if g == 'ccz': continue
            for n in (k, k + 1):
                tg = tuple(t.rng.sample(range(n), k)); one(n, [(g, tuple(O.rangle(t.rng) for _ in range(p)), tg[0] if k == 1 else tg)])
    t.guard('gates', gates)
    def rnd():
        for i in range(200 if t.thorough else 70):
            n = t.rng.randint(1, 4 if i % 5 else 5)
            kw = t.rng.choice([None, None, {'returns': 'statevector'}, {'shots': 1}, {'backend': 'numpy'}, {'ignore_global': False}, {'shots': 1, 'returns': 'statevector'}])
            one(n, O.rcircuit(t.rng, n, t.rng.randint(0, 10)), kw)
        one(0, []); one(3, []); one(2, [('x', (), 0)]); one(4, [('cx', (), (3, 0))]); one(6, [('h', (), 5), ('cx', (), (5, 1))])
        # targets whose meaning depends on the size of the register
        one(3, [('x', (), slice(None)), ('rz', (.3,), -1)]); one(3, [('h', (), -1), ('s', (), slice(None, None, -2)), ('cx', (), (-1, 0))]); one(2, [('x', (), -2), ('t', (), slice(-1, None))])
        for n, d in ((7, 25), (8, 12), (2, 150), (4, 60)): one(n, O.rcircuit(t.rng, n, d))
        one(7, [('x', (), -1), ('ry', (.4,), slice(None)), ('cx', (), (slice(0, 6), slice(1, 7)))])
    t.guard('random', rnd)
    def cached():
        for _ in range(20):
            n = t.rng.randint(1, 3); a = O.rcircuit(t.rng, n, 4); b = O.rcircuit(t.rng, n, 3)
            c = O.build(Circuit, a, n); c.make_cache(); c.run(); U = circuit_to_unitary(c); t.case(('cached', n, repr(a), repr(b)))
            if not O.phase_close(U, O.unitary(a, n), 1e-7): t.fail('wrong matrix of a cached circuit', (n, a))
            for g, ps, tg in b: (getattr(c, g)(*ps) if ps else getattr(c, g))[tg]
            if not O.phase_close(circuit_to_unitary(c), O.unitary(a + b, n), 1e-7): t.fail('wrong matrix after extending', (n, a, b))
            if not O.phase_close(c.run(), O.run(a + b, n), 1e-7): t.fail('later run differs', (n, a, b))
            d = O.build(Circuit, a, n); d.set_default_backend('numpy')
            if not O.phase_close(circuit_to_unitary(d), O.unitary(a, n), 1e-7): t.fail('circuit with default backend', (n, a))
    t.guard('cached', cached)
    def hist():
        for _ in range(14):
            for c, ops, n in O.history(t.rng, Circuit, 10, 4):
                t.case(('history', n, repr(ops))); U = circuit_to_unitary(c); W = O.unitary(ops, n)
                if not O.phase_close(U, W, 1e-7): t.fail('a circuit changed step by step: wrong matrix', (n, ops)); break
                try: U[:] = 5; U.T[0][0] = 3
                except ValueError: pass
                if not O.phase_close(circuit_to_unitary(c), W, 1e-7) or not O.phase_close(c.run(), W[:, 0], 1e-7): t.fail('the matrix returned is changed and asked for again: wrong matrix', (n, ops)); break
    t.guard('histories', hist)
