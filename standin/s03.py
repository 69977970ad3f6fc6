import itertools, numpy as np
import oracle as O
from blueqat import Circuit
import blueqat.gate as gate
def sharing(g, tg, n):
    """the known finding: one operation listing several pairs which share qubits"""
    if O.G[g][0] != 2: return False
    a, b = O.targets(tg[0], n), O.targets(tg[1], n)
    return len(a) > 1 and len(set(a + b)) < 2 * len(a)
def check(t):
    t.rule = 'every gate times its inverse; random circuits times their inverse; circuits with measurement and reset'
    t.bounds = ['registers of at most 5 qubits (11 for a few), at most 14 operations (260 for a few)']
    def gates():
        for g in O.G:
            k, p, _ = O.G[g]
            for q in itertools.permutations(range(3), k):
                tg = q if k > 1 else q[0]
                for a in (O.ANGLES if p else [0]):
                    ps = tuple([a] + [O.rangle(t.rng) for _ in range(p - 1)])[:p]
                    op = getattr(gate, O.CLS[g])(tg, *ps)
                    t.case((g, tg, ps))
                    d = op.dagger()
                    U = O.unitary([(g, ps, tg)], 3); V = O.unitary([(d.lowername, tuple(d.params), d.targets)], 3)
                    if not O.phase_close(V @ U, np.eye(8)): t.fail('gate times its inverse is not the identity', (g, ps, tg, str(d)))
                    if op.targets != tg or tuple(op.params) != ps: t.fail('taking the inverse changed the gate', (g, ps, tg))
                    dd = d.dagger()
                    W = O.unitary([(dd.lowername, tuple(dd.params), dd.targets)], 3)
                    if not O.phase_close(W, U): t.fail('inverse of the inverse is not the gate', (g, ps, tg))
    t.guard('gates', gates)
    def circuits():
        r = np.random.RandomState(t.seed)
        for i in range(300 if t.thorough else 100):
            n = t.rng.randint(1, 5)
            ops = [o for o in O.rcircuit(t.rng, n, t.rng.randint(0, 14)) if not sharing(o[0], o[2], n)]
            if i < 6:     # long circuits and wide registers
                n, d = ((3, 150), (1, 90), (2, 260), (9, 40), (11, 25), (4, 120))[i]
                ops = [o for o in O.rcircuit(t.rng, n, d) if not sharing(o[0], o[2], n)] + [('u3', (.3, 1.1, -.4), slice(None)), ('t', (), tuple(range(n)) * 3)]
            c = O.build(Circuit, ops, n)
            before = list(map(str, c.ops)); ids = list(map(id, c.ops))
            d = c.dagger()
            t.case((n, ops))
            if list(map(str, c.ops)) != before or list(map(id, c.ops)) != ids or c.n_qubits != n: t.fail('dagger changed the circuit', (n, ops))
            if d.n_qubits != n: t.fail('register size of the inverse', (n, ops))
            if d.ops is c.ops: t.fail('the inverse shares the list of operations', (n, ops))
            prep = [('u3', (t.rng.uniform(0, 3), t.rng.uniform(0, 3), t.rng.uniform(0, 3)), q) for q in range(n)] + [('cx', (), (q, q + 1)) for q in range(n - 1)]
            w = O.build(Circuit, prep, n) + c + d
            if not O.phase_close(w.run(), O.run(prep, n)): t.fail('circuit followed by its inverse is not the identity', (n, ops))
            w = O.build(Circuit, prep, n) + d + c
            if not O.phase_close(w.run(), O.run(prep, n)): t.fail('inverse followed by the circuit is not the identity', (n, ops))
    t.guard('circuits', circuits)
    def hist():
        for _ in range(20):
            for c, ops, n in O.history(t.rng, Circuit, 10, 4, simple=True):
                t.case(('history', n, repr(ops))); d = c.dagger()
                if d.n_qubits != n or not O.phase_close((c + d).run(), np.eye(1, 2 ** n)[0], 1e-7) or not O.phase_close((d + c).run(), np.eye(1, 2 ** n)[0], 1e-7): t.fail('a circuit changed step by step: its conjugate is not the inverse', (n, ops)); break
                d.x[0]; d.ops.pop(0)
    t.guard('histories', hist)
    def meas():
        for i in range(60):
            n = t.rng.randint(1, 4)
            ops = [o for o in O.rcircuit(t.rng, n, t.rng.randint(0, 8)) if not sharing(o[0], o[2], n)]
            mixed = list(ops)
            for _ in range(t.rng.randint(1, 3)):
                mixed.insert(t.rng.randint(0, len(mixed)), (t.rng.choice(['m', 'measure', 'reset']), (), O.rtarget1(t.rng, n)))
            c = O.build(Circuit, mixed, n)
            before = list(map(str, c.ops))
            t.case((n, mixed))
            for kw in ({}, {'ignore_measurement': False}):
                try:
                    c.dagger(**kw); t.fail('a circuit with measurement or reset was inverted', (n, mixed))
                except ValueError: pass
            if list(map(str, c.ops)) != before: t.fail('refused dagger changed the circuit', (n, mixed))
            d = c.dagger(ignore_measurement=True)
            u = O.build(Circuit, ops, n).dagger()
            if list(map(str, d.ops)) != list(map(str, u.ops)) : t.fail('ignoring measurement does not give the inverse of the rest', (n, mixed))
            if d.n_qubits != n: t.fail('register size', (n, mixed))
    t.guard('measurement', meas)
    def opts():
        c = Circuit(2).h[0].cx[0, 1]
        c.set_default_backend('qasm_output')
        c.run_with_numpy()
        d = c.dagger(); t.case('default backend kept')
        if d.get_default_backend_name() != 'qasm_output': t.fail('default backend not kept', 'dagger()')
        d = c.dagger(copy_default_backend=False)
        if d.get_default_backend_name() != 'numpy': t.fail('default backend copied on request not to', 'dagger(copy_default_backend=False)')
        d = c.dagger(copy_backends=True)
        if not O.close(d.run_with_numpy(), O.run([('cx', (), (0, 1)), ('h', (), 0)], 2)): t.fail('wrong state after copying backends', 'dagger(copy_backends=True)')
    t.guard('options', opts)
    # the recorded finding
    def finding():
        c = Circuit(4).h[0].cx[0:2, 1:3]
        w = c + c.dagger()
        if not O.phase_close(w.run(), O.run([], 4)): t.fail('cx[0:2, 1:3] followed by its dagger is not the identity', 'Circuit(4).h[0].cx[0:2, 1:3]', 'pairs-sharing-qubits')
    t.guard('finding', finding)
