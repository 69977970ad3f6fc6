import math, itertools, numpy as np
import oracle as O
import blueqat.gate as gate
from blueqat.backends.backendbase import Backend
NAMES = {v: k for k, v in O.CLS.items()}
def denote(op, n):
    g = op.lowername
    return O.op_matrix(g, tuple(op.params), op.targets, n)
def check_op(t, g, n, ps, tg):
    inp = {'gate': g, 'n': n, 'params': ps, 'targets': tg}
    op = getattr(gate, O.CLS[g])(tg, *ps)
    t.case(inp)
    try: fb = op.fallback(n)
    except NotImplementedError: return False
    U = np.eye(2 ** n, dtype=complex)
    for m, qs in O.op_matrix(g, ps, tg, n): U = O.full(m, qs, n) @ U
    V = np.eye(2 ** n, dtype=complex)
    for h in fb:
        for m, qs in denote(h, n): V = O.full(m, qs, n) @ V
    if not O.phase_close(V, U): t.fail('the replacement gates are not the gate up to a global phase: ' + ', '.join(map(str, fb)), inp)
    # the flattened form a backend with few gates sees
    for have in ({'rz', 'rx', 'ry', 'h', 'cx', 'cz', 'u3', 'x', 'y', 'z'}, {'phase', 'u3', 'cx', 'rz', 'ry', 'rx', 'h', 'x', 'y', 'z', 'cz', 'u1', 'ccx', 't', 's'}):
        class B(Backend): pass
        for a in have: setattr(B, 'gate_' + a, lambda self, gate, ctx: ctx)
        flat = B()._resolve_fallback([op], n)
        bad = [h for h in flat if h.lowername not in have]
        if bad: t.fail('flattening left a gate the backend does not have: %s' % bad, inp)
        V = np.eye(2 ** n, dtype=complex)
        for h in flat:
            for m, qs in denote(h, n): V = O.full(m, qs, n) @ V
        if not O.phase_close(V, U): t.fail('the flattened gates are not the gate up to a global phase', inp)
        seen = []
        for a in have: setattr(B, 'gate_' + a, lambda self, gate, ctx, seen=seen: (seen.append(gate), ctx)[1])
        B().run([op], n)
        V = np.eye(2 ** n, dtype=complex)
        for h in seen:
            for m, qs in denote(h, n): V = O.full(m, qs, n) @ V
        if not O.phase_close(V, U): t.fail('the gates a backend is handed are not the gate up to a global phase', inp)
    return True
def check(t):
    t.rule = 'every gate with a replacement, all qubit orders, angles from a list of special values and random ones'
    t.bounds = ['registers of at most 4 qubits (13 for a few)']
    def sweep():
        nfb = 0
        for g in O.G:
            k, p, _ = O.G[g]
            tgs = [(n, q if k > 1 else q[0]) for n in (k, k + 1) for q in itertools.permutations(range(n), k)]
            if k == 2: tgs += [(4, (slice(0, 2), slice(2, 4))), (3, (-1, 0)), (4, (slice(0, 3), slice(1, 4))), (3, ((0, 0), (1, 2)))]
            if k == 1: tgs += [(3, slice(None)), (3, (0, 2)), (3, -1), (3, (1, 1)), (2, ())]
            for n, q in tgs:
                for i in range(3 if p else 1):
                    if not check_op(t, g, n, tuple(O.rangle(t.rng) for _ in range(p)), q): break
            q = (0, 1, 2)[:k] if k > 1 else 0
            for i in range(len(O.ANGLES) if p else 0):
                check_op(t, g, k, tuple([O.ANGLES[i]] + [t.rng.choice(O.ANGLES) for _ in range(p - 1)]), q)
    t.guard('replacements', sweep)
    def large():
        r = np.random.RandomState(t.seed)
        for g in O.G:
            k, p, _ = O.G[g]
            for n, tg in {1: ((9, slice(None)), (12, -1), (8, tuple(range(8)) * 3)), 2: ((9, (slice(0, 8), slice(1, 9))), (13, (12, 0)), (10, (slice(9, 4, -1), slice(0, 5)))), 3: ((9, (8, 0, 4)), (13, (-1, 3, -2)))}[k]:
                ps = tuple(O.rangle(t.rng) for _ in range(p)); op = getattr(gate, O.CLS[g])(tg, *ps); t.case((g, n, repr(tg), ps))
                try: fb = list(op.fallback(n))
                except NotImplementedError: break
                v = O.rstate(r, n); w = v
                for h in fb:
                    for m, qs in denote(h, n): w = O.apply(w, m, qs, n)
                if not O.phase_close(w, O.run([(g, ps, tg)], n, v), 1e-7): t.fail('large: the replacement gates are not the gate up to a global phase', (g, n, repr(tg), ps))
    t.guard('large registers', large)
    def custom():
        from blueqat.backends.numpy_backend import NumPyBackend
        for g in O.G:
            cls = getattr(gate, O.CLS[g])
            t.case(('covered', g))
            if hasattr(NumPyBackend, 'gate_' + g): continue
            try: cls((0, 1, 2)[:O.G[g][0]] if O.G[g][0] > 1 else 0, *[.5] * O.G[g][1]).fallback(3)
            except NotImplementedError: t.fail('neither an action nor a replacement', g)
    t.guard('coverage', custom)
    def again():
        """one operation rewritten for several register sizes, in any order"""
        for g in O.G:
            k, p, _ = O.G[g]
            tgs = {1: (-1, slice(None), (0, -1), slice(None, None, -2)), 2: ((0, -1), (-1, 0), (slice(0, -1), slice(1, None)), (slice(-2, -1), 0)), 3: ((0, -1, 1), (-1, -2, 0))}[k]
            for tg in tgs:
                ps = tuple(O.rangle(t.rng) for _ in range(p)); op = getattr(gate, O.CLS[g])(tg, *ps)
                for n in [t.rng.randint(3, 5) for _ in range(4)] + [5, 3]:
                    if not O.valid((g, ps, tg), n): continue
                    t.case(('again', g, repr(tg), ps, n))
                    try: fb = list(op.fallback(n))
                    except NotImplementedError: break
                    U = O.unitary([(g, ps, tg)], n); V = np.eye(2 ** n, dtype=complex)
                    for h in fb:
                        for m, qs in denote(h, n): V = O.full(m, qs, n) @ V
                    if not O.phase_close(V, U): t.fail('rewritten for several register sizes: not the gate up to a global phase', (g, repr(tg), ps, n)); break
                    if fb: fb[0].targets = 99; fb.pop()        # what was returned belongs to the caller
    t.guard('again', again)
