import math, numpy as np, collections, random, re
import oracle as O, paulis as Q
from blueqat import Circuit, pauli as P, vqe
def rham(rng, n):
    e = P.Expr(())
    for _ in range(rng.randint(1, 4)):
        t = P.Term(tuple({'X': P.X, 'Y': P.Y, 'Z': P.Z}[rng.choice('XYZ')][q] for q in rng.sample(range(n), rng.randint(0 if rng.random() < .3 else 1, min(3, n)))), rng.choice([1.0, -1.5, .3, 2.0, -.75]))
        e = e + t
    return e.simplify()
def marg(psi, n, qs):
    """exact distribution of the listed qubits"""
    out = collections.defaultdict(float)
    for i, a in enumerate(psi): out[tuple(i >> q & 1 for q in qs)] += abs(a) ** 2
    return {k: v for k, v in out.items() if v > 1e-12}
class Ans(vqe.AnsatzBase):
    def __init__(self, h, ops, n):
        super().__init__(h, 1); self.n_qubits = n; self.ops_ = ops
    def get_circuit(self, params): return O.build(Circuit, self.ops_ + [('ry', (float(params[0]),), 0)], self.n_qubits)
def snap(c): return (c.n_qubits, tuple(map(str, c.ops)))
def exact(circuit, meas):
    meas = tuple(meas); c = circuit.copy()
    return marg(c.run(), max(c.n_qubits, 1), meas) if c.n_qubits else {(): 1.0}
def check(t):
    t.rule = 'random Hamiltonians and circuits; samplers asked for qubits in any order; basis states give exact answers, superpositions statistical ones'
    t.bounds = ['at most 4 qubits, at most 4 terms (12 qubits, 40 terms for a few); statistical tests with false-alarm probability below 1e-9']
    def energies():
        for _ in range(300 if t.thorough else 90):
            n = t.rng.randint(1, 4); h = rham(t.rng, n); ops = O.rcircuit(t.rng, n, t.rng.randint(0, 6), simple=True)
            a = Ans(h, ops, n); p = [t.rng.uniform(-3, 3)]
            c = a.get_circuit(p); inp = (repr(h), ops, p); t.case(inp)
            psi = O.run(ops + [('ry', (p[0],), 0)], n); want = np.vdot(psi, Q.mat(h, list(range(n))) @ psi).real
            s0 = snap(c); hr = repr(h)
            for name, f in (('exact sampler', lambda: a.get_energy(c, vqe.non_sampling_sampler)), ('any exact sampler', lambda: a.get_energy(c, exact)),
                            ('objective with sampler', lambda: a.get_objective(vqe.non_sampling_sampler)(p))):
                got = f()
                if abs(got - want) > 1e-7: t.fail('energy with %s is %r, not %r' % (name, got, want), inp)
            for fmt in ('csc', 'csr', 'coo', None):
                b = Ans(h, ops, n)
                b.make_sparse(*(() if fmt is None else (fmt,)))
                got = b.get_energy_sparse(c)
                if abs(got - want) > 1e-7: t.fail('energy with sparse matrix is %r, not %r' % (got, want), inp)
            got = Ans(h, ops, n).get_objective()(p)
            if abs(got - want) > 1e-7: t.fail('objective is %r, not %r' % (got, want), inp)
            if snap(c) != s0 or repr(h) != hr: t.fail('computing the energy changed the circuit', inp)
            M = Q.mat(h, list(range(n)))
            if abs(vqe.sparse_expectation(h.to_matrix(n, sparse='csc'), psi) - want) > 1e-7: t.fail('sparse_expectation', inp)
    t.guard('energies', energies)
    def products():
        # Hamiltonians whose terms are products not yet simplified
        for _ in range(60):
            n = t.rng.randint(1, 3); ops = O.rcircuit(t.rng, n, 5, simple=True); terms = []
            for _ in range(t.rng.randint(1, 3)):
                k = t.rng.randint(1, 5); w = [{'X': P.X, 'Y': P.Y, 'Z': P.Z}[t.rng.choice('XYZ')][t.rng.randrange(n)] for _ in range(k)]
                term = P.Term(tuple(w), t.rng.choice([1.0, -.5, 2.0])); M = Q.mat(P.Expr((term,)), list(range(n)))
                if abs(M - M.conj().T).max() > 1e-12: term = P.Term(tuple(w), term.coeff * 1j)
                terms.append(term)
            h = P.Expr(tuple(terms)); a = Ans(h, ops, n); c = a.get_circuit([.4]); psi = O.run(ops + [('ry', (.4,), 0)], n); want = np.vdot(psi, Q.mat(h, list(range(n))) @ psi).real; t.case(('products', repr(h), ops)); a.make_sparse()
            for nm, got in (('sampler', a.get_energy(c, vqe.non_sampling_sampler)), ('another exact sampler', a.get_energy(c, exact)), ('sparse matrix', a.get_energy_sparse(c))):
                if abs(got - want) > 1e-7: t.fail('energy of a product with the %s is %r, not %r' % (nm, got, want), (repr(h), ops)); return
    t.guard('products', products)
    def corners():
        # tiny probabilities, and qubits asked for repeatedly
        for th in (1e-3, 1e-5, 1e-7, 1e-9):
            c = Circuit(2).ry(th)[0]; e = vqe.non_sampling_sampler(c, (0,)); w = math.sin(th / 2) ** 2; t.case(('tiny', th))
            if set(e) != {(0,), (1,)} or abs(e[(1,)] / w - 1) > 1e-5: t.fail('a probability of %r is given as %r' % (w, e), th)
            e = vqe.expect(np.array([math.cos(th), 0, 0, 1j * math.sin(th)]), (1, 0)); w = math.sin(th) ** 2
            if set(e) != {(0, 0), (1, 1)} or abs(e[(1, 1)] / w - 1) > 1e-5: t.fail('a probability of %r is given as %r' % (w, e), th)
        for meas in ((0, 0), (1, 0, 1), (2, 2), (0, 1, 1, 0), (2, 1, 2, 2)):
            for c in (Circuit(3).x[1], Circuit(3).x[0, 2], Circuit(3).h[0].cx[0, 1]):
                t.case(('repeated', meas)); w = marg(c.copy().run(), 3, meas)
                for nm, f in (('exact', vqe.non_sampling_sampler), ('state-vector', vqe.get_state_vector_sampler(400)), ('measurement', vqe.get_measurement_sampler(400))):
                    e = {k: v for k, v in f(c.copy(), meas).items() if v}
                    if set(e) != set(w) or abs(sum(e.values()) - 1) > 1e-9 or any(abs(e[k] - w[k]) > (1e-9 if nm == 'exact' else .3) for k in w): t.fail('%s sampler asked for %r gives %r, not %r' % (nm, meas, e, w), meas)
    t.guard('corners', corners)
    def scaled():
        for _ in range(30):
            n = t.rng.randint(1, 3); h0 = rham(t.rng, n); k = t.rng.choice([1e-9, 1e-12, 1e9, 1e-6]); h = P.Expr(tuple(P.Term(x.ops, x.coeff * k) for x in h0.terms)); ops = O.rcircuit(t.rng, n, 4, simple=True); a = Ans(h, ops, n); p = [.3]; c = a.get_circuit(p); t.case(('scaled', k, repr(h0), repr(ops)))
            psi = O.run(ops + [('ry', (.3,), 0)], n); want = np.vdot(psi, Q.mat(h0, list(range(n))) @ psi).real; tot = sum(abs(x.coeff) for x in h0.terms) or 1
            a.make_sparse()
            for nm, got in (('sampler', a.get_energy(c, vqe.non_sampling_sampler)), ('sparse matrix', a.get_energy_sparse(c)), ('objective', a.get_objective()(p))):
                if abs(got / k - want) > 1e-7 * tot: t.fail('energy of a scaled Hamiltonian with %s is %r, not %r' % (nm, got, want * k), (repr(h), ops)); return
        # terms of very different size, each the only one that contributes
        h = P.Expr((P.Term((P.X[0],), 1e6), P.Term((P.Z[0],), 1e-7), P.Term((P.Y[0],), 3.0))); a = Ans(h, [], 1); c = Circuit(1).x[0]; t.case('mixed sizes')
        if abs(a.get_energy(c, vqe.non_sampling_sampler) + 1e-7) > 1e-9: t.fail('a small term is left out', repr(h))
        # the same ansatz and circuits again, changed in between
        for _ in range(25):
            h = rham(t.rng, 3); a = Ans(h, [], 3); a.make_sparse(); smp = vqe.non_sampling_sampler; obj = a.get_objective()
            for c, ops, n in O.history(t.rng, Circuit, 8, 3, simple=True):
                if n < 3: c += Circuit(3)
                psi = O.run(ops, 3); want = np.vdot(psi, Q.mat(h, [0, 1, 2]) @ psi).real; t.case(('history', repr(h), repr(ops)))
                if abs(a.get_energy(c, smp) - want) > 1e-7 or abs(a.get_energy_sparse(c) - want) > 1e-7: t.fail('energy of a circuit changed step by step', (repr(h), ops)); break
                w = marg(psi, 3, (2, 0)); got = smp(c, (2, 0))
                if any(abs(got.get(k, 0) - w.get(k, 0)) > 1e-9 for k in set(got) | set(w)): t.fail('sampler on a circuit changed step by step', ops); break
    t.guard('scaled', scaled)
    def wide():
        """a circuit on fewer qubits than the Hamiltonian, run on a larger device"""
        for _ in range(40):
            n = t.rng.randint(1, 3); h = rham(t.rng, 4); ops = O.rcircuit(t.rng, n, 4, simple=True); c = O.build(Circuit, ops, n); t.case(('wide', repr(h), repr(ops)))
            psi = O.run(ops, 4); want = np.vdot(psi, Q.mat(h, [0, 1, 2, 3]) @ psi).real
            got = Ans(h, ops, n).get_energy(c, lambda k, m: exact(Circuit(4) + k, m))
            if abs(got - want) > 1e-7: t.fail('energy of a circuit on fewer qubits is %r, not %r' % (got, want), (repr(h), ops))
    t.guard('wide', wide)
    def expects():
        for _ in range(300):
            n = t.rng.randint(1, 5); psi = O.rstate(np.random.RandomState(t.rng.randrange(10 ** 6)), n)
            if t.rng.random() < .4: psi = psi * (np.random.RandomState(t.rng.randrange(10 ** 6)).rand(2 ** n) < .5); 
            if not np.linalg.norm(psi): continue
            psi = psi / np.linalg.norm(psi)
            qs = tuple(t.rng.sample(range(n), t.rng.randint(0, n))); t.case(('expect', n, qs, repr(psi[:2])))
            got = vqe.expect(psi, t.rng.choice([tuple, list, iter])(qs)); want = marg(psi, n, qs)
            if any(abs(got.get(k, 0) - want.get(k, 0)) > 1e-9 for k in set(got) | set(want)): t.fail('expect gives %r, not %r' % (got, want), (n, qs))
    t.guard('expect', expects)
    def check_sampler(name, mk, n, ops, qs, shots, stat):
        c = O.build(Circuit, ops, n); s0 = snap(c); inp = (name, n, ops, qs, shots); t.case(inp)
        want = marg(O.run(ops, n), n, qs)
        got = mk(c, qs)
        if snap(c) != s0: t.fail('the sampler changed the circuit', inp)
        if any(not isinstance(k, tuple) or len(k) != len(qs) or any(b not in (0, 1) for b in k) for k in got): t.fail('keys %r' % list(got)[:4], inp); return
        if abs(sum(got.values()) - 1) > 1e-9: t.fail('probabilities sum to %r' % sum(got.values()), inp)
        if shots:
            for k, v in got.items():
                if abs(v * shots - round(v * shots)) > 1e-6 or v < 0: t.fail('not a frequency of %d shots: %r' % (shots, v), inp)
                if v > 0 and want.get(k, 0) < 1e-12: t.fail('impossible outcome %r' % (k,), inp)
        for k in set(want) | set(got):
            p = want.get(k, 0); d = abs(got.get(k, 0) - p)
            if d > (1e-9 if not shots else 1e-9 if p > 1 - 1e-12 else 6.5 * math.sqrt(p * (1 - p) / shots) + 12 / shots): t.fail('probability of %r is %r, not %r' % (k, got.get(k, 0), p), inp)
    def samplers():
        S = 3000
        mks = [('exact', lambda: vqe.non_sampling_sampler, 0), ('measurement', lambda: vqe.get_measurement_sampler(S), S), ('measurement, options', lambda: vqe.get_measurement_sampler(S, {'backend': 'numpy'}), S), ('state vector', lambda: vqe.get_state_vector_sampler(S), S)]
        for _ in range(50 if t.thorough else 16):
            n = t.rng.randint(1, 4)
            for name, mk, shots in mks:
                bas = [('x', (), q) for q in range(n) if t.rng.random() < .5]
                qs = tuple(t.rng.sample(range(n), t.rng.randint(1, n)))
                check_sampler(name, mk(), n, bas, qs, shots, False)
                if name[0] != 'm' or _ < 8: check_sampler(name, mk(), n, O.rcircuit(t.rng, n, 5, simple=True), qs, shots, True)
        for k in range(60): check_sampler('state vector', vqe.get_state_vector_sampler(50), 1, [('ry', (k * .1,), 0), ('ry', (-k * .1,), 0)] if k % 2 else [('rz', (k * .1,), 0)], (0,), 50, False)
        # correlations across the register
        for name, mk, shots in mks: check_sampler(name, mk(), 3, [('h', (), 0), ('cx', (), (0, 2)), ('x', (), 1)], (2, 1, 0), shots, True); check_sampler(name, mk(), 3, [('h', (), 0), ('ry', (.6,), 1), ('cx', (), (0, 2))], (2,), shots, True)
    t.guard('samplers', samplers)
    class Fake:
        """a backend that returns prepared counts"""
        def __init__(self, n, rng): self.counts = collections.Counter({''.join(rng.choice('01') for _ in range(n)): rng.randint(1, 50) for _ in range(6)}); self.seen = []
        def run(self, gates, n, *a, **k): self.seen.append((len(gates), n, a, k)); return collections.Counter(self.counts)
    def fake():
        for _ in range(60):
            n = t.rng.randint(1, 4); f = Fake(n, t.rng); S = sum(f.counts.values())
            qs = tuple(t.rng.sample(range(n), t.rng.randint(1, n)))
            got = vqe.get_measurement_sampler(S, {'backend': f, 'opt': 5})(Circuit(n).h[0], qs); t.case(('fake', qs, repr(f.counts)))
            if not f.seen: continue
            want = collections.Counter()
            for k, v in f.counts.items(): want[tuple(int(k[q]) for q in qs)] += v
            if any(abs(got.get(k, 0) - want[k] / S) > 1e-9 for k in set(got) | set(want)): t.fail('sampler gives %r for counts %r' % (got, dict(f.counts)), qs)
            if f.seen[0][3].get('shots') != S or f.seen[0][3].get('opt') != 5: t.fail('options %r' % (f.seen[0],), qs)
    t.guard('values computed from the shots', fake)
    def qk():
        try: import qiskit
        except Exception: return
        if not hasattr(qiskit, 'execute'): return
        old = qiskit.execute; seen = []
        class J:
            def __init__(s, c): s.c = c
            def result(s): return s
            def get_counts(s): return dict(s.c)
        try:
            for _ in range(60):
                n = t.rng.randint(1, 4); hexa = t.rng.random() < .5
                raw = collections.Counter()
                for _ in range(5): raw[t.rng.randrange(2 ** n)] += t.rng.randint(1, 40)
                S = sum(raw.values())
                cnt = {(hex(k) if hexa else format(k, '0%db' % n)): v for k, v in raw.items()}
                hit = []
                def ex(circ, backend=None, shots=None, **k): hit.append((shots, k)); return J(cnt)
                qiskit.execute = ex
                qs = tuple(t.rng.sample(range(n), t.rng.randint(1, n))); t.case(('qiskit', qs, repr(cnt)))
                c = Circuit(n).h[0]; s0 = snap(c)
                got = vqe.get_qiskit_sampler(object(), shots=S, seed=3)(c, qs)
                if snap(c) != s0: t.fail('the sampler changed the circuit', ('qiskit', qs))
                if not hit: return
                if hit[0][0] != S or hit[0][1].get('seed') != 3: t.fail('options %r' % (hit,), qs)
                want = collections.Counter()
                for k, v in raw.items(): want[tuple(k >> q & 1 for q in qs)] += v
                if any(abs(got.get(k, 0) - want[k] / S) > 1e-9 for k in set(got) | set(want)): t.fail('qiskit sampler gives %r for counts %r' % (got, cnt), qs)
                if not hexa:
                    got = vqe.get_qiskit_sampler(object(), shots=S)(c, ())
                    if got != {(): 1.0}: t.fail('no qubits asked: %r' % (got,), 'qiskit')
        finally: qiskit.execute = old
    t.guard('qiskit sampler', qk)
    def shot_energy():
        for _ in range(6):
            n = 3; h = rham(t.rng, n); ops = [('x', (), q) for q in range(n) if t.rng.random() < .5]
            h = P.Expr(tuple(P.Term(tuple(P.Z[o.n] for o in x.ops), x.coeff) for x in h.terms)).simplify()
            if not h.terms: continue
            a = Ans(h, ops, n); c = O.build(Circuit, ops, n); psi = O.run(ops, n)
            want = np.vdot(psi, Q.mat(h, [0, 1, 2]) @ psi).real
            for nm, s in (('measurement', vqe.get_measurement_sampler(50)), ('state vector', vqe.get_state_vector_sampler(50))):
                t.case(('shots', nm, repr(h), ops))
                if abs(a.get_energy(c, s) - want) > 1e-7: t.fail('energy of a basis state with %s sampler' % nm, (repr(h), ops))
    t.guard('energy from shots', shot_energy)
    def large():
        r = np.random.RandomState(t.seed)
        for n, m in ((6, 20), (9, 40), (11, 12)):
            h = P.Expr(tuple(Q.lterm(t.rng, n, t.rng.randint(0, 9)) for _ in range(m))); h = P.Expr(tuple(P.Term(x.simplify().ops, 1 + k / 7) for k, x in enumerate(h.terms))).simplify()
            h = h + P.Term(tuple(t.rng.choice([P.X, P.Y, P.Z])[q] for q in range(n)), 2.5) + P.Term(tuple(P.Y[q] for q in range(n - 1, -1, -2)), -1.5); h = h.simplify()
            ops = [('h', (), slice(None))] + O.rcircuit(t.rng, n, 25, simple=True); a = Ans(h, ops, n); p = [.7]; inp = (n, repr(h), ops); t.case(inp)
            psi = O.run(ops + [('ry', (.7,), 0)], n); want = np.vdot(psi, Q.act(h, psi, n)).real; c = a.get_circuit(p); s0 = snap(c)
            for name, f in (('sampler', lambda: a.get_energy(c, vqe.non_sampling_sampler)), ('objective with sampler', lambda: a.get_objective(vqe.non_sampling_sampler)(p)), ('objective', lambda: a.get_objective()(p))):
                if abs(f() - want) > 1e-6: t.fail('large: energy with %s is %r, not %r' % (name, f(), want), inp)
            a.make_sparse()
            if abs(a.get_energy_sparse(c) - want) > 1e-6: t.fail('large: energy with sparse matrix', inp)
            if snap(c) != s0: t.fail('computing the energy changed the circuit', inp)
            qs = tuple(t.rng.sample(range(n), n)); got = vqe.expect(psi, qs); w = marg(psi, n, qs)
            if any(abs(got.get(k, 0) - w.get(k, 0)) > 1e-9 for k in set(got) | set(w)): t.fail('large: expect', inp)
            got = vqe.non_sampling_sampler(c, qs[:5]); w = marg(psi, n, qs[:5])
            if any(abs(got.get(k, 0) - w.get(k, 0)) > 1e-9 for k in set(got) | set(w)): t.fail('large: sampler', inp)
        for n in (9, 12):
            bits = [t.rng.randint(0, 1) for _ in range(n)]; qs = tuple(t.rng.sample(range(n), n - 2)); ops = [('x', (), q) for q in range(n) if bits[q]]
            for nm, s in (('measurement', vqe.get_measurement_sampler(40)), ('state vector', vqe.get_state_vector_sampler(40))):
                got = {k: v for k, v in s(O.build(Circuit, ops, n), qs).items() if v}; t.case(('wide', nm, bits, qs))
                if got != {tuple(bits[q] for q in qs): 1.0}: t.fail('%s sampler on a wide basis state gives %r' % (nm, got), (bits, qs))
            ops = [('h', (), n - 1), ('cx', (), (n - 1, 0)), ('ry', (.9,), 3)]
            check_sampler('wide measurement', vqe.get_measurement_sampler(600), n, ops, (0, n - 1, 3), 600, True); check_sampler('wide state vector', vqe.get_state_vector_sampler(20000), n, ops, (3, n - 1), 20000, True)
        for _ in range(6):
            n = 12; f = Fake(n, t.rng)
            for _ in range(200): f.counts[''.join(t.rng.choice('01') for _ in range(n))] += t.rng.randint(1, 9)
            S = sum(f.counts.values()); qs = tuple(t.rng.sample(range(n), t.rng.randint(1, 4)))
            got = vqe.get_measurement_sampler(S, {'backend': f})(Circuit(n).h[0], qs); t.case(('fake large', qs, S))
            if not f.seen: continue
            want = collections.Counter()
            for k, v in f.counts.items(): want[tuple(int(k[q]) for q in qs)] += v
            if any(abs(got.get(k, 0) - want[k] / S) > 1e-9 for k in set(got) | set(want)): t.fail('sampler gives other frequencies for many counts', qs)
    t.guard('large', large)
