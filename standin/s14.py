import numpy as np, cmath
import oracle as O, paulis as Q
from blueqat import Circuit, pauli as P
def expo(term, tt, n):
    """exp(i t c P) of a term, from its (hermitian) matrix"""
    w, v = np.linalg.eigh(Q.mat(term, list(range(n))))
    return v @ np.diag(np.exp(1j * tt * w)) @ v.conj().T
def unitary(c, n):
    out = []
    for j in range(2 ** n):
        p = Circuit(n)
        for q in range(n):
            if j >> q & 1: p.x[q]
        out.append((p + c).run())
    return np.array(out).T
def check(t):
    t.rule = 'every Pauli string of up to 3 letters on scattered qubits in every order; random coefficients and times; prefix circuits'
    t.bounds = ['at most 4 qubits, at most 5 operators per term (12 qubits, 120 operators for a few)']
    r = np.random.RandomState(t.seed)
    def one(term, tt, pre=()):
        n = max([q + 1 for q in Q.qubits(term)] + [1]); n = max(n, max([1] + [1 + max(O.targets(o[2] if isinstance(o[2], tuple) else (o[2],), 4)) for o in pre]))
        inp = (repr(term), tt, pre); t.case(inp); rt = repr(term)
        f = term.get_time_evolution()
        c = O.build(Circuit, list(pre), n)
        before = [str(o) for o in c.ops]
        res = f(c, tt)
        if [str(o) for o in c.ops][:len(before)] != before: t.fail('earlier operations changed', inp)
        if repr(term) != rt: t.fail('the term changed', inp)
        if c.n_qubits > n: t.fail('register grew to %d' % c.n_qubits, inp)
        if pre:
            psi = c.run(); want = expo(term, tt, n) @ O.run(list(pre), n)
            if not O.phase_close(psi, want, 1e-7): t.fail('wrong state after the evolution', inp)
        else:
            if not O.phase_close(unitary(c, n), expo(term, tt, n), 1e-7): t.fail('wrong unitary', inp)
            # again on the same circuit
            f(c, .4)
            if not O.phase_close(unitary(c, n), expo(term, tt + .4, n), 1e-7): t.fail('wrong unitary when appended twice', inp)
    def strings():
        import itertools
        for k in (1, 2, 3):
            for ch in itertools.product('XYZ', repeat=k):
                for rep in range(2 if k < 3 else 1):
                    qs = t.rng.sample(range(4 if k > 1 else 3), k)
                    term = P.Term(tuple({'X': P.X, 'Y': P.Y, 'Z': P.Z}[a][q] for a, q in zip(ch, qs)), t.rng.choice([1.0, -1.0, .5, -2.3, .7]))
                    one(term, O.rangle(t.rng)); one(term, t.rng.choice(O.ANGLES))
                    one(term, t.rng.uniform(-3, 3), tuple(O.rcircuit(t.rng, 4, 4, simple=True)))
    t.guard('strings', strings)
    def rnd():
        for _ in range(300 if t.thorough else 80):
            qs = t.rng.sample(range(4), t.rng.randint(1, 4))
            term = Q.rterm(t.rng, qs, cplx=False)
            s = term.simplify()
            if abs(complex(s.coeff).imag) > 0: continue
            one(term, O.rangle(t.rng)); one(term, O.rangle(t.rng), tuple(O.rcircuit(t.rng, 4, 3, simple=True)))
        one(P.Term((P.X[0], P.Y[1], P.Z[2], P.Y[3]), -1.25), .81); one(P.Term((), 2.0), .3); one(P.Term((P.X[0],), 0.0), .3); one(P.Term((P.X[0], P.Y[0], P.Z[0]), -1j), 1.1)
        one(P.Term((P.X[1],), 1 + 0j), .3); one(P.Term((P.Z[0],), 3), 2)
    t.guard('random', rnd)
    def large():
        for n, k in ((7, 7), (9, 30), (11, 11), (12, 4), (6, 120)):
            for term in (P.Term(Q.lterm(t.rng, n, k).ops, .7), P.Term(tuple(t.rng.choice([P.X, P.Y, P.Z])[q] for q in t.rng.sample(range(n), n)), -1.3)):
                s = term.simplify(); c = complex(s.coeff)
                if abs(c.imag) > 1e-12: term = term * 1j; s = term.simplify(); c = complex(s.coeff)
                if abs(c.imag) > 1e-12: continue
                tt = t.rng.uniform(-3, 3); t.case((n, repr(term), tt))
                pre = [('u3', (q / 3, 1 - q / 5, .2 * q), q) for q in range(n)] + [('cx', (), (q, (q + 2) % n)) for q in range(n)]
                psi = O.run(pre, n); cir = O.build(Circuit, pre, n); m = len(cir.ops)
                f = term.get_time_evolution(); f(cir, tt); f(cir, .2)
                one_ = P.Term(s.ops, 1.0); th = (tt + .2) * c.real
                if not O.phase_close(cir.run(), np.cos(th) * psi + 1j * np.sin(th) * Q.act(one_, psi, n), 1e-7): t.fail('wrong state after the evolution of a large term', (n, repr(term), tt))
                cir = O.build(Circuit, pre, n); term.append_to_circuit(cir)
                if not O.phase_close(cir.run(), Q.act(P.Term(term.ops, 1.0), psi, n), 1e-7): t.fail('append_to_circuit of a large term', (n, repr(term)))
    t.guard('large terms', large)
    def again():
        """one evolution appended to several circuits, for the same and other times"""
        for _ in range(25):
            term = P.Term(tuple(t.rng.choice([P.X, P.Y, P.Z])[q] for q in t.rng.sample(range(4), t.rng.randint(1, 3))), t.rng.choice([1.0, -.7, 2.5])); f = term.get_time_evolution(); g = term.get_time_evolution(); ts = [t.rng.uniform(-2, 2), .5]
            for k in range(6):
                n = t.rng.randint(1, 4); pre = O.rcircuit(t.rng, n, 2, simple=True); c = O.build(Circuit, pre, n); tt = t.rng.choice(ts); t.case(('again', repr(term), tt, n, repr(pre)))
                (f if k % 3 else g)(c, tt); m = max(n, term.n_qubits)
                if c.n_qubits != m: t.fail('register of %d qubits instead of %d' % (c.n_qubits, m), (repr(term), tt, n)); break
                if not O.phase_close(c.run(), expo(term, tt, m) @ O.run(pre, m), 1e-7): t.fail('an evolution used several times: wrong state', (repr(term), tt, pre)); break
                if k % 2:
                    f(c, tt); c.x[0]
                    if not O.phase_close(c.run(), O.apply(expo(term, 2 * tt, m) @ O.run(pre, m), O.X, [0], m), 1e-7): t.fail('an evolution used several times on one circuit: wrong state', (repr(term), tt, pre)); break
    t.guard('again', again)
    def refused():
        for term in (1j * P.X[0], P.Term((P.X[0], P.Y[0]), 1.0), (1 + .5j) * (P.X[0] * P.Y[1]), P.Term((P.Z[2],), 1e-3j), 1j * P.I * P.X[0], P.Term((P.X[0],), 1 + 1e-6j), P.Term((P.X[0],), -1j)):
            t.case(('refuse', repr(term)))
            try: term.get_time_evolution()
            except ValueError: pass
            else: t.fail('a coefficient that is not real is accepted', repr(term))
    t.guard('refused', refused)
    def append():
        for _ in range(150):
            term = Q.rterm(t.rng, [0, 1, 3], cplx=False); pre = tuple(O.rcircuit(t.rng, 4, 3, simple=True))
            for kw in ({}, {'simplify': False}, {'simplify': True}):
                t.case(('append', repr(term), repr(pre), repr(kw)))
                c = O.build(Circuit, list(pre), 4); k = len(c.ops); before = [str(o) for o in c.ops]
                term.append_to_circuit(c, **kw)
                if [str(o) for o in c.ops][:k] != before: t.fail('earlier operations changed', (repr(term), kw))
                one_ = P.Term(term.ops, 1.0)
                if not O.phase_close(c.run(), Q.mat(one_, [0, 1, 2, 3]) @ O.run(list(pre), 4), 1e-8): t.fail('append_to_circuit does not apply the operators', (repr(term), pre, kw))
                if c.n_qubits != 4: t.fail('register size', (repr(term), c.n_qubits))
    t.guard('append', append)
