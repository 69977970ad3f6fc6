import numpy as np, scipy.sparse
import oracle as O, paulis as Q
from blueqat import pauli as P
FM = ['bsr', 'coo', 'csc', 'csr', 'dia', 'dok', 'lil']
def check(t):
    t.rule = 'every single operator on up to 5 qubits; random terms and expressions; dense and all sparse formats; sizes from needed to needed+2'
    t.bounds = ['at most 6 qubits (15 for a few)']
    def one(e, n=None):
        r = repr(e); inp = (r, n); t.case(inp)
        need = max([q + 1 for q in Q.qubits(e)] or [0])
        if e.n_qubits != need: t.fail('n_qubits is %r, not %d' % (e.n_qubits, need), r)
        if n is None: n = need
        args = () if n == need and t.rng.random() < .5 else (n,)
        want = Q.mat(e, list(range(n)))
        got = e.to_matrix(*args)
        if not isinstance(got, np.ndarray): t.fail('dense result is %s' % type(got).__name__, inp); return
        if got.shape != want.shape or not np.allclose(got, want, atol=1e-12): t.fail('wrong dense matrix', inp)
        for f in FM:
            s = e.to_matrix(*args, sparse=f)
            if not scipy.sparse.issparse(s) or s.format != f: t.fail('asked for %s' % f, inp); continue
            s = s.toarray()
            if s.shape != want.shape or not np.allclose(s, want, atol=1e-12): t.fail('wrong %s matrix' % f, inp)
        if repr(e) != r: t.fail('making the matrix changed the operator', inp)
    def singles():
        for k in (P.X, P.Y, P.Z):
            if not np.allclose(k.matrix, Q.M1[k[0].op]) or not np.allclose(k[3].matrix, Q.M1[k[0].op]): t.fail('matrix of a single operator', k[0].op)
            m = k[0].matrix; m[0, 0] = 7
            if not np.allclose(k[0].matrix, Q.M1[k[0].op]): t.fail('returned matrix is shared', k[0].op)
            for q in range(5):
                for n in (None, q + 1, q + 2, q + 3 if q < 3 else q + 1): one(k[q], n)
        if not np.allclose(P.I.matrix, O.I2): t.fail('matrix of I', 'I')
        for n in range(4): one(P.I, n)
        for s in ('XYZ', 'YYX', 'IYI', 'ZIZY', 'YIIX', 'IIIY', 'ZZZZ', 'XIIII', 'IIZII', 'YZXIY', 'IYYI'): one(P.term_from_chars(s)); one(-.5j * P.term_from_chars(s))
    t.guard('single', singles)
    def rnd():
        for _ in range(900 if t.thorough else 260):
            qs = sorted(t.rng.sample(range(6), t.rng.randint(1, 5)))
            e = Q.rany(t.rng, qs)
            need = max([q + 1 for q in Q.qubits(e)] or [0])
            one(e); one(e, min(need + t.rng.randint(1, 2), 7))
        for _ in range(60):   # many terms sharing the same support pattern
            qs = [0, 1, 2]
            one(Q.rexpr(t.rng, qs, k=t.rng.randint(4, 14)))
        one(P.Expr(()), 2); one(P.Expr((P.Term((P.X[0],), 1.0), P.Term((P.X[0],), -1.0))), 1)
        one(P.Term((P.X[0], P.X[0]), 2.0)); one(P.Term((P.X[1], P.Y[1], P.Z[1]), 2.0), 2)
    t.guard('random', rnd)
    def again():
        for _ in range(40):
            n = t.rng.randint(1, 4); es = [Q.rany(t.rng, list(range(n))) for _ in range(3)]
            for _ in range(8):
                e = t.rng.choice(es); m = t.rng.randint(max(e.n_qubits, 1), 5); f = t.rng.choice([None] + FM); got = e.to_matrix(m, sparse=f); t.case(('again', repr(e), m, f)); want = Q.mat(e, list(range(m)))
                if not np.allclose(got if f is None else got.toarray(), want, atol=1e-12): t.fail('asked for several times: wrong %s matrix' % f, (repr(e), m)); break
                if f is None: got[:] = 9
                elif hasattr(got, 'data') and isinstance(got.data, np.ndarray) and got.data.dtype == complex: got.data[:] = 9
    t.guard('again', again)
    def refused():
        for e in (P.X[2], P.X[0] * P.Y[2], P.X[0] + P.Z[2], P.Z[1], .5 * P.Y[3], P.Z[0]):
            for n in range(e.n_qubits):
                for f in [None] + FM:
                    t.case(('refuse', repr(e), n, f))
                    try: e.to_matrix(n, sparse=f)
                    except Exception: pass
                    else: t.fail('n_qubits=%d is accepted' % n, (repr(e), n, f)); break
        for e in (P.X[0], P.X[0] * P.Y[1], P.X[0] + P.Y[1]):
            try: e.to_matrix(sparse='abc')
            except Exception: pass
            else: t.fail('unknown sparse format is accepted', repr(e))
    t.guard('refused', refused)
    def large():
        r = np.random.RandomState(t.seed)
        for n, k in ((7, 9), (8, 12), (9, 20), (10, 10), (9, 0)):
            for e in (Q.lterm(t.rng, n, k), P.Term(tuple(P.Y[q] for q in range(n)), .5j), P.Term((P.X[0], P.Y[n - 1]), 2.0), P.Term((P.Z[n // 2],), 1.0), P.Term((P.X[1], P.X[n - 1]), .1), P.Term((), 1 / 3), P.Term((P.X[0], P.Y[n - 1]), .1 + .7j), Q.lterm(t.rng, n, k) + Q.lterm(t.rng, n, 3) + P.Y[0] * P.Y[1], P.Expr(tuple(Q.lterm(t.rng, n, t.rng.randint(0, 6)) for _ in range(25)))):
                v = O.rstate(r, n); want = Q.act(e, v, n); inp = (n, repr(e)); t.case(inp)
                if not O.close(e.to_matrix(n) @ v, want, 1e-11): t.fail('wrong dense matrix', inp)
                for f in FM:
                    s = e.to_matrix(n, sparse=f)
                    if s.format != f or s.shape != (2 ** n, 2 ** n) or not O.close(s @ v, want, 1e-11): t.fail('wrong %s matrix' % f, inp)
        for n in (12, 14, 15):
            for e in (Q.lterm(t.rng, n, 12), Q.lterm(t.rng, n, 2) + P.Y[n - 1] * P.Z[0] + 3, P.Term(tuple(P.Y[q] for q in range(n)), 1.0)):
                v = O.rstate(r, n); want = Q.act(e, v, n); t.case((n, repr(e)))
                for f in ('csr', 'coo', 'csc'):
                    if not O.close(e.to_matrix(n, sparse=f) @ v, want, 1e-11): t.fail('wrong %s matrix' % f, (n, repr(e)))
    t.guard('large', large)
