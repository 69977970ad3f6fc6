import numpy as np
import oracle as O, paulis as Q
from blueqat import pauli as P
QS = [0, 1, 3]
def check(t):
    t.rule = 'all pairs of single operators, random terms and expressions (dyadic coefficients, so equality is exact)'
    t.bounds = ['at most 3 distinct qubits, at most 5 operators per term (terms of 90 operators, 70 qubits, expressions of 60 terms for a few)']
    def same(a, b): return np.array_equal(Q.mat(a, QS), Q.mat(b, QS))
    def pair(a, b):
        inp = (repr(a), repr(b)); t.case(inp)
        e1, e2 = a == b, b == a
        if type(e1) is not bool and not isinstance(e1, np.bool_): t.fail('== is not a truth value: %r' % (e1,), inp)
        if e1 != e2: t.fail('== depends on the order', inp)
        if (a != b) == e1 or (b != a) == e2: t.fail('!= is not the negation of ==', inp)
        if e1 and not same(a, b): t.fail('equal but other matrix', inp)
        single = isinstance(a, P._PauliImpl) and isinstance(b, P._PauliImpl)
        if same(a, b) and not e1: t.fail('same matrix but not equal', inp)
        if e1:
            try: h = hash(a), hash(b)
            except TypeError: h = None
            # operators hash among themselves; see the statement: equal hashable ones
            if h and h[0] != h[1]: t.fail('equal with unequal hashes', inp)
        A, B = Q.mat(a, QS), Q.mat(b, QS); C = A @ B - B @ A
        c = P.commutator(a, b)
        if not np.allclose(Q.mat(c, QS), C, atol=1e-9): t.fail('wrong commutator %r' % (c,), inp)
        y = P.is_commutable(a, b)
        if bool(y) != bool(np.allclose(C, 0, atol=1e-9)): t.fail('commutation test says %r' % (y,), inp)
        if not isinstance(a, P._PauliImpl):
            if bool(a.is_commutable_with(b)) != bool(y): t.fail('is_commutable_with disagrees', inp)
            if not np.allclose(Q.mat(a.commutator(b), QS), C, atol=1e-9): t.fail('commutator method disagrees', inp)
        if (repr(a), repr(b)) != inp: t.fail('comparison changed an operand', inp)
    single = [P.I] + [k[q] for k in (P.X, P.Y, P.Z) for q in (0, 1)]
    def table():
        for a in single:
            for b in single:
                for x in (a, a.to_term(), a.to_expr()):
                    for y in (b, b.to_term(), b.to_expr()): pair(x, y)
                pair(a * b, b * a); pair(a * b, (b * a).simplify()); pair((a * b).simplify(), a * b); pair((a + b), (b + a)); pair(a * b, (a * b).to_expr())
    t.guard('single operators', table)
    def rnd():
        for _ in range(2500 if t.thorough else 700):
            a, b = Q.rany(t.rng, QS), Q.rany(t.rng, QS)
            pair(a, b); pair(a, a)
            if not isinstance(a, P._PauliImpl): pair(a, a.simplify()); pair(a.to_expr(), a)
            if isinstance(a, P.Expr) and a.terms:
                ts = list(a.terms); t.rng.shuffle(ts); pair(a, P.Expr(tuple(ts)))
                if len(a.terms) <= 4:
                    m = [Q.mat(x, QS) for x in a.terms]
                    want = all(np.allclose(x @ y, y @ x, atol=1e-9) for i, x in enumerate(m) for y in m[i + 1:])
                    if bool(a.is_all_terms_commutable()) != want: t.fail('is_all_terms_commutable is not %r' % want, repr(a))
            z = P.Term(tuple(Q.rterm(t.rng, QS).ops), 0); pair(z, P.Term((), 0)); pair(z, P.Expr(())); pair(z, a)
        # several terms failing to commute only in the last pair
        for tail in (P.X[1], P.Y[0], P.Z[1] * P.X[0]):
            e = P.Z[0] + P.Z[1] + P.Z[3] + tail
            m = [Q.mat(x, QS) for x in e.terms]
            want = all(np.allclose(x @ y, y @ x) for i, x in enumerate(m) for y in m[i + 1:])
            if bool(e.is_all_terms_commutable()) != want: t.fail('is_all_terms_commutable is not %r' % want, repr(e))
        # small operators that do not commute
        e1, e2 = .25 * P.X[0], .125 * P.Z[0]
        pair(e1, e2); pair(P.X[0] * P.X[1], P.Z[0] * P.Z[1]); pair(P.X[0] * P.Y[1] * P.Z[3], P.Y[0] * P.Z[1] * P.X[3])
    t.guard('random', rnd)
    def alike():
        ks = [-1, -2, 1, 1.0, 1 + 0j, 2, -2.0, 1j, -1j, 0.5, 2 ** -4, 2 ** 40]
        for _ in range(300):
            o = tuple(t.rng.choice([P.X, P.Y, P.Z])[q] for q in (t.rng.choice(QS) for _ in range(t.rng.randint(1, 3)))); o2 = tuple(t.rng.choice([P.X, P.Y, P.Z])[p.n] for p in o)
            a, b, c = P.Term(o, t.rng.choice(ks)), P.Term(o, t.rng.choice(ks)), P.Term(o2, t.rng.choice(ks))
            pair(a, b); pair(a, c); pair(P.Expr((a, c)), P.Expr((b, c))); pair(P.Expr((a, c)), P.Expr((c, a))); pair(a, P.Expr((b,)))
    t.guard('alike', alike)
    def numbers():
        # indices which are equal numbers of other integer types
        for op in (P.X, P.Y, P.Z):
            for n in QS[:4]:
                for m in [np.int64(n), np.int32(n), np.uint8(n)] + ([bool(n)] if n < 2 else []):
                    a, b = op(n), op(m); t.case(('integer types', repr(a), type(m).__name__))
                    if not (a == b and b == a) or hash(a) != hash(b): t.fail('equal operators: equal %r, hashes %r %r' % (a == b, hash(a), hash(b)), (repr(a), type(m).__name__))
                    pair(a, b); pair(a * P.X[1], b * P.X[1]); pair(P.Term((a, b), 2.0), P.Term((), 2.0)); pair(2 * a * P.Z[1] + b, 2 * b * P.Z[1] + a)
    t.guard('numbers', numbers)
    def other():
        for a in single + [P.X[0] * P.Y[1], 2 * P.X[0], P.X[0] + P.Y[1], P.Expr(()), P.Term((), 0.0), P.Term((), 1.0)]:
            for o in (None, 'X', 1, 0, 1.0, 2.5, 1j, 'X[0]', [], {}, object(), 'I', b'', int, True):
                t.case(('other', repr(a), repr(o)))
                try: r = (a == o, a != o, o == a, o != a)
                except Exception as e: t.fail('comparing raised %s: %s' % (type(e).__name__, e), (repr(a), repr(o))); continue
                if tuple(map(bool, r)) != (False, True, False, True): t.fail('comparison with something else gives %r' % (r,), (repr(a), repr(o)))
        for a in single:
            for b in single:
                if a == b and hash(a) != hash(b): t.fail('hash', (repr(a), repr(b)))
        d = {P.X[0]: 1, P.Y[0]: 2, P.I: 3}
        if d[P.X[0]] != 1 or d[P.Y(0)] != 2 or d[P.I] != 3 or P.X[1] in d: t.fail('operators as dictionary keys', repr(d))
    t.guard('other types', other)
    def large():
        def comm(a, b): return Q.nadd(Q.nmul(a, b), Q.nmul(b, a), -1)
        for n, k in ((10, 12), (40, 40), (6, 90), (70, 25)):
            for j in range(12):
                a = Q.lterm(t.rng, n, k)
                b = Q.lterm(t.rng, n, k) if j % 3 else P.Term(a.ops[:-1] + (t.rng.choice([P.X, P.Y, P.Z])[a.ops[-1].n],), a.coeff)     # equal but for the last operator
                A, B = Q.normal(a), Q.normal(b); C = comm(A, B); inp = (repr(a), repr(b)); t.case(inp)
                for x, y in ((a, b), (a.to_expr(), b), (a, b.to_expr())):
                    if (x == y) != Q.nsame(A, B) or (y == x) != (x == y) or (x != y) == (x == y): t.fail('comparison of large operators', inp)
                    if not Q.nsame(Q.normal(P.commutator(x, y)), C): t.fail('commutator of large operators', inp)
                    if bool(P.is_commutable(x, y)) != (not C): t.fail('commutation test of large operators', inp)
                ops = sorted(a.simplify().ops, key=lambda o: (t.rng.random(), o.n)); c = P.Term(tuple(ops), a.simplify().coeff)   # other order, same operator
                if not (c == a and a == c) or c != a: t.fail('large terms that are the same operator', (repr(a), repr(c)))
        for n, m in ((8, 30), (20, 60)):
            ts = [Q.lterm(t.rng, n, t.rng.randint(1, 6)) for _ in range(m)]; a = P.Expr(tuple(ts)); u = list(ts); t.rng.shuffle(u); b = P.Expr(tuple(u)); c = P.Expr(tuple(u[:-1]))
            t.case((n, m, repr(ts)))
            if not (a == b) or a != b or not (b == a): t.fail('expressions with the terms in another order', (repr(a), repr(b)))
            if (a == c) != Q.nsame(Q.normal(a), Q.normal(c)): t.fail('expressions that differ in one term', (repr(a), repr(c)))
            if not Q.nsame(Q.normal(P.commutator(a, c)), comm(Q.normal(a), Q.normal(c))): t.fail('commutator of large expressions', (n, m))
            z = [P.Term(tuple(P.Z[q] for q in t.rng.sample(range(n), 3)), .5) for _ in range(m)]
            for extra, want in (((), True), ((P.X[0] * P.X[1] * P.Z[2],), None)):
                e = P.Expr(tuple(z) + extra); w = all(not comm(Q.normal(x), Q.normal(y)) for i, x in enumerate(e.terms) for y in e.terms[i + 1:])
                if bool(e.is_all_terms_commutable()) != w: t.fail('is_all_terms_commutable of %d terms is not %r' % (len(e.terms), w), repr(e))
    t.guard('large operators', large)
