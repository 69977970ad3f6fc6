import numpy as np, operator
import oracle as O, paulis as Q
from blueqat import pauli as P
def near(a, b): return np.allclose(a, b, atol=1e-9, rtol=1e-9)
def canonical(t, s, inp):
    seen = set()
    for c, l in Q.terms(s):
        if c == 0: t.fail('simplified form has a zero term', inp)
        if any(ch == 'I' for ch, _ in l): t.fail('simplified form names I', inp)
        if any(a[1] >= b[1] for a, b in zip(l, l[1:])): t.fail('simplified form is not in order', inp)
        if tuple(l) in seen: t.fail('simplified form repeats a term', inp)
        seen.add(tuple(l))
def check(t):
    t.rule = 'all pairs of single operators; random terms and expressions under every operation; simplification'
    t.bounds = ['terms of at most 5 operators on at most 3 distinct qubits, expressions of at most 4 terms', 'a few terms of up to 200 operators on up to 300 qubits, expressions of up to 130 terms']
    QS = [0, 2, 5]
    def bin_(op, f, a, b, ex=None):
        ra, rb = repr(a), repr(b); inp = (op, ra, rb); t.case(inp)
        A = a * np.eye(8) if isinstance(a, (int, float, complex)) else Q.mat(a, QS)
        B = b * np.eye(8) if isinstance(b, (int, float, complex)) else Q.mat(b, QS)
        try: c = f(a, b)
        except Exception as e: t.fail('%s raised %s: %s' % (op, type(e).__name__, e), inp); return None
        want = A @ B if op == '*' else A / b if op == '/' else f(A, B)
        if not near(Q.mat(c, QS), want): t.fail('%s gives the wrong matrix: %r' % (op, c), inp)
        if repr(a) != ra or repr(b) != rb: t.fail('operand changed', inp)
        return c
    def simp(e):
        r = repr(e); inp = ('simplify', r); t.case(inp)
        s = e.simplify()
        if repr(e) != r: t.fail('simplify changed its object', inp)
        if not near(Q.mat(s, QS), Q.mat(e, QS)): t.fail('simplify changed the matrix: %r' % (s,), inp)
        if isinstance(s, P.Expr): canonical(t, s, inp)
        else:
            l = Q.terms(s)[0][1]
            if any(a[1] >= b[1] for a, b in zip(l, l[1:])) or any(ch == 'I' for ch, _ in l): t.fail('simplified term is not canonical: %r' % (s,), inp)
        if [(complex(c), l) for c, l in Q.terms(s.simplify())] != [(complex(c), l) for c, l in Q.terms(s)]: t.fail('simplify is not idempotent', inp)
        return s
    def table():
        single = [P.I] + [k[q] for k in (P.X, P.Y, P.Z) for q in (0, 2)]
        for a in single:
            for b in single:
                for op, f in (('*', operator.mul), ('+', operator.add), ('-', operator.sub)): 
                    c = bin_(op, f, a, b)
                    if c is not None: simp(c)
                for c in single:
                    T = a * b * c
                    if not near(Q.mat(T, QS), Q.mat(a, QS) @ Q.mat(b, QS) @ Q.mat(c, QS)): t.fail('product of three', (repr(a), repr(b), repr(c)))
                    simp(T); simp(T.to_expr())
            if not near(Q.mat(-a, QS), -Q.mat(a, QS)): t.fail('negation', repr(a))
            for x in (2, -1.5, 1j, 3 - 2j, 0):
                bin_('*', operator.mul, a, x); bin_('*', operator.mul, x, a); bin_('+', operator.add, a, x); bin_('+', operator.add, x, a)
                bin_('-', operator.sub, a, x); bin_('-', operator.sub, x, a)
                if x: bin_('/', operator.truediv, a, x)
    t.guard('single operators', table)
    def scales():
        """coefficients of very different size: nothing is negligible"""
        ops = [(), (P.X[0],), (P.Z[1],), (P.X[0], P.Y[2]), (P.Y[0], P.Z[1], P.X[3]), (P.Z[4],)]
        CO = [2.0 ** -40, -2.0 ** -33, 1.0, 3.0, 2.0 ** 20, 1j * 2.0 ** -36, 2.0 ** -100, 2.0 ** 90, 1 + 2.0 ** -60 * 1j, -4 + 2.0 ** -49 * 1j, 1j + 2.0 ** -58]
        def d(e): return {tuple(l): complex(c) for c, l in Q.terms(e)}
        for _ in range(150):
            w = {}
            for o in t.rng.sample(ops, t.rng.randint(1, 6)): w[o] = t.rng.choice(CO)
            e = P.Expr(tuple(P.Term(o, c) for o, c in w.items())); inp = ('sizes', repr(e)); t.case(inp)
            want = {tuple((p.op, p.n) for p in o): complex(c) for o, c in w.items()}
            x = t.rng.choice([2.0 ** -50, -1, 2.0 ** 60, 0.5j])
            for nm, f, k in (('simplify', lambda: e.simplify(), 1), ('negation', lambda: -e, -1), ('times a number', lambda: e * x, x), ('number times', lambda: x * e, x), ('division', lambda: e / x, 1 / x), ('sum with zero', lambda: e + 0, 1), ('doubling', lambda: e + e, 2), ('difference', lambda: 3 * e - e, 2), ('square root of one', lambda: e * P.I, 1), ('power', lambda: e ** 1, 1)):
                r = d(f()); 
                if {a: b for a, b in r.items() if b} != {a: b * k for a, b in want.items()}: t.fail('%s: %r' % (nm, r), inp)
            for z in (-1 + 2.0 ** -50 * 1j, 1 - 2.0 ** -60 * 1j, 2.0 ** -55 - 1j, -2.0 ** -45 - 2.0 ** -90 * 1j, 2.0 ** -80):
                for nm, r in (('times a number', e * z), ('number times', z * e)):
                    if d(r) != {a: b * z for a, b in want.items()}: t.fail('%s: %r' % (nm, r), (inp, str(z)))
                for b in (P.X[0], P.I, P.X[0] * P.Z[1]):
                    if {k: complex(v) for k, v in d(b * z).items()} != {k: complex(v) * z for k, v in d(b + 0).items()} or d(z * b) != d(b * z): t.fail('an operator times a number: %r' % (b * z,), (repr(b), str(z)))
            y = P.X[6] * t.rng.choice(CO)
            r = d((e * y).simplify()); cy = complex(y.coeff)
            if r != {a + (('X', 6),): b * cy for a, b in want.items()}: t.fail('product with a term: %r' % (r,), inp)
            r = d(e * (y + 0))
            if r != {a + (('X', 6),): b * cy for a, b in want.items()}: t.fail('product with an expression: %r' % (r,), inp)
    t.guard('sizes of coefficients', scales)
    def alike():
        """operands that are easily mistaken for one another, again and again"""
        ks = [-1, -2, 1, 1.0, True, 1 + 0j, 2, -2.0, 1j, -1j, 0.5, 0, 0.0, -0.0, 2 ** 61 - 1, 1 + 2 ** -40]
        for _ in range(400):
            o = tuple(t.rng.choice([P.X, P.Y, P.Z])[q] for q in (t.rng.choice(QS) for _ in range(t.rng.randint(0, 3)))); k = t.rng.choice(ks); j = t.rng.choice(ks)
            a, b = P.Term(o, k), P.Term(o, j)
            for x in (a, b, P.Expr((a, b)), P.Expr((a,)), P.Expr((b, a)), P.Expr((a, a))):
                t.case(('alike', repr(x))); s = x.simplify(); n = Q.normal(s); w = Q.normal(x)
                if not Q.nsame(n, w): t.fail('simplify: %r' % (s,), repr(x))
            for nm, f, w in (('*', a * b, Q.nmul(Q.normal(a), Q.normal(b))), ('+', a + b, Q.nadd(Q.normal(a), Q.normal(b))), ('-', a - b, Q.nadd(Q.normal(a), Q.normal(b), -1)), ('number', a * j, Q.normal(P.Term(o, k * j)))):
                if not Q.nsame(Q.normal(f), w): t.fail('%s: %r' % (nm, f), (repr(a), repr(b)))
        # a result taken apart and used on
        x = P.X[0] * P.Y[2] + 2 * P.Z[5]; y = x
        for k in range(30):
            z = (y * P.X[5] + k) .simplify(); w = Q.nadd(Q.nmul(Q.normal(y), Q.normal(P.X[5])), {(): k} if k else {}); t.case(('chain', k))
            if not Q.nsame(Q.normal(z), {a: b for a, b in w.items() if b}): t.fail('chain of operations', (k, repr(y))); break
            y = z if k % 3 else x
    t.guard('alike', alike)
    def rnd():
        for _ in range(4000 if t.thorough else 900):
            a, b = Q.rany(t.rng, QS), Q.rany(t.rng, QS)
            for op, f in (('*', operator.mul), ('+', operator.add), ('-', operator.sub)):
                c = bin_(op, f, a, b)
                if c is not None: simp(c)
            x = Q.rnum(t.rng)
            for op, f in (('*', operator.mul), ('+', operator.add), ('-', operator.sub)): bin_(op, f, a, x); bin_(op, f, x, a)
            bin_('/', operator.truediv, a, x)
            bin_('*', operator.mul, a, 0); bin_('+', operator.add, a, 0)
            if not near(Q.mat(-a, QS), -Q.mat(a, QS)): t.fail('negation', repr(a))
            if not isinstance(a, P._PauliImpl):
                k = t.rng.randint(0, 4); ra = repr(a)
                if not near(Q.mat(a ** k, QS), np.linalg.matrix_power(Q.mat(a, QS), k)): t.fail('power', (ra, k))
                if repr(a) != ra: t.fail('operand changed', ra)
                simp(a); simp(a ** k)
            if not near(Q.mat(a.to_expr(), QS), Q.mat(a, QS)): t.fail('to_expr', repr(a))
        for bad in (lambda: P.X[0] / 0, lambda: (P.X[0] * P.Y[1]) / 0, lambda: (P.X[0] + P.Y[1]) / 0):
            try: bad()
            except ZeroDivisionError: pass
            else: t.fail('division by zero is accepted', 'x / 0')
        for bad in (lambda: (P.X[0] * P.Y[1]) ** -1, lambda: (P.X[0] + P.Y[1]) ** -1):
            try: bad()
            except ValueError: pass
            else: t.fail('negative power is accepted', 'x ** -1')
    t.guard('random', rnd)
    def canon():
        for _ in range(600):
            e = Q.rexpr(t.rng, QS, k=t.rng.randint(1, 5))
            ts = list(e.terms); t.rng.shuffle(ts)
            # same operator written differently: order, split coefficients, added cancelling terms
            out = []
            for x in ts:
                if t.rng.random() < .4: out += [P.Term(x.ops, x.coeff / 2), P.Term(x.ops, x.coeff / 2)]
                else: out.append(x)
            y = Q.rterm(t.rng, QS); out.insert(t.rng.randint(0, len(out)), y); out.insert(t.rng.randint(0, len(out)), P.Term(y.ops, -y.coeff))
            a, b = simp(e), simp(P.Expr(tuple(out)))
            t.case(('canonical', repr(e), repr(out)))
            if sorted(map(repr, ((o, complex(c)) for c, o in Q.terms(a)))) != sorted(map(repr, ((o, complex(c)) for c, o in Q.terms(b)))):
                t.fail('two forms of one operator simplify differently: %r / %r' % (a, b), (repr(e), repr(out)))
    t.guard('canonical form', canon)
    def chars():
        for _ in range(60):
            s = ''.join(t.rng.choice('IXYZ') for _ in range(t.rng.randint(1, 5)))
            w = np.array([[1]])
            for ch in s: w = np.kron(w, Q.M1[ch])
            if not near(Q.mat(P.term_from_chars(s), list(range(len(s)))), w): t.fail('term_from_chars', s)
            if not near(Q.mat(P.Term.from_chars(s[::-1]), list(range(len(s)))), w): t.fail('Term.from_chars', s)
        for e in (P.qubo_bit(1),):
            if not near(Q.mat(e, [0, 1]), np.diag([0, 0, 1, 1])): t.fail('qubo_bit', repr(e))
    t.guard('from characters', chars)
    def large():
        def ok(what, c, want, inp):
            t.case((what, inp))
            if not Q.nsame(Q.normal(c), want): t.fail('%s of large operators' % what, inp)
        for n, k in ((12, 40), (30, 90), (5, 200), (300, 60), (60, 60)):
            for _ in range(3):
                a, b = Q.lterm(t.rng, n, k), Q.lterm(t.rng, n, k); A, B = Q.normal(a), Q.normal(b); inp = (n, k, repr(a), repr(b))
                ok('product', a * b, Q.nmul(A, B), inp); ok('sum', a + b, Q.nadd(A, B), inp); ok('difference', a - b, Q.nadd(A, B, -1), inp)
                ok('times an operator', a * P.Y[n // 2], Q.nmul(A, Q.normal(P.Y[n // 2])), inp); ok('operator times', P.Y[n // 2] * a, Q.nmul(Q.normal(P.Y[n // 2]), A), inp)
                for e in (a, a + b, a * b, a * b + b * a): canon_(e, simp_(ok, e, inp), inp)
        for n, m in ((6, 40), (25, 70), (4, 130)):
            a = P.Expr(tuple(Q.lterm(t.rng, n, t.rng.randint(0, 7)) for _ in range(m))); b = P.Expr(tuple(Q.lterm(t.rng, n, t.rng.randint(0, 7)) for _ in range(m // 2)))
            A, B = Q.normal(a), Q.normal(b); inp = (n, m, repr(a), repr(b))
            ok('product', a * b, Q.nmul(A, B), inp); ok('sum', a + b, Q.nadd(A, B), inp); ok('difference', a - b, Q.nadd(A, B, -1), inp); ok('negation', -a, Q.nadd({}, A, -1), inp)
            ok('division', a / 4, {w: c / 4 for w, c in A.items()}, inp); x = Q.lterm(t.rng, n, 9); ok('product with a term', b * x, Q.nmul(B, Q.normal(x)), inp); ok('product with a term', x * b, Q.nmul(Q.normal(x), B), inp)
            for e in (a, b, a + b): canon_(e, simp_(ok, e, inp), inp)
        for k in (7, 16, 33):
            x = P.X[0] * P.Y[1] + .5 * P.Z[0] * P.X[2] if k < 10 else P.Z[0] * P.Y[3] * 1j; W = Q.normal(P.I + 0)
            for _ in range(k): W = Q.nmul(W, Q.normal(x))
            ok('power', x ** k, W, (repr(x), k))
        s = ''.join(t.rng.choice('IXYZ') for _ in range(120)); W = {Q.word([(c, i) for i, c in enumerate(s)])[1]: 1}
        ok('from_chars', P.Term.from_chars(s), W, s); ok('term_from_chars', P.term_from_chars(s[::-1]), W, s)
    def simp_(ok, e, inp):
        s = e.simplify(); ok('simplify', s, Q.normal(e), inp); return s
    def canon_(e, s, inp):
        if isinstance(s, P.Expr): canonical(t, s, inp)
    t.guard('large operators', large)
