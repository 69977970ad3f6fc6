"""texts of Pauli expressions and circuits are read back by Python; terms from characters"""
import numpy as np
import oracle as O
import blueqat
from blueqat import Circuit
from blueqat.experimental import Ops
from blueqat.pauli import X, Y, Z, I, Term, Expr, pauli_from_char, term_from_chars
import blueqat.gate as G
NS = dict(X=X, Y=Y, Z=Z, I=I, Circuit=Circuit, Ops=Ops)
P = {'X': np.array([[0, 1], [1, 0]], complex), 'Y': np.array([[0, -1j], [1j, 0]]), 'Z': np.diag([1, -1]).astype(complex), 'I': np.eye(2, dtype=complex)}
def mat(terms, n):
    m = np.zeros((2 ** n, 2 ** n), complex)
    for ops, c in terms:
        a = np.eye(2 ** n, dtype=complex)
        for o in ops: a = a @ np.kron(np.kron(np.eye(2 ** (n - 1 - o.n)), P[type(o).__name__[1]]), np.eye(2 ** o.n))
        m += c * a
    return m
def terms_of(e):
    if isinstance(e, Term): return [(e.ops, e.coeff)]
    if isinstance(e, Expr): return [(t.ops, t.coeff) for t in e.terms]
    return [((e,) if type(e).__name__ != '_I' else (), 1)]
def desc(c): return (c.n_qubits, [(type(x).__name__, x.targets, tuple(x.params)) for x in c.ops])
def rc(r):
    k = r.randrange(9)
    v = r.choice([1.5, 0.1, 1 / 3, 2.0, 1e-9, 1e22, 123456.789012345, 0.30000000000000004, r.random()]) * r.choice([1, -1])
    return (1, -1, 0, -1.0, v, v, complex(v, r.choice([0., -2., .7])), 1j * v, r.randint(-5, 5))[k]
def check(t):
    t.rule = 'texts of random operators, circuits and sequences evaluated again and compared; every word of up to four letters as a term'
    t.bounds = ['terms of at most 4 operators on 4 qubits, expressions of at most 4 terms, circuits of at most 4 operations']
    r = t.rng; ctor = {'X': X, 'Y': Y, 'Z': Z}
    def term(): return Term(tuple(ctor[r.choice('XYZ')](r.randrange(4)) for _ in range(r.randrange(5))), rc(r))
    def back(e, what):
        try: s = repr(e); v = eval(s, dict(NS))
        except Exception as ex: t.fail('%s cannot be read back: %s: %s' % (what, type(ex).__name__, ex), terms_of(e)); return
        t.case((what, s))
        if not np.allclose(mat(terms_of(v), 4), mat(terms_of(e), 4), rtol=1e-13, atol=0): t.fail('%s reads back as another operator: %s' % (what, s), terms_of(e))
        if str(e) != s: t.fail('str and repr differ: %s' % s, terms_of(e))
    for _ in range(1500 if t.thorough else 300):
        back(term(), 'term'); back(Expr(tuple(term() for _ in range(r.randrange(5)))), 'expression')
    back(Term(tuple(ctor['XYZ'[k % 3]](k % 4) for k in range(70)), .7), 'long term')
    back(Expr(tuple(Term((X(k % 4), Z(k * 7 % 4)), (k - 35) / 3) for k in range(70))), 'long expression')
    back(Expr((Term((X(0),), 1.), Term((X(0),), 1.), Term((), 1.), Term((), 2.))), 'expression with equal terms')
    for p in (X(0), Y[12 - 9], Z(3), I): back(p, 'operator')
    for p in (X(12345678901), Z(10), Y(101)):
        if eval(repr(p), dict(NS)) != p: t.fail('operator reads back as another one', repr(p))
    # characters
    import itertools
    words = [''.join(w) for k in range(5) for w in itertools.product('XYZI', repeat=k)] + ['x', 'i', 'Iz', 'xYi', 'iII', 'IIIIIIIIIIX', 'XIIIIIIIIIY', 'XYZXYZXYZXYZ']
    for w in words:
        for f, s in ((Term.from_chars, w), (term_from_chars, w[::-1])):
            for a in (s,) + ((list(s), tuple(s)) if len(w) == 3 else ()):
                try: e = f(a)
                except Exception as ex: t.fail('%s(%r) raised %s' % (f.__name__, a, type(ex).__name__), w); continue
                t.case((f.__name__, repr(a)))
                want = [(c.upper(), n) for n, c in enumerate(w) if c.upper() != 'I']
                if not isinstance(e, Term) or e.coeff != 1 or sorted((type(o).__name__[1], o.n) for o in e.ops) != sorted(want): t.fail('%s(%r) is %r' % (f.__name__, a, e), w)
    for w in ('A', 'XQ', 'Z ', '1', 'XY-', 'II0', 'Xa'):
        for f in (Term.from_chars, term_from_chars):
            try: e = f(w)
            except ValueError: continue
            except Exception as ex: t.fail('another character raises %s' % type(ex).__name__, w); continue
            t.fail('another character is accepted: %r' % (e,), w)
    for ch in 'XYZIxyzi':
        for n in (0, 3):
            p = pauli_from_char(ch, n)
            if type(p).__name__ != '_' + ch.upper() or ch not in 'Ii' and p.n != n: t.fail('pauli_from_char(%r, %r) is %r' % (ch, n, p), ch)
    # circuits
    for name, cls in blueqat.circuit.GATE_SET.items():
        if blueqat.circuit.GATE_SET.get(cls.lowername) is not cls: t.fail('%s is written as %s' % (name, cls.lowername), name)
    NAMES = [x for x in O.G if x in blueqat.circuit.GATE_SET]
    extra = [('rx', (-0.1,), (slice(None, None, -1), slice(1, None))), ('u3', (1e-17, 2, -3.25), slice(0, 3, 2)), ('h', (), (0, slice(-2, None), 2)), ('x', (), slice(2, 0, -1)), ('cx', (), (slice(0, 2), slice(2, 4))),
        ('z', (), slice(None, 2)), ('y', (), -1), ('m', (), slice(None)), ('h', (), (1,)), ('rz', (np.float64(.1),), 0), ('x', (), np.int64(2)), ('x', (), slice(np.int64(1), None))]
    for q in range(900 if t.thorough else 200):
        n = r.randint(3, 5); ops = []
        if q == 0: ops = [('x', (), 0), ('x', (), 0), ('h', (), 1), ('x', (), 0)]
        if q == 1: ops = [('rz', (k / 7,), k % 3) for k in range(130)]
        for _ in range(r.randint(1, 4)):
            o = r.choice(extra) if r.random() < .4 else O.rop(r, n, NAMES, simple=r.random() < .5) if r.random() < .9 else (r.choice(['m', 'reset']), (), r.randrange(n))
            if o[2] == (): continue
            if isinstance(o[2], tuple) and any(isinstance(y, tuple) for y in o[2]): continue
            ops.append(o)
        if not ops: continue
        try: c = O.build(Circuit, ops, n)
        except Exception: continue
        for c, what in ((c, 'circuit'), (None, 'sequence')):
            if c is None:
                if any(o[0] in ('rxx', 'ryy', 'rzz', 'cswap', 'ccz', 'reset') for o in ops): continue
                c = Ops(n)
                for g, ps, tg in ops:
                    w = getattr(c, g); c = (w(*ps) if ps else w)[tg]
            try: s = repr(c); v = eval(s, dict(NS))
            except Exception as ex: t.fail('%s cannot be read back: %s: %s' % (what, type(ex).__name__, ex), ops); continue
            t.case((what, s))
            d, e = desc(c), desc(v)
            norm = lambda d: (d[0], [(a, (b[0] if isinstance(b, tuple) and len(b) == 1 else b), tuple(float(x) for x in p)) for a, b, p in d[1]])
            if norm(d) != norm(e): t.fail('%s reads back as %s' % (s, e), ops)
    def hist():
        for _ in range(30):
            for c, ops, n in O.history(r, Circuit, 10, 5, NAMES):
                s = repr(c); t.case(('history', s))
                if not ops: continue
                if any(o[2] == () for o in ops): break
                d, e = desc(c), desc(eval(s, dict(NS)))
                if norm(d) != norm(e): t.fail('a circuit changed step by step: %s reads back as %s' % (s, e), ops); break
        base = Ops(2); a = base.x[0]; b = base.h[1]; t.case('shared start'); ra = repr(a); bb = a.cx[0, 1]
        if repr(a) != ra or desc(eval(repr(b), dict(NS)))[1] != desc(b)[1] or desc(eval(repr(bb), dict(NS)))[1] != desc(bb)[1]: t.fail('sequences that share a start', repr((a, b, bb)))
    norm = lambda d: (d[0], [(a, (b[0] if isinstance(b, tuple) and len(b) == 1 else b), tuple(float(x) for x in p)) for a, b, p in d[1]])
    t.guard('history', hist)
