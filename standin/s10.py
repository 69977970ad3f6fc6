import math, warnings, signal, time, numpy as np, sympy
import oracle as O
from blueqat import Circuit
def num(M, vals):
    D = {k: sympy.Dummy('v%d' % i, **k._assumptions.generator) for i, k in enumerate(vals)}; M = sympy.Matrix(M).xreplace(D); vals = {D[k]: v for k, v in vals.items()}
    ks = list(vals)
    try: return np.array(sympy.lambdify(ks, sympy.Matrix(M), 'numpy')(*[vals[k] for k in ks]), dtype=complex)
    except TypeError: pass
    try: return np.array(sympy.lambdify(ks, sympy.Matrix(M), 'mpmath')(*[vals[k] for k in ks]).tolist(), dtype=complex)
    except ZeroDivisionError: return np.full(np.array(M).shape, np.nan)
class Slow(BaseException): pass
def alarm(*a): raise Slow()
signal.signal(signal.SIGALRM, alarm)
def one(t, n, ops, vals):
    """symbolic algebra on unlucky numbers can take minutes: such a case is given up, not counted"""
    k = t.n
    if time.time() - T0[0] > (900 if t.thorough else 75): return
    signal.setitimer(signal.ITIMER_REAL, 3, .5)
    try: one_(t, n, ops, vals)
    except Slow: t.n = k
    finally: signal.setitimer(signal.ITIMER_REAL, 0)
T0 = [time.time()]
def one_(t, n, ops, vals):
    """ops may carry symbols; vals: symbol -> number"""
    inp = (n, ops, {str(k): v for k, v in vals.items()}); t.case((n, repr(ops), repr(vals)))
    c = O.build(Circuit, ops, n); before = repr(c)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        M = c.to_unitary()
        nonu = [o for o in ops if o[0] in ('m', 'measure', 'reset')]
    if nonu and len(w) < 1: t.fail('no warning for an ignored operation', inp)
    if repr(c) != before: t.fail('computing the unitary changed the circuit', inp)
    def f(x):
        if isinstance(x, sympy.Basic): return float(x.subs(vals))
        return x
    want = O.unitary([(g, tuple(f(p) for p in ps), tg) for g, ps, tg in ops if (g, ps, tg) not in nonu], n)
    got = num(M, vals)
    if got.shape != want.shape or not O.phase_close(got, want, 1e-7): t.fail('wrong matrix', inp); return
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        G = num(c.run(backend='sympy_unitary', ignore_global=True), vals)
    d = [i for i in range(2 ** n) if M[i, i] != 0]
    if d and abs(got[d[0], d[0]]) < 1e-9:   # an entry that is zero but is not written as 0: phase of zero
        if not np.all(np.isfinite(G)) or not O.phase_close(G, want, 1e-7): t.fail('phase taken from an entry that is zero', inp, 'phase-from-hidden-zero')
        return
    if not np.all(np.isfinite(G)):
        t.fail('dropping the global phase gives no matrix', inp); return
    if not O.phase_close(G, want, 1e-7): t.fail('dropping the global phase changed more than the phase', inp)
def check(t):
    t.rule = 'every gate, numeric and symbolic parameters, several targets; random circuits'
    t.bounds = ['at most 3 qubits and 5 operations (5 qubits, 60 operations for a few); symbols substituted by sampled values']
    S = sympy.symbols('a b c', real=True); names_sym = sympy.symbols('theta phi lambd', real=True); plain = sympy.symbols('theta phi lambd')
    names = [g for g in O.G if g != 'ccz']
    def generic(): return t.rng.uniform(.2, 1.3)
    def finding():
        one(t, 1, [('u2', (-0.7853981633974483, -4.534516052801305), 0), ('y', (), 0), ('u1', (5.497787143782138,), 0), ('ry', (-1.5707963267948966,), 0)], {})
    t.guard('finding', finding)
    def gates():
        for g in names:
            k, p, _ = O.G[g]
            for rep in range(3 if p else 2):
                n = min(3, k + rep)
                tg = tuple(t.rng.sample(range(n), k)); tg = tg[0] if k == 1 else tg
                one(t, n, [(g, tuple((O.rangle(t.rng) if rep else t.rng.randint(-9, 9) * math.pi / 6) for _ in range(p)), tg)], {})
            if p:
                for syms in (S, names_sym, names_sym[::-1], (plain[2], plain[0], plain[1])):
                    vals = {s: generic() for s in syms}
                    tg = tuple(t.rng.sample(range(k), k)); tg = tg[0] if k == 1 else tg
                    one(t, k, [(g, tuple(syms[:p]), tg)], vals)
                one(t, k, [(g, tuple([S[0] + S[1] / 3, 2 * S[0], S[1] - 1][:p]), tg)], {S[0]: generic(), S[1]: generic()})
            for ang in (O.ANGLES if p == 1 and k == 1 else []): one(t, 1, [(g, (ang,), 0)], {})
            if p: one(t, k, [(g, tuple([1, 2, 3][:p]), tg)], {}); one(t, k, [(g, tuple([np.float64(.25), .5, 1e-9][:p]), tg)], {})
    t.guard('gates', gates)
    def multi():
        for g in names:
            k, p, _ = O.G[g]
            ps = tuple(t.rng.randint(-11, 11) * math.pi / 6 for _ in range(p))
            if k == 1:
                for tg in (slice(None), (0, 0), (2, 0, 2), -1, (-1, slice(0, 2)), slice(None, None, -1)): one(t, 3, [(g, ps, tg)], {})
            if k == 1:
                for m in (3, 4, 5, 7): one(t, 2, [(g, ps, (0,) * m + (1,) * (m // 2))], {})
            if k == 2:
                for tg in ((-1, 0), (2, 0)) + (((slice(0, 2), slice(1, 3)), (slice(1, 3), slice(0, 2))) if g in ('cx', 'cz', 'swap', 'cy', 'crz', 'cry') else ()): one(t, 3, [(g, ps, tg)], {})
            if k == 3: one(t, 3, [(g, ps, (-1, 0, 1))], {})
    t.guard('several targets', multi)
    def large():
        """Clifford operations only: symbolic matrices stay small"""
        for n, d in ((4, 6), (5, 4), (2, 40), (1, 60), (3, 18)):
            ops = [(g, (), tuple(t.rng.sample(range(n), O.G[g][0]))) for g in (t.rng.choice([x for x in ('x', 'y', 'z', 's', 'sdg', 'cx', 'cz', 'h', 'swap', 'cy') if O.G[x][0] <= n]) for _ in range(d))]
            one(t, n, [(g, p, q if len(q) > 1 else q[0]) for g, p, q in ops], {})
        a = S[0]
        one(t, 4, [('rx', (a,), 3), ('cx', (), (3, 0)), ('rz', (a,), slice(None))], {a: generic()}); one(t, 1, [('rz', (a / 7,), 0)] * 12 + [('x', (), 0)], {a: generic()})
        one(t, 3, [('x', (), (0, 1, 2) * 5)], {}); one(t, 2, [('t', (), (0, 1) * 9), ('cx', (), (0, 1))], {})
    t.guard('large circuits', large)
    def hist():
        for k in range(5):
            for c, ops, n in O.history(t.rng, Circuit, 7, 3, ['x', 'y', 'z', 's', 'cx', 'cz', 'swap', 'cy', 'h', 't']):
                t.case(('history', n, repr(ops))); M = c.to_unitary()
                if not O.phase_close(num(M, {}), O.unitary(ops, n), 1e-7): t.fail('a circuit changed step by step: wrong matrix', (n, ops)); break
                try: M[0, 0] = 77
                except Exception: pass
                if not O.phase_close(num(c.to_unitary(), {}), O.unitary(ops, n), 1e-7): t.fail('the matrix returned is changed and asked for again: wrong matrix', (n, ops)); break
        # symbols that only look alike
        a, b = sympy.Symbol('a', real=True), sympy.Symbol('a'); w = {a: .4, b: 1.1}
        for g in ('rx', 'ry', 'rz', 'phase', 'u1', 'crz'):
            tg = 0 if O.G[g][0] == 1 else (0, 1)
            for x, y in ((a, b), (b, a)): one(t, 2, [('h', (), slice(None)), (g, (x,), tg), ('h', (), slice(None)), (g, (y,), tg)], w)
        for x, y in ((a, b), (b, a)): one(t, 1, [('u3', (x, y, x), 0), ('u2', (y, x), 0), ('u3', (y, x, y), 0)], w)
        for x in (.1, .1 + 1e-10, .1 + 2e-10, 1.1, 3, 3.0, np.float64(.1)): one(t, 1, [('rx', (x,), 0), ('u1', (x,), 0), ('ry', (-x,), 0)], {})
    t.guard('histories', hist)
    def rnd():
        for i in range(150 if t.thorough else 45):
            n = t.rng.randint(1, 3)
            ops = O.rcircuit(t.rng, n, t.rng.randint(1, 4), names, simple=bool(i % 2))
            vals = {}
            ops = [(g, tuple(x if t.rng.random() < .3 else t.rng.randint(-7, 7) * math.pi / 4 for x in ps), tg) for g, ps, tg in ops]
            if i % 3 == 0:
                s = S[0]; vals = {s: generic()}
                ops = [(g, tuple(s if t.rng.random() < .5 else x for x in ps), tg) for g, ps, tg in ops]
            one(t, n, ops, vals)
            if i % 4 == 0:
                ops = list(ops); ops.insert(t.rng.randint(0, len(ops)), (t.rng.choice(['m', 'reset']), (), t.rng.randrange(n))); one(t, n, ops, vals)
        one(t, 1, [], {}); one(t, 2, [], {})
    t.guard('random circuits', rnd)
    def native():
        """gates the backend has actions for, several on the same qubits"""
        from blueqat.backends.sympy_backend import SympyBackend
        nat = [g for g in names if hasattr(SympyBackend, 'gate_' + g)]
        two = [g for g in nat if O.G[g][0] == 2]
        def ps(g): return tuple(t.rng.randint(-5, 5) * math.pi / 3 for _ in range(O.G[g][1]))
        for g in two:
            for h in two:
                for a, b in (((0, 1), (0, 1)), ((0, 1), (1, 0)), ((2, 0), (0, 2))): one(t, max(a + b) + 1, [('h', (), slice(None)), (g, ps(g), a), ('rx', (math.pi / 6,), 0), (h, ps(h), b)], {})
        for g in nat:
            for h in nat:
                if t.rng.random() < (.5 if t.thorough else .15): one(t, 2, [(g, ps(g), 0 if O.G[g][0] == 1 else (0, 1)), (h, ps(h), 0 if O.G[h][0] == 1 else (1, 0))], {})
    t.guard('native gates', native)
