import itertools, numpy as np, sympy
import oracle as O, paulis as Q
from blueqat import wq, pauli as P
def xs(n): return list(itertools.product((0, 1), repeat=n))
def en(q, x): return sum(q[i][j] * x[i] * x[j] for i in range(len(x)) for j in range(len(x)))
def rq(rng, n, upper): return [[0.0 if (upper and j < i) or rng.random() < .2 else rng.choice([1, -1, .5, 2.5, -3.25, 7]) for j in range(n)] for i in range(n)]
def check(t):
    t.rule = 'random QUBO matrices and polynomials, energies compared on every assignment'
    t.bounds = ['at most 5 variables, degree at most 5 (40 variables, sampled assignments, for a few)']
    def paul():
        for _ in range(150):
            n = t.rng.randint(1, 4); q = rq(t.rng, n, t.rng.random() < .5); m = np.array(q) if t.rng.random() < .5 else q
            r = repr(m); t.case(('pauli', r))
            D = Q.mat(wq.pauli(m), list(range(n)))
            if not np.allclose(D, np.diag([en(q, [k >> i & 1 for i in range(n)]) for k in range(2 ** n)])): t.fail('pauli() has other energies', r)
            if repr(m) != r: t.fail('the problem changed', r)
    t.guard('pauli', paul)
    def ising():
        for _ in range(150):
            n = t.rng.randint(1, 5); q = rq(t.rng, n, True); o = wq.Opt(); o.qubo = np.array(q) if t.rng.random() < .5 else [list(r) for r in q]
            r = repr(o.qubo); t.case(('qi', r)); o.qi(); J = np.array(o.J)
            if repr(o.qubo) != r: t.fail('the problem changed', r)
            for x in xs(n):
                s = [2 * v - 1 for v in x]
                e = sum(J[i][i] * s[i] for i in range(n)) + sum(J[i][j] * s[i] * s[j] for i in range(n) for j in range(i + 1, n)) + o.ep
                if abs(e - en(q, x)) > 1e-9: t.fail('Ising energy %r, not %r, of %r' % (e, en(q, x), x), r); break
                if abs(wq.Ei(np.array(s), J) + o.ep - en(q, x)) > 1e-9: t.fail('Ei', r); break
            R = o.reJ()
            if not np.allclose(R, R.T) or not np.allclose(np.triu(R), J): t.fail('reJ', r)
    t.guard('qi', ising)
    def rpoly(n, deg, powers, const=True, full=True):
        qs = sympy.symbols(' '.join('q%d' % i for i in range(n)) + ' ') if n > 1 else (sympy.Symbol('q0'),)
        e = sympy.Integer(0)
        for _ in range(t.rng.randint(2, 6)):
            k = t.rng.randint(0 if const else 1, deg)
            m = t.rng.choice([1, -1, 2, 3, -2.5, .5, 1])
            for s in (t.rng.choices(qs, k=k) if powers else t.rng.sample(qs, min(k, n))): m = m * s
            e += m
        if full: e += sum(t.rng.choice([1, 2, -3, 1.5]) * s for s in qs)
        return sympy.expand(e), qs
    def val(e, qs, x): return float(e.subs(dict(zip(qs, x)))) if hasattr(e, 'subs') else float(e)
    def mats():
        for _ in range(150 if t.thorough else 60):
            n = t.rng.randint(2, 4)
            e, qs = rpoly(n, 2, True)
            if set(e.free_symbols) != set(qs): continue
            t.case(('matrix', str(e)))
            o = wq.Opt(); c0 = val(e, qs, [0] * n)
            for name, M in (('qubo_to_matrix', o.qubo_to_matrix(str(e) if t.rng.random() < .5 else e)), ('add', wq.Opt().add(str(e)).qubo)):
                if np.shape(M) != (n, n): t.fail('%s has shape %r' % (name, np.shape(M)), str(e)); continue
                if any(abs(en(M, x) + c0 - val(e, qs, x)) > 1e-9 for x in xs(n)): t.fail('%s has other energies: %r' % (name, np.array(M).tolist()), str(e))
            x2 = wq.optx(e)
            free = sorted(x2.free_symbols, key=str); 
            if any(abs(val(x2, [sympy.Symbol(s.name) for s in qs], x) - val(e, qs, x)) > 1e-9 for x in xs(n)): t.fail('optx has other energies: %s' % x2, str(e))
            f = o.expand_qubo(e)
            if any(abs(val(f, qs, x) - val(e, qs, x)) > 1e-9 for x in xs(n)): t.fail('expand_qubo has other energies: %s' % f, str(e))
            # multilinear polynomial
            e, qs = rpoly(n, 2, False)
            if not isinstance(e, sympy.Add): continue
            t.case(('qn', str(e))); M = wq.qn_to_qubo(e); k = len(M); c0 = val(e, qs, [0] * n)
            if any(abs(en(M, x[:k]) + c0 - val(e, qs, x)) > 1e-9 for x in xs(n)): t.fail('qn_to_qubo has other energies: %r' % (M,), str(e))
        # coefficients of many digits and of very different size
        for _ in range(25):
            n = t.rng.randint(2, 4); qs = wq.make_qs(n); ks = lambda: t.rng.choice([t.rng.uniform(-1, 1), 1e-10 * t.rng.uniform(1, 2), 1e9 * t.rng.uniform(1, 2), t.rng.uniform(-1, 1) * 1e-5])
            e = sum(ks() * q for q in qs) + sum(ks() * qs[i] * qs[j] for i in range(n) for j in range(i) if t.rng.random() < .7); t.case(('digits', str(e)))
            want = [[0.] * n for _ in range(n)]
            for tm in sympy.Add.make_args(e):
                k, v = tm.as_coeff_Mul(); ix = sorted(int(str(x)[1:]) for x in v.free_symbols); want[ix[0]][ix[-1]] = float(k)
            for nm, M in (('qn_to_qubo', wq.qn_to_qubo(e)), ('qubo_to_matrix', wq.Opt().qubo_to_matrix(e))):
                if np.shape(M) != (n, n) or any(abs(M[i][j] - want[i][j]) > 1e-12 * abs(want[i][j]) for i in range(n) for j in range(n)): t.fail('%s has other coefficients: %r' % (nm, np.array(M).tolist()), str(e)); break
            P = wq.pauli(want); M = np.diag(P.to_matrix(n)).real; tot = np.abs(want).sum()
            if any(abs(M[b] - en(want, [b >> i & 1 for i in range(n)])) > 1e-9 * tot for b in range(2 ** n)): t.fail('pauli has other energies', repr(want)); break
        for s in ('q0+q1**2', 'q1**2+q0*q1+3*q0', '2*q0**2*q1-q1**3+q0', 'q0*q1+q1', '(q0+q1-1)**2', '(q0+2*q1+q2-2)**2', '(q0-1)*(q1-1)', 'q1-q0+q0*q1**2', 'q0+q1*q2**2+q2', '(1-q0)**2+q1**3*q2**3'):
            e = sympy.sympify(s); qs = sorted(e.free_symbols, key=lambda v: int(v.name[1:])); n = len(qs); t.case(('fixed', s))
            M = wq.Opt().add(s).qubo; c0 = val(e, qs, [0] * n)
            if any(abs(en(M, x) + c0 - val(e, qs, x)) > 1e-9 for x in xs(n)): t.fail('add(%r) has other energies: %r' % (s, np.array(M).tolist()), s)
        for s in ('q0+q2', 'q1*q3+q3'):   # variables left out
            e = sympy.sympify(s); t.case(('fixed', s)); M = wq.Opt().qubo_to_matrix(e); n = len(M)
            qs = sympy.symbols(' '.join('q%d' % i for i in range(n)))
            if any(abs(en(M, x) - val(e, qs, x)) > 1e-9 for x in xs(n)): t.fail('qubo_to_matrix has other energies: %r' % np.array(M).tolist(), s)
    t.guard('polynomials', mats)
    def qs_():
        if [str(s) for s in wq.make_qs(3)] != ['q0', 'q1', 'q2'] or [str(s) for s in wq.make_qs(1)] != ['q0'] or [str(s) for s in wq.make_qs(2, 5)] != ['q2', 'q3', 'q4'] or [str(s) for s in wq.make_qs(4, 5)] != ['q4']: t.fail('make_qs', 'make_qs')
    t.guard('make_qs', qs_)
    def nbody():
        for _ in range(250 if t.thorough else 80):
            n = t.rng.randint(3, 5); e, qs = rpoly(n, 5, False, full=t.rng.random() < .5)
            if not isinstance(e, sympy.Add): continue
            t.case(('nbody', str(e))); aux = sympy.symbols(' '.join('z%d' % i for i in range(40)))
            if t.rng.random() < .3: aux = wq.make_qs(n, n + 40)
            s0 = str(e)
            new, con, mp = wq.nbody_separation(e, aux)
            if str(e) != s0: t.fail('the problem changed', s0)
            if any(len(a.free_symbols) > 2 for a in sympy.Add.make_args(sympy.expand(new))): t.fail('more than two variables in a term: %s' % new, s0)
            used = sorted(mp.values(), key=str); names = {str(s): s for s in list(qs) + list(aux)}
            if len(set(used)) != len(used) or set(used) & set(qs): t.fail('added variables %r' % (mp,), s0); continue
            if (set(sympy.sympify(new).free_symbols) | set(sympy.sympify(con).free_symbols)) - set(qs) - set(used): t.fail('variables without meaning in %s' % new, s0)
            fn = sympy.lambdify(list(qs) + used, [sympy.sympify(new), sympy.sympify(con), e])
            bad = False
            for x in xs(n):
                env = dict(zip(qs, x)); todo = dict(mp)
                for _ in range(len(mp) + 1):
                    for (a, b), v in list(todo.items()):
                        if names[a] in env and names[b] in env: env[v] = env[names[a]] * env[names[b]]; del todo[(a, b)]
                if todo: t.fail('variables defined in a circle', s0); bad = True; break
                a, c, w = fn(*[env[s] for s in list(qs) + used])
                if abs(a - w) > 1e-9 or abs(c) > 1e-9: t.fail('differs at %r' % (env,), s0); bad = True; break
            if bad or len(used) > 6: continue
            for x in xs(n):
                for y in xs(len(used)):
                    env = dict(zip(list(qs) + used, x + y))
                    ok = all(env[v] == env[names[a]] * env[names[b]] for (a, b), v in mp.items())
                    c = fn(*(x + y))[1]
                    if (c < 1e-9) != ok or c < -1e-9: t.fail('penalty %r at %r' % (c, env), s0); bad = True; break
                if bad: break
    t.guard('nbody', nbody)
    def few():
        qs = wq.make_qs(7); q = qs
        for e in (q[0]*q[1]*q[2] + q[3]*q[4]*q[5], q[0]*q[1]*q[2]*q[3]*q[4]*q[5] + q[6], q[0]*q[1]*q[2] + q[3]*q[1]*q[4] - 2*q[5]*q[6]*q[2]):
            for k in (0, 1, 2, 3):
                aux = sympy.symbols('z0:%d' % k) if k else (); t.case(('too few', str(e), k))
                try: new, con, mp = wq.nbody_separation(e, aux)
                except Exception: continue
                if len(set(mp.values())) != len(mp) or any(len(x.free_symbols) > 2 for x in sympy.Add.make_args(sympy.expand(new))): t.fail('too few variables to add: %r' % (mp,), str(e))
        for _ in range(3):      # the same problem again, and others in between, with other variables to add
            for e in (q[0]*q[1]*q[2] + q[3], q[0]*q[1]*q[2]*q[3] - q[1]*q[2]*q[4] + q[5]):
                aux = sympy.symbols(t.rng.choice('abc') + '0:9'); new, con, mp = wq.nbody_separation(e, aux); t.case(('again', str(e)))
                if not set(mp.values()) <= set(aux) or (sympy.sympify(new).free_symbols | sympy.sympify(con).free_symbols) - set(qs) - set(mp.values()) or not mp: t.fail('variables of another call: %r' % (mp,), str(e))
                back = {v: sympy.Symbol(a) * sympy.Symbol(b) for (a, b), v in mp.items()}; x = new
                for _ in range(6): x = sympy.expand(x.subs(back))
                if sympy.expand(x - e) != 0: t.fail('not the polynomial: %s' % new, str(e))
    t.guard('few', few)
    def again():
        for _ in range(40):
            n = t.rng.randint(1, 4); o = wq.Opt(); o.qubo = rq(t.rng, n, True); t.case(('again', repr(o.qubo)))
            for k in range(4):
                o.qi(); q = [[float(v) for v in r] for r in o.qubo]; J = np.array(o.J)
                if any(abs(wq.Ei(np.array([2 * v - 1 for v in x]), J) + o.ep - en(q, x)) > 1e-9 for x in xs(n)): t.fail('qi() of a changed problem', repr(q)); break
                R = o.reJ()
                if not np.allclose(R, R.T) or not np.allclose(np.triu(R), J): t.fail('reJ() of a changed problem', repr(q)); break
                how = t.rng.randrange(4); i = t.rng.randrange(n); j = t.rng.randrange(i, n)
                if how == 0: o.qubo[i][j] += 1.5
                elif how == 1: o.add(rq(t.rng, n, True), .5)
                elif how == 2: o.qubo = rq(t.rng, n, True)
                else: n = t.rng.randint(1, 4); o.qubo = rq(t.rng, n, True)
            o = wq.Opt(); a = np.array(rq(t.rng, n, True)); o.add(a); q = np.array(o.qubo); a[0][0] += 5; b = np.array(rq(t.rng, n, True)); o.add(b); q = q + b; b[0][0] -= 3
            if not np.allclose(o.qubo, q): t.fail('a matrix changed after it was added changes the problem', repr(q.tolist()))
            m = rq(t.rng, n, False)
            for _ in range(3):
                D = Q.mat(wq.pauli(m), list(range(n)))
                if not np.allclose(D, np.diag([en(m, [k >> i & 1 for i in range(n)]) for k in range(2 ** n)])): t.fail('pauli() of a changed matrix', repr(m)); break
                m[t.rng.randrange(n)][t.rng.randrange(n)] += 2
    t.guard('again', again)
    def add():
        for _ in range(60):
            n = t.rng.randint(1, 4); a, b = rq(t.rng, n, False), rq(t.rng, n, False); w = t.rng.choice([1, 2, -1.5, .25])
            o = wq.Opt(); ra, rb = repr(a), repr(b); t.case(('add', ra, rb, w))
            o.add(a); 
            if not np.allclose(o.qubo, a): t.fail('first problem', ra)
            o.add(b, w) if t.rng.random() < .5 else o.add(b, M=w)
            if not np.allclose(o.qubo, np.array(a) + w * np.array(b)): t.fail('sum with weight', (ra, rb, w))
            o.add(np.array(a), -1)
            if not np.allclose(o.qubo, w * np.array(b)): t.fail('sum with weight', (ra, rb, w))
            if repr(a) != ra or repr(b) != rb: t.fail('the argument changed', (ra, rb))
            o2 = wq.Opt().add(b, w)
            if not np.allclose(o2.qubo, w * np.array(b)): t.fail('weight of the first problem', (rb, w))
        o = wq.Opt().add([[1, 0], [0, 1]]).add('(q0+q1-1)**2', 3); t.case('add text')
        if any(abs(en(o.qubo, x) + 3 - (x[0] + x[1] + 3 * (x[0] + x[1] - 1) ** 2)) > 1e-9 for x in xs(2)): t.fail('adding text with weight', np.array(o.qubo).tolist())
    t.guard('add', add)
    def large():
        def smp(n, k=40): return [[t.rng.randint(0, 1) for _ in range(n)] for _ in range(k)] + [[1] * n, [0] * n]
        for n in (8, 13, 25, 40):
            q = rq(t.rng, n, True); o = wq.Opt(); o.qubo = q; o.qi(); J = np.array(o.J); t.case(('qi', n, repr(q)))
            if n <= 9:
                D = wq.pauli(q).to_matrix(n)
                if not np.allclose(D, np.diag([en(q, [k >> i & 1 for i in range(n)]) for k in range(2 ** n)])): t.fail('pauli() has other energies', repr(q))
            for x in smp(n):
                s = np.array([2 * v - 1 for v in x])
                if abs(wq.Ei(s, J) + o.ep - en(q, x)) > 1e-6 or abs(s @ np.triu(J, 1) @ s + np.diag(J) @ s + o.ep - en(q, x)) > 1e-6: t.fail('Ising energy', repr(q)); break
            R = o.reJ()
            if not np.allclose(R, R.T) or not np.allclose(np.triu(R), J): t.fail('reJ', repr(q))
            a, b = rq(t.rng, n, False), rq(t.rng, n, False); o = wq.Opt().add(a).add(b, 2.5).add(a, -3); t.case(('add', n))
            if not np.allclose(o.qubo, 2.5 * np.array(b) - 2 * np.array(a)): t.fail('sum with weight', n)
        def value(e, qs, pts): f = sympy.lambdify(qs, e); return [f(*x) for x in pts]
        for n, m in ((11, 30), (13, 60), (15, 20)):
            qs = wq.make_qs(n); pts = smp(n); pts[-1] = [0] * n
            if [s.name for s in qs] != ['q%d' % k for k in range(n)]: t.fail('make_qs', n)
            lin = sum((k % 5 + 1) * s for k, s in enumerate(qs)); quad = sum(t.rng.choice([1, -1, 2.5, 3, -2]) * qs[a] * qs[b] for a, b in (t.rng.sample(range(n), 2) for _ in range(m)))
            e = sympy.expand(lin + quad + 7); v = value(e, qs, pts); t.case(('large', n, str(e)))
            M = wq.qn_to_qubo(e)
            if any(abs(en(M, x) + 7 - w) > 1e-6 for x, w in zip(pts, v)): t.fail('qn_to_qubo has other energies', str(e))
            p = sympy.expand(e + sum(qs[k] ** 2 * 2 - qs[k] ** 3 for k in range(0, n, 3)) + qs[1] ** 2 * qs[n - 1] ** 4); v = value(p, qs, pts)
            for name, M in (('qubo_to_matrix', wq.Opt().qubo_to_matrix(p)), ('add', wq.Opt().add(str(p)).qubo)):
                if any(abs(en(M, x) + 7 - w) > 1e-6 for x, w in zip(pts, v)): t.fail('%s has other energies' % name, str(p))
            s = wq.optx(sympy.expand(lin * lin + quad))
            if any(abs(a - b) > 1e-6 for a, b in zip(value(s, [sympy.Symbol(x.name) for x in qs], pts), value(lin * lin + quad, qs, pts))): t.fail('optx has other energies', str(s))
        for n, m, d in [(8, 14, 8), (12, 10, 11), (6, 25, 6)] + [(t.rng.randint(5, 10), t.rng.randint(4, 18), t.rng.randint(3, 6)) for _ in range(60 if t.thorough else 20)]:
            qs = wq.make_qs(n); e = sympy.expand(sum(t.rng.choice([1, -2, 3.5]) * sympy.prod(t.rng.sample(qs, t.rng.randint(1, d))) for _ in range(m)) + 4 * qs[0] - 5); aux = wq.make_qs(n, n + 400); t.case(('nbody', str(e)))
            new, con, mp = wq.nbody_separation(e, aux); used = sorted(mp.values(), key=lambda s: int(s.name[1:])); names = {s.name: s for s in list(qs) + list(aux)}
            if any(len(a.free_symbols) > 2 for a in sympy.Add.make_args(sympy.expand(new))): t.fail('more than two variables in a term', str(e))
            if len(set(used)) != len(used) or set(used) & set(qs): t.fail('added variables', str(e)); continue
            fn = sympy.lambdify(list(qs) + used, [sympy.sympify(new), sympy.sympify(con), e])
            for x in smp(n, 60):
                env = dict(zip(qs, x)); todo = dict(mp)
                while todo:
                    k = len(todo)
                    for (a, b), v in list(todo.items()):
                        if names[a] in env and names[b] in env: env[v] = env[names[a]] * env[names[b]]; del todo[(a, b)]
                    if len(todo) == k: t.fail('variables defined in a circle', str(e)); break
                if todo: break
                y = [env[s] for s in list(qs) + used]; a, c, w = fn(*y)
                if abs(a - w) > 1e-6 or abs(c) > 1e-6: t.fail('large: differs at %r' % (x,), str(e)); break
                bad = False
                for _ in range(6 if used else 0):        # wrong values of the added variables
                    z = list(y); fl = t.rng.sample(range(len(used)), t.rng.randint(1, min(3, len(used))))
                    for k in fl: z[n + k] = 1 - z[n + k]
                    env = dict(zip(list(qs) + used, z)); k = sum(env[v] != env[names[a]] * env[names[b]] for (a, b), v in mp.items())
                    if k and fn(*z)[1] < .5 or not k and abs(fn(*z)[1]) > 1e-6: t.fail('large: penalty %r with %d wrong variables' % (fn(*z)[1], k), str(e)); bad = True
                if bad: break
    t.guard('large problems', large)
