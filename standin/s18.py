import itertools, math, numpy as np, collections
import oracle as O
from blueqat import wq
from s17 import xs, en, rq
def chi(counts, probs, S):
    """largest standardised deviation; 7 sigma plus a continuity allowance is never reached by chance"""
    bad = []
    for k, p in probs.items():
        d = abs(counts.get(k, 0) - S * p)
        if d > 7 * math.sqrt(S * p * (1 - p)) + 8: bad.append((k, counts.get(k, 0), S * p))
    return bad
def check(t):
    t.rule = 'random QUBOs up to 5 variables; recorded energies recomputed; equilibrium distribution at fixed temperature; constraint helpers on every assignment'
    t.bounds = ['at most 5 variables, 4 replicas (30 variables, 9 replicas, 70 shots for a few); equilibrium tests with false-alarm probability below 1e-9']
    def sa():
        for i in range(60 if t.thorough else 25):
            n = t.rng.randint(1, 5); q = rq(t.rng, n, True); o = wq.Opt(); o.qubo = np.array(q) if t.rng.random() < .5 else q
            r = repr(o.qubo); o.ite = 20; o.R = .6; shots = t.rng.choice([1, 1, 2, 5]); smp = t.rng.choice(['normal', 'normal', 'fast'])
            inp = (r, shots, smp); t.case(inp)
            how = t.rng.randrange(3)
            res = o.run(shots=shots, sampler=smp, targetT=.1) if how == 0 else o.sa(shots=shots, sampler=smp) if how == 1 else o.run(shots=shots, sampler=smp)
            if repr(o.qubo) != r: t.fail('the problem changed', inp)
            sols = [res] if shots == 1 else res; Es = [o.E] if shots == 1 else o.E
            if len(sols) != shots or len(Es) != shots: t.fail('%d shots' % len(sols), inp); continue
            all_ = [en(q, x) for x in xs(n)]
            for s, E in zip(sols, Es):
                if len(s) != n or any(v not in (0, 1) for v in s): t.fail('solution %r' % (s,), inp); break
                if len(E) < 2 or abs(E[-1] - en(q, s)) > 1e-7: t.fail('last recorded energy %r, solution has %r' % (E[-1:], en(q, s)), inp); break
                if any(min(abs(e - a) for a in all_) > 1e-7 for e in E): t.fail('recorded energy of no state', inp); break
            # run again: energies of the new run only
            res = o.run(shots=1, targetT=.5)
            if abs(o.E[-1] - en(q, res)) > 1e-7 or np.ndim(o.E) != 1: t.fail('second run', inp)
        # finds the minimum of an easy problem
        o = wq.Opt(); o.qubo = [[-4., 1, 1], [0, -4, 1], [0, 0, 5]]; t.case('easy')
        if o.run() != [1, 1, 0]: t.fail('minimum not found', o.qubo)
    t.guard('annealing', sa)
    def again():
        for _ in range(15):
            n = t.rng.randint(1, 4); o = wq.Opt(); o.ite = 8; o.R = .5; o.qubo = rq(t.rng, n, True)
            for k in range(6):
                q = [[float(v) for v in r] for r in o.qubo]; how = t.rng.choice(['run', 'run', 'shots', 'fast', 'sqa']); t.case(('again', k, how, repr(q)))
                if how == 'sqa':
                    o.tro = t.rng.choice([2, 3]); o.Gs, o.Gf, o.Tf = t.rng.choice([2., 3.]), 1., t.rng.choice([.3, 1.]); rep = np.array(o.sqa()); G = o.Gs
                    while G > o.Gf: last = G; G *= o.R
                    w = senergy(q, rep, o.Tf, last)
                    if rep.shape != (o.tro, n) or abs(o.E[-1] - w) > 1e-7 * max(1, abs(w)): t.fail('run %d: last recorded energy %r, replicas have %r' % (k, o.E[-1], w), repr(q)); break
                    o.E = []
                else:
                    shots = 3 if how == 'shots' else 1; res = o.run(shots=shots, targetT=t.rng.choice([.5, 1.5]), sampler='fast' if how == 'fast' else 'normal'); sols, Es = ([res], [o.E]) if shots == 1 else (res, o.E)
                    if len(sols) != shots or len(Es) != shots or any(len(s) != n or abs(E[-1] - en(q, s)) > 1e-7 or min(abs(E[0] - en(q, x)) for x in xs(n)) > 1e-7 for s, E in zip(sols, Es)): t.fail('run %d on a changed problem: recorded energy' % k, repr(q)); break
                what = t.rng.randrange(5); i = t.rng.randrange(n); j = t.rng.randrange(i, n)
                if what == 0: o.qubo[i][j] += 1.5
                elif what == 1: o.add(rq(t.rng, n, True), .5)
                elif what == 2: o.qubo = rq(t.rng, n, True)
                elif what == 3: n = t.rng.randint(1, 4); o.qubo = rq(t.rng, n, True)
        # couplings given directly
        o = wq.Opt(); o.J = np.array([[.5, -1.], [0, .25]]); o.ep = .75; o.ite = 10; o.R = .5; s = o.run(); t.case('J given'); x = [2 * v - 1 for v in s]
        if abs(o.E[-1] - (.75 + .5 * x[0] - x[0] * x[1] + .25 * x[1])) > 1e-9: t.fail('couplings given: recorded energy', s)
    def equi(q, T, S, ite):
        o = wq.Opt(); o.qubo = [list(r) for r in q]; o.Ts = T; o.R = 1e-9; o.ite = ite; n = len(q)
        w = {x: math.exp(-en(q, x) / T) for x in xs(n)}; Z = sum(w.values())
        cnt = collections.Counter(tuple(s) for s in o.run(shots=S, targetT=T / 2)); t.case(('equilibrium', repr(q), T))
        b = chi(cnt, {k: v / Z for k, v in w.items()}, S)
        if b: t.fail('not the Metropolis distribution: %r' % b[:3], (q, T))
    def metro():
        S = 2500 if t.thorough else 900
        for q, T in (([[-1., 2], [0, .5]], 1.0), ([[1., -2], [0, -.5]], .8), ([[.5, -1, 1.5], [0, -1, .5], [0, 0, 1]], 1.5), ([[2.]], 1.0), ([[-1.]], 2.0), ([[0., 3.], [0, 0]], 1.2)): equi(q, T, S, 60)
    t.guard('equilibrium', metro)
    def lncoth(x): return math.log(1 / math.tanh(x))
    def senergy(q, rep, T, G):
        p = len(rep); L = lncoth(G / T / p)
        return sum(en(q, [(v + 1) // 2 for v in r]) for r in rep) / p - T / 2 * L * sum(int(np.dot(rep[k], rep[(k + 1) % p])) for k in range(p))
    def sqa():
        for _ in range(25):
            n = t.rng.randint(1, 4); q = rq(t.rng, n, True); o = wq.Opt(); o.qubo = np.array(q) if t.rng.random() < .5 else q; r = repr(o.qubo)
            o.ite = 10; o.tro = t.rng.choice([2, 3, 4]); o.Gs = t.rng.choice([2., 5.]); o.Gf = .4; o.R = .6; o.Tf = t.rng.choice([.3, 1.0]); inp = (r, o.tro, o.Gs, o.Tf); t.case(inp)
            rep = np.array(o.sqa())
            if repr(o.qubo) != r: t.fail('the problem changed', inp)
            if rep.shape != (o.tro, n) or not set(rep.ravel()) <= {-1, 1}: t.fail('replicas %r' % rep.shape, inp); continue
            G = o.Gs; k = 0
            while G > o.Gf: last = G; G *= o.R; k += 1
            if len(o.E) != k + 1: t.fail('%d energies, %d steps' % (len(o.E), k), inp)
            w = senergy(q, rep, o.Tf, last)
            if abs(o.E[-1] - w) > 1e-7 * max(1, abs(w)): t.fail('last recorded energy %r, replicas have %r' % (o.E[-1], w), inp)
            o.sqa()                                                       # once more: recorded behind the first ones, or instead of them
            if len(o.E) not in (k + 1, 2 * k + 2): t.fail('%d energies after two runs of %d steps' % (len(o.E), k), inp)
        for _ in range(60):
            n, p = t.rng.randint(1, 4), t.rng.randint(2, 5); J = np.triu(np.array(rq(t.rng, n, True))); rep = np.array([[t.rng.choice([-1, 1]) for _ in range(n)] for _ in range(p)]); T, G = t.rng.uniform(.1, 2), t.rng.uniform(.1, 5)
            t.case(('Ei_sqa', J.tolist(), rep.tolist(), T, G))
            ei = lambda s: sum(J[i][i] * s[i] for i in range(n)) + sum(J[i][j] * s[i] * s[j] for i in range(n) for j in range(i + 1, n))
            want = sum(ei(s) for s in rep) / p - T / 2 * lncoth(G / T / p) * sum(int(np.dot(rep[k], rep[(k + 1) % p])) for k in range(p))
            for JJ in (J, J + np.triu(J, 1).T):
                if abs(wq.Ei_sqa(rep, JJ, T, p, G) - want) > 1e-7: t.fail('Ei_sqa', (J.tolist(), rep.tolist(), T, G)); break
            if abs(wq.Ei(rep[0], J) - ei(rep[0])) > 1e-9: t.fail('Ei', (J.tolist(), rep[0].tolist()))
    t.guard('quantum annealing', sqa)
    # one proposed move with the random number fixed at 1/2 (the same read from either end): accepted exactly when the rule says so
    def moves():
        import random
        def one(o, quantum):
            made, picked, other = [], [], []
            rc, ri = np.random.choice, np.random.randint
            def choice(*a, **k):
                r = rc(*a, **k)
                if a and np.ndim(a[0]) == 1 and sorted(np.ravel(a[0]).tolist()) == [-1, 1]: made.append(np.array(r).copy())
                return r
            def randint(*a, **k): r = ri(*a, **k); picked.extend(int(v) for v in np.ravel(r)); return r
            def rand(*a): return np.full(a, .5) if a else .5
            def sized(size=None): return .5 if size is None else np.full(size, .5)
            def uniform(a=0., b=1., size=None): return (a + b) / 2 if size is None else np.full(size, (a + b) / 2)
            new = [(np.random, 'choice', choice), (np.random, 'randint', randint), (np.random, 'rand', rand), (np.random, 'uniform', uniform), (random, 'random', lambda: .5), (random, 'uniform', lambda a, b: (a + b) / 2)]
            new += [(np.random, x, sized) for x in ('random', 'random_sample', 'sample', 'ranf') if hasattr(np.random, x)]
            # any other source of random numbers: nothing is said
            for mod, x in [(np.random, x) for x in ('default_rng', 'RandomState', 'Generator', 'exponential', 'binomial', 'standard_exponential')] + [(random, 'Random'), (random, 'expovariate')]:
                def seen(*a, _f=getattr(mod, x), **k): other.append(1); return _f(*a, **k)
                new.append((mod, x, seen))
            was = [(m, x, getattr(m, x)) for m, x, _ in new]
            for m, x, v in new: setattr(m, x, v)
            try: res = o.sqa() if quantum else o.run(targetT=o.Ts / 2)
            finally:
                for m, x, v in was: setattr(m, x, v)
            return np.array(res), [] if other else made, picked
        for k in range(900 if t.thorough else 450):
            n = t.rng.randint(1, 4); q = rq(t.rng, n, True); T = t.rng.choice([.4, 1., 2.5]); o = wq.Opt(); o.qubo = q; o.ite = 1; o.R = 1e-9
            quantum = k % 3 != 0
            if quantum: P = t.rng.randint(1, 5); G = t.rng.choice([.5, 2., 4.]) * T * P; o.tro, o.Gs, o.Gf, o.Tf = P, G, G / 2, T
            else: P = 1; o.Ts = T
            inp = ('sqa' if quantum else 'sa', q, T) + ((P, G) if quantum else ()); t.case(inp)
            res, made, picked = one(o, quantum); E = o.E
            res = res if quantum else 2 * res[None, :] - 1
            if not made or made[-1].size != P * n: continue
            was = made[-1].reshape(P, n); energy = (lambda s: senergy(q, s, T, G)) if quantum else (lambda s: en(q, [(v + 1) // 2 for v in s[0]]))
            if abs(E[0] - energy(was)) > 1e-7 * max(1, abs(E[0])): continue
            diff = np.argwhere(res != was)
            if len(diff) > 1: t.fail('one move changed %d spins' % len(diff), inp); continue
            if len(diff): y, x = diff[0]
            elif len(picked) == (2 if quantum else 1): x, y = picked[0], picked[1] if quantum else 0
            else: continue
            if not (x < n and y < P): continue
            new = was.copy(); new[y, x] *= -1; d = energy(new) - energy(was)
            if abs(d - T * math.log(2)) < 1e-6 or abs(d) < 1e-9: continue
            if (d < T * math.log(2)) != bool(len(diff)): t.fail('a move of energy difference %r at temperature %r was %s at 0.5' % (d, T, 'accepted' if len(diff) else 'refused'), inp + (was.tolist(), int(y), int(x)))
    t.guard('single moves', moves)
    t.guard('again', again)
    def squi():
        S = 1500 if t.thorough else 700
        for q, P, T, G in (([[.8]], 3, .7, 2.0), ([[-1., 1.4], [0, .3]], 2, .9, 2.5), ([[1.2]], 4, .5, 1.5), ([[.5, -1.], [0, -.4]], 3, .8, 3.)):
            n = len(q); states = [np.array(s).reshape(P, n) for s in itertools.product((-1, 1), repeat=P * n)]
            w = {tuple(s.ravel()): math.exp(-senergy(q, s, T, G) / T) for s in states}; Z = sum(w.values()); cnt = collections.Counter()
            for _ in range(S):
                o = wq.Opt(); o.qubo = q; o.tro = P; o.Gs = G; o.Gf = G / 2; o.R = 1e-9; o.ite = 50; o.Tf = T
                cnt[tuple(int(v) for v in np.array(o.sqa()).ravel())] += 1
            t.case(('equilibrium', repr(q), P, T, G))
            b = chi(cnt, {k: v / Z for k, v in w.items()}, S)
            if b: t.fail('not the Metropolis distribution of the replicas: %r' % b[:3], (q, P, T, G))
    t.guard('quantum equilibrium', squi)
    def helpers():
        for n in range(1, 6):
            for k in range(n + 1):
                t.case(('sel', n, k)); M = wq.sel(n, k); e = {x: en(M, x) for x in xs(n)}; m = min(e.values())
                if {x for x in e if abs(e[x] - m) < 1e-9} != {x for x in e if sum(x) == k}: t.fail('sel(%d, %d) is minimal elsewhere' % (n, k), np.array(M).tolist())
                for arr in ([0], [n - 1, 0]) if n > 1 else ([0],):
                    M2 = wq.sel(n, k, list(arr))
                    if any(abs(en(M2, x) - (e[x] - .5 * sum(x[i] for i in arr))) > 1e-9 for x in e): t.fail('sel with preference', (n, k, arr))
        for _ in range(40):
            n = t.rng.randint(1, 5); a = [t.rng.choice([1, -2, .5, 3, 0]) for _ in range(n)]; M = wq.sqr(a); t.case(('sqr', a))
            if any(abs(en(M, x) - np.dot(a, x) ** 2) > 1e-9 for x in xs(n)): t.fail('sqr', a)
            if any(M[i][j] for i in range(n) for j in range(i)): t.fail('sqr is not upper triangular', a)
            n = t.rng.randint(2, 5); ed = [t.rng.sample(range(n), 2) for _ in range(t.rng.randint(0, 5))]; ed = [e for i, e in enumerate(ed) if sorted(e) not in [sorted(f) for f in ed[:i]]]
            r = repr(ed); M = wq.net(ed, n); t.case(('net', r))
            if repr(ed) != r: t.fail('net changed the edges', r)
            if np.shape(M) != (n, n) or any(abs(en(M, x) - sum(x[i] * x[j] for i, j in ed)) > 1e-9 for x in xs(n)): t.fail('net', r)
            if any(M[i][j] for i in range(n) for j in range(i)): t.fail('net is not upper triangular', r)
            d = [t.rng.uniform(-2, 2) for _ in range(n)]
            if any(abs(en(wq.diag(d), x) - np.dot(d, x)) > 1e-9 for x in xs(n)): t.fail('diag', d)
        if np.shape(wq.zeros(3)) != (3, 3) or np.any(wq.zeros(3)): t.fail('zeros', 3)
        c = wq.counter([[0, 1], [1, 1], [0, 1]])
        if dict(c) != {'01': 2, '11': 1}: t.fail('counter', dict(c))
    t.guard('helpers', helpers)
    def large():
        for n in (9, 16, 30):
            q = rq(t.rng, n, True); o = wq.Opt(); o.qubo = q; o.ite = 60; r = repr(q)
            for shots, smp in ((1, 'normal'), (12, 'normal'), (70, 'fast')) if n < 20 else ((2, 'normal'),):
                res = o.run(shots=shots, sampler=smp, targetT=1.0); sols = [res] if shots == 1 else res; Es = [o.E] if shots == 1 else o.E; t.case(('large', n, shots, r))
                if len(sols) != shots or len(Es) != shots: t.fail('%d solutions for %d shots' % (len(sols), shots), r); continue
                for s, E in zip(sols, Es):
                    if len(s) != n or set(s) - {0, 1} or abs(E[-1] - en(q, s)) > 1e-6: t.fail('last recorded energy %r, solution has %r' % (E[-1], en(q, s)), (shots, r)); break
            if repr(q) != r: t.fail('the problem changed', r)
            o = wq.Opt(); o.qubo = q; o.ite = 30; o.tro = 9; rep = np.array(o.sqa()); t.case(('large sqa', n))
            G = o.Gs
            while G > o.Gf: last = G; G *= o.R
            w = senergy(q, rep, o.Tf, last)
            if rep.shape != (9, n) or abs(o.E[-1] - w) > 1e-6 * max(1, abs(w)): t.fail('last recorded energy %r, replicas have %r' % (o.E[-1], w), r)
        # one strong coupling far from the diagonal decides
        for n, a, b in ((14, 0, 13), (11, 10, 2)):
            q = [[0.] * n for _ in range(n)]; q[min(a, b)][max(a, b)] = -9.; q[a][a] = 4.; q[b][b] = 4.
            for k in range(n):
                if k not in (a, b): q[k][k] = 1. if k % 2 else -1.
            o = wq.Opt(); o.qubo = q; res = o.run(); t.case(('decided', n, a, b))
            if abs(o.E[-1] - en(q, res)) > 1e-6 or any(res[k] != (1 - k % 2) for k in range(n) if k not in (a, b)) or res[a] != res[b]: t.fail('the solution is no minimum under single and coupled changes', (n, a, b, res))
        for n, k in ((9, 4), (12, 1), (17, 16), (30, 7)):
            M = wq.sel(n, k); t.case(('sel', n, k))
            for _ in range(60):
                x = [t.rng.randint(0, 1) for _ in range(n)]
                if abs(en(M, x) - ((sum(x) - k) ** 2 - k * k)) > 1e-6: t.fail('sel(%d, %d)' % (n, k), x); break
            a = [t.rng.choice([1, -2, .5, 3]) for _ in range(n)]; S = wq.sqr(a); ed = list({tuple(sorted(t.rng.sample(range(n), 2))) for _ in range(40)}); ed = [list(e) if t.rng.random() < .5 else [e[1], e[0]] for e in ed]; N = wq.net(ed, n)
            for _ in range(30):
                x = [t.rng.randint(0, 1) for _ in range(n)]
                if abs(en(S, x) - np.dot(a, x) ** 2) > 1e-6: t.fail('sqr', a); break
                if abs(en(N, x) - sum(x[i] * x[j] for i, j in ed)) > 1e-6: t.fail('net', ed); break
        equi([[.6 if i == j else 0. if (i + j) % 3 else -.8 if j > i else 0. for j in range(6)] for i in range(6)], 1.1, 600, 90)
    t.guard('large problems', large)
