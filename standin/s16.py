import math, numpy as np, warnings, itertools
import oracle as O, paulis as Q
from s14 import expo
from s15 import marg, snap
from blueqat import Circuit, pauli as P, vqe
def check(t):
    t.rule = 'random commuting Hamiltonians, steps 1..3, initial circuits and mixers; minimisers that return given parameters'
    t.bounds = ['at most 4 qubits, at most 3 steps (10 qubits, 20 steps, 26 terms for a few)']
    def ham(n, basis='ZZZ'):
        e = P.Expr(())
        ch = t.rng.choice('ZZZXY')
        for _ in range(t.rng.randint(1, 4)):
            e = e + P.Term(tuple({'X': P.X, 'Y': P.Y, 'Z': P.Z}[ch][q] for q in t.rng.sample(range(n), t.rng.randint(0 if t.rng.random() < .2 else 1, min(n, 3)))), t.rng.choice([1.0, -1.0, .5, .3, -2.2]))
        return e.simplify()
    def want(h, n, init, step, params, mixer):
        psi = O.run(init, n)
        for k in range(step):
            b, g = params[k], params[step + k]
            psi = expo(h, 2 * math.pi * g, n) @ psi
            if mixer is None:
                for q in range(n): psi = O.apply(psi, O.rx(math.pi * b), [q], n)
            else:
                for term in mixer: psi = expo(term, math.pi * b, n) @ psi
        return psi
    def one(h, step, init, mixer):
        n = h.n_qubits
        kw = {}
        if init is not None:
            n0, iops = init; n = max(n, n0); ic = O.build(Circuit, iops, n0); kw['init_circuit'] = ic; s0 = snap(ic)
            if h.n_qubits > n0 and mixer is None: return
        else: iops = [('h', (), slice(None))]
        if mixer is not None: kw['mixer'] = mixer
        if n == 0: return
        a = vqe.QaoaAnsatz(h, step, **kw) if t.rng.random() < .5 else vqe.QaoaAnsatz(h, step=step, **kw)
        if a.n_params != 2 * step: t.fail('%d parameters for %d steps' % (a.n_params, step), repr(h))
        if a.n_qubits != n: t.fail('%r qubits' % a.n_qubits, repr(h))
        for _ in range(2):
            p = [t.rng.uniform(-2, 2) for _ in range(2 * step)]
            arr = np.array(p) if t.rng.random() < .5 else list(p)
            inp = (repr(h), step, p, init, repr(mixer)); t.case(inp)
            c = a.get_circuit(arr)
            if list(arr) != p: t.fail('parameters changed', inp)
            if init is not None and snap(ic) != s0: t.fail('the initial circuit changed', inp)
            if c.n_qubits > n: t.fail('register', inp)
            psi = c.run(); psi = np.kron(np.eye(1, 2 ** (n - c.n_qubits))[0], psi) if c.n_qubits < n else psi
            if not O.phase_close(psi, want(h, n, iops, step, p, mixer), 1e-7): t.fail('wrong circuit', inp); return
            # the same parameters again, and energy
            if not O.phase_close(a.get_circuit(p).run(), c.run(), 1e-7): t.fail('second circuit differs', inp)
            if init is None:
                w = want(h, n, iops, step, p, mixer); e = np.vdot(w, Q.mat(h, list(range(n))) @ w).real
                if abs(a.get_objective()(p) - e) > 1e-6: t.fail('objective', inp)
                if abs(a.get_objective(vqe.non_sampling_sampler)(p) - e) > 1e-6: t.fail('objective with sampler', inp)
    def circuits():
        for _ in range(200 if t.thorough else 60):
            n = t.rng.randint(1, 4); h = ham(n)
            if h.n_qubits == 0: continue
            step = t.rng.randint(1, 3)
            one(h, step, None, None)
            n0 = t.rng.randint(h.n_qubits, 4); init = (n0, O.rcircuit(t.rng, n0, 4, simple=True))
            one(h, step, init, None)
            mx = [Q.rterm(t.rng, list(range(n0)), cplx=False).simplify() for _ in range(t.rng.randint(1, 3))]
            mx = [m for m in mx if m.ops and not complex(m.coeff).imag]
            if mx: one(h, step, init, mx)
        one(P.Z[0] * P.Z[1] + 0.0, 1, None, None); one((P.Z[2] * P.Z[0]).to_expr(), 2, None, None); one(P.X[0] * P.X[1] + P.Z[0] * P.Z[1], 2, None, None)
        one(P.Z[0].to_expr(), 1, (2, [('h', (), slice(None))]), None)
    t.guard('circuits', circuits)
    def again():
        for _ in range(12):
            n = t.rng.randint(1, 3); h = ham(n)
            if h.n_qubits == 0: continue
            n = h.n_qubits; step = t.rng.randint(1, 2); a = vqe.QaoaAnsatz(h, step); pre = [('h', (), slice(None))]
            f = [a.get_objective(), a.get_objective(vqe.non_sampling_sampler)]
            for mk in (np.array, list):
                p = mk([t.rng.uniform(-1, 1) for _ in range(2 * step)]); kept = []
                for _ in range(4):
                    k = t.rng.randrange(2 * step); p[k] += t.rng.choice([.7, -.31, 0, 1e-3]); now = [float(x) for x in p]; t.case(('changed in place', repr(h), now))
                    w = want(h, n, pre, step, now, None); c = a.get_circuit(p); kept.append((c, w)); e = np.vdot(w, Q.mat(h, list(range(n))) @ w).real
                    if not O.phase_close(c.run(), w, 1e-7): t.fail('parameters changed in place: another circuit', (repr(h), now)); return
                    if any(abs(g(p) - e) > 1e-6 for g in f): t.fail('parameters changed in place: another energy', (repr(h), now)); return
                    c.x[0].ry(.4)[:]
                    if not O.phase_close(a.get_circuit(p).run(), w, 1e-7): t.fail('extending the circuit returned changes the next one', (repr(h), now)); return
            q = [.3, -.2] * step; v = vqe.Vqe(a, lambda o, k: np.array(q)); r1 = v.run(); pr = dict(r1.get_probs()); q[:] = [-.45, .9] * step; r2 = v.run(); t.case(('two runs', repr(h)))
            for r, qq in ((r1, [.3, -.2] * step), (r2, [-.45, .9] * step)):
                w = want(h, n, pre, step, qq, None)
                if not O.phase_close(r.circuit.run(), w, 1e-7) or list(r.params) != qq or any(abs(r.get_probs().get(k, 0) - x) > 1e-7 for k, x in marg(w, n, range(n)).items()): t.fail('two runs of one Vqe: another result', (repr(h), qq))
    t.guard('again', again)
    def plain():
        for h in (P.Z[0] * P.Z[1], 2.0 * P.Z[1]):   # terms are accepted too
            a = vqe.QaoaAnsatz(h, 1); p = [.3, .2]
            w = want(h.to_expr(), h.n_qubits, [('h', (), slice(None))], 1, p, None); t.case(('plain', repr(h)))
            if not O.phase_close(a.get_circuit(p).run(), w, 1e-7): t.fail('wrong circuit', repr(h))
    t.guard('operators', plain)
    def evolve(psi, h, th, n):
        for x in h.terms:
            w = th * complex(x.coeff).real; psi = np.cos(w) * psi + 1j * np.sin(w) * Q.act(P.Term(x.ops, 1.0), psi, n)
        return psi
    def large():
        for n, step, m in ((6, 7, 10), (8, 3, 25), (10, 2, 9), (3, 20, 4)):
            for custom in (False, True):
                ch = t.rng.choice([P.X, P.Y, P.Z])
                h = P.Expr(tuple(P.Term(tuple(ch[q] for q in t.rng.sample(range(n), t.rng.randint(1, min(n, 6)))), t.rng.choice([1.0, -.5, .25, 2.5])) for _ in range(m)) + (P.Term(tuple(ch[q] for q in range(n)), .5),)).simplify()
                pre = O.rcircuit(t.rng, n, 8, simple=True) if custom else [('h', (), slice(None))]
                mx = [P.Term(tuple(t.rng.choice([P.X, P.Y])[q] for q in t.rng.sample(range(n), 2)), .5) for _ in range(n)] if custom else None
                a = vqe.QaoaAnsatz(h, step, **({'init_circuit': O.build(Circuit, pre, n), 'mixer': mx} if custom else {}))
                p = [t.rng.uniform(-2, 2) for _ in range(2 * step)]; psi = O.run(pre, n); inp = (n, repr(h), step, p, repr(mx)); t.case(inp)
                for k in range(step):
                    psi = evolve(psi, h, 2 * math.pi * p[step + k], n)
                    if custom:
                        for x in mx: psi = evolve(psi, x.to_expr(), math.pi * p[k], n)
                    else:
                        for q in range(n): psi = O.apply(psi, O.rx(math.pi * p[k]), [q], n)
                if a.n_params != 2 * step: t.fail('large: %d parameters for %d steps' % (a.n_params, step), inp)
                for _ in range(2):
                    if not O.phase_close(a.get_circuit(p).run(), psi, 1e-6): t.fail('large: wrong circuit', inp)
                e = np.vdot(psi, Q.act(h, psi, n)).real
                if abs(a.get_objective()(p) - e) > 1e-6: t.fail('large: objective', inp)
                r = vqe.Vqe(a, lambda o, k: list(p)).run(); w = marg(psi, n, range(n)); pr = r.get_probs()
                if any(abs(pr.get(k, 0) - w.get(k, 0)) > 1e-7 for k in set(pr) | set(w)): t.fail('large: probabilities', inp)
                for k in (1, 5, 33, 5000):
                    mc = r.most_common(k); best = sorted(pr.values(), reverse=True)[:k]
                    if len(mc) != len(best) or any(abs(x[1] - y) > 1e-7 or abs(w.get(x[0], 0) - x[1]) > 1e-7 for x, y in zip(mc, best)) or len(set(x[0] for x in mc)) != len(mc): t.fail('large: most_common(%d)' % k, inp)
        # many commuting terms, one pair that does not commute far from the start
        z = [P.Term((P.Z[k], P.Z[k + 1]), 1.0) for k in range(30)]
        for bad in (P.X[17], P.X[30] * P.Z[2], P.Y[0]):
            t.case(('refuse large', repr(bad)))
            try: vqe.QaoaAnsatz(P.Expr(tuple(z) + (bad.to_term(),)), 1)
            except ValueError: pass
            else: t.fail('many terms, the last does not commute: accepted', repr(bad))
    t.guard('large', large)
    def refused():
        for h in (P.X[0] + P.Z[0], P.Z[0] + P.Z[1] + P.X[1], P.X[0] * P.Y[1] + P.Z[0], P.Z[2] + P.Z[0] * P.Z[1] + P.Y[2] * P.Y[0] * P.Y[1], P.X[0] * P.Z[1] + P.Z[0] * P.Z[1], .5 * P.Z[0] + .5 * P.Y[0]):
            t.case(('refuse', repr(h)))
            try: vqe.QaoaAnsatz(h, 1)
            except ValueError: pass
            else: t.fail('terms that do not commute are accepted', repr(h))
        try: vqe.QaoaAnsatz(P.Z[0].to_expr(), 1, mixer=[P.X[0]])
        except ValueError: pass
        else: t.fail('a mixer without initial circuit is accepted', 'mixer')
    t.guard('refused', refused)
    def results():
        for _ in range(40):
            n = t.rng.randint(1, 3); h = ham(n)
            if h.n_qubits == 0: continue
            n = h.n_qubits; step = t.rng.randint(1, 2)
            a = vqe.QaoaAnsatz(h, step); p = [t.rng.uniform(-2, 2) for _ in range(2 * step)]; calls = []
            def mini(obj, k):
                for _ in range(3): calls.append((k, obj([t.rng.random() for _ in range(k)])))
                return list(p)
            w = want(h, n, [('h', (), slice(None))], step, p, None); m = marg(w, n, range(n))
            for smp in (None, vqe.non_sampling_sampler):
                r = vqe.Vqe(a, mini, smp).run(); inp = (repr(h), p, smp is None); t.case(inp)
                if calls and calls[0][0] != 2 * step: t.fail('minimiser got %r parameters' % calls[0][0], inp)
                if list(r.params) != p: t.fail('params', inp)
                if not O.phase_close(r.circuit.run(), w, 1e-7): t.fail('circuit of the result', inp)
                for pr in (r.get_probs(), r.get_probs(), r.get_probs(sampler=vqe.non_sampling_sampler), r.get_probs(rerun=True)):
                    if any(abs(pr.get(k, 0) - m.get(k, 0)) > 1e-7 for k in set(pr) | set(m)): t.fail('probabilities %r' % (pr,), inp)
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    if any(abs(r.probs.get(k, 0) - v) > 1e-7 for k, v in m.items()): t.fail('probs', inp)
                for k in (1, 2, 3, 100):
                    mc = r.most_common(k)
                    if len(mc) != min(k, len(r.get_probs())): t.fail('most_common(%d) has %d entries' % (k, len(mc)), inp)
                    if any(x[1] < y[1] for x, y in zip(mc, mc[1:])): t.fail('most_common is not in decreasing order', inp)
                    if any(abs(m.get(x[0], 0) - x[1]) > 1e-7 for x in mc): t.fail('most_common reports other probabilities', inp)
                    rest = sorted(m.values(), reverse=True)[:k]
                    if any(abs(x[1] - y) > 1e-7 for x, y in zip(mc, rest)): t.fail('most_common misses a likelier string', inp)
                if len(r.most_common()) != 1: t.fail('most_common()', inp)
        # a stored result and a different sampler
        a = vqe.QaoaAnsatz(P.Z[0] * P.Z[1] + P.Z[0], 1); r = vqe.Vqe(a, lambda o, k: [.3, .1]).run()
        fake = {(0, 0): .25, (1, 1): .75}; first = dict(r.get_probs())
        if r.get_probs(sampler=lambda c, m: dict(fake), store=False) != fake: t.fail('get_probs(sampler) does not use the sampler', 'fake')
        if r.get_probs() != first: t.fail('store=False stored the probabilities', 'fake')
        r2 = vqe.Vqe(a, lambda o, k: [.3, .1]).run()
        if r2.get_probs(sampler=lambda c, m: dict(fake), store=False) != fake: t.fail('get_probs(sampler) does not use the sampler', 'fake first')
        if r2.get_probs() != first: t.fail('store=False before anything was stored is remembered', 'fake')
        r3 = vqe.Vqe(a, lambda o, k: [.3, .1]).run(); seen = []
        def count(c, m): seen.append(tuple(m)); return dict(fake)
        r4 = vqe.Vqe(a, lambda o, k: [.3, .1], count).run(); del seen[:]
        if r4.get_probs(store=False) != fake or r4.get_probs(store=False) != fake or len(seen) != 2: t.fail('store=False does not sample again', seen)
        if r4.get_probs() != fake or r4.get_probs() != fake or len(seen) != 3: t.fail('the stored probabilities are sampled again', seen)
        if r4.get_probs(rerun=True) != fake or len(seen) != 4: t.fail('rerun does not sample again', seen)
        if r4.get_probs(sampler=lambda c, m: {(0, 1): 1.0}, rerun=False) != fake: t.fail('rerun=False samples again', 'fake')
        if r4.get_probs(sampler=r4.vqe.sampler) != fake or len(seen) != 5: t.fail('the sampler given is not asked', seen)
        if r3.get_probs(store=False) != first or r3.get_probs() != first: t.fail('probabilities without sampler', 'fake')
        r.get_probs(sampler=lambda c, m: dict(fake))
        if r.get_probs() != fake: t.fail('store=True did not store', 'fake')
        # the default minimiser lowers the energy
        h = (P.Z[0] * P.Z[1]).to_expr(); a = vqe.QaoaAnsatz(h, 1); r = vqe.Vqe(a).run(); t.case('minimiser')
        if len(r.params) != 2: t.fail('default minimiser', r.params)
        # default minimiser's parameters belong to its circuit
        if not O.phase_close(r.circuit.run(), want(h, 2, [('h', (), slice(None))], 1, list(r.params), None), 1e-7): t.fail('circuit of the result', 'default minimiser')
    t.guard('results', results)
