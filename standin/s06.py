import random, warnings, numpy as np
from collections import Counter
import oracle as O
import s05
from blueqat import Circuit
def check(t):
    t.rule = 'circuits with measurements anywhere, all return types, shot counts'
    t.bounds = ['registers of at most 5 qubits, at most 3000 shots (13 qubits, 300 operations, 40000 shots for a few)']
    r = np.random.RandomState(t.seed)
    def total():
        for i in range(80):
            n = t.rng.randint(1, 5); ops, psi = s05.prep(n, r)
            tail = [(t.rng.choice(['m', 'm', 'reset', 'h', 'x']), (), O.rtarget1(t.rng, n)) for _ in range(t.rng.randint(0, 5))]
            k = t.rng.choice([1, 2, 3, 17, 100, 0])
            t.case((n, repr(tail), k))
            c = O.build(Circuit, ops + tail, n)
            cnt = c.run(shots=k)
            if not isinstance(cnt, Counter): t.fail('not a Counter', (n, repr(tail), k))
            if sum(cnt.values()) != k: t.fail('counts sum to %d' % sum(cnt.values()), (n, repr(tail), k))
            measured = set(q for g, _, tg in tail if g == 'm' for q in O.targets(tg, n))
            for key in cnt:
                if len(key) != n or set(key) - set('01'): t.fail('record %r' % key, (n, repr(tail), k)); break
                if any(key[q] == '1' for q in range(n) if q not in measured): t.fail('a qubit never measured is recorded as 1: %r' % key, (n, repr(tail), k)); break
            if sum(c.run(shots=k).values()) != k: t.fail('second run has other total', (n, repr(tail), k))
    t.guard('totals', total)
    t.guard('changing', lambda: s05.changing(t, 60))
    def order():
        for n in range(1, 6):
            for _ in range(6):
                bits = [t.rng.randint(0, 1) for _ in range(n)]
                c = Circuit(n); [c.x[q] for q in range(n) if bits[q]]
                meas = t.rng.sample(range(n), t.rng.randint(0, n)); [c.m[q] for q in meas]
                want = ''.join(str(bits[q]) if q in meas else '0' for q in range(n))
                t.case(('order', bits, meas))
                if c.run(shots=7) != Counter({want: 7}): t.fail('record %r, expected %r' % (dict(c.run(shots=7)), want), (bits, meas))
    t.guard('bit order', order)
    def last():
        """value recorded is the one last measured; nothing carries over between shots"""
        for n in (1, 2, 3):
            for q in range(n):
                t.case(('last', n, q))
                for ops, want in (([('x', (), q), ('m', (), q), ('x', (), q), ('m', (), q)], 0), ([('m', (), q), ('x', (), q), ('m', (), q)], 1), ([('x', (), q), ('m', (), q), ('reset', (), q)], 1), ([('x', (), q), ('reset', (), q), ('m', (), q)], 0), ([('x', (), q), ('m', (), q), ('x', (), q)], 1)):
                    w = ['0'] * n; w[q] = str(want)
                    got = O.build(Circuit, ops, n).run(shots=9)
                    if got != Counter({''.join(w): 9}): t.fail('got %r' % dict(got), (n, ops))
        for seed in range(6):
            random.seed(seed)
            # each shot starts from |0>: x after a measured superposition must not accumulate
            c = Circuit(2).h[0].m[0].x[1].m[1]
            t.case(('fresh', seed))
            got = c.run(shots=64)
            if set(got) != {'01', '11'}: t.fail('shots are not independent: %r' % dict(got), seed)
            got = Circuit(1).h[0].m[0].h[0].m[0].h[0].m[0].run(shots=400)
            if not 120 < got['0'] < 280: t.fail('shots are not independent: %r' % dict(got), seed)
            got = Circuit(2).x[0].m[0].reset[0].cx[0, 1].m[1].run(shots=50)
            if got != Counter({'10': 50}): t.fail('state carried between shots: %r' % dict(got), seed)
        for n in (8, 11, 13):
            bits = [t.rng.randint(0, 1) for _ in range(n)]; t.case(('wide', bits))
            c = Circuit(n).x[tuple(q for q in range(n) if bits[q])].m[:]
            if c.run(shots=5) != Counter({''.join(map(str, bits)): 5}): t.fail('record of a wide register', (bits, dict(c.run(shots=5))))
        for k in (1025, 5000, 40000):
            t.case(('many shots', k)); random.seed(k)
            got = Circuit(2).h[0].m[0].cx[0, 1].m[1].run(shots=k)
            if sum(got.values()) != k or set(got) != {'00', '11'} or abs(got['00'] - k / 2) > 4 * k ** .5: t.fail('%d shots: %r' % (k, dict(got)), k)
        for n, d in ((4, 300), (9, 150), (12, 60)): s05.classical(t, n, d)
        c = Circuit(1).x[0].m[0]
        for k in range(40):      # the same circuit run again and again, growing in between
            t.case(('history', k))
            if c.run(shots=3) != Counter({str((k + 1) % 2): 3}): t.fail('a circuit run %d times and extended' % k, k)
            c.x[0].m[0]
    t.guard('last value', last)
    def dist():
        for n, tail in [(2, [('m', (), 0), ('cx', (), (0, 1)), ('m', (), 1)]), (3, [('m', (), (0, 1)), ('h', (), 0), ('m', (), 2)]), (1, [('m', (), 0), ('rx', (1.0,), 0), ('m', (), 0)]), (3, [('reset', (), 1), ('m', (), slice(None))]), (2, [('m', (), slice(None)), ('h', (), slice(None)), ('m', (), slice(None))])]:
            ops, psi = s05.prep(n, r)
            s05.chi(t, n, ops, psi, tail, 3000 if t.thorough else 1200)
    t.guard('distribution', dist)
    def returns():
        for _ in range(40):
            n = t.rng.randint(1, 4); ops = O.rcircuit(t.rng, n, t.rng.randint(1, 8)); want = O.run(ops, n)
            t.case(('returns', n, repr(ops)))
            c = O.build(Circuit, ops, n)
            exact = None
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                for kw in ({}, {'returns': 'statevector'}, {'shots': 1, 'returns': 'statevector'}, {'shots': 5, 'returns': 'statevector'}):
                    v = c.run(**kw)
                    if not isinstance(v, np.ndarray) or not O.phase_close(v, want): t.fail('statevector with %r' % kw, (n, ops))
                    if exact is None: exact = np.array(v)
                    if not O.close(v, exact): t.fail('statevector depends on the options %r' % kw, (n, ops))
                v, cnt = c.run(returns='statevector_and_shots', shots=6)
                if not O.close(v, exact) or cnt != Counter({'0' * n: 6}): t.fail('statevector_and_shots', (n, ops, dict(cnt)))
                if c.run(returns='shots', shots=4) != Counter({'0' * n: 4}): t.fail('shots', (n, ops))
                if sum(c.run(returns='shots').values()) != 1024: t.fail('default number of shots', (n, ops))
                if c.run(shots=4) != Counter({'0' * n: 4}): t.fail('shots default', (n, ops))
                v = c.run(ignore_global=True); k = next(i for i, a in enumerate(want) if abs(a) > 1e-7)
                if not O.phase_close(v, want) or abs(v[k].imag) > 1e-9 or v[k].real < 0: t.fail('dropping the global phase', (n, ops))
                v = c.run(ignore_global=False)
                if not O.close(v, exact): t.fail('global phase changed though not asked', (n, ops))
                v = c.run()
                if not O.close(v, exact): t.fail('a later run is changed by an earlier request to drop the phase', (n, ops))
        try: Circuit(1).x[0].run(returns='nothing'); t.fail('unknown return type accepted', 'nothing')
        except ValueError: pass
    t.guard('return types', returns)
    def single():
        """the state returned with measurements belongs to the record returned with it"""
        for _ in range(60):
            n = t.rng.randint(1, 4); ops, psi = s05.prep(n, r)
            tail = [(t.rng.choice(['m', 'reset']), (), O.rtarget1(t.rng, n)) for _ in range(2)]
            s05.one(t, n, ops, psi, tail)
    t.guard('one shot', single)
