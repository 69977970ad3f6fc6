import copy, random, warnings, numpy as np
import oracle as O
import s05
from blueqat import Circuit
import blueqat.backends.numpy_backend as nb
def split(ops):
    for i, o in enumerate(ops):
        if o[0] in ('m', 'reset'): return ops[:i], ops[i:]
    return ops, []
def expected(t, v, key, ops, n, log):
    pre, tail = split(ops)
    psi = O.run(pre, n)
    if not tail:
        if not O.phase_close(v, psi, 1e-6): t.fail('a run gives another state than the circuit\'s operations', log); return False
        return True
    br = s05.ideal(psi, n, tail)
    if not any(O.phase_close(v, b[1], 1e-6) and (key is None or key == ''.join(map(str, b[2]))) for b in br):
        t.fail('a run gives a state (and record %r) that the circuit\'s operations cannot give' % key, log); return False
    return True
GATES = ['x', 'h', 't', 's', 'rx', 'ry', 'u3', 'u2', 'cx', 'cz', 'crx', 'cu3', 'swap', 'rzz', 'ccx', 'phase', 'cy', 'z', 'u1', 'rz']
def history(t, steps, meas):
    rng = t.rng; log = []
    n0 = rng.randint(1, 3)
    pool = [(Circuit(n0), [], [n0])]
    old = []
    for _ in range(steps):
        i = rng.randrange(len(pool)); c, ops, nn = pool[i]
        k = rng.choice(['op', 'op', 'op', 'run', 'run', 'run', 'cache', 'copy', 'copy0', 'add', 'iadd', 'poke', 'shots', 'dagger', 'grow', 'deep', 'pop', 'with'])
        if k == 'op' or k == 'grow':
            n = nn[0] + (1 if k == 'grow' and nn[0] < 4 else 0)
            if meas and rng.random() < .2: op = (rng.choice(['m', 'reset']), (), rng.randrange(n) if rng.random() < .6 else tuple(rng.sample(range(n), rng.randint(1, n))))
            else: op = O.rop(rng, n, GATES, simple=True)
            if k == 'grow' and n > nn[0]: op = ('rx', (rng.uniform(0, 6),), n - 1)
            log.append((k, i, op)); w = getattr(c, op[0]); w = w(*op[1]) if op[1] else w; w[op[2]]
            ops.append(op); nn[0] = max(nn[0], n if op[2] == n - 1 else nn[0])
        elif k in ('run', 'with', 'poke', 'deep'):
            log.append((k, i))
            if k == 'with': v, key = c.run_with_numpy(), None
            elif rng.random() < .5:
                v, cnt = c.run(returns='statevector_and_shots', shots=1); key = next(iter(cnt))
            else: v, key = c.run(), None
            if not expected(t, v, key, ops, nn[0], (n0, log)): return
            if k == 'poke': v[:] = 7                          # the caller owns what a run returned
            else: old.append((v, v.copy()))
            if k == 'deep' and len(pool) < 7: log.append(('deepcopied', i)); pool.append((copy.deepcopy(c), list(ops), list(nn)))
        elif k == 'shots':
            log.append((k, i)); cnt = c.run(shots=3)
            br = s05.ideal(O.run(split(ops)[0], nn[0]), nn[0], split(ops)[1])
            if sum(cnt.values()) != 3 or set(cnt) - set(''.join(map(str, b[2])) for b in br): t.fail('impossible counts %r' % dict(cnt), (n0, log)); return
        elif k == 'cache':
            log.append((k, i)); c.make_cache()
        elif k in ('copy', 'copy0') and len(pool) < 7:
            log.append((k, i)); pool.append((c.copy(copy_backends=(k == 'copy')), list(ops), list(nn)))
        elif k == 'add' and len(pool) < 7:
            j = rng.randrange(len(pool)); d = pool[j]
            if len(ops) + len(d[1]) > 25: continue
            log.append((k, i, j)); pool.append((c + d[0], ops + d[1], [max(nn[0], d[2][0])]))
        elif k == 'iadd':
            j = rng.randrange(len(pool)); d = pool[j]
            if len(ops) + len(d[1]) > 25: continue
            log.append((k, i, j)); c += d[0]; ops += list(d[1]); nn[0] = max(nn[0], d[2][0])
        elif k == 'pop' and ops:
            log.append((k, i)); c.ops.pop(); ops.pop()
        elif k == 'dagger' and len(pool) < 7 and not split(ops)[1]:
            log.append((k, i)); cb = rng.random() < .5
            d = c.dagger(copy_backends=cb)
            v = d.run(); w = (c + d).run()
            if not O.phase_close(w, O.run([], nn[0]), 1e-6): t.fail('circuit and inverse, caches copied=%s' % cb, (n0, log)); return
        for v, w in old[-12:]:
            if not np.array_equal(v, w): t.fail('a state returned earlier was altered later', (n0, log)); return
    t.case((n0, repr(log)))
    for i, (c, ops, nn) in enumerate(pool):
        log.append(('final run', i))
        v, cnt = c.run(returns='statevector_and_shots', shots=1)
        if c.n_qubits != nn[0]: t.fail('register size', (n0, log)); return
        if not expected(t, v, next(iter(cnt)), ops, nn[0], (n0, log)): return
def check(t):
    t.rule = 'random histories of building, copying, caching, concatenating and running'
    t.bounds = ['histories of at most 30 steps on at most 7 circuits of at most 4 qubits', 'a few histories of 300 operations, registers up to 11']
    def plain():
        for _ in range(700 if t.thorough else 160): history(t, t.rng.randint(4, 30), False)
    def withm():
        for _ in range(700 if t.thorough else 160): history(t, t.rng.randint(4, 30), True)
    t.guard('histories', plain); t.guard('histories with measurement', withm)
    def covers():
        """operations after the first measurement are run afresh in every run"""
        for tail in ([('m', (), 0), ('h', (), 0), ('m', (), 0)], [('reset', (), 0), ('h', (), 0), ('m', (), 0)], [('m', (), 0)]):
            c = O.build(Circuit, [('h', (), 0), ('cx', (), (0, 1))] + tail, 2)
            random.seed(5); t.case(('cover', tail))
            c.make_cache(); seen = set()
            for _ in range(60): seen |= set(c.run(shots=1))
            if len(seen) < 2: t.fail('measurement outcomes are cached', tail)
            seen = set(c.copy().run(shots=60))
            if len(seen) < 2: t.fail('measurement outcomes are cached by a copy', tail)
        for g in ('m', 'reset'):
            for qs in ((0, 1), (1, 0), (0, 1, 3), (1, 3, 0)):          # only one of the qubits is not certain
                c = Circuit(4).x[3].h[0].cx[0, 2]; getattr(c, g)[qs]; c.m[2]; random.seed(5); t.case(('one of several', g, qs)); c.make_cache()
                if len({k[2] for k in c.run(shots=60)}) < 2: t.fail('measurement outcomes are cached', (g, qs))
                if len({next(iter(c.run(shots=1)))[2] for _ in range(60)}) < 2: t.fail('measurement outcomes are cached', (g, qs))
                if len({k[2] for k in c.copy().run(shots=60)}) < 2: t.fail('measurement outcomes are cached by a copy', (g, qs))
    t.guard('outcomes are never cached', covers)
    def slices():
        """operations on slices, which reach further when the register grows"""
        for _ in range(120 if t.thorough else 40):
            for c, ops, n in O.history(t.rng, Circuit, t.rng.randint(3, 14), 5):
                t.case(('slices', n, repr(ops)))
                if t.rng.random() < .3: c.make_cache()
                if t.rng.random() < .8 and not O.phase_close(c.run(), O.run(ops, n), 1e-6): t.fail('a circuit changed step by step: wrong state', (n, ops)); break
    t.guard('slices', slices)
    def swap():
        """one backend object given to circuits in turn"""
        be = nb.NumPyBackend()
        cs = []
        for _ in range(40):
            n = t.rng.randint(1, 3); ops = O.rcircuit(t.rng, n, t.rng.randint(0, 5), GATES, simple=True)
            cs.append((n, ops, O.build(Circuit, ops, n)))
        for _ in range(250):
            n, ops, c = t.rng.choice(cs)
            if t.rng.random() < .3: c = c.copy()
            t.case(('shared backend', n, repr(ops)))
            if not O.phase_close(c.run(backend=be), O.run(ops, n), 1e-6): t.fail('a backend used for several circuits gives the state of another one', (n, ops))
    t.guard('shared backend object', swap)
    def replaced():
        """operations replaced in place"""
        for _ in range(60):
            n = t.rng.randint(1, 3); ops = O.rcircuit(t.rng, n, t.rng.randint(2, 6), GATES, simple=True)
            c = O.build(Circuit, ops, n); c.run(); c.make_cache()
            k = t.rng.randrange(len(ops)); new = O.rop(t.rng, n, GATES, simple=True)
            c.ops[k] = O.build(Circuit, [new], n).ops[0]; ops[k] = new
            t.case(('replaced', n, repr(ops)))
            if not O.phase_close(c.run(), O.run(ops, n), 1e-6): t.fail('an operation replaced after a run is ignored', (n, k, ops))
            c.ops[:] = list(reversed(c.ops)); ops.reverse()
            if not O.phase_close(c.run(), O.run(ops, n), 1e-6): t.fail('operations reordered after a run are ignored', (n, ops))
    t.guard('operations replaced', replaced)
    def dtypes():
        if not hasattr(nb, 'DEFAULT_DTYPE'): return
        old = nb.DEFAULT_DTYPE
        try:
            c = Circuit(3).h[:].t[0].cx[0, 1].u3(.1, .2, .3)[2]
            ops = [('h', (), slice(None)), ('t', (), 0), ('cx', (), (0, 1)), ('u3', (.1, .2, .3), 2)]
            for d in (np.complex128, np.complex64, np.complex128, np.complex64):
                nb.DEFAULT_DTYPE = d; t.case(('dtype', str(d)))
                v = c.run()
                if v.dtype != d: t.fail('dtype %s' % v.dtype, str(d))
                if not O.phase_close(v, O.run(ops, 3), 1e-4): t.fail('state', str(d))
        finally: nb.DEFAULT_DTYPE = old
    t.guard('dtypes', dtypes)
    def globalphase():
        for _ in range(40):
            n = t.rng.randint(1, 3); ops = O.rcircuit(t.rng, n, t.rng.randint(1, 6), ['rx', 'rz', 'ry', 'cx', 'h', 'u3', 'y'], simple=True)
            c = O.build(Circuit, ops, n); t.case(('ignore_global', n, repr(ops)))
            a = c.run().copy(); c.run(ignore_global=True); b = c.run()
            if not O.close(a, b, 1e-7): t.fail('dropping the global phase changes later runs', (n, ops))
            c.h[0]; w = c.run()
            if not O.close(w, O.run(ops + [('h', (), 0)], n), 1e-7) : t.fail('state after extension', (n, ops))
    t.guard('ignore_global', globalphase)
    def long():
        for n, d, every in ((3, 300, 9), (2, 120, 1), (9, 60, 5), (11, 30, 3), (5, 150, 4)):
            c = Circuit(n if n > 5 else 1); ops = []; kept = []; m = n if n > 5 else 1; g0 = None
            for k in range(d):
                if m < n and k % 20 == 19: m += 1; op = ('rx', (k / 3,), m - 1)          # the register grows
                else: op = O.rop(t.rng, m, GATES, simple=True)
                w = getattr(c, op[0]); w = w(*op[1]) if op[1] else w; w[op[2]]; ops.append(op)
                if k % 20 == 19: m = max(m, c.n_qubits)
                if k % every == 0:
                    t.case(('long', n, k)); want = O.run(ops, c.n_qubits)
                    if k % (4 * every) == 0: c.make_cache()
                    v = c.run()
                    if not O.phase_close(v, want, 1e-6): t.fail('state after %d operations run in between' % (k + 1), (n, ops)); return
                    kept.append((v, v.copy()))
                    if k % (7 * every) == 0: c = c.copy()
            for v, w in kept:
                if not np.array_equal(v, w): t.fail('a state returned earlier was altered later', (n, d)); return
            # many other circuits run on the same backend objects in between, then the first again
            for j in range(60):
                x = O.rcircuit(t.rng, 2, 3, GATES, simple=True)
                if not O.phase_close(O.build(Circuit, x, 2).run(), O.run(x, 2), 1e-6): t.fail('another circuit', x)
            if not O.phase_close(c.run(), O.run(ops, c.n_qubits), 1e-6): t.fail('state after many other runs', (n, d))
            for cut in (d // 2, d // 3, 2):                                              # operations removed again
                del c.ops[cut:]
                if not O.phase_close(c.run(), O.run(ops[:cut], c.n_qubits), 1e-6): t.fail('state after operations were removed', (n, cut)); return
    t.guard('long histories', long)
