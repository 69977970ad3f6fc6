import numpy as np, collections, math
from blueqat.utils import to_inttuple, ignore_global_phase
from blueqat import Circuit
def check(t):
    t.rule = 'bit strings up to 12 characters, dictionaries and counters of them; random and sparse vectors'
    t.bounds = ['strings of at most 12 characters, vectors of at most 32 entries (200 characters, 131072 entries for a few)']
    def rs(): return ''.join(t.rng.choice('01') for _ in range(t.rng.randint(0, 12)))
    def tuples():
        for _ in range(400):
            s = rs(); t.case(('str', s)); r = to_inttuple(s)
            if r != tuple(1 if c == '1' else 0 for c in s) or type(r) is not tuple or any(type(b) is not int for b in r): t.fail('to_inttuple(%r) is %r' % (s, r), s)
        for _ in range(200):
            n = t.rng.randint(0, 8); ks = {''.join(t.rng.choice('01') for _ in range(n)) for _ in range(t.rng.randint(0, 6))}
            d = {k: t.rng.choice([t.rng.randint(-5, 100), t.rng.random(), 'v', None]) for k in ks}; c = collections.Counter({k: t.rng.randint(0, 99) for k in ks})
            for x in (d, c, collections.OrderedDict(d), collections.defaultdict(int, c)):
                b = dict(x); t.case(('dict', repr(sorted(map(repr, b.items()))))); r = to_inttuple(x)
                w = {tuple(int(ch) for ch in k): v for k, v in b.items()}
                if dict(r) != w: t.fail('to_inttuple(%r) is %r' % (b, r), repr(b))
                if isinstance(x, collections.Counter) and not isinstance(r, collections.Counter): t.fail('a Counter does not stay one', repr(b))
                if not isinstance(r, dict): t.fail('not a dict', repr(b))
                if dict(x) != b or r is x: t.fail('the argument changed', repr(b))
        for bad in (5, None, ['01'], ('0', '1'), '0a', {'0x': 1}, b'01', 3.5, '0 1x'):
            t.case(('bad', repr(bad)))
            try: r = to_inttuple(bad)
            except (ValueError, TypeError): pass
            else: t.fail('%r is accepted and gives %r' % (bad, r), repr(bad))
        r = to_inttuple(Circuit(3).x[1].m[:].run(shots=5))
        if dict(r) != {(0, 1, 0): 5}: t.fail('counts of a run', repr(r))
        for k, m in ((64, 40), (200, 500), (9, 400)):
            b = {''.join(t.rng.choice('01') for _ in range(k)): t.rng.randint(0, 9) for _ in range(m)}; t.case(('large', k, m))
            for x in (b, collections.Counter(b)):
                if dict(to_inttuple(x)) != {tuple(map(int, q)): v for q, v in b.items()}: t.fail('to_inttuple of a large table', (k, m))
            if any(to_inttuple(q) != tuple(map(int, q)) for q in b): t.fail('to_inttuple of a long string', (k, m))
    t.guard('tuples', tuples)
    def phase():
        rng = np.random.RandomState(t.seed)
        for i in range(500):
            n = int(rng.choice([1, 2, 4, 8, 16, 32])) if i % 25 else 4096; v = rng.normal(size=n) + 1j * rng.normal(size=n)
            if i % 3 == 0: v *= rng.rand(n) < .4
            if i % 7 == 0: v[0] = 0
            if i % 5 == 0: v = v * 10 ** rng.uniform(-3, 3)
            if i % 11 == 0: v = np.where(np.arange(n) == rng.randint(n), np.exp(1j * rng.uniform(0, 6.3)), 0)
            v = v.astype(complex); old = v.copy(); t.case(('phase', n, repr(old[:3])))
            r = ignore_global_phase(v)
            if r is not v: t.fail('not the same array', repr(old))
            nz = [k for k in range(n) if abs(old[k]) > 1e-6]
            if not nz:
                if not np.array_equal(v, old): t.fail('zero vector changed', repr(old))
                continue
            k = nz[0]
            if not (abs(v[k].imag) < 1e-9 * abs(v[k]) + 1e-12 and v[k].real > 0): t.fail('first amplitude is %r' % v[k], repr(old))
            f = v[k] / old[k]
            if abs(abs(f) - 1) > 1e-9 or not np.allclose(v, f * old, rtol=1e-9, atol=1e-12): t.fail('not one unit factor', repr(old))
            w = old * np.exp(1j * rng.uniform(0, 6.28)); ignore_global_phase(w)
            if not np.allclose(v, w, atol=1e-9 * np.abs(old).max()): t.fail('vectors equal up to phase become different', repr(old))
        for n, k in ((1 << 12, 4000), (1 << 15, 1 << 14), (1 << 17, 100001), (1 << 14, 1)):
            v = np.zeros(n, complex); v[k] = -.6j; v[-1] = .8; t.case(('phase', n, k)); ignore_global_phase(v)
            if abs(v[k] - .6) > 1e-9 or abs(v[-1] - .8j) > 1e-9 or np.count_nonzero(v) != 2: t.fail('large vector', (n, k))
        for a in (1e-15, 1e-12, 1e-9, 3e-8, 1e-7, 1e-6, 1e-5):       # phases already almost right, and almost turned around
            for f in (1, -1, 1j, -1j):
                v = np.array([0, .6, .8j]) * f * np.exp(1j * a); t.case(('phase', 'angle', a, f)); ignore_global_phase(v)
                if abs(v[1] - .6) > 1e-14 or abs(v[2] - .8j) > 1e-14: t.fail('angle %g, %r' % (a, f), (a, str(f)))
        z = np.zeros(4, complex); ignore_global_phase(z)
        if z.any(): t.fail('zero vector', 'zeros')
        for dt in (np.complex64, np.complex128):
            v = np.array([0, 1j, .5], dt); r = ignore_global_phase(v)
            if r is not v or v.dtype != dt or not np.allclose(v, [0, 1, -.5j], atol=1e-6): t.fail('dtype %s: %r' % (dt, v), 'dtype')
    t.guard('phase', phase)
