"""The compiled kernels run as the Python functions they are written as: `numba` is absent here, so a stand-in module
supplies njit/jit/prange and the integer types (Python integers; arrays of them wrap at 64 bits).  prange runs its
iterations in a chosen order and the state array records which iteration touches which amplitude."""
import sys, types, itertools, random, numpy as np
import oracle as O
M64 = 2 ** 64 - 1
class Ty:
    def __init__(self, name): self.name = name
    def __call__(self, *a):
        if len(a) == 1 and not isinstance(a[0], Ty): return int(a[0]) & M64
        return self
    def __getitem__(self, k): return self
class Ints(list):
    """an unsigned integer array"""
    def __setitem__(self, k, v):
        if isinstance(k, slice): list.__setitem__(self, k, [int(x) & M64 for x in (v if hasattr(v, '__iter__') else [v] * len(self[k]))])
        else: list.__setitem__(self, k, int(v) & M64)
    def __getitem__(self, k):
        r = list.__getitem__(self, int(k) if not isinstance(k, slice) else k)
        return Ints(r) if isinstance(k, slice) else r
    def copy(self): return Ints(self)
    def max(self): return max(self)
    def min(self): return min(self)
    size = property(len); shape = property(lambda s: (len(s),))
    def astype(self, *a): return Ints(self)
class State:
    order = None; cur = None; depth = 0; log = None; conflict = None; rng = random.Random(1)
S = State()
def prange(*a):
    r = list(range(*[int(x) for x in a]))
    if S.depth: yield from r; return      # numba runs nested ones serially
    if S.order == 'rev': r.reverse()
    elif S.order == 'shuffle': S.rng.shuffle(r)
    S.log = {}
    S.depth += 1
    try:
        for i in r:
            S.cur = i
            yield i
    finally:
        S.depth -= 1; S.cur = None; S.log = None
def touch(k, write):
    if S.cur is None: return
    w, who = S.log.get(k, (False, S.cur))
    if who != S.cur and (w or write): S.conflict = (k, who, S.cur)
    S.log[k] = (w or write, S.cur if write or not w else who)
class Rec(np.ndarray):
    def _keys(self, k):
        if S.cur is None: return []
        try: return [int(k)] if not isinstance(k, (slice, tuple, list, np.ndarray)) else np.arange(len(self))[k].reshape(-1).tolist()
        except Exception: return list(range(len(self)))
    def __getitem__(self, k):
        for x in self._keys(k): touch(x, False)
        if isinstance(k, int) and S.cur is not None and k < 0: S.conflict = ('negative index', k, S.cur)
        return np.ndarray.__getitem__(self, k)
    def __setitem__(self, k, v):
        for x in self._keys(k): touch(x, True)
        np.ndarray.__setitem__(self, k, v)
def isint(d):
    try: return np.dtype(d).kind in 'u'
    except TypeError: return isinstance(d, Ty)
class NP:
    """numpy, with unsigned integer arrays of the kernels' own as lists of Python integers"""
    def __getattr__(self, name):
        f = getattr(np, name)
        if name in ('zeros', 'empty', 'ones', 'full', 'array', 'asarray', 'arange', 'fromiter'):
            def g(*a, **k):
                d = k.get('dtype', a[-1] if len(a) > 1 else None)
                if d is not None and not isinstance(d, (int, list, tuple)) and isint(d):
                    k = {x: y for x, y in k.items() if x != 'dtype'}; b = a if 'dtype' in k or len(a) == 1 else a[:1]
                    return Ints(int(x) & M64 for x in np.asarray(f(*b, **k)).reshape(-1).tolist())
                r = f(*a, **k)
                return r.view(Rec) if r.dtype.kind == 'c' else r
            return g
        return f
def deco(*a, **k):
    if len(a) == 1 and callable(a[0]) and not isinstance(a[0], Ty) and not k: return a[0]
    return lambda f: f
def fake():
    m = types.ModuleType('numba')
    m.jit = m.njit = m.vectorize = m.guvectorize = deco; m.prange = prange
    for n in ('uint8', 'uint16', 'uint32', 'uint64', 'int8', 'int16', 'int32', 'int64', 'intp', 'uintp', 'float32', 'float64', 'complex64', 'complex128', 'boolean', 'void'): setattr(m, n, Ty(n))
    m.types = m; m.typeof = lambda x: Ty('?')
    return m
def check(t):
    t.rule = 'every gate with a kernel, every placement on up to 4 qubits; three iteration orders; accesses of different iterations compared'
    t.bounds = ['registers of at most 7 qubits (10 for a few); the compiler itself is absent: the kernels run as Python functions']
    if 'numba' not in sys.modules: sys.modules['numba'] = fake()
    from blueqat import Circuit, BlueqatGlobalSetting as B
    import blueqat.backends._numba_backend_impl as impl
    if hasattr(impl, 'np'): impl.np = NP()
    import s05, s07, blueqat.gate as gate
    r = np.random.RandomState(t.seed)
    old = B.get_default_backend_name()
    def direct(n, ops, pre):
        inp = (n, ops); t.case(inp)
        want = O.run(pre + ops, n)
        for order in (None, 'rev', 'shuffle'):
            S.order = order; S.conflict = None
            c = O.build(Circuit, pre, n)
            for g, ps, tg in ops:
                if g == 'ccz': c.ops.append(gate.CCZGate(tg))     # has no name on Circuit
                else: O.build(lambda _: c, [(g, ps, tg)], n)
            v = np.array(c.run(backend='numba'))
            if not (O.close(v, want) if exact(pre + ops) else O.phase_close(v, want)): t.fail('the state is not the product of the gate matrices (iteration order %s)' % order, inp); return
            if S.conflict: t.fail('two parallel iterations access one amplitude: %r' % (S.conflict,), inp); return
    def exact(ops):
        be = impl.NumbaBackend
        return all(hasattr(be, 'gate_' + g) for g, _, _ in ops)
    def sweep():
        for g in O.G:
            k, p, _ = O.G[g]
            if k == 3: tg = [(n, q) for n in (3, 4) for q in itertools.permutations(range(n), 3)]
            elif k == 2: tg = [(n, q) for n in (2, 3, 4) for q in itertools.permutations(range(n), 2)] + [(5, O.rtarget2(t.rng, 5)) for _ in range(4)] + [(4, (slice(0, 2), slice(2, 4))), (5, (slice(0, 3), slice(1, 4)))]
            else: tg = [(n, q) for n in (1, 2, 3, 4) for q in range(n)] + [(n, O.rtarget1(t.rng, n)) for n in (3, 5) for _ in range(4)] + [(3, (0, 0)), (3, slice(None)), (2, ())]
            for n, q in tg:
                direct(n, [(g, tuple(O.rangle(t.rng) for _ in range(p)), q)], s05.prep(n, r)[0])
    t.guard('every gate', sweep)
    def rnd():
        for _ in range(200 if t.thorough else 60):
            n = t.rng.randint(1, 7); direct(n, O.rcircuit(t.rng, n, t.rng.randint(1, 10)), [])
        for n, d in ((9, 12), (10, 6), (3, 90), (2, 150)): direct(n, O.rcircuit(t.rng, n, d), [('h', (), slice(None)), ('t', (), slice(0, None, 2))])
    t.guard('random circuits', rnd)
    B.set_default_backend('numba')
    try:
        S.order = 'shuffle'
        def meas():
            for i in range(60):
                n = t.rng.randint(1, 4); ops, psi = s05.prep(n, r); tail = []
                for _ in range(t.rng.randint(1, 4)):
                    tail.append((t.rng.choice(['m', 'reset']), (), O.rtarget1(t.rng, n)))
                    if t.rng.random() < .5: tail.append(O.rop(t.rng, n, ['h', 'x', 'rx', 'cx', 's', 'u3'], simple=True))
                s05.one(t, n, ops, psi, tail)
            for n in (1, 2, 3):
                for q in range(n):
                    ops, psi = s05.prep(n, r)
                    for g in ('m', 'reset'): s05.frac(t, n, ops, psi, g, q, 51)
            for n, tail in [(2, [('m', (), slice(None))]), (3, [('m', (), 1), ('h', (), 1), ('m', (), slice(None))]), (3, [('m', (), slice(None)), ('reset', (), 1), ('h', (), 1), ('m', (), 1)]), (2, [('reset', (), 1), ('m', (), 1)])]:
                ops, psi = s05.prep(n, r); s05.chi(t, n, ops, psi, tail, 600)
            if S.conflict: t.fail('two parallel iterations access one amplitude: %r' % (S.conflict,), 'measurement')
        t.guard('measurement and reset', meas)
        def certain():
            for n in (1, 2, 3):
                for bits in itertools.product((0, 1), repeat=n):
                    for u in (0.0, 0.5, 1 - 2 ** -53):
                        ops = [('x', (), q) for q in range(n) if bits[q]]; t.case(('certain', bits, u))
                        with s05.Draws([u] * 8): v, key = s05.after(ops, n, [('m', (), slice(None))])
                        if key != ''.join(map(str, bits)): t.fail('a certain outcome was measured as %s' % key, (bits, u))
        t.guard('certain outcomes', certain)
        def hist():
            for _ in range(40): s07.history(t, t.rng.randint(4, 25), t.rng.random() < .5)
            s05.changing(t, 15)
            for _ in range(10):
                for c, ops, n in O.history(t.rng, Circuit, 8, 4):
                    t.case(('slices', n, repr(ops)))
                    if not O.phase_close(c.run(), O.run(ops, n), 1e-6): t.fail('a circuit changed step by step: wrong state', (n, ops)); break
        t.guard('histories', hist)
        def precisions():
            """a run in one precision after one in the other"""
            for i in range(12):
                n = t.rng.randint(1, 3); ops = s05.prep(n, r)[0] + [('h', (), 0), ('t', (), 0), ('rx', (.7,), n - 1)]; want = O.run(ops, n); c = O.build(Circuit, ops, n); c.ops[0:0] = []
                for d in [(np.complex64, np.complex128, np.complex64), (np.complex128, np.complex64, np.complex128)][i % 2]:
                    k = t.rng.choice([{}, {}, {'enable_cache': False}]); t.case(('precision', n, repr(ops), str(d)))
                    v = np.array(c.run(dtype=d, **k))
                    if v.dtype != d: t.fail('a run in %s gives %s' % (d.__name__, v.dtype), (n, ops))
                    if not O.phase_close(v, want, 1e-4 if d is np.complex64 else 1e-9): t.fail('a run in %s after one in another precision' % d.__name__, (n, ops))
        t.guard('precisions', precisions)
    finally: B.set_default_backend(old)
