import itertools, numpy as np
import oracle as O
from blueqat import Circuit
import blueqat.gate as gate
class Idx:
    """an integer-like object"""
    def __init__(self, i): self.i = i
    def __index__(self): return self.i
def plain(a):
    if isinstance(a, tuple): return tuple(plain(x) for x in a)
    if isinstance(a, slice): return slice(*(None if x is None else int(x.__index__()) for x in (a.start, a.stop, a.step)))
    return int(a.__index__())
def show(a):
    return repr(plain(a))
def need(a):
    """smallest register that contains what a target names"""
    if isinstance(a, tuple): return max([need(x) for x in a], default=0)
    if isinstance(a, slice):
        n = 0
        if a.start is not None: n = max(n, a.start.__index__() + 1)
        if a.stop is not None: n = max(n, a.stop.__index__())
        return n
    return max(0, a.__index__() + 1)
def one(t, a, n):
    t.case((show(a), n))
    want = O.targets(plain(a), n)
    op = gate.XGate(a)
    got = list(op.target_iter(n))
    if [int(x) for x in got] != want: t.fail('targets denote %r, indexing gives %r' % (got, want), (show(a), n))
    got = list(gate.slicing(a, n))
    if [int(x) for x in got] != want: t.fail('resolved as %r, indexing gives %r' % (got, want), (show(a), n))
def pair(t, a, n):
    t.case(('pair', show(a), n))
    cs, ts = O.targets(plain(a[0]), n), O.targets(plain(a[1]), n)
    ok = len(cs) == len(ts) and all(x != y for x, y in zip(cs, ts))
    try: got = [(int(x), int(y)) for x, y in gate.CXGate(a).control_target_iter(n)]
    except ValueError: got = None
    if ok and got != list(zip(cs, ts)): t.fail('pairs denote %r, expected %r' % (got, list(zip(cs, ts))), (show(a), n))
    if not ok and got is not None: t.fail('accepted as %r' % (got,), (show(a), n))
def grow(t, named, n0):
    t.case(('grow', [show(x) for x in named], n0))
    c = Circuit(n0); want = n0
    for a in named:
        if isinstance(a, tuple) and len(a) == 2 and t.rng.random() < .4 and not any(isinstance(x, tuple) for x in a): c.cx[a]
        else: c.x[a]
        want = max(want, need(a))
        if c.n_qubits != want: t.fail('register has %d qubits after naming %s, expected %d' % (c.n_qubits, show(a), want), ([show(x) for x in named], n0)); return
def check(t):
    t.rule = 'all slices with bounds in -7..7 and small steps, integers, tuples; random pair specifications and growth histories'
    t.bounds = ['register lengths up to 6 exhaustively (to 3000 at random)']
    for c in t.cases:
        a = eval(c['targets']) if isinstance(c['targets'], str) else c['targets']
        t.guard('replay', (pair if c.get('pair') else one), t, a, c['n'])
    def singles():
        bd = [None] + list(range(-7, 8)); st = [None, 1, 2, 3, 7, -1, -2, -3, -7]
        for n in range(0, 7):
            for q in range(-n, n): one(t, q, n); one(t, np.int64(q), n); one(t, Idx(q), n)
            for a in bd:
                for b in bd:
                    for s in (st if n in (1, 3, 4, 6) else [None, -1, 2]):
                        one(t, slice(a, b, s), n)
        for _ in range(3000 if t.thorough else 600):
            n = t.rng.randint(1, 40)
            a = slice(*[t.rng.choice([None, t.rng.randint(-60, 60)]) for _ in range(2)], t.rng.choice([None, 1, 5, -1, -4, 50, -50]))
            one(t, a, n)
        for _ in range(600):
            n = t.rng.randint(1, 6)
            one(t, tuple(O.rtarget1(t.rng, n, ('int', 'neg', 'slice')) for _ in range(t.rng.randint(0, 4))), n)
        one(t, (Idx(1), np.int32(0), slice(Idx(0), Idx(2))), 3); one(t, (True, False), 3)
        for _ in range(60):
            n = t.rng.choice([64, 65, 1000, 3000]); a = slice(*[t.rng.choice([None, t.rng.randint(-4000, 4000)]) for _ in range(2)], t.rng.choice([None, 1, 7, -1, -3, 500]))
            one(t, a, n); one(t, t.rng.randint(-n, n - 1), n); one(t, tuple(t.rng.randint(-n, n - 1) for _ in range(90)), n)
            k = t.rng.randint(65, 300); one(t, tuple(t.rng.randrange(20) for _ in range(k)) + (slice(3, 9, 2), t.rng.randint(20, n - 1)), n)
            one(t, tuple(t.rng.choice([slice(1, 5), 2, slice(0, 8, 3)]) for _ in range(k)) + (slice(20, t.rng.randint(30, n)),), n)
    t.guard('single targets', singles)
    def pairs():
        for n in range(1, 5):
            for a in itertools.product(range(-n, n), repeat=2): pair(t, a, n)
        for _ in range(1500):
            n = t.rng.randint(1, 6)
            pair(t, (O.rtarget1(t.rng, n), O.rtarget1(t.rng, n)), n)
        for bad in (0, slice(0, 2), (0,), (0, 1, 2), [0, 1], (), None):
            t.case(('bad pair', repr(bad)))
            try: list(gate.CXGate(bad).control_target_iter(3)); t.fail('not a pair, accepted', repr(bad))
            except (ValueError, TypeError): pass
        for bad in ('a', 1.5, None):
            t.case(('bad index', repr(bad)))
            try: list(gate.XGate(bad).target_iter(3)); t.fail('not an index, accepted', repr(bad))
            except TypeError: pass
    t.guard('pairs', pairs)
    def long():
        for _ in range(60):
            k = t.rng.randint(65, 300); a = t.rng.choice([lambda: t.rng.randrange(20), lambda: t.rng.choice([slice(1, 5), 2, slice(0, 8, 3), -1])])
            l = [a() for _ in range(k)]; l.insert(t.rng.randint(0, k), t.rng.choice([slice(20, t.rng.randint(30, 90)), t.rng.randint(20, 90), slice(None, 40), slice(33, None)]))
            grow(t, [tuple(l)], t.rng.randint(0, 10))
            c = gate.find_n_qubits([gate.XGate(0)] * t.rng.randint(0, 90) + [gate.XGate(tuple(l))] + [gate.XGate(1)] * t.rng.randint(0, 90)); w = max(2, need(tuple(l)))
            if c != w and c < w: t.fail('find_n_qubits gives %d, %d are named' % (c, w), show(tuple(l)))
    t.guard('long lists of targets', long)
    def growth():
        for _ in range(500):
            named = []
            for _ in range(t.rng.randint(1, 5)):
                k = t.rng.choice('insT')
                bd = lambda: t.rng.choice([None, t.rng.randint(-6, 9)])
                if k == 'i': named.append(t.rng.randint(0, 9))
                elif k == 'n': named.append(-1 - t.rng.randint(0, 5))
                elif k == 's': named.append(slice(bd(), bd(), t.rng.choice([None, 1, 2, -1, -3])))
                else: named.append(tuple(t.rng.choice([t.rng.randint(-4, 9), slice(bd(), bd(), t.rng.choice([None, -1, 2])), Idx(t.rng.randint(-2, 7))]) for _ in range(t.rng.randint(0, 3))))
            grow(t, named, t.rng.choice([0, 0, 1, 3, 8]))
        for _ in range(20): grow(t, [t.rng.choice([t.rng.randint(0, 900), slice(t.rng.randint(0, 500), t.rng.randint(0, 900), t.rng.choice([1, 3, -1, -7])), tuple(t.rng.randint(-5, 700) for _ in range(20))]) for _ in range(40)], t.rng.choice([0, 70]))
    t.guard('growth', growth)
    def fnq():
        for _ in range(200):
            named = [O.rtarget1(t.rng, 6) for _ in range(t.rng.randint(0, 4))]
            t.case(('find_n_qubits', repr(named)))
            got = gate.find_n_qubits([gate.XGate(a) for a in named]); want = max([need(a) for a in named], default=0)
            if got != want and not (want == 0 and got <= 0): t.fail('register for a list of gates: %r, expected %r' % (got, want), repr(named))
    t.guard('find_n_qubits', fnq)
    def whole():
        """seen through the simulator: which qubits X flips, and late resolution of negative/open targets"""
        for _ in range(150):
            n = t.rng.randint(1, 6); a = O.rtarget1(t.rng, n)
            t.case(('run', n, repr(a)))
            v = Circuit(n).x[a].run()
            k = 0
            for q in O.targets(a, n): k ^= 1 << q
            if abs(v[k]) < .999: t.fail('x on %r flipped other qubits than indexing gives' % (a,), (n, repr(a), int(np.argmax(abs(v)))))
        for a in (slice(None), -1, slice(None, None, -1), slice(-2, None), (-1, 0), slice(1, None)):
            t.case(('late', repr(a)))
            c = Circuit(2).x[a]; c.i[4]
            k = 0
            for q in O.targets(a, 5): k ^= 1 << q
            v = c.run()
            if abs(v[k]) < .999: t.fail('target not resolved against the register at the run', repr(a))
        for _ in range(60):
            n = t.rng.randint(2, 5); a = O.rtarget2(t.rng, n)
            t.case(('run pair', n, repr(a)))
            if not O.close(Circuit(n).h[:].t[0].cx[a].run(), O.run([('h', (), slice(None)), ('t', (), 0), ('cx', (), a)], n)): t.fail('cx on %r' % (a,), (n, repr(a)))
    t.guard('through the simulator', whole)
    def again():
        """one operation resolved for several register lengths in any order"""
        for _ in range(150):
            a = O.rtarget1(t.rng, 4); op = gate.XGate(a); b = (O.rtarget1(t.rng, 4), O.rtarget1(t.rng, 4)); op2 = gate.CXGate(b)
            for n in [t.rng.randint(4, 9) for _ in range(5)]:
                t.case(('again', n, repr(a), repr(b)))
                if list(op.target_iter(n)) != O.targets(a, n): t.fail('resolved for several registers: %r' % (list(op.target_iter(n)),), (n, repr(a))); break
                cs, ts = O.targets(b[0], n), O.targets(b[1], n); ok = len(cs) == len(ts) and all(x != y for x, y in zip(cs, ts))
                try: got = list(op2.control_target_iter(n))
                except ValueError: got = None
                if got != (list(zip(cs, ts)) if ok else None): t.fail('pairs resolved for several registers: %r' % (got,), (n, repr(b))); break
        for _ in range(40):
            for c, ops, n in O.history(t.rng, Circuit, 10, 5, ['x', 'cx', 'swap']):
                k = int(np.argmax(abs(O.run(ops, n)))); t.case(('history', n, repr(ops)))
                if abs(c.run()[k]) < .999: t.fail('a circuit changed step by step acts on other qubits', (n, repr(ops))); break
    t.guard('again', again)
