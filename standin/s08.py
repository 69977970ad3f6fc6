import numpy as np
import oracle as O
from blueqat import Circuit
import blueqat.gate as gate
def snap(c): return (c.n_qubits, [(id(o), o.lowername, o.targets, tuple(o.params), dict(o.kwargs)) for o in c.ops])
def sem(c): return (c.n_qubits, [(o.lowername, repr(o.targets), tuple(o.params), repr(sorted(o.kwargs.items()))) for o in c.ops])
def rc(t, simple=False):
    n = t.rng.randint(0, 4)
    ops = O.rcircuit(t.rng, n, t.rng.randint(0, 6), simple=simple) if n else []
    c = O.build(Circuit, ops, n)
    if n and t.rng.random() < .4: c.m[t.rng.randrange(n)]
    return c
def low(g): return {'cnot': 'cx', 'r': 'phase', 'cr': 'cphase', 'toffoli': 'ccx', 'm': 'measure', 'fredkin': 'cswap'}.get(g, g)
def check(t):
    t.rule = 'random circuits added, copied and extended; every gate applied; refused operations'
    t.bounds = ['circuits of at most 4 qubits and 7 operations (43 qubits and 300 operations for a few)']
    def add():
        for _ in range(400):
            a, b = rc(t), rc(t); t.case(('add', repr(a), repr(b)))
            if t.rng.random() < .5 and a.n_qubits: a.run()
            sa, sb = snap(a), snap(b)
            s = a + b
            if snap(a) != sa or snap(b) != sb: t.fail('adding circuits changed an operand', (repr(a), repr(b)))
            if sem(s) != (max(a.n_qubits, b.n_qubits), sem(a)[1] + sem(b)[1]): t.fail('sum is not the operations in order', (repr(a), repr(b), repr(s)))
            s.x[5]; s.h[0]
            if snap(a) != sa or snap(b) != sb: t.fail('extending the sum changed an operand', (repr(a), repr(b)))
            w = a + b; before = snap(w); a.z[6]; b.y[7]
            if snap(w) != before: t.fail('extending an operand changed the sum', (repr(a), repr(b)))
    t.guard('sum', add)
    def iadd():
        for _ in range(300):
            a, b = rc(t), rc(t); t.case(('iadd', repr(a), repr(b)))
            b = a if t.rng.random() < .15 else b
            sa, sb = sem(a), sem(b); ib = snap(b)
            a0 = a; a += b
            if a is not a0: t.fail('in-place sum made a new circuit', repr(a))
            if sem(a) != (max(sa[0], sb[0]), sa[1] + sb[1]): t.fail('in-place sum is not the operations in order', (sa, sb))
            if b is not a and snap(b) != ib: t.fail('in-place sum changed its right operand', (sa, sb))
            if b is not a:
                a.x[5]
                if snap(b) != ib: t.fail('extending after the in-place sum changed the right operand', (sa, sb))
                k = snap(a); b.y[6]
                if snap(a) != k: t.fail('extending the right operand changed the left', (sa, sb))
        for bad in (1, None, [], 'x', gate.XGate(0)):
            c = Circuit(2).h[0]; k = snap(c); t.case(('bad operand', repr(bad)[:20]))
            try: c + bad; t.fail('sum with %r' % type(bad), '')
            except TypeError: pass
            try:
                c += bad; t.fail('in-place sum with %r' % type(bad), '')
            except TypeError: pass
            if snap(c) != k: t.fail('a refused sum changed the circuit', repr(bad)[:20])
    t.guard('in-place sum', iadd)
    def cp():
        for _ in range(300):
            a = rc(t, True); t.case(('copy', repr(a)))
            if a.n_qubits and t.rng.random() < .6: a.run()
            if t.rng.random() < .3: a.set_default_backend('qasm_output')
            s = snap(a)
            kw = t.rng.choice([{}, {'copy_backends': False}, {'copy_default_backend': False}, {'copy_backends': True}])
            b = a.copy(**kw)
            if b is a or b.ops is a.ops: t.fail('copy shares the operation list', repr(a))
            if sem(b) != sem(a): t.fail('copy differs', (repr(a), repr(b)))
            want = a.get_default_backend_name() if kw.get('copy_default_backend', True) else 'numpy'
            if b.get_default_backend_name() != want: t.fail('default backend of the copy', (repr(a), kw))
            b.x[4]; b.h[0]
            if snap(a) != s: t.fail('extending a copy changed the original', repr(a))
            b = a.copy(); k = snap(b); a.y[5]
            if snap(b) != k: t.fail('extending the original changed the copy', repr(a))
            d0 = a.get_default_backend_name(); b = a.copy(); b.set_default_backend('sympy_unitary')
            if a.get_default_backend_name() != d0: t.fail('setting the default backend of a copy changes the original', repr(a))
            if a.n_qubits <= 6: 
                x = a.copy(); x.run(backend='numpy'); 
                if sem(x) != sem(a): t.fail('running a copy changed it', repr(a))
    t.guard('copy', cp)
    def each():
        class Opt: pass
        for g in list(O.G) + ['measure', 'reset', 'm', 'cnot', 'toffoli']:
            if not hasattr(Circuit(), g): continue
            k, p, _ = O.G[low(g)] if low(g) in O.G else (1, 0, None)
            for _ in range(4):
                tg = tuple(t.rng.sample(range(4), k)); tg = tg[0] if k == 1 else tg
                ps = tuple(O.rangle(t.rng) for _ in range(p)); kw = {'option': 3} if t.rng.random() < .5 else {}
                c = Circuit(1).x[0]; first = c.ops[0]
                w = getattr(c, g)
                if ps or kw: w = w(*ps, **kw)
                t.case((g, tg, ps, repr(kw)))
                if len(c.ops) != 1: t.fail('naming a gate already added it', g)
                r = w[tg]
                if r is not c: t.fail('applying a gate does not return the circuit', g)
                if len(c.ops) != 2 or c.ops[0] is not first: t.fail('not exactly one operation was appended', g); continue
                o = c.ops[1]
                if o.lowername != low(g) or o.targets != tg or tuple(o.params) != ps or o.kwargs != kw: t.fail('operation appended is %r' % ((o.lowername, o.targets, o.params, o.kwargs),), (g, tg, ps, kw))
                if c.n_qubits != max([1] + [q + 1 for q in (tg if k > 1 else (tg,))]): t.fail('register size', (g, tg))
    t.guard('every gate', each)
    def refused():
        bad = []
        for tg in ('a', 1.5, None, [0], {}, ('a',), (0, 'b'), (0, None), (1.0,), object(), slice('a', 2), slice(None, 1.5)):
            for g in ('x', 'cx', 'rx', 'm', 'reset', 'ccx', 'u3', 'cu3', 'swap'): bad.append((g, tg))
        for g, tg in bad:
            c = Circuit(2).h[0]; k = snap(c); t.case(('refused', g, repr(tg)[:30]))
            try:
                w = getattr(c, g); p = O.G[g][1] if g in O.G else 0
                w = w(*[.1] * p) if p else w
                w[tg]
            except Exception:
                if snap(c) != k: t.fail('a refused operation changed the circuit', (g, repr(tg)))
            else:
                t.fail('targets accepted', (g, repr(tg)))
        for g, args, kw in (('rx', (), {}), ('x', (.1, .2, .3), {}), ('u3', (.1,), {}), ('u2', (.1, .2, .3), {}), ('rx', (.1, .2), {}), ('cu3', (1,), {}), ('cphase', (), {})):
            c = Circuit(2).h[0]; k = snap(c); t.case(('refused args', g, args))
            try: getattr(c, g)(*args, **kw)[0 if g[0] != 'c' else (0, 1)]
            except Exception: pass
            else:
                if g != 'x': t.fail('arguments accepted', (g, args))
                continue
            if snap(c) != k: t.fail('a refused operation changed the circuit', (g, args))
        for name in ('nogate', 'X', 'run_with_nothing', '_x', 'cxx'):
            c = Circuit(2).h[0]; k = snap(c); t.case(('name', name))
            try: getattr(c, name); t.fail('unknown name accepted', name)
            except AttributeError: pass
            if snap(c) != k: t.fail('an unknown name changed the circuit', name)
        c = Circuit(2)
        c.x; c.rx(.1); c.cx
        if c.ops or c.n_qubits != 2: t.fail('naming gates changed the circuit', '')
    t.guard('refused', refused)
    def sep():
        """wrappers of different gates and circuits do not interfere"""
        for _ in range(60):
            a, b = Circuit(), Circuit()
            wa, wb, wc = a.rx(.1), b.rx(.2), a.ry(.3); t.case('wrappers')
            wc[0]; wb[1]; wa[2]; wa[0]
            if sem(a)[1] != [('ry', '0', (.3,), '[]'), ('rx', '2', (.1,), '[]'), ('rx', '0', (.1,), '[]')] or sem(b)[1] != [('rx', '1', (.2,), '[]')]: t.fail('parameters mixed up between wrappers', (repr(a), repr(b)))
            break
        x, y = Circuit(), Circuit()
        x.h[0]
        if y.ops: t.fail('new circuits share their operations', '')
        x = Circuit(2); s = x.copy(); s.h[0]
        if x.ops: t.fail('copy of an empty circuit shares its list', '')
        z = Circuit(3) + Circuit(2); z.h[0]
    t.guard('separate circuits', sep)
    def meaning():
        for _ in range(80):
            n, m = t.rng.randint(1, 4), t.rng.randint(1, 4)
            p, q = O.rcircuit(t.rng, n, 4, simple=True), O.rcircuit(t.rng, m, 4, simple=True); N = max(n, m)
            a, b = O.build(Circuit, p, n), O.build(Circuit, q, m); t.case(('meaning', n, m, repr(p), repr(q)))
            if t.rng.random() < .5: a.run()
            if t.rng.random() < .5: b.run()
            if not O.phase_close((a + b).run(), O.run(p + q, N)): t.fail('the sum does not act as first then second', (n, m, p, q))
            if not O.phase_close(a.run(), O.run(p, n)): t.fail('operand acts differently after the sum', (n, m, p, q))
            a += b
            if not O.phase_close(a.run(), O.run(p + q, N)): t.fail('the in-place sum does not act as first then second', (n, m, p, q))
    t.guard('meaning', meaning)
    def large():
        for n, d in ((4, 200), (17, 90), (40, 300)):
            p, q = O.rcircuit(t.rng, n, d), O.rcircuit(t.rng, n + 3, d // 2); a, b = O.build(Circuit, p, n), O.build(Circuit, q, n + 3); t.case(('large', n, d))
            sa, sb = sem(a), sem(b); ka, kb = snap(a), snap(b)
            s = a + b
            if sem(s) != (n + 3, sa[1] + sb[1]) or snap(a) != ka or snap(b) != kb: t.fail('sum of large circuits', (n, d))
            s = b + a
            if sem(s) != (n + 3, sb[1] + sa[1]): t.fail('sum of large circuits', (n, d))
            w = a.copy(); w += O.build(Circuit, p, n + 9); w2 = O.build(Circuit, p, n + 9) + a        # qubits that no operation names
            if sem(w) != (n + 9, sa[1] * 2) or sem(w2) != (n + 9, sa[1] * 2): t.fail('sum of large circuits with unused qubits: %d qubits' % w.n_qubits, (n, d))
            c = a.copy()
            if sem(c) != sa: t.fail('copy of a large circuit', (n, d))
            c.h[0]; c += b
            if snap(a) != ka or snap(b) != kb: t.fail('extending a copy changed an operand', (n, d))
            if sem(c) != (n + 3, sa[1] + [('h', '0', (), '[]')] + sb[1]): t.fail('in-place sum of large circuits', (n, d))
            c = Circuit()
            for k in range(60): c += Circuit().x[k].cx[k, 0] if k else Circuit().h[0]
            if c.n_qubits != 60 or len(c.ops) != 119: t.fail('many in-place sums', c.n_qubits)
            for k in range(5): c += c
            if len(c.ops) != 119 * 32 or [o.lowername for o in c.ops[119:238]] != [o.lowername for o in c.ops[:119]]: t.fail('a circuit added to itself', len(c.ops))
    t.guard('large circuits', large)
