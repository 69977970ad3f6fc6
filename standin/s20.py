import numpy as np
import oracle as O
from blueqat import Circuit
from blueqat.experimental import Ops
NAMES = [g for g in O.G if g not in ('rxx', 'ryy', 'rzz', 'cswap', 'ccz')]
def desc(o): return (o.n_qubits, [(type(x).__name__, repr(x.targets), tuple(x.params), tuple(sorted(x.kwargs.items()))) for x in o.ops])
def build(ops, n, o=None):
    o = Ops(n) if o is None else o
    for g, ps, tg in ops:
        w = getattr(o, t_alias(g))
        o = (w(*ps) if ps else w)[tg]
    return o
def t_alias(g): return g
def need(ops, n):
    return O.build(Circuit, ops, n).n_qubits
def check(t):
    t.rule = 'random sequences built, shared, concatenated and conjugated; every earlier value compared with its snapshot at the end'
    t.bounds = ['at most 4 qubits, sequences of at most 12 operations (70 qubits, 300 operations for a few)']
    def one(): 
        pool = [(Ops(), [], 0)]; snaps = []
        for _ in range(30):
            k = t.rng.randrange(6); o, ops, n = t.rng.choice(pool)
            if k <= 2 or not o.ops:
                m = max(n, t.rng.randint(1, 4)); 
                if k == 2: o2, ops2, n2 = Ops(m), [], m
                else: o2, ops2, n2 = o, ops, n
                new = O.rop(t.rng, max(n2, 3), NAMES, simple=True) if t.rng.random() < .8 or n2 < 1 else ('m', (), slice(None))
                if t.rng.random() < .2 and n2 >= 2:
                    new = O.rop(t.rng, n2, NAMES)
                    if isinstance(new[2], tuple) and any(isinstance(y, (slice, tuple)) for y in new[2]): continue   # its meaning depends on the register
                r = build([new], None, o2); ops3 = ops2 + [new]; n3 = need(ops3, n2)
                item = (r, ops3, n3)
            elif k == 3:
                p, ops2, n2 = t.rng.choice(pool); item = (o + p, ops + ops2, max(n, n2))
            elif k == 4:
                if any(x[0] in ('m', 'measure', 'reset') for x in ops):
                    try: o.dagger()
                    except ValueError: pass
                    else: t.fail('conjugate of a measurement', ops)
                    continue
                d = o.dagger(); t.case(('dagger', n, repr(ops)))
                if d.n_qubits != o.n_qubits or len(d.ops) != len(o.ops): t.fail('conjugate has another size', (n, ops))
                if n and n <= 4 and not any(isinstance(x[2], tuple) and any(isinstance(y, slice) for y in x[2]) for x in ops):
                    psi = O.rstate(np.random.RandomState(t.rng.randrange(9999)), n)
                    c = (o + d).to_circuit()
                    if not O.phase_close(c.run(), np.eye(1, 2 ** n)[0], 1e-7): t.fail('a sequence followed by its conjugate is not the identity', (n, ops))
                if desc(d.dagger().to_circuit())[0] != n: t.fail('register', n)
                continue
            else:
                c = o.to_circuit(); s = desc(o); t.case(('circuit', n, repr(ops)))
                ref = O.build(Circuit, ops, n)
                if c.n_qubits != ref.n_qubits or desc(c) != desc(ref): t.fail('circuit differs from one built directly: %r' % (desc(c),), (n, ops))
                if ref.n_qubits and not any(x[0] in ('m', 'measure') for x in ops) and not O.phase_close(c.run(), O.run(ops, ref.n_qubits), 1e-7): t.fail('results differ', (n, ops))
                c.x[5]; c.run
                if desc(o) != s: t.fail('extending the circuit changed the sequence', (n, ops))
                continue
            t.case((item[2], repr(item[1])))
            if item[0].n_qubits != item[2]: t.fail('register of %r, not %r' % (item[0].n_qubits, item[2]), item[1])
            if desc(item[0].to_circuit()) != desc(O.build(Circuit, item[1], item[2])): t.fail('operations %r' % (desc(item[0]),), item[1])
            if len(item[1]) <= 12: pool.append(item); snaps.append(desc(item[0]))
        for (o, ops, n), s in zip(pool[1:], snaps):
            if desc(o) != s: t.fail('an existing sequence changed', (s, desc(o)))
        if Ops() != (0, ()) or pool[0][0].ops != () or pool[0][0].n_qubits != 0: t.fail('the empty sequence changed', repr(pool[0][0]))
    def rnd():
        for _ in range(80 if t.thorough else 30): one()
    t.guard('random', rnd)
    def laws():
        for _ in range(200):
            a, b, c = (build(O.rcircuit(t.rng, k, t.rng.randint(0, 3), NAMES, simple=True), k) for k in (t.rng.randint(1, 4), t.rng.randint(1, 4), t.rng.randint(1, 4)))
            t.case(('laws', repr(desc(a)), repr(desc(b)), repr(desc(c))))
            if desc((a + b) + c) != desc(a + (b + c)): t.fail('concatenation is not associative', (desc(a), desc(b), desc(c)))
            if desc((a + b).dagger()) != desc(b.dagger() + a.dagger()): t.fail('conjugation does not reverse concatenation', (desc(a), desc(b)))
            if desc(a + b)[1] != desc(a)[1] + desc(b)[1] or (a + b).n_qubits != max(a.n_qubits, b.n_qubits): t.fail('concatenation', (desc(a), desc(b)))
            if not isinstance(a + b, Ops) or not isinstance(a.dagger(), Ops): t.fail('type', type(a + b).__name__)
    t.guard('laws', laws)
    def shared():
        w = Ops(2).rx      # one wrapper used twice
        a, b = Ops(2).rx(.1)[0], Ops(2).rx(.2)[1]
        base = Ops(2).h[0]; x1 = base.x[1]; x2 = base.y[0]; x3 = base.cx[0, 1]
        if [len(o.ops) for o in (base, x1, x2, x3)] != [1, 2, 2, 2] or [desc(o)[1][-1][0] for o in (base, x1, x2, x3)] != ['HGate', 'XGate', 'YGate', 'CXGate']: t.fail('branches from one sequence interfere', repr((base, x1, x2)))
        g = base.rz(.3); y1, y2 = g[0], g[1]; t.case('shared wrapper')
        if desc(y1)[1][-1] != ('RZGate', '0', (.3,), ()) or desc(y2)[1][-1] != ('RZGate', '1', (.3,), ()) or len(base.ops) != 1: t.fail('one gate used twice', repr((y1, y2)))
        for bad in (lambda: base.cx[0], lambda: base.nosuch[0], lambda: base.rx[0], lambda: base.x(1, 2, 3)[0] if False else base.nosuch, lambda: base.x['a'], lambda: base.x[1.5]):
            try: bad().to_circuit().run()
            except Exception: pass
            else: t.fail('refused operation is accepted', 'bad')
        if len(base.ops) != 1: t.fail('refused operation changed the sequence', repr(base))
        for alias, cls in (('cnot', 'CXGate'), ('r', 'PhaseGate'), ('cr', 'CPhaseGate'), ('toffoli', 'ToffoliGate'), ('measure', 'Measurement'), ('m', 'Measurement')):
            o = Ops(3); w = getattr(o, alias); tg = {'cnot': (0, 1), 'cr': (0, 1), 'toffoli': (0, 1, 2)}.get(alias, 0)
            r = (w(.2) if alias in ('r', 'cr') else w)[tg]
            if type(r.ops[-1]).__name__ != cls: t.fail('%s is %s' % (alias, type(r.ops[-1]).__name__), alias)
        r = Ops(1).m(key='k')[0]
        if r.ops[0].kwargs != {'key': 'k'} or r.to_circuit().ops[0].kwargs != {'key': 'k'}: t.fail('options are lost', repr(r.ops[0].kwargs))
    t.guard('shared', shared)
    def large():
        for n, d in ((4, 150), (25, 60), (70, 90)):
            ops = O.rcircuit(t.rng, n, d, NAMES, simple=True); vals = [Ops(n)]; t.case(('large', n, d))
            for o in ops: vals.append(build([o], None, vals[-1]))
            whole = desc(O.build(Circuit, ops, n))
            for k, v in enumerate(vals):
                if desc(v) != (n, whole[1][:k]) or desc(v.to_circuit()) != desc(v): t.fail('an earlier value of a long sequence changed', (n, k)); break
            a, b = vals[-1], vals[d // 3]; s = a + b + a
            if desc(s) != (n, whole[1] + whole[1][:d // 3] + whole[1]) or desc(a) != whole: t.fail('concatenation of long sequences', (n, d))
            x = a.dagger()
            if x.n_qubits != n or len(x.ops) != d or desc(a) != whole or desc(x)[1] != [desc(build([o], n).dagger())[1][0] for o in reversed(ops)]: t.fail('conjugate of a long sequence', (n, d))
            s = Ops()
            for k in range(80): s = s + build([('x', (), k)], None, Ops()) + build([('rz', (k / 3,), 0)], None, Ops())
            if s.n_qubits != 80 or len(s.ops) != 160 or desc(s)[1][157][2] != (78 / 3,): t.fail('many concatenations', s.n_qubits)
    t.guard('large', large)
