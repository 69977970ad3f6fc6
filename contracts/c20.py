"""C20: immutable operation sequences."""
from contracts.c08 import *
from engine.opaque import GTuple, MapSeg, rev_items

class El(Opaque):
    """an arbitrary operation, with its conjugate"""
    def __init__(self, tag): Opaque.__init__(self, 'op.%s' % tag); object.__setattr__(self, 'inv', None)
    def dagger(self):
        if either(('nodag', id(self)), 'no conjugate'): raise Err('no conjugate')
        if self.inv is None: object.__setattr__(self, 'inv', Opaque('conjugate of ' + self.vx_name))
        return self.inv

def ops(om, name):
    n = ivar('n_' + name); cur().assume(n.e >= 0)
    return om.Ops(n, GTuple([Seg('ops of ' + name, El)]))
class Keep:
    def __init__(self, o): self.o = o; self.n = o.n_qubits; self.t = o.ops; self.items = raw(o.ops)
    def same(self): return self.o.n_qubits is self.n and self.o.ops is self.t and [id(x) for x in raw(self.t)] == [id(x) for x in self.items]

def run(led, tier='quick'):
    load_repo()
    om = loader.load('blueqat.experimental.operations')
    cm = sys.modules['blueqat.circuit']; gate = sys.modules['blueqat.gate']
    stub(gate, 'get_maximum_index', target_size)
    def immutable():
        c = cur()
        a = ops(om, 'a'); ka = Keep(a)
        for f in ('n_qubits', 'ops'):
            try: setattr(a, f, 1)
            except AttributeError: c.require(ka.same(), 'fields cannot be reassigned'); continue
            c.require(False, 'fields cannot be reassigned', f)
        z = om.Ops()
        c.require(z.n_qubits == 0 and z.ops == () and type(z.ops) is tuple, 'an empty sequence by default')
    run_explore(led, 'Ops', immutable)
    def add(same):
        def path():
            c = cur()
            a = ops(om, 'a'); b = a if same else ops(om, 'b'); ka, kb = Keep(a), Keep(b)
            r = a + b
            c.require(type(r) is om.Ops and r is not a and r is not b, 'a new sequence')
            c.require(ka.same() and kb.same(), 'frame: operands are not changed')
            c.require(isinstance(r.ops, tuple), 'operations are held in a tuple')
            c.require(same_items(r.ops, GTuple(ka.items + kb.items)), 'the operations of the left followed by those of the right', repr(r.ops))
            prove_n(c, r.n_qubits, maxi(ka.n, kb.n), 'as large as the larger')
        run_explore(led, 'Ops.__add__' + (' (a + a)' if same else ''), path)
    add(False); add(True)
    def assoc():
        c = cur()
        x, y, z = [ops(om, s) for s in 'xyz']
        l, r = (x + y) + z, x + (y + z)
        c.require(same_items(l.ops, r.ops), 'concatenation is associative: operations')
        prove_n(c, l.n_qubits, r.n_qubits, 'concatenation is associative: size')
    run_explore(led, 'lemma: associativity', assoc)
    def other():
        c = cur()
        a = ops(om, 'a'); ka = Keep(a)
        o = [Opaque('x'), 1, None, (), (2, ())][c.choose(5, 'other')]
        c.require(om.Ops.__add__(a, o) is NotImplemented and ka.same(), 'adding something else is refused')
    run_explore(led, 'Ops + other', other)
    def dagger():
        c = cur()
        a = ops(om, 'a'); ka = Keep(a)
        try: r = a.dagger()
        except Err:
            c.require(any(k[0] == 'nodag' and v[0] for k, v in c.extra.get('either', {}).items()) and ka.same(), 'refused only when an operation has no conjugate; nothing changes'); return
        c.require(not any(k[0] == 'nodag' and v[0] for k, v in c.extra.get('either', {}).items()), 'an operation without conjugate is refused')
        c.require(type(r) is om.Ops and r is not a and ka.same() and isinstance(r.ops, tuple), 'a new sequence; the original is not changed')
        c.require(r.n_qubits is ka.n, 'the same register')
        items = raw(r.ops)
        if len(items) != 1 or not isinstance(items[0], (MapSeg, FoldSeg)): raise Unsupported('not built by one pass over the operations')
        m = items[0]
        if isinstance(m, MapSeg): c.require(m.of.seq.src is ka.items[0].seq and m.rev and m.item is m.el.inv and m.item is not None, 'the conjugates in reverse order', repr(items))
        else:
            for _, el, its, _ in m.alternatives: c.require(m.seq.src is ka.items[0].seq and m.seq.reversed_ and len(its) == 1 and its[0] is el.inv and el.inv is not None, 'the conjugates in reverse order')
    run_explore(led, 'Ops.dagger', dagger)
    def daggerk(k):
        def path():
            c = cur()
            els = tuple(El(str(i)) for i in range(k))
            n = ivar('n'); a = om.Ops(n, els)
            try: r = a.dagger()
            except Err: return
            c.require(isinstance(r.ops, tuple) and len(r.ops) == k and all(x is e.inv for x, e in zip(r.ops, reversed(els))) and r.n_qubits is n and a.ops is els, 'the conjugates in reverse order')
        run_explore(led, 'Ops.dagger[%d operations]' % k, path)
    for k in (0, 1, 2, 3): daggerk(k)
    def circ():
        c = cur()
        a = ops(om, 'a'); ka = Keep(a)
        r = a.to_circuit()
        c.require(type(r) is cm.Circuit, 'a circuit')
        c.require(isinstance(r.ops, list) and same_items(r.ops, GList(ka.items)), 'the same operations, in a list of its own', repr(r.ops))
        prove_n(c, r.n_qubits, ka.n, 'the same register')
        c.require(r._backends == {} and r._default_backend is None, 'nothing run yet')
        c.require(ka.same(), 'frame: the sequence is not changed')
        r2 = a.to_circuit()
        c.require(r2 is not r and r2.ops is not r.ops, 'each conversion gives a circuit of its own')
    run_explore(led, 'Ops.to_circuit', circ)
    def apply():
        c = cur()
        a = ops(om, 'a'); ka = Keep(a)
        cls = Cls(); tg = Opaque('target'); x, y = Opaque('arg'), Opaque('option')
        w = om._GateWrapper(a, 'name', cls)
        args, kw = (), {}
        if c.choose(2, 'with arguments'):
            args, kw = (x,), {'opt': y}; w = w(x, opt=y)
        c.require(ka.same() and not cls.calls, 'nothing happens before targets are given')
        try: r = w[tg]
        except Err: c.require(ka.same(), 'frame: a refused operation changes nothing'); return
        bad = [k for k, v in c.extra.get('either', {}).items() if k[0] in ('refuse', 'badtarget') and v[0]]
        c.require(not bad, 'a refusal is passed on')
        c.require(type(r) is om.Ops and r is not a and ka.same(), 'a new sequence; the original is not changed')
        c.require(len(cls.calls) == 1 and len(cls.calls[0][0]) == 1 + len(args) and cls.calls[0][0][0] is tg and all(p is q for p, q in zip(cls.calls[0][0][1:], args))
                  and set(cls.calls[0][1]) == set(kw) and all(cls.calls[0][1][k] is v for k, v in kw.items()), 'one operation is made, with its targets, parameters and options')
        items = raw(r.ops)
        c.require(isinstance(r.ops, tuple) and same_items(GTuple(items[:-1]), GTuple(ka.items)) and getattr(items[-1], 'made', None) is not None, 'exactly that operation is appended')
        mx = c.extra.get('maxidx', {}).get(('max', id(tg)))
        if mx is None: raise Unsupported('the size of the target was not asked for')
        prove_n(c, r.n_qubits, maxi(SInt(mx.e + 1), ka.n), 'the register grows to hold the target')
    run_explore(led, 'Ops._GateWrapper.__getitem__', apply)
    def app2():
        c = cur()
        a = ops(om, 'a'); ka = Keep(a); cls = Cls()
        try: r1 = om._GateWrapper(a, 'g', cls)[Opaque('t1')]; r2 = om._GateWrapper(a, 'g', cls)[Opaque('t2')]
        except Err: return
        c.require(len(raw(r1.ops)) == 2 and len(raw(r2.ops)) == 2 and ka.same(), 'two continuations of one sequence are independent')
    run_explore(led, 'Ops._GateWrapper (two continuations)', app2)
    for nm in om.GATE_SET:
        def nmpath():
            c = cur()
            a = ops(om, 'a'); ka = Keep(a)
            w = getattr(a, nm)
            if type(w) is not om._GateWrapper: raise Unsupported('attribute of another kind')
            c.require(nm in NAMES and w.gate is getattr(gate, NAMES[nm]) and w.ops is a and ka.same(), 'the name applies its gate to this sequence')
        run_explore(led, 'Ops.%s' % nm, nmpath)
    def present():
        c = cur()
        for nm in ('i', 'x', 'y', 'z', 'h', 't', 'tdg', 's', 'sdg', 'cz', 'cx', 'cnot', 'cy', 'ch', 'rx', 'ry', 'rz', 'r', 'phase', 'crx', 'cry', 'crz', 'cr', 'cphase', 'u1', 'u2', 'u3', 'cu1', 'cu2', 'cu3', 'swap', 'ccx', 'toffoli', 'measure', 'm'):
            c.require(nm in om.GATE_SET, 'every documented name is present', nm)
        a = ops(om, 'a')
        for nm in ('no_such_gate', '_y'):
            try: getattr(a, nm)
            except AttributeError: c.require(True, 'an unknown name is refused'); continue
            c.require(False, 'an unknown name is refused', nm)
    run_explore(led, 'Ops.__getattr__', present)
    for f in ('__add__', 'dagger', 'to_circuit', '__getattr__'): led.functions['blueqat.experimental.operations.Ops.' + f] = 'any sequences'
    for f in ('__init__', '__call__', '__getitem__'): led.functions['blueqat.experimental.operations._GateWrapper.' + f] = 'any gate class, target, arguments'
    led.need = 90
ASSUMPTIONS = ['get_maximum_index is used through its contract (C04); typing.NamedTuple makes fields read-only.', 'That a circuit built from the same operations has the same results is C01/C23.']
