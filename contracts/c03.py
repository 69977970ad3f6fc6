"""C03: dagger."""
from contracts.meaning import *

def dagger_gate(led, g):
    gate = sys.modules['blueqat.gate']
    nq, npar, mat = gs.GATES[g]
    cls = getattr(gate, gs.CLASSES[g])
    def path():
        c = cur()
        n, dom = register()
        ps = gs.symbolic_params(npar)
        m = mat(*ps)
        if nq == 1: tg = Targets(single_seq(n), 1)
        elif nq == 2: tg = Targets(pair_seq(n), 2)
        else: tg = tuple(qubit(n, 'q%d' % i) for i in range(nq))
        kw = {'label': Tag()} if npar else {}
        op = cls(tg, *ps, **kw)
        check_attrs(c, op, g, 'constructor: params and attributes are the arguments')
        c.require(op.targets is tg, 'constructor: targets are the argument')
        d = op.dagger()
        c.require(same_targets(d.targets, tg), 'the inverse acts on the same targets')
        check_attrs(c, d, d.lowername, 'parameters of the inverse are consistent')
        k, dm = matrix_of(d)
        c.require(k == nq, 'the inverse acts on as many qubits')
        if k == nq: c.require(gs.phase_equal(dm, gs.dag(m), c.norm), 'matrix of the inverse', '%s -> %s' % (g, d.lowername))
        c.require(op.targets is tg and len(op.params) == len(ps) and all(a is b for a, b in zip(op.params, ps)), 'frame: the gate itself is not changed')
        if g not in ('t', 's', 'tdg', 'sdg') or kw: c.require(d.kwargs == op.kwargs, 'options are kept')
    return run_explore(led, '%s.dagger' % gs.CLASSES[g], path)
class Tag:
    vx_static = True
def same_targets(a, b):
    if a is b: return True
    return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(x is y for x, y in zip(a, b))

def no_dagger(led, g):
    gate = sys.modules['blueqat.gate']
    cls = getattr(gate, gs.CLASSES[g])
    def path():
        c = cur()
        n, dom = register()
        op = cls(Targets(single_seq(n), 1))
        try: op.dagger()
        except ValueError: c.require(True, 'refused with ValueError'); return
        c.require(False, 'refused with ValueError')
    return run_explore(led, '%s.dagger' % gs.CLASSES[g], path)

class Elem:
    """a generic operation of a circuit, known only by the contract of dagger()"""
    vx_static = True
    def __init__(self, tag): self.tag = tag; self.kind = None; self.inv = None
    def dagger(self):
        if self.kind is None: self.kind = cur().choose(2, 'operation is measurement/reset')
        if self.kind: raise ValueError('Hermitian conjugate of the measurement is not available.')
        if self.inv is None: self.inv = Inv(self)
        return self.inv
class Inv:
    vx_static = True
    def __init__(self, of): self.of = of

def circuit_dagger(led, ignore):
    bq = sys.modules['blueqat']
    cm = sys.modules['blueqat.circuit']
    def path():
        c = cur()
        sq = SymSeq('ops', Elem)
        sq.pytype = list
        n = ivar('n'); c.assume(n.e >= 0)
        circ = cm.Circuit(n)
        circ.ops = sq
        class B:
            vx_static = True
            def copy(self): raise Unsupported('backend copied')
        circ._backends = {'x': B()}
        circ._default_backend = dflt = [None, 'some backend'][c.choose(2, 'own default')]
        before = dict(vars(circ))
        try: out = circ.dagger(ignore_measurement=ignore)
        except ValueError:
            # only a refused operation may end here
            k = [t for t in c.desc if t == 'operation is measurement/reset=1']
            c.require(bool(k) and not ignore, 'ValueError exactly for a measurement or reset which is not ignored'); return
        c.require(type(out) is cm.Circuit and out is not circ, 'a new circuit')
        c.require(out.n_qubits is n, 'register size kept')
        c.require(all(vars(circ)[k] is v for k, v in before.items()), 'frame: the circuit itself is not changed')
        c.require(out._default_backend == dflt, 'default backend kept')
        if len(out.ops) != 1 or not isinstance(out.ops[0], FoldSeg): raise Unsupported('ops are not built by one pass')
        seg = out.ops[0]
        c.require(seg.seq.src is sq and seg.seq.reversed_, 'operations in reverse order')
        for _, el, items, lp0 in seg.alternatives:
            if el.kind: c.require(ignore and not items, 'measurement and reset are skipped only on request')
            else: c.require(len(items) == 1 and items[0] is el.inv and el.inv is not None, 'each operation gives exactly its inverse')
    return run_explore(led, 'Circuit.dagger(ignore_measurement=%s)' % ignore, path)

def run(led, tier='quick'):
    bq = load_repo()
    for g in gs.GATES:
        dagger_gate(led, g)
        led.functions['blueqat.gate.%s.dagger' % gs.CLASSES[g]] = 'any targets, any parameters'
    for g in ('measure', 'reset'):
        no_dagger(led, g); led.functions['blueqat.gate.%s.dagger' % gs.CLASSES[g]] = 'any targets'
    for ig in (False, True): circuit_dagger(led, ig)
    led.functions['blueqat.circuit.Circuit.dagger'] = 'any list of operations'
    led.need = 150
ASSUMPTIONS = ['An operation which lists several pairs sharing qubits is excluded: its targets are applied in order and the inverse would need the reverse order (known finding C03).']
