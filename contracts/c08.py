"""C08: composing circuits concatenates operations and never aliases the operands."""
from contracts.common import *
from engine.opaque import Opaque, OName, GList, Seg, either, content, raw, same_items

class Bk(Opaque):
    """a backend instance; copy() gives a new one"""
    def __init__(self, name, of=None):
        Opaque.__init__(self, name); object.__setattr__(self, 'of', of)
    def copy(self): return Bk('copy of ' + self.vx_name, self)

def circuit(cm, name, n=None):
    """an arbitrary circuit: unknown operations, size, backends and default"""
    c = cur()
    n = ivar('n_' + name); c.assume(n.e >= 0)
    k = cm.Circuit(n)
    seg = Seg('ops of ' + name)
    k.ops = GList([seg])
    k._backends = {'b1': Bk(name + '.b1'), 'b2': Bk(name + '.b2')}
    k._default_backend = Opaque('default of ' + name)
    return k
class Frame:
    """remembers a circuit's state to compare with later"""
    def __init__(self, k):
        self.k = k; self.vars = dict(vars(k)); self.items = GList(raw(k.ops)); self.b = dict(k._backends)
    def same(self, but=()):
        k = self.k
        ok = all(vars(k)[x] is v or (isinstance(v, SInt) and isinstance(vars(k)[x], SInt) and cur().implied(vars(k)[x].e == v.e)) for x, v in self.vars.items() if x in ('ops', 'n_qubits', '_backends', '_default_backend') and x not in but)
        if 'ops' not in but: ok = ok and same_items(k.ops, self.items)
        if '_backends' not in but: ok = ok and set(k._backends) == set(self.b) and all(k._backends[x] is v for x, v in self.b.items())
        return ok
def maxi(a, b): return SInt(z3.If(a.e >= b.e, a.e, b.e))
def fresh_list(l, others): return isinstance(l, list) and not any(l is o for o in others)
def prove_n(c, got, want, name):
    if not isinstance(got, SInt): got = ivar('x') * 0 + got if isinstance(got, int) and not isinstance(got, bool) else None
    if got is None: c.require(False, name); return
    c.prove(got.e == want.e, name)

def add(led, same=False):
    cm = sys.modules['blueqat.circuit']
    def path():
        c = cur()
        a = circuit(cm, 'a'); b = a if same else circuit(cm, 'b')
        fa, fb = Frame(a), Frame(b)
        r = a + b
        c.require(type(r) is cm.Circuit, 'a circuit')
        c.require(r is not a and r is not b, 'a new circuit')
        c.require(fa.same(), 'frame: the left operand is not changed'); c.require(fb.same(), 'frame: the right operand is not changed')
        c.require(same_items(r.ops, GList(raw(fa.items) + raw(fb.items))), 'the operations of the left followed by those of the right', repr(r.ops))
        c.require(fresh_list(r.ops, [a.ops, b.ops]), 'the list of operations is shared with no operand')
        prove_n(c, r.n_qubits, maxi(fa.vars['n_qubits'], fb.vars['n_qubits']), 'as large as the larger')
        c.require(r._backends is not a._backends and r._backends is not b._backends, 'the table of backends is shared with no operand')
        c.require(not any(v is w for v in r._backends.values() for w in list(fa.b.values()) + list(fb.b.values())), 'no backend instance is shared with an operand')
    return run_explore(led, 'Circuit.__add__' + (' (c + c)' if same else ''), path)
def iadd(led, same=False):
    cm = sys.modules['blueqat.circuit']
    def path():
        c = cur()
        a = circuit(cm, 'a'); b = a if same else circuit(cm, 'b')
        fa, fb = Frame(a), Frame(b)
        r = a; r += b
        c.require(r is a, 'the left operand itself is extended')
        if not same: c.require(fb.same(), 'frame: the right operand is not changed')
        c.require(same_items(r.ops, GList(raw(fa.items) + raw(fb.items))), 'the operations of the left followed by those of the right', repr(r.ops))
        if not same: c.require(fresh_list(r.ops, [b.ops]), 'the list of operations is not shared with the right operand')
        prove_n(c, r.n_qubits, maxi(fa.vars['n_qubits'], fb.vars['n_qubits']), 'as large as the larger')
        c.require(fa.same(but=('ops', 'n_qubits')), 'frame: backends and default of the left operand are kept')
    return run_explore(led, 'Circuit.__iadd__' + (' (c += c)' if same else ''), path)
def notcircuit(led):
    cm = sys.modules['blueqat.circuit']
    def path():
        c = cur()
        a = circuit(cm, 'a'); fa = Frame(a)
        o = [Opaque('x'), 1, None, [], 'c'][c.choose(5, 'other')]
        c.require(cm.Circuit.__add__(a, o) is NotImplemented, 'adding something else is refused')
        c.require(cm.Circuit.__iadd__(a, o) is NotImplemented, 'adding something else in place is refused')
        c.require(fa.same(), 'frame: nothing changes')
    return run_explore(led, 'Circuit + other', path)
def copy(led):
    cm = sys.modules['blueqat.circuit']
    def path():
        c = cur()
        a = circuit(cm, 'a')
        if c.choose(2, 'no default of its own'): a._default_backend = None
        fa = Frame(a)
        cb, cd = c.choose(2, 'no backends') == 0, c.choose(2, 'no default') == 0
        kw = [{}, {'copy_cache': True}, {'copy_history': False}][c.choose(3, 'deprecated options')]
        if c.choose(2, 'options given'): r = a.copy(copy_backends=cb, copy_default_backend=cd, **kw)
        elif cb and cd: r = a.copy(**kw)
        else: return
        c.require(type(r) is cm.Circuit and r is not a, 'a new circuit')
        c.require(fa.same(), 'frame: the original is not changed')
        c.require(same_items(r.ops, fa.items), 'the same operations')
        c.require(fresh_list(r.ops, [a.ops]), 'the list of operations is not shared')
        prove_n(c, r.n_qubits, fa.vars['n_qubits'], 'the same size')
        c.require(r._backends is not a._backends, 'the table of backends is not shared')
        if cb: c.require(set(r._backends) == set(fa.b) and all(isinstance(r._backends[k], Bk) and r._backends[k].of is v for k, v in fa.b.items()), 'each backend is copied')
        else: c.require(r._backends == {}, 'no backends on request')
        c.require(r._default_backend is (a._default_backend if cd else None), 'the default backend is kept or, on request, dropped')
    return run_explore(led, 'Circuit.copy', path)
def init(led):
    cm = sys.modules['blueqat.circuit']
    def path():
        c = cur()
        n = ivar('n'); c.assume(n.e >= 0)
        k, m = cm.Circuit(n), cm.Circuit(n)
        c.require(k.n_qubits is n and k.ops == [] and type(k.ops) is list and k._backends == {} and k._default_backend is None, 'an empty circuit of the given size')
        c.require(k.ops is not m.ops and k._backends is not m._backends, 'two circuits share nothing')
        z = cm.Circuit()
        c.require(z.n_qubits == 0 and z.ops == [] and z.ops is not k.ops, 'by default an empty register')
        seg = Seg('given'); l = GList([seg])
        k = cm.Circuit(n, l)
        c.require(same_items(k.ops, GList([seg])), 'the operations given')
    return run_explore(led, 'Circuit.__init__', path)

class Err(Exception): pass
class Cls(Opaque):
    """a gate class: making an operation works or is refused"""
    def __init__(self, name='gate class'):
        Opaque.__init__(self, name); object.__setattr__(self, 'calls', [])
    def __call__(self, *a, **k):
        self.calls.append((a, k))
        if either(('refuse', self.vx_name, len(self.calls)), 'the gate refuses its arguments'): raise Err('refused')
        o = Opaque('operation %d' % len(self.calls)); object.__setattr__(o, 'made', (a, k))
        return o
def target_size(led_):
    """contract of get_maximum_index (C04): refuses, or gives an integer >= -1"""
    seen = {}
    def get_maximum_index(idx):
        c = cur()
        k = ('max', id(idx))
        if either(('badtarget', id(idx)), 'bad target'): raise Err('bad target')
        tab = c.extra.setdefault('maxidx', {})
        if k not in tab:
            m = ivar('max_%d' % len(tab)); c.assume(m.e >= -1); tab[k] = m
        return tab[k]
    return get_maximum_index
def apply(led):
    cm = sys.modules['blueqat.circuit']; gate = sys.modules['blueqat.gate']
    stub(gate, 'get_maximum_index', target_size)
    def path():
        c = cur()
        a = circuit(cm, 'a'); fa = Frame(a)
        cls = Cls(); tg = Opaque('target'); x, y = Opaque('arg'), Opaque('option')
        w = cm._GateWrapper(a, 'name', cls)
        args, kw = (), {}
        if c.choose(2, 'with arguments'):
            args, kw = (x,), {'opt': y}
            w = w(x, opt=y)
        c.require(fa.same() and not cls.calls, 'nothing happens before targets are given')
        try: r = w[tg]
        except Err:
            c.require(fa.same(), 'frame: a refused operation leaves the circuit unchanged', repr(a.ops)); return
        bad = [k for k, v in c.extra.get('either', {}).items() if k[0] in ('refuse', 'badtarget') and v[0]]
        c.require(not bad, 'a refusal is passed on', repr(bad))
        c.require(r is a, 'the circuit itself is returned')
        c.require(len(cls.calls) == 1 and len(cls.calls[0][0]) == 1 + len(args) and cls.calls[0][0][0] is tg and all(p is q for p, q in zip(cls.calls[0][0][1:], args))
                  and set(cls.calls[0][1]) == set(kw) and all(cls.calls[0][1][k] is v for k, v in kw.items()), 'one operation is made, with its targets, parameters and options', repr(cls.calls))
        items = raw(a.ops)
        c.require(same_items(GList(items[:-1]), fa.items) and len(items) == 2 and getattr(items[-1], 'made', None) is not None, 'exactly that operation is appended', repr(items))
        mx = c.extra.get('maxidx', {}).get(('max', id(tg)))
        if mx is None: raise Unsupported('the size of the target was not asked for')
        prove_n(c, a.n_qubits, maxi(SInt(mx.e + 1), fa.vars['n_qubits']), 'the register grows to hold the target')
        c.require(fa.same(but=('ops', 'n_qubits')), 'frame: nothing else changes')
    run_explore(led, 'Circuit._GateWrapper.__getitem__', path)
    def shared():
        c = cur()
        a = circuit(cm, 'a'); fa = Frame(a)
        cls = Cls(); t1, t2 = Opaque('t1'), Opaque('t2')
        g = cm._GateWrapper(a, 'name', cls)
        try: g(Opaque('p'))[t1]; n1 = len(raw(a.ops)); g2 = cm._GateWrapper(a, 'name', cls); g2[t2]
        except Err: return
        c.require(len(cls.calls) == 2 and len(cls.calls[1][0]) == 1 and cls.calls[1][1] == {}, 'arguments of one application do not leak into the next')
    run_explore(led, 'Circuit._GateWrapper (two applications)', shared)

NAMES = {'i': 'IGate', 'x': 'XGate', 'y': 'YGate', 'z': 'ZGate', 'h': 'HGate', 't': 'TGate', 'tdg': 'TDagGate', 's': 'SGate', 'sdg': 'SDagGate', 'cz': 'CZGate', 'cx': 'CXGate', 'cnot': 'CXGate',
 'cy': 'CYGate', 'ch': 'CHGate', 'rx': 'RXGate', 'ry': 'RYGate', 'rz': 'RZGate', 'r': 'PhaseGate', 'phase': 'PhaseGate', 'crx': 'CRXGate', 'cry': 'CRYGate', 'crz': 'CRZGate', 'cr': 'CPhaseGate',
 'cphase': 'CPhaseGate', 'u1': 'U1Gate', 'u2': 'U2Gate', 'u3': 'U3Gate', 'cu1': 'CU1Gate', 'cu2': 'CU2Gate', 'cu3': 'CU3Gate', 'swap': 'SwapGate', 'rxx': 'RXXGate', 'ryy': 'RYYGate', 'rzz': 'RZZGate',
 'ccx': 'ToffoliGate', 'toffoli': 'ToffoliGate', 'cswap': 'CSwapGate', 'reset': 'Reset', 'measure': 'Measurement', 'm': 'Measurement'}
def names(led):
    cm = sys.modules['blueqat.circuit']; gate = sys.modules['blueqat.gate']
    for nm, cl in NAMES.items():
        def path():
            c = cur()
            a = circuit(cm, 'a'); fa = Frame(a)
            w = getattr(a, nm)
            if type(w) is not cm._GateWrapper: raise Unsupported('attribute of another kind')
            c.require(w.gate is getattr(gate, cl) and w.circuit is a, 'the name applies its gate to this circuit')
            c.require(fa.same(), 'frame: looking a gate up changes nothing')
            w2 = getattr(a, nm)
            c.require(w2 is not w, 'each use is its own application')
        run_explore(led, 'Circuit.%s' % nm, path)
    def unknown():
        c = cur()
        a = circuit(cm, 'a'); fa = Frame(a)
        for nm in ('no_such_gate', 'run_with_nothing', '_x', 'X'):
            try: getattr(a, nm)
            except AttributeError: c.require(fa.same(), 'an unknown name is refused and changes nothing'); continue
            c.require(False, 'an unknown name is refused', nm)
    run_explore(led, 'Circuit.__getattr__ (unknown name)', unknown)

def run(led, tier='quick'):
    import warnings
    load_repo()
    cm = sys.modules['blueqat.circuit']
    class W:
        DeprecationWarning = DeprecationWarning
        @staticmethod
        def warn(*a, **k): pass
    cm.warnings = W
    add(led); add(led, True); iadd(led); iadd(led, True); notcircuit(led); copy(led); init(led); apply(led); names(led)
    for f, w in (('__init__', 'any size'), ('__add__', 'any two circuits, also the same one twice'), ('__iadd__', 'any two circuits, also the same one twice'), ('copy', 'any circuit, all options'), ('__getattr__', 'every gate name')):
        led.functions['blueqat.circuit.Circuit.' + f] = w
    for f in ('__init__', '__call__', '__getitem__'): led.functions['blueqat.circuit._GateWrapper.' + f] = 'any gate class, target, arguments'
    led.need = 180
ASSUMPTIONS = ['get_maximum_index is used through its contract (C04); a backend\'s copy() returns a separate instance (C07).', 'A circuit\'s table of backends has two entries in the contract (names play no role).']
