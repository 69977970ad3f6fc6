"""C24: running through OpenQASM on external simulators."""
from contracts.common import *
from engine.opaque import Opaque, OName, either, raw
import types, collections, warnings

class Err(Exception): pass
class Bits(Opaque):
    """an arbitrary bit string"""
    def __init__(self, tag, rev=False):
        Opaque.__init__(self, ('reverse of ' if rev else '') + 'bits.%s' % tag)
        for k, v in (('tag', tag), ('rev', rev)): object.__setattr__(self, k, v)
    def __getitem__(self, i):
        if isinstance(i, slice) and i == slice(None, None, -1): return Bits(self.tag, not self.rev)
        if isinstance(i, slice) and i == slice(None): return self
        self._bad()
    def vx_reversed(self): return Bits(self.tag, not self.rev)
    __hash__ = object.__hash__
class Pairs:
    """the entries of a count table: any number of them, distinct bit strings"""
    vx_static = True
    def __init__(self, of): self.of = of
    def __iter__(self): raise Unsupported('entries of a table of any size')
    def vx_comp(self, kind, f, cond, star):
        if cond is not None: raise Unsupported('filtered entries')
        k, v = Bits('k'), Opaque('count.k')
        r = f(k, v) if star else f((k, v))
        if not (isinstance(r, tuple) and len(r) == 2): raise Unsupported('entries of another shape')
        return Mapped(kind, k, v, r)
    def vx_loop(self, ident, loopvars, rebound): return CountLoop(self, ident, rebound)
class Mapped:
    """a table with one entry f(e) for each entry e"""
    vx_static = True
    def __init__(self, kind, k, v, r): self.kind, self.k, self.v, self.r = kind, k, v, r
    def items(self): return self
    def good(self): return isinstance(self.r[0], Bits) and self.r[0].tag == self.k.tag and self.r[0].rev and self.r[1] is self.v
    def wrong(self): return isinstance(self.r[0], Bits) and (self.r[1] is not self.v and isinstance(self.r[1], Opaque) or not self.r[0].rev)
class CountLoop:
    """a loop over the entries which stores one entry per iteration in a fresh table"""
    rebind = True
    def __init__(self, src, ident, rebound): self.src = src; self.state = 0; self.env = {}; self.ident = ident; self.rebound = rebound
    def head(self, loc):
        if self.state == 0:
            self.state = 1
            self.k, self.v = Bits('k'), Opaque('count.k'); self.item = (self.k, self.v)
            self.tabs = {id(v): v for v in loc.values() if isinstance(v, CounterT)}
            if any(len(t.log) for t in self.tabs.values()): raise Unsupported('a loop adding to a table which is not empty')
            self.env = {n: seqs.Poison(n) for n in self.rebound if n in loc}
            return True
        self.env = {n: seqs.Poison(n) for n in self.rebound}
        for t in self.tabs.values():
            if len(t.log) == 1: t.map = Mapped('loop', self.k, self.v, t.log[0])
            elif t.log: raise Unsupported('several entries per iteration')
        return False
from engine import seqs
class CounterT:
    """collections.Counter, on tables of any size"""
    vx_static = True
    def __init__(self, arg=None):
        self.log = []; self.map = None
        if isinstance(arg, Mapped): self.map = arg
        elif arg is not None: raise Unsupported('Counter of something else')
    def __setitem__(self, k, v):
        if isinstance(v, Plus) and v.k is not k: v = v
        self.log.append((k, v.v if isinstance(v, Plus) else v))
    def __getitem__(self, k): return Zero(k)
class Zero:
    """the count of a key not stored yet"""
    def __init__(self, k): self.k = k
    def __add__(self, v): return Plus(self.k, v)
class Plus:
    def __init__(self, k, v): self.k, self.v = k, v
class CountTable(Opaque):
    def items(self): return Pairs(self)

RET = (None, 'shots', 'draw', '_exception', 'qiskit_circuit', 'qiskit_job', 'qiskit_result', '\ue000 any other value', 5)
def runner(led, im):
    def path():
        c = cur(); log = []
        ret = RET[c.choose(len(RET), 'returns')]
        imp = [None, ImportError('no module'), Err('broken')][c.choose(3, 'import')]
        shots = [None, Opaque('shots')][c.choose(2, 'shots')]
        given = [None, Opaque('backend')][c.choose(2, 'qiskit_backend')]
        opts = [{}, {'seed_simulator': Opaque('seed'), 'memory': Opaque('memory')}][c.choose(2, 'options')]
        opts0 = dict(opts)
        text = Opaque('text')
        circ, aer, job, res, tab, drawn = [Opaque(s) for s in ('circuit', 'default simulator', 'job', 'result', 'counts', 'drawing')]
        tab = CountTable('counts')
        def tobj(o, **m):
            for k, f in m.items(): object.__setattr__(o, k, f)
        tobj(circ, draw=lambda *a, **k: (log.append(('draw', a, k)), drawn)[1])
        tobj(job, result=lambda: res)
        tobj(res, get_counts=lambda *a: tab if not a or a == (circ,) or (len(a) == 1 and a[0] is circ) else Opaque('other counts'))
        q = types.ModuleType('qiskit')
        class QC:
            @staticmethod
            def from_qasm_str(s): log.append(('parse', s)); return circ
        class Aer:
            @staticmethod
            def get_backend(name): log.append(('get', name)); return aer
        def execute(experiments, backend=None, **k): log.append(('execute', experiments, backend, k)); return job
        q.QuantumCircuit = QC; q.Aer = Aer; q.execute = execute
        def importer(name, fromlist):
            if imp is not None: raise imp
            if name != 'qiskit': raise Unsupported('import of ' + name)
            return q
        shadows.EXTRA_MODULES['qiskit'] = importer
        kw = dict(opts)
        if given is not None or c.choose(2, 'omitted or None') == 0: kw['qiskit_backend'] = given
        if shots is not None: kw['shots'] = shots
        if ret is not None: kw['returns'] = ret
        try:
            out = im._qasm_runner_qiskit(text, **kw); exc = None
        except Exception as e: exc = e
        finally: shadows.EXTRA_MODULES.pop('qiskit', None)
        if isinstance(exc, Unsupported): raise exc
        def same(d): return set(d) == set(opts0) and all(d[k] is opts0[k] for k in d)
        if ret in ('\ue000 any other value', 5):
            c.require(isinstance(exc, ValueError), 'an unknown kind of result is refused', repr(exc)); c.require(not log, 'a refused request runs nothing', repr(log)); return
        if imp is not None:
            if ret == '_exception': c.require(exc is None and out is imp, 'the import error is returned when asked for', repr(exc))
            else:
                c.require(exc is not None and isinstance(exc, ImportError if isinstance(imp, ImportError) else Exception), 'a failed import is reported', repr(exc))
            return
        if exc is not None: 
            import traceback
            if isinstance(exc, (AttributeError, TypeError)): raise exc
            c.require(False, 'no error when the request is valid', repr(exc)); return
        if ret == '_exception': c.require(out is None and not any(e[0] == 'execute' for e in log), 'no error to report'); return
        p = [e for e in log if e[0] == 'parse']
        c.require(len(p) >= 1 and all(e[1] is text for e in p), 'the external circuit is made from exactly the text given', repr(p))
        ex = [e for e in log if e[0] == 'execute']
        if ret == 'qiskit_circuit': c.require(out is circ, 'the external circuit is returned'); c.require(not ex, 'nothing is run'); return
        if ret == 'draw':
            d = [e for e in log if e[0] == 'draw']
            c.require(out is drawn and len(d) == 1 and d[0][1] == () and same(d[0][2]), 'its drawing is returned, with the options given', repr(d)); c.require(not ex, 'nothing is run'); return
        c.require(len(ex) == 1 and ex[0][1] is circ, 'the circuit is run once', repr(ex))
        c.require(ex[0][2] is (given if given is not None else aer), 'on the simulator asked for', repr(ex))
        if given is None: c.require([e[1] for e in log if e[0] == 'get'] == ['qasm_simulator'] , 'the default simulator is qasm_simulator')
        k = dict(ex[0][3]); sh = k.pop('shots', None)
        c.require(sh is shots if shots is not None else sh == 1024, 'with the number of shots asked for', repr(sh))
        c.require(same(k), 'and the options given', repr(k))
        if ret == 'qiskit_job': c.require(out is job, 'the job is returned'); return
        if ret == 'qiskit_result': c.require(out is res, 'the result is returned'); return
        m = out.map if isinstance(out, CounterT) else None
        if m is None:
            if out is tab or isinstance(out, Mapped) and m is None:
                c.require(False, 'the counts are returned as a counter with qubit 0 first', repr(out)); return
            raise Unsupported('counts are made in another way')
        if m.good(): c.require(True, 'the counts are those of the job, each key reversed')
        elif m.wrong(): c.require(False, 'the counts are those of the job, each key reversed', repr(m.r))
        else: raise Unsupported('counts are made in another way')
    run_explore(led, '_qasm_runner_qiskit', path)

def run(led, tier='quick'):
    load_repo()
    gm = loader.load('blueqat.backends.qasm_parser_backend_generator')
    im = loader.load('blueqat.backends.ibmq_backend')
    im.Counter = CounterT
    if getattr(im, 'collections', None) is not None: im.collections = shadows.Shadow(collections, dict(Counter=CounterT))
    runner(led, im)
    def backend():
        c = cur(); log = []; text, res = Opaque('text'), Opaque('result')
        class Q:
            vx_static = True
            def run(self, *a, **k): log.append(('qasm', a, k)); return text
        old = gm.QasmOutputBackend; gm.QasmOutputBackend = Q
        try:
            made = c.choose(2, 'generated')
            f = lambda *a, **k: (log.append(('run', a, k)), res)[1]
            b = gm.generate_backend(f)() if made else gm.QasmParsableBackend(f)
            b2 = gm.generate_backend(lambda *a, **k: (log.append(('other',)), 0)[1])()
            g, n = Opaque('operations'), Opaque('size')
            a = [(), (Opaque('a0'), Opaque('a1'))][c.choose(2, 'arguments')]
            k = [{}, {'shots': Opaque('shots'), 'opt': Opaque('opt')}][c.choose(2, 'options')]
            r = b.run(g, n, *a, **k); log2 = list(log); log.clear()
            # the list of operations may have changed by the next run
            b.run(g, n, *a, **k); again = [e[0] for e in log]; log[:] = log2
        finally: gm.QasmOutputBackend = old
        c.require(isinstance(b, gm.QasmParsableBackend), 'a backend is made')
        if again != ['qasm', 'run']: raise Unsupported('a second run of the list of operations does not read it again')
        c.require(len(log) == 2 and [e[0] for e in log] == ['qasm', 'run'], 'the text is made once and run once', repr(log))
        q = log[0]
        c.require(len(q[1]) == 2 and q[1][0] is g and q[1][1] is n and not q[2], 'the text is that of the given circuit with its prologue', repr(q))
        e = log[1]
        c.require(len(e[1]) == 1 + len(a) and e[1][0] is text and all(x is y for x, y in zip(e[1][1:], a)) and set(e[2]) == set(k) and all(e[2][x] is k[x] for x in k), 'the runner is given the text and the options unchanged', repr(e))
        c.require(r is res, 'its result is returned')
    run_explore(led, 'QasmParsableBackend, generate_backend', backend)
    def registered():
        c = cur()
        B = sys.modules['blueqat.backends'].BACKENDS if hasattr(sys.modules['blueqat.backends'], 'BACKENDS') else sys.modules['blueqat.circuit'].BACKENDS
        for nm in ('ibmq',):
            b = B[nm]()
            c.require(isinstance(b, gm.QasmParsableBackend) and b.qasm_runner is im._qasm_runner_qiskit, 'the backend %s runs on the external simulator' % nm)
            c.require(type(b.to_qasm) is sys.modules['blueqat.backends.qasm_output_backend'].QasmOutputBackend, 'with the text of the OpenQASM backend')
    run_explore(led, 'the backend ibmq', registered)
    led.functions['blueqat.backends.ibmq_backend._qasm_runner_qiskit'] = 'all kinds of result, any text, options, counts and import outcome'
    led.functions['blueqat.backends.qasm_parser_backend_generator.QasmParsableBackend.__init__'] = led.functions['blueqat.backends.qasm_parser_backend_generator.QasmParsableBackend.run'] = led.functions['blueqat.backends.qasm_parser_backend_generator.generate_backend'] = 'all'
    led.need = 100
ASSUMPTIONS = ['qiskit: QuantumCircuit.from_qasm_str, Aer.get_backend, execute, job.result and result.get_counts behave as documented (counts keyed with qubit 0 last); they are recording stand-ins here.',
 'The text handed over is what QasmOutputBackend.run returns for the circuit (C09).', 'At most two extra options are passed (options are only passed on).']
