"""C16: the QAOA ansatz circuit and what a VQE result reports."""
from contracts.common import *
from engine import iseq, opaque
from engine.iseq import ISeq, LoopSeg, Gate, zint
from engine.opaque import Opaque, either
import types

V = None
class Event:
    def __init__(self, which, i, t): self.which, self.i, self.t = which, i, t
    def __repr__(self): return 'evolve %s[%s] by %s' % (self.which, self.i, self.t)
class Evo:
    """the function get_time_evolution gives, by its contract (C14)"""
    vx_static = True
    def __init__(self, which, i): self.which, self.i = which, i
    def __call__(self, circuit, t):
        if not isinstance(circuit, iseq.Rec): raise Unsupported('time evolution of something else')
        a = Alg.of(t)
        if a is None: raise Unsupported('time %r' % type(t))
        circuit.log.append(Event(self.which, self.i, a))
class TermEl:
    vx_static = True
    def __init__(self, which, i): self.which, self.i = which, i
    def get_time_evolution(self): return Evo(self.which, self.i)
    def simplify(self): return self
    def to_term(self): return self
    def __getattr__(self, n):
        if n.startswith('vx_') or n.startswith('__'): raise AttributeError(n)
        raise Unsupported('term.%s' % n)
class Ham:
    """a Hamiltonian as given (stage 0), converted (1), simplified (2)"""
    vx_static = True
    def __init__(self, stage, mx, K): self.stage, self.mx, self.K = stage, mx, K
    def max_n(self): return SInt(self.mx[self.stage == 2])
    @property
    def n_qubits(self): return SInt(z3.simplify(self.mx[self.stage == 2] + 1))
    def to_expr(self): return self if self.stage else Ham(1, self.mx, self.K)
    def simplify(self): return Ham(2, self.mx, self.K)
    def is_all_terms_commutable(self):
        if self.stage != 2: raise Unsupported('commutation is asked of an expression which is not simplified')
        return either(('commute',), 'all terms commute')
    @property
    def terms(self):
        if self.stage != 2: raise Unsupported('terms of a Hamiltonian which is not simplified')
        return ISeq(self.K, lambda i: TermEl('H', i), 'the terms of the Hamiltonian')
    def vx_comp(self, *a): return self.terms.vx_comp(*a)
    def vx_loop(self, *a): return self.terms.vx_loop(*a)
    def vx_iter(self): return self.terms
    def vx_seq(self, ty): return self.terms
    def __getattr__(self, n):
        if n.startswith('vx_') or n.startswith('__'): raise AttributeError(n)
        raise Unsupported('hamiltonian.%s' % n)
    def __iter__(self): raise Unsupported('iteration over a Hamiltonian')
class Circ(iseq.Rec):
    """a circuit; all[:] stands for every qubit of the register"""
    def __init__(self, n, log=()):
        iseq.Rec.__init__(self, gs.GATES)
        object.__setattr__(self, 'n_qubits', n); object.__setattr__(self, 'log', list(log))
        cur().extra['recs'].append(self)
    def copy(self, *a, **k):
        if a or k: raise Unsupported('copy with options')
        return Circ(self.n_qubits, self.log)
    def __copy__(self): return self.copy()
    def make_cache(self, *a, **k): return None
    def __getattr__(self, n):
        if n.startswith('__') or n.startswith('vx_'): raise AttributeError(n)
        if n not in gs.GATES: raise Unsupported('circuit.%s' % n)
        return Build(self, n, ())
class Build(iseq.Builder):
    def __call__(self, *ps, **k):
        b = iseq.Builder.__call__(self, *ps, **k); return Build(b.rec, b.n, b.ps)
    def __getitem__(self, t):
        if isinstance(t, slice) and t == slice(None) and gs.GATES[self.n][0] == 1 and len(self.ps) == gs.GATES[self.n][1]:
            self.rec.log.append(Gate(self.n, self.ps, 'all')); return self.rec
        return iseq.Builder.__getitem__(self, t)
def params_seq(N):
    def at(i):
        c = cur(); tab = c.store.setdefault('ptab', [])
        i = z3.simplify(i, som=True, sort_sums=True)
        for e, s in tab:
            if e.eq(i) or c.implied(e == i): return s
        s = alg.rsym('param[%s]' % i)
        tab.append((i, s)); return s
    return ISeq(N, at, 'the parameters')

def setup():
    c = cur()
    c.extra['recs'] = []; c.extra['iseq_loop'] = iseq.RecLoop; c.extra['loop_hook'] = iseq.rec_hook
    m0, m2, K, p = z3.Ints('max_n max_n_simplified K step')
    c.assume(z3.And(m2 >= -1, m0 >= m2, K >= 0, p >= 1))
    return c, Ham(0, {False: m0, True: m2}, K), K, SInt(p)

def qaoa(led, given, mixer):
    name = 'QAOA (%s circuit, %s mixer)' % ('given' if given else 'default', 'given' if mixer else 'default')
    def path():
        c, H, K, p = setup()
        kw = {}
        init = None
        if given:
            n0 = ivar('n_init'); c.assume(n0.e >= 0)
            init = Circ(n0, [Event('init', z3.IntVal(0), Alg.of(0))]); kw['init_circuit'] = init
        Kx = z3.Int('Kx'); c.assume(Kx >= 1)
        if mixer: kw['mixer'] = ISeq(Kx, lambda i: TermEl('mixer', i), 'the mixer')
        comm = lambda: either(('commute',), 'all terms commute')
        try: a = V.QaoaAnsatz(H, p, **kw)
        except ValueError:
            c.require(not comm(), 'only terms which do not commute are refused'); return
        c.require(comm(), 'terms which do not commute are refused')
        if not comm(): return
        c.prove(SInt(zint(a.n_params)).e == 2 * p.e, 'two parameters for each step')
        ini = a.init_circuit
        if not given:
            if not isinstance(ini, Circ): raise Unsupported('initial circuit')
            c.prove(zint(ini.n_qubits) == H.mx[True] + 1, 'a register of the size of the Hamiltonian')
            c.require(len(ini.log) == 1 and isinstance(ini.log[0], Gate) and ini.log[0].name == 'h' and ini.log[0].targets == 'all', 'the default is a Hadamard gate on every qubit', repr(ini.log))
        want0 = list(ini.log) if not given else list(init.log)
        n_rec = len(c.extra['recs'])
        ps = params_seq(z3.simplify(2 * p.e))
        for k in (1, 2):
            kept = Kept(a); q = a.get_circuit(ps); kept.check()
            if not isinstance(q, Circ): raise Unsupported('get_circuit gives something else')
            c.require(q is not init and q is not ini, 'a circuit of its own')
            check(c, q.log, want0, K, Kx if mixer else None, p, ps, ini.n_qubits)
            c.require((init or ini).log == want0, 'the initial circuit is not changed')
            if given: c.require(len(init.log) == 1, 'the given circuit is not changed')
    run_explore(led, name, path)
def check(c, log, init, K, Kx, p, ps, n):
    if log[:len(init)] != init: c.require(False, 'the circuit starts with the initial circuit', repr(log)[:200]); return
    rest = log[len(init):]
    if len(rest) != 1 or not isinstance(rest[0], LoopSeg): raise Unsupported('the steps are built in another way')
    st = rest[0]
    c.prove(st.N == p.e, 'as many steps as asked for')
    if len(st.cases) != 1: raise Unsupported('steps of several kinds')
    m = st.m; c.solver.push()
    gates = st.cases[0][1]
    c.assume(z3.And(m >= 0, m < p.e))
    if len(gates) != 2: raise Unsupported('a step of %d parts' % len(gates))
    if not isinstance(gates[0], LoopSeg): raise Unsupported('a step which does not start with the Hamiltonian')
    evos(c, gates[0], 'H', K, Alg.of(2) * alg.PI * ps.at(z3.simplify(p.e + m)), 'gamma', True)
    beta = alg.PI * ps.at(m)
    g = gates[1]
    if Kx is None:
        if not isinstance(g, Gate) or g.name != 'rx' or g.targets != 'all': raise Unsupported('mixer of another form')
        c.prove_eq(g.params[0], beta, 'the mixer rotates every qubit by pi beta')
    else:
        if not isinstance(g, LoopSeg): raise Unsupported('mixer of another form')
        evos(c, g, 'mixer', Kx, beta, 'beta', False)
def evos(c, seg, which, K, t, nm, free):
    if len(seg.cases) != 1: raise Unsupported('terms of several kinds')
    gates = seg.cases[0][1]
    if len(gates) != 1 or not isinstance(gates[0], Event) or gates[0].which != which: raise Unsupported('a passage over the terms')
    e = gates[0]; rng = z3.And(seg.m >= 0, seg.m < seg.N)
    c.prove(seg.N == K, 'every term of the %s once' % which)
    if not c.implied(z3.Implies(rng, e.i == seg.m)) and not (free and c.implied(z3.Implies(rng, e.i == K - 1 - seg.m))): raise Unsupported('the order of the terms')
    c.prove_eq(e.t, t, 'each term of the %s evolves by the angle of its %s' % (which, nm))

# ---------------------------------------------------------------- VQE
class Obj:
    """an object with the given methods"""
    vx_static = True
    def __init__(self, nm, **k): self.__dict__.update(k); self.vx_name = nm
    def __getattr__(self, n):
        if n.startswith('vx_') or n.startswith('__'): raise AttributeError(n)
        raise Unsupported('%s.%s' % (self.__dict__.get('vx_name'), n))
def vqe_run(led):
    def path(verbose, sampled):
        def go():
            c = cur(); calls = []
            P, P0, val, N = Opaque('minimiser\'s parameters'), Opaque('trial parameters'), Opaque('energy'), ivar('n_params')
            samp = (lambda *a: None) if sampled else None
            made = {}
            def get_circuit(p):
                q = Opaque('circuit'); made[id(q)] = (q, p); return q
            def get_objective(s=None):
                calls.append(s)
                def f(p):
                    c.require(p is P0, 'the objective gets the minimiser\'s trial parameters'); return val
                return f
            ans = Obj('ansatz', get_circuit=get_circuit, get_objective=get_objective, n_params=N)
            def minimizer(obj, n):
                c.require(n is N, 'the number of parameters is the ansatz\'s')
                c.require(obj(P0) is val, 'the objective is the ansatz\'s')
                return P
            v = V.Vqe(ans, minimizer, samp)
            import io, contextlib
            with contextlib.redirect_stdout(io.StringIO()): r = v.run(verbose) if verbose is not None else v.run()
            c.require(len(calls) == 1 and calls[0] is samp, 'the sampler is handed on')
            c.require(r.params is P, 'the result holds the minimiser\'s parameters')
            c.require(id(r.circuit) in made and made[id(r.circuit)][1] is P, 'the circuit is the one for these parameters')
            c.require(r.vqe is v, 'the result knows its run')
        return go
    for vb in (None, True, False):
        for sm in (True, False): run_explore(led, 'Vqe.run(verbose=%s%s)' % (vb, ', sampler' if sm else ''), path(vb, sm))
def probs(led):
    def path():
        c = cur()
        n = ivar('n'); c.assume(n.e >= 0)
        state = Opaque('state')
        def run(*a, **k):
            if a or set(k) - {'returns', 'shots'} or k.get('returns', 'statevector') != 'statevector' or k.get('shots') is not None: raise Unsupported('circuit run in another way')
            return state
        circ = Obj('circuit', run=run, n_qubits=n)
        def isall(m):
            s = iseq.of(m)
            if s is None: raise Unsupported('qubits to be read')
            j = z3.Int('j')
            return c.implied(s.N == n.e) and c.implied(z3.Implies(z3.And(j >= 0, j < n.e), s.at(j).e == j))
        cnt = []
        def mk(kind, src):
            def f(*a):
                if len(a) != 2: raise Unsupported('sampler called in another way')
                r = Opaque('probabilities'); cnt.append((r, kind, src, a[0], isall(a[1]))); return r
            return f
        expect = mk('expect', None)
        s1, s2 = mk('sampler', 's1'), mk('sampler', 's2')
        old = V.expect; V.expect = expect
        try:
            dflt = s1 if either(('dflt',), 'the run has a sampler') else None
            v = V.Vqe(Obj('ansatz'), lambda o, k: None, dflt)
            r = V.VqeResult(v, Opaque('params'), circ)
            stored = None
            for call in (1, 2, 3):
                kw = {}
                k = c.choose(3 if dflt and call > 1 else 2, 'sampler given')
                # another sampler, or the very one of the run, given again
                given = (s1 if k == 2 else s2, 's1' if k == 2 else 's2')
                if k: kw['sampler'] = given[0]
                rr = [None, True, False][c.choose(3, 'rerun')] if call > 1 else [None, True][c.choose(2, 'rerun')]
                if rr is not None: kw['rerun'] = rr
                if call < 3 and c.choose(2, 'store'): kw['store'] = False
                got = r.get_probs(**kw)
                again = (rr if rr is not None else bool(k)) or stored is None
                if not again:
                    c.require(got is stored, 'the stored probabilities are given again'); continue
                e = [x for x in cnt if x[0] is got]
                c.require(len(e) == 1 and e[0] is cnt[-1], 'a fresh result where one is asked for')
                if not e: return
                _, kind, src, q, full = e[0]
                want = ('sampler', given[1]) if k else ('sampler', 's1') if dflt else ('expect', None)
                c.require((kind, src) == want, 'by the sampler given, or the run\'s, or exactly')
                c.require(q is (state if kind == 'expect' else circ), 'of the result\'s circuit')
                c.require(full, 'of all qubits in order')
                if kw.get('store', True): stored = got
        finally: V.expect = old
    run_explore(led, 'VqeResult.get_probs', path)
class Items:
    """the items of a table of any size, sorted or not"""
    vx_static = True
    def __init__(self, tab, key=None, rev=False, n=None, ty=None): self.tab, self.key, self.rev, self.n, self.ty = tab, key, rev, n, ty
    def vx_sorted(self, kw):
        if self.key is not None or set(kw) - {'key', 'reverse'} or 'key' not in kw: raise Unsupported('sorting')
        return Items(self.tab, kw['key'], kw.get('reverse', False), None, list)
    def vx_seq(self, ty): return Items(self.tab, self.key, self.rev, self.n, ty)
    def __getitem__(self, i):
        if not isinstance(i, slice) or i.start is not None or i.step is not None or self.n is not None or self.ty is None: raise Unsupported('items of a table')
        return Items(self.tab, self.key, self.rev, i.stop, self.ty)
    def _bad(self, *a): raise Unsupported('items of a table')
    __iter__ = __len__ = __bool__ = _bad
def most_common(led):
    def path():
        c = cur()
        tab = Obj('probabilities'); tab.__dict__['items'] = lambda: Items(tab)
        r = V.VqeResult(Obj('vqe'), Opaque('p'), Opaque('c'))
        asked = []
        def gp(*a, **k):
            if a or k: raise Unsupported('probabilities asked in another way')
            asked.append(1); return tab
        r.get_probs = gp
        if c.choose(2, 'count given'):
            n = ivar('n'); c.assume(n.e >= 0); m = r.most_common(n)
        else: n = 1; m = r.most_common()
        if not isinstance(m, Items) or m.key is None: raise Unsupported('most common in another way')
        c.require(m.n is n or isinstance(n, int) and m.n == n, 'as many as asked for')
        c.require(m.ty is tuple, 'a tuple')
        k1, p1, k2, p2 = Opaque('key1'), alg.rsym('p1'), Opaque('key2'), alg.rsym('p2')
        a, b = m.key((k1, p1)), m.key((k2, p2))
        if Alg.of(a) is None or Alg.of(b) is None: raise Unsupported('order of the strings')
        d = (Alg.of(a) - Alg.of(b)) * (-1 if not m.rev else 1)
        q = d - (p1 - p2)
        c.prove_zero(q, 'in decreasing order of probability')
    run_explore(led, 'VqeResult.most_common', path)
def minimizer(led):
    def path():
        c = cur(); X, obj = Opaque('x'), Opaque('objective')
        seen = []
        def smin(f, x0, *a, **k):
            seen.append((f, x0, a, k)); return Obj('result', x=X)
        old = V.scipy_minimizer; V.scipy_minimizer = smin
        try:
            opt = Opaque('options')
            n = ivar('n'); c.assume(n.e >= 0)
            r = V.get_scipy_minimizer(method='M', options=opt)(obj, n)
        finally: V.scipy_minimizer = old
        c.require(r is X, 'the parameters are those scipy found')
        c.require(len(seen) == 1 and seen[0][0] is obj and seen[0][3] == {'method': 'M', 'options': opt} and not seen[0][2], 'the objective is minimised')
        ln = shadows.s_len(seen[0][1])
        c.prove(zint(ln) == n.e, 'over that many parameters')
    run_explore(led, 'get_scipy_minimizer', path)

def run(led, tier='quick'):
    global V
    loader.fresh(); loader.load('blueqat'); V = loader.load('blueqat.vqe')
    V.Circuit = lambda n=0: Circ(n if isinstance(n, SInt) else SInt(z3.IntVal(n)))
    for given, mixer in ((False, False), (True, False), (True, True)): qaoa(led, given, mixer)
    vqe_run(led); probs(led); most_common(led); minimizer(led)
    for n in ('QaoaAnsatz.__init__', 'QaoaAnsatz.get_circuit', 'QaoaAnsatz.check_hamiltonian', 'AnsatzBase.__init__'): led.functions['blueqat.vqe.' + n] = 'any number of terms, steps and qubits'
    for n in ('Vqe.__init__', 'Vqe.run', 'VqeResult.__init__', 'VqeResult.get_probs', 'VqeResult.most_common', 'get_scipy_minimizer'): led.functions['blueqat.vqe.' + n] = 'opaque ansatz, minimiser, sampler and circuit'
    led.need = 60
ASSUMPTIONS = ['contract of get_time_evolution (C14), of is_all_terms_commutable (C13), of circuits: copy is independent, g(params)[:] applies the gate to every qubit, make_cache changes nothing observable (C07, C08)',
 'contract of expect and of the samplers (C15)', 'numbers are exact (floats as reals)',
 'the terms of the Hamiltonian commute, so their exponentials may be applied in any order']
EXPLANATION = ''
