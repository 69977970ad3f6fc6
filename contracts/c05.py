"""C05: measurement (Born rule, collapse, classical bit) and reset of the state-vector
simulator, one target at a time, for every normalised state, register and list of targets."""
from contracts.common import *
from contracts.c01 import Frozen

def bit0(q, dom): return BoolVec(dom, lambda x: (z3.LShR(x, q) & bv(1)) == bv(0))
def bit1(q, dom): return BoolVec(dom, lambda x: (z3.LShR(x, q) & bv(1)) == bv(1))

class CRegs:
    """the classical bits: an arbitrary list of 0/1 of unknown length"""
    pykind = 'list'
    def __init__(self, n): self.n = n; self.log = []
    def __setitem__(self, k, v):
        if not isinstance(k, SInt) or not cur().implied(z3.And(k.e >= 0, k.e < self.n.e)): raise Unsupported('classical bit index')
        self.log.append((k, v))
    def _bad(self, *a, **k): raise Unsupported('the code looks into the classical bits')
    __getitem__ = __iter__ = __len__ = __contains__ = __bool__ = _bad
    def slen(self): return self.n
    def vx_classify(self, lp, initial):
        if initial: return 'F' if not self.log else 'any'
        if lp.F is not None: lp.spec.step(lp.F, lp.item, lp)
        law = getattr(lp, 'law', None)
        if law is None or law[0] is None: return 'any'
        return 'F' if logged(self.log, law[3]) else 'any'
    def vx_concretize(self, lp, tag, mode):
        if tag != 'F': raise Unsupported('classical bits other than those of the targets seen so far')
        self.log = [] if mode == 'body' else ['fold']
        return self
def logged(log, want):
    return len(log) == len(want) and all(not isinstance(a, str) and isinstance(a[1], int) and not isinstance(a[1], bool) and a[1] == b[1] and cur().implied(a[0].e == b[0].e) for a, b in zip(log, want))

def branch(u):
    """probability of the part of [0,1) this path's tests leave for the draw u"""
    c = cur()
    (sid,) = u.syms()
    facts = [(d, v) for d, v in c.extra.get('signs', []) if sid in d.syms()]
    # the strict and the weak form of one test decide the same set up to one point
    if len(facts) != 1: raise Unsupported('the outcome is decided by %d tests of the draw' % len(facts))
    d, v = facts[0]
    r = d.subs(sid, Alg.of(0)); a = d - r
    if (a - u).is_zero(): p = -r                  # u < -r
    elif (a + u).is_zero(): p = Alg.of(1) - r     # u > r
    else: raise Unsupported('test of the draw')
    return p if v else Alg.of(1) - p
def certain(p):
    p = cur().norm(p)
    return p.is_const() and p.const() in (0, 1)
def law(kind, F, q, dom, u):
    """the state after measuring or resetting qubit q with the draw u: (state, outcome)"""
    c = cur()
    p0 = arrays.sum_register(bit0(q.e, dom), F)
    if certain(p0): b = 0 if c.norm(p0).const() == 1 else 1     # no test is needed to decide
    else:
        pr = c.norm(branch(u))
        if c.norm(pr - p0).is_zero(): b = 0
        elif c.norm(pr - (Alg.of(1) - p0)).is_zero(): b = 1
        else: return None, pr, p0
    pb = p0 if b == 0 else Alg.of(1) - p0
    s = alg.sqrt(pb)
    one = bv(1) << q.e
    def f(x):
        h = c.decide((z3.LShR(x, q.e) & bv(1)) == bv(1))
        if kind == 'measure': return F(x) / s if h == bool(b) else Alg.of(0)
        if h: return Alg.of(0)
        return F(x) / s if b == 0 else F(z3.simplify(x + one)) / s
    return f, b, p0

class Law:
    def __init__(self, kind, dom, start): self.kind = kind; self.dom = dom; self.start = start
    def enter(self, lp, loc): pass
    def is_state(self, lp, arr): return arr.f is self.start
    def at_head(self, lp):
        cur().extra.setdefault('normalised', []).append(lp.F)
        lp.nrand = len(cur().extra.get('rands', [])); lp.law = None
    def at_exit(self, lp):
        f = atoms('Fold'); cur().extra.setdefault('normalised', []).append(f); return f
    def step(self, F, item, lp):
        if lp.law is None:
            us = cur().extra.get('rands', [])[lp.nrand:]
            if len(us) != 1: raise Unsupported('%d draws for one target' % len(us))
            f, b, p0 = law(self.kind, F, item, self.dom, us[0])
            if f is None: f = atoms('no branch of the law')
            else: lp.law = (f, b, p0, [(item, b)] if self.kind == 'measure' else [])
            if lp.law is None: lp.law = (None, b, p0, [('none', None)]); return f
        return lp.law[0] if lp.law[0] is not None else atoms('no branch of the law')

def numpy_ctx(n, dom, psi):
    nb = sys.modules['blueqat.backends.numpy_backend']
    ctx = nb._NumPyBackendContext.__new__(nb._NumPyBackendContext)
    ctx.n_qubits = n; ctx.qubits = SymArr(dom, psi); ctx.qubits_buf = SymArr(dom, atoms('junk'))
    ctx.indices = IdxVec(dom, lambda x: x, 32)
    return ctx
def action(led, kind, unroll=None, same=False, cls=None, mkctx=None, keeps=None):
    """keeps: does the action store the state it finds in the backend's cache (for the contract of a run)"""
    gate = sys.modules['blueqat.gate']
    nb = sys.modules['blueqat.backends.numpy_backend']
    name = '%s.gate_%s' % ((cls or nb.NumPyBackend).__name__, kind) + ('' if unroll is None else '[%s]' % ('same qubit twice' if same else '%d targets' % unroll))
    def path():
        c = cur()
        n, dom = register()
        psi = atoms('psi'); c.extra['normalised'] = [psi]
        ctx = (mkctx or numpy_ctx)(n, dom, psi)
        ctx.save_cache = False if c.choose(2, 'earlier measurement') else True
        ctx.shots_result = Frozen('shots_result'); ctx.cregs = cr = CRegs(n)
        frame = dict(vars(ctx))
        if keeps:   # a copy is not the state the loop works on
            ctx.qubits.__class__ = type('SymArr', (SymArr,), {'copy': lambda self: SymArr(self.dom, lambda x: psi(x)) if self.f is psi else SymArr.copy(self)})
        loops = []
        sq = single_seq(n)
        if same: sq = [sq.elem(0)] * 2
        elif unroll is not None: sq = [sq.elem(i) for i in range(unroll)]
        def spec(lp):
            loops.append(lp); return Law(kind, dom, psi)
        if unroll is None: c.extra['loop_spec'] = spec
        op = getattr(gate, {'measure': 'Measurement', 'reset': 'Reset'}[kind])(Targets(sq, 1))
        bk = (cls or nb.NumPyBackend)()
        out = getattr(bk, 'gate_' + kind)(op, ctx)
        q = out.qubits
        c.require(isinstance(q, SymArr) and q.dom.same(dom), 'the result is a vector of the same length')
        if unroll is None:
            if len(loops) != 1 or not loops[0].has_fold: raise Unsupported('no loop over the targets holding the fold of measured targets')
            want = c.extra.get('fold_exit')
            bits = ['fold'] if kind == 'measure' else None
        else:
            us = c.extra.get('rands', [])
            if len(us) != len(sq): raise Unsupported('%d draws for %d targets' % (len(us), len(sq)))
            want = psi; bits = []; prev = None
            for t, u in zip(sq, us):
                f, b, p0 = law(kind, want, t, dom, u)
                if f is None:
                    c.require(False, 'each outcome has the squared norm of its part as probability', 'this branch has probability %s, the 0 part %s' % (b.pretty(), p0.pretty())); return
                if same and prev is not None:
                    c.require(b == (prev if kind == 'measure' else 0), 'measuring again gives the same value' if kind == 'measure' else 'a reset qubit is 0', 'p0 = %s' % p0.pretty())
                prev = b
                c.extra['normalised'].append(f)
                if kind == 'measure': bits.append((t, b))
                want = f
        x = dom.generic()
        c.prove_zero(q.f(x) - want(x), 'amplitudes after it', 'index is an arbitrary basis state')
        if unroll is None: c.require(cr.log == (['fold'] if kind == 'measure' else cr.log) and (kind == 'measure' or cr.log in ([], ['fold'])), 'classical bits')
        else: c.require(logged(cr.log, bits), 'the value of each target is its classical bit, no other bit changes', repr(cr.log))
        if unroll == 1:
            nrm = c.extra['normalised']; nrm[:] = nrm[:1]          # the sum below does not assume what it shows
            tot = arrays.sum_register(BoolVec(dom, lambda y: z3.BoolVal(True)), q.f)
            c.prove_eq(tot, 1, 'the norm is kept')
        c.require(out.n_qubits is frame['n_qubits'] and getattr(out, 'indices', None) is frame.get('indices') and out.cregs is cr and out.shots_result is frame['shots_result'], 'frame: other data')
        if 'qubits_buf' in frame: c.require(isinstance(out.qubits_buf, SymArr) and out.qubits_buf is not q, 'work buffer separate from the state')
        if unroll != 0: c.require(out.save_cache is False, 'a state after it is not cached')
        if keeps is not None and unroll != 0:
            a = bk.cache
            if keeps and frame['save_cache'] and isinstance(a, SymArr):
                c.require(a is not q and a is not ctx.__dict__.get('qubits_buf') and a.dom.same(dom), 'the cached state is an array of its own')
                y = dom.generic(); c.prove_zero(a.f(y) - psi(y), 'the cached state is the one before it')
            elif a is not None or keeps and frame['save_cache']: raise Unsupported('the cache is filled in another way')
    return run_explore(led, name, path)

def run(led, tier='quick'):
    load_repo()
    for kind in ('measure', 'reset'):
        action(led, kind)
        for k in (0, 1): action(led, kind, k)
        action(led, kind, 2, same=True)
        if tier != 'quick' or any(o.status != 'proved' for o in led.obs): action(led, kind, 2)
        led.functions['blueqat.backends.numpy_backend.NumPyBackend.gate_' + kind] = 'n <= 31, any normalised state, any list of targets, any draws'
    led.need = 20
ASSUMPTIONS = ['random.random() is uniform on [0, 1); one draw equal to a probability exactly (measure zero) may go either way.',
 'Sums of squared moduli: linear in scalars, invariant under translation of the index set, additive over a set and its complement.',
 'The loop rule is stated for normalised states; that each step keeps the norm is an obligation of its own.']
