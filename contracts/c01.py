"""C01: every gate action of the state-vector simulator applies the gate's matrix to each
target, for every register size, every target list and every parameter value."""
from contracts.common import *

class Ctx: pass

def ctx_of(bq, n, dom):
    """an arbitrary simulator context satisfying the data invariant: two distinct arrays of
    length 2^n, the index array 0..2^n-1, arbitrary contents"""
    nb = sys.modules['blueqat.backends.numpy_backend']
    ctx = nb._NumPyBackendContext.__new__(nb._NumPyBackendContext)
    ctx.n_qubits = n
    ctx.qubits = SymArr(dom, atoms('psi'))
    ctx.qubits_buf = SymArr(dom, atoms('junk'))
    ctx.indices = IdxVec(dom, lambda x: x, 32)
    ctx.save_cache = True
    from collections import Counter
    ctx.shots_result = Counter()
    ctx.cregs = Frozen('cregs')
    return ctx

class Frozen:
    vx_static = True
    def __init__(self, nm): self.nm = nm
    def _bad(self, *a): raise Unsupported('%s is used by a gate action' % self.nm)
    __getitem__ = __setitem__ = __iter__ = __len__ = _bad

def action(led, bq, g, unroll=None):
    nq, npar, mat = gs.GATES[g]
    gate = sys.modules['blueqat.gate']
    nbm = sys.modules['blueqat.backends.numpy_backend']
    cls = getattr(gate, gs.CLASSES[g])
    name = 'NumPyBackend.gate_%s' % g
    if unroll is not None: name += '[%d targets]' % unroll
    def path():
        c = cur()
        backend = nbm.NumPyBackend()
        n, dom = register()
        ctx = ctx_of(bq, n, dom)
        frame = dict(vars(ctx))
        ps = gs.symbolic_params(npar)
        m = mat(*ps)
        psi = ctx.qubits.f
        loops = []
        def spec(lp):
            loops.append(lp)
            return GateLoop(m, dom, psi)
        if nq < 3:
            sq = single_seq(n) if nq == 1 else pair_seq(n)
            if unroll is not None: sq = [sq.elem(i) for i in range(unroll)]
            tg = Targets(sq, nq)
        else:
            tg = tuple(qubit(n, 'q%d' % i) for i in range(nq))
            for i in range(nq):
                for j in range(i): c.assume(tg[i].e != tg[j].e)
        if nq < 3: c.extra['loop_spec'] = spec
        op = cls(tg, *ps)
        act = backend._get_action(op)
        if act is None:
            c.require(False, 'the action exists'); return
        out = act(op, ctx)
        # postconditions
        q = out.qubits
        c.require(isinstance(q, SymArr) and q.dom.same(dom), 'the result is a vector of the same length')
        if nq < 3 and unroll is not None:
            want = psi
            for e in sq: want = apply_content(m, [t.e for t in (e if nq == 2 else (e,))], want)
        elif nq < 3:
            if not loops: raise Unsupported('no loop over the targets was seen')
            if len(loops) != 1: raise Unsupported('more than one loop over the targets')
            if not loops[0].has_fold: raise Unsupported('loop invariant not preserved: no array holds the fold of the targets seen so far')
            want = c.extra.get('fold_exit')
        else: want = apply_content(m, [t.e for t in tg], psi)
        x = dom.generic()
        c.prove_zero(q.f(x) - want(x), 'amplitudes', 'index is an arbitrary basis state')
        c.require(isinstance(out.qubits_buf, SymArr) and out.qubits_buf is not q and out.qubits_buf.dom.same(dom), 'work buffer separate from the state')
        c.require(out.n_qubits is frame['n_qubits'] and out.indices is frame['indices'] and out.cregs is frame['cregs'] and out.save_cache is True
                  and out.shots_result is frame['shots_result'], 'frame: only the state and the work buffer change')
    return run_explore(led, name, path)

def numpy_gates():
    nbm = sys.modules['blueqat.backends.numpy_backend']
    return sorted(g for g in gs.GATES if hasattr(nbm.NumPyBackend, 'gate_' + g))
def gate(led, bq, g):
    n0 = len(led.obs)
    action(led, bq, g)
    if any(o.status != 'proved' for o in led.obs[n0:]) and gs.GATES[g][0] < 3:
        # the loop rule did not go through: exact, bounded in the number of targets
        for k in (0, 1, 2): action(led, bq, g, unroll=k)
def created(led):
    """the context every run starts from: |0...0>, a work array of its own, the positions as indices"""
    nbm = sys.modules['blueqat.backends.numpy_backend']
    def path():
        c = cur(); n, dom = register()
        ctx = nbm._NumPyBackendContext(n); old = ctx.qubits
        if c.choose(2, 'used before'):
            ctx.qubits = SymArr(dom, atoms('psi')); ctx.qubits_buf = SymArr(dom, atoms('junk')); old = ctx.qubits
            ctx.save_cache = False
        how = c.choose(2, 'state given'); psi = SymArr(dom, atoms('phi'))
        ctx.prepare(psi if how else None)
        q, b, ix = ctx.qubits, ctx.qubits_buf, ctx.indices
        if not (isinstance(q, SymArr) and isinstance(b, SymArr) and isinstance(ix, IdxVec)): raise Unsupported('a context of another kind')
        c.require(q.dom.same(dom) and b.dom.same(dom) and ix.dom.same(dom), 'vectors of the length of the register')
        c.require(q is not b and q is not psi, 'arrays of their own')
        x = dom.generic()
        c.prove(ix.f(x) == x, 'the indices are the positions')
        want = psi.f(x) if how else Alg.of(1) if c.decide(x == 0) else Alg.of(0)
        c.prove_zero(Alg.of(q.f(x)) - want, 'the state is the one given, or |0...0>')
        c.require(ctx.n_qubits is n, 'the size of the register')
    run_explore(led, 'context of a run', path)
    for f in ('__init__', 'prepare'): led.functions['blueqat.backends.numpy_backend._NumPyBackendContext.' + f] = 'n <= 31'
def run(led, tier='quick'):
    bq = load_repo()
    created(led)
    for g in numpy_gates():
        gate(led, bq, g)
        led.functions['blueqat.backends.numpy_backend.NumPyBackend.gate_' + g] = 'n <= 31, any target list, any parameters'
    led.need = 20
