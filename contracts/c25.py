"""C25: the compiled kernels, as the Python functions they are written as: every gate
action against its matrix, with the rule for parallel loops."""
from contracts.common import *
from contracts.c01 import Frozen
from contracts import c05
from engine import par
from engine.par import UInts
from engine.pool import parallel
import types, itertools

class Ty:
    """a numba integer type: calls convert (64-bit arithmetic is what SInt does)"""
    def __init__(self, name): self.name = name
    def __call__(self, *a):
        if len(a) == 1 and isinstance(a[0], (int, SInt)) and not isinstance(a[0], bool): return a[0]
        return self
    def __getitem__(self, k): return self
def deco(*a, **k):
    if len(a) == 1 and isinstance(a[0], types.FunctionType) and not k: return a[0]
    return lambda f: f
def numba():
    m = types.ModuleType('numba')
    m.jit = m.njit = m.vectorize = deco; m.prange = par.prange
    for n in ('uint8', 'uint16', 'uint32', 'uint64', 'int8', 'int16', 'int32', 'int64', 'intp', 'uintp', 'float32', 'float64', 'complex64', 'complex128', 'boolean', 'void'): setattr(m, n, Ty(n))
    m.types = m; m.typeof = lambda x: Ty('?')
    return m
def isuint(d):
    import numpy
    d = shadows.real_type(d)
    try: return numpy.dtype(d).kind == 'u'
    except TypeError: return isinstance(d, Ty)
def arr(x, dtype=None, *a, **k):
    if isinstance(x, (list, tuple, UInts)) and any(isinstance(e, SInt) for e in x): return UInts(x)
    return shadows.np_array(x, dtype, *a, **k)
def empty(fill):
    real = shadows.np_empty if fill is None else shadows.np_zeros
    def f(shape, dtype=float, **k):
        if isinstance(shape, int) and isuint(dtype): return UInts([fill if fill is not None else par.seqs.Poison('empty')] * shape)
        return real(shape, dtype, **k)
    return f
def conv(real):
    return lambda x: x if isinstance(x, (SInt, int)) else real(x)

NQ = 60
def register60():
    c = cur(); n = bvar('n'); c.assume(z3.And(n.e >= 0, n.e <= NQ)); c.extra['qubits'] = []; c.extra['prefer'] = [n.e <= 5]
    return n, Dom(n.e)
def context(impl):
    def mk(n, dom, psi):
        ctx = impl._NumbaBackendContext.__new__(impl._NumbaBackendContext)
        ctx.n_qubits = n; ctx.qubits = SymArr(dom, psi); ctx.save_cache = True; ctx.shots_result = Frozen('shots_result'); ctx.cregs = Frozen('cregs')
        return ctx
    return mk
def action(led, impl, g, unroll=None, order=None):
    nq, npar, mat = gs.GATES[g]
    gate = sys.modules['blueqat.gate']
    cls = getattr(gate, gs.CLASSES[g])
    name = 'NumbaBackend.gate_%s' % g + ('' if unroll is None else '[%d targets]' % unroll) + ('' if order is None else '[qubits in the order %s]' % (order,))
    def path():
        c = cur()
        n, dom = register60()
        psi = atoms('psi'); ctx = context(impl)(n, dom, psi); frame = dict(vars(ctx))
        ps = gs.symbolic_params(npar); m = mat(*ps)
        loops = []
        def spec(lp): loops.append(lp); return GateLoop(m, dom, psi)
        if nq < 3:
            sq = single_seq(n) if nq == 1 else pair_seq(n)
            if unroll is not None: sq = [sq.elem(i) for i in range(unroll)]
            tg = Targets(sq, nq)
            c.extra['loop_spec'] = spec
        else:
            tg = tuple(qubit(n, 'q%d' % i) for i in range(nq))
            for i in range(nq):
                for j in range(i): c.assume(tg[i].e != tg[j].e)
            if order is not None:
                for a, b in zip(order, order[1:]): c.assume(tg[a].e < tg[b].e)
        out = getattr(impl.NumbaBackend(), 'gate_' + g)(cls(tg, *ps), ctx)
        q = out.qubits
        c.require(isinstance(q, SymArr) and q.dom.same(dom), 'the result is a vector of the same length')
        if nq < 3 and unroll is not None:
            want = psi
            for e in sq: want = apply_content(m, [t.e for t in (e if nq == 2 else (e,))], want)
        elif nq < 3:
            if len(loops) != 1 or not loops[0].has_fold: raise Unsupported('no loop over the targets holding the fold of the targets seen so far')
            want = c.extra.get('fold_exit')
        else: want = apply_content(m, [t.e for t in tg], psi)
        x = dom.generic()
        c.prove_zero(q.f(x) - want(x), 'amplitudes', 'index is an arbitrary basis state')
        c.require(out.n_qubits is frame['n_qubits'] and out.cregs is frame['cregs'] and out.save_cache is True and out.shots_result is frame['shots_result'], 'frame: only the state changes')
    return run_explore(led, name, path)

def kernels(impl): return sorted(g for g in gs.GATES if hasattr(impl.NumbaBackend, 'gate_' + g))
def load_impl():
    """blueqat.backends._numba_backend_impl with a stand-in for the compiler"""
    m = numba()
    old = sys.modules.get('numba'); sys.modules['numba'] = m; shadows.EXTRA_MODULES['numba'] = m
    try:
        load_repo()
        impl = loader.load('blueqat.backends._numba_backend_impl')
        gate = sys.modules['blueqat.gate']
        for k in ('slicing', 'qubit_pairs'): setattr(impl, k, getattr(gate, k))
    finally:
        if old is None: del sys.modules['numba']
        else: sys.modules['numba'] = old
        shadows.EXTRA_MODULES.pop('numba', None)
    return impl, gate
def load_kernels():
    impl, gate = load_impl()
    impl.np = shadows.Shadow(shadows.NUMPY, dict(array=arr, asarray=arr, empty=empty(None), zeros=empty(0), **{t: conv(getattr(__import__('numpy'), t)) for t in ('uint64', 'uint32', 'int64', 'int32')}))
    return impl, gate
def run(led, tier='quick'):
    impl, gate = load_kernels(); jobs = []
    for g in kernels(impl):
        led.functions['blueqat.backends._numba_backend_impl.NumbaBackend.gate_' + g] = 'with its kernel; n <= 60, any target list, any parameters'
        if gs.GATES[g][0] == 3:
            # the orders of three distinct qubits are exhaustive
            for order in itertools.permutations(range(3)): jobs.append(('NumbaBackend.gate_' + g, lambda l, g=g, order=order: action(l, impl, g, order=order)))
            continue
        def job(l, g=g):
            action(l, impl, g)
            if any(o.status != 'proved' for o in l.obs) and gs.GATES[g][0] < 3:
                for k in (0, 1, 2): action(l, impl, g, k)
        jobs.append(('NumbaBackend.gate_' + g, job))
    kw = dict(cls=impl.NumbaBackend, mkctx=context(impl))
    for kind in ('measure', 'reset'):
        jobs.append((kind, lambda l, kind=kind: c05.action(l, kind, **kw)))
        for k in (0, 1): jobs.append((kind, lambda l, kind=kind, k=k: c05.action(l, kind, k, **kw)))
        jobs.append((kind, lambda l, kind=kind: c05.action(l, kind, 2, same=True, **kw)))
        led.functions['blueqat.backends._numba_backend_impl.NumbaBackend.gate_' + kind] = 'with its kernels; n <= 31, any normalised state'
    jobs.sort(key=lambda j: not any(t in j[0] for t in ('measure', 'reset', 'cc')))
    parallel(led, jobs)
    led.need = 100
ASSUMPTIONS = c05.ASSUMPTIONS + ['numba compiles the kernels to what the Python text says, with 64-bit wrapping integers; the compiler itself is absent here.',
 'A prange loop runs each iteration once, in any order or interleaving; accesses to distinct amplitudes do not interfere; sums of a reduction are exact.']
