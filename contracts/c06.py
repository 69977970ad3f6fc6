"""C06: the shot loop of the simulator backends, any number of operations and shots."""
from contracts.runs import *
from contracts import runs, c05, c25
from engine.pool import parallel

SELS = [(r, s, 0, 'fresh', 0) for r in RETS for s in (0, 1)]
UNROLLED = [(1, 0, 2), (2, 1, 2), (2, 2, 1)]
def backends():
    impl, gate = c25.load_impl()
    nb = sys.modules['blueqat.backends.numpy_backend']
    prepare(nb, nb.NumPyBackend, False); prepare(impl, impl.NumbaBackend, True)
    return [(nb, nb.NumPyBackend, False), (impl, impl.NumbaBackend, True)]
def record(led, bs):
    for mod, cls, numba in bs:
        p = mod.__name__ + '.'
        led.functions[p + cls.__name__ + '.run'] = 'any operations, size, shots; every return type and option'
        for f in ('prepare', 'store_shot', '__init__'): led.functions[p + cls.__name__.replace('Num', '_Num') + 'Context.' + f] = 'through run'
def recorded(led, numba):
    """what a measurement records for the qubits it names, and that nothing else is recorded by it or by a reset"""
    if numba:
        impl, _ = c25.load_kernels(); kw = dict(cls=impl.NumbaBackend, mkctx=c25.context(impl))
    else: load_repo(); kw = {}
    for kind in ('measure', 'reset'):
        for k in (None, 1) if numba else (None, 1, 2):
            sub = core.Ledger(); c05.action(sub, kind, k, **kw)
            sub.obs = [o for o in sub.obs if 'bit' in o.name or o.status == 'unknown']
            led.merge(sub)
def run(led, tier='quick'):
    bs = backends(); record(led, bs)
    jobs = [('records', lambda l, nb=nb: recorded(l, nb)) for nb in (False, True)]
    def add(mod, cls, numba, conc, sel): jobs.append((cls.__name__ + '.run', lambda l: run_contract(l, mod, cls, numba, 'results', conc, sel)))
    for b in bs:
        for sel in SELS: add(*b, None, sel)
        if not b[2]:
            for sel in ((None, 0, 1, 'fresh', 0), ('shots', 1, 1, 'fresh', 0)): add(*b, None, sel)
        else: add(*b, None, ('statevector_and_shots', 1, 0, 'fresh', 1))
        for conc in UNROLLED: add(*b, conc, ('statevector_and_shots', 1, 0, 'fresh', 0))
        add(*b, (2, 1, 1), None)
    jobs.sort(key=lambda j: 0)
    parallel(led, jobs)
    led.need = 200
ASSUMPTIONS = ['An action applies its operation to the state it finds, records measured bits in cregs, draws anew each time, and clears save_cache when random (C01, C02, C05, C25 prove this of the actions).',
 'A decomposition is not empty and, applied in order, is the operation (C02); below the first level of decomposition the recursive call is used through the same contract (induction on depth); unrolled runs go one level deeper.',
 'NumbaBackend: measurements and resets are operations with an action, not parts of a decomposition.',
 'numpy: zeros, copyto, fill, copy and writing one amplitude as documented; collections.Counter; random draws are independent.',
 'At least one qubit and one shot; the backend is fresh (C07: an earlier cache does not matter). The loop invariants are inferred: relations of every number on the heap to the position and to sizes, per shape of the heap.']
