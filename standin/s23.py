import itertools
import oracle as O
from blueqat import Circuit
from blueqat.gate import *
from blueqat.backends.backendbase import Backend
from blueqat.backends.numpy_backend import NumPyBackend
import blueqat.gate as GT
def gates(ops): return O.build(Circuit, ops, 4).ops
def mk(names, log, base=Backend, mutate=False):
    """a backend with actions for the named operations; every step returns a new context"""
    d = {}
    def pre(self, gs, n, args, kwargs): log.append(('pre', n, tuple(args), dict(kwargs))); return gs, (0,)
    def post(self, ctx): log.append(('post', ctx)); return ('result', ctx)
    d['_preprocess_run'] = pre; d['_postprocess_run'] = post
    def act(nm):
        def f(self, gate, ctx): log.append((nm, gate.lowername, repr(gate.targets), tuple(gate.params), ctx)); return ctx + (len(ctx),)
        return f
    for nm in names: d['gate_' + nm] = act(nm)
    return type('Rec', (base,), d)()
def expand(gs, names, n, depth=0):
    if depth > 30: raise RecursionError
    out = []
    for g in gs:
        if g.lowername in names: out.append(g)
        else: out += expand(g.fallback(n), names, n, depth + 1)
    return out
def check(t):
    t.rule = 'recording backends with random sets of actions, random operation lists'
    t.bounds = ['at most 4 qubits, at most 10 operations (40 qubits, 250 operations for a few)']
    ALL = ['i', 'x', 'y', 'z', 'h', 't', 'tdg', 's', 'sdg', 'rx', 'ry', 'rz', 'phase', 'u1', 'u2', 'u3', 'cx', 'cy', 'cz', 'ch', 'crx', 'cry', 'crz', 'cphase', 'cu1', 'cu2', 'cu3', 'rxx', 'ryy', 'rzz', 'swap', 'ccx', 'cswap', 'measure', 'reset']
    BASE = ['x', 'y', 'z', 'h', 'rx', 'ry', 'rz', 'u3', 'cx', 'cz', 'measure', 'reset']
    names = [g for g in O.G if g != 'ccz'] + ['m', 'reset']
    def rnd():
        for it in range(500 if t.thorough else 200):
            W, D = ((4, 10) if it > 6 else ((9, 90), (16, 60), (4, 250), (40, 30), (3, 140), (7, 70), (5, 100))[it])
            have = set(BASE) | {a for a in ALL if t.rng.random() < .3}
            if t.rng.random() < .1: have = set(ALL)
            ops = [O.rop(t.rng, W, [g for g in names if g in O.G], simple=t.rng.random() < .6) if t.rng.random() < .85 else (t.rng.choice(['m', 'reset']), (), O.rtarget1(t.rng, W)) for _ in range(t.rng.randint(0, 10) if D == 10 else D)]
            c = O.build(Circuit, ops, W); log = []; b = mk(have, log); inp = (sorted(have - set(BASE)), ops); t.case(inp)
            kw = {'opt': t.rng.random(), 'shots': 3} if t.rng.random() < .5 else {}
            args = (7, 'a') if t.rng.random() < .3 else ()
            before = repr(c); nops = list(c.ops)
            r = c.run(*args, backend=b, **kw)
            if repr(c) != before or [id(o) for o in c.ops] != [id(o) for o in nops]: t.fail('the circuit changed', inp)
            want = expand(c.ops, have, W)
            if len(log) < 2 or log[0] != ('pre', W, args, kw): t.fail('preparation got %r' % (log[:1],), inp); continue
            acts = log[1:-1]
            if [a[:4] for a in acts] != [(g.lowername, g.lowername, repr(g.targets), tuple(g.params)) for g in want]: t.fail('actions %r' % ([a[:3] for a in acts],), inp); continue
            ctx = (0,)
            for a in acts:
                if a[4] != ctx: t.fail('action %s got context %r instead of %r' % (a[0], a[4], ctx), inp); break
                ctx = ctx + (len(ctx),)
            if log[-1] != ('post', ctx) or r != ('result', ctx): t.fail('result %r of context %r' % (r, log[-1]), inp)
            if sum(1 for l in log if l[0] in ('pre', 'post')) != 2: t.fail('preparation or finishing called again', inp)
    t.guard('recording', rnd)
    def again():
        """the same backend again: the circuit, its register and the actions change in between"""
        for _ in range(40):
            have = set(BASE) | {a for a in ALL if t.rng.random() < .4}; log = []; cls = type(mk(have, log)); b = cls()
            for c, ops, n in O.history(t.rng, Circuit, 8, 5, [g for g in names if g in O.G]):
                if t.rng.random() < .3:       # another set of actions, as the class is now
                    g = t.rng.choice([a for a in ALL if a not in BASE])
                    if g in have: have.discard(g); delattr(cls, 'gate_' + g)
                    else:
                        have.add(g); setattr(cls, 'gate_' + g, getattr(mk([g], log), 'gate_' + g).__func__)
                if t.rng.random() < .3: b = cls()
                log.clear(); c.run(backend=b); want = expand(c.ops, have, n); t.case(('again', n, repr(ops), sorted(have)))
                if [a[:4] for a in log[1:-1]] != [(g.lowername, g.lowername, repr(g.targets), tuple(g.params)) for g in want] or log[0][1] != n: t.fail('actions in a later run', (n, ops, sorted(have - set(BASE)))); break
    t.guard('again', again)
    def refused():
        class Odd(GT.OneQubitGate): lowername = 'odd'
        for ops, have in (([XGate(0), Odd(0)], ['x']), ([HGate(0)], ['x']), ([ToffoliGate((0, 1, 2))], ['h', 'cx']), ([XGate(0), CCZGate((0, 1, 2))], ['x', 'h', 'cx', 'rz']), ([Measurement(0)], ['x']), ([Reset(0)], ['x', 'measure']), ([CSwapGate((0, 1, 2))], ['cx'])):
            log = []; t.case(('refuse', [o.lowername for o in ops], have))
            try: mk(have, log).run(ops, 3)
            except Exception: 
                if any(l[0] == 'post' for l in log): t.fail('finished although an operation was refused', repr(ops))
            else: t.fail('an operation with neither action nor decomposition is accepted', [str(o) for o in ops])
    t.guard('refused', refused)
    def replaced():
        """preparation may replace the operations and chooses the context"""
        log = []
        class B(Backend):
            def _preprocess_run(self, gs, n, args, kwargs): return list(gs)[::-1], 'start'
            def gate_x(self, g, ctx): log.append(('x', g.targets, ctx)); return 'x%r' % g.targets
            def gate_y(self, g, ctx): log.append(('y', g.targets, ctx)); return None
            def _postprocess_run(self, ctx): return ('end', ctx)
        r = Circuit(2).x[0].x[1].run(backend=B()); t.case('replaced')
        if log != [('x', 1, 'start'), ('x', 0, 'x1')] or r != ('end', 'x0'): t.fail('wrong order or context', (log, r))
        log.clear(); r = Circuit(2).x[0].y[1].run(backend=B())
        if log != [('y', 1, 'start'), ('x', 0, None)] or r != ('end', 'x0'): t.fail('context of None', (log, r))
        if Circuit(1).run(backend=B()) != ('end', 'start'): t.fail('no operations', 'empty')
        # contexts that count as false, inside decomposed operations too
        for empty in ((), 0, None, '', [], False):
            class F(Backend):
                def _preprocess_run(self, gs, n, args, kwargs): return gs, 'start'
                def gate_cx(self, g, ctx): log.append((g.targets, ctx)); return empty
                def gate_x(self, g, ctx): log.append((g.targets, ctx)); return 'x'
                def _postprocess_run(self, ctx): return ('end', ctx)
            log.clear(); t.case(('context', empty))
            r = Circuit(2).swap[0, 1].run(backend=F())
            if r != ('end', empty) or log != [((0, 1), 'start'), ((1, 0), empty), ((0, 1), empty)]: t.fail('context of a decomposed operation', (empty, log, r))
            log.clear(); r = Circuit(2).x[0].cx[0, 1].x[1].run(backend=F())
            if r != ('end', 'x') or log != [(0, 'start'), ((0, 1), 'x'), (1, empty)]: t.fail('context', (empty, log, r))
        class D(Backend):
            def gate_x(self, g, ctx): return ctx
        if Circuit(1).x[0].run(backend=D()) is not None: t.fail('default finishing', 'D')
    t.guard('replaced operations', replaced)
    def simul():
        """the state-vector simulators see the same order"""
        for _ in range(60):
            n = t.rng.randint(1, 4); have = {a for a in ALL if t.rng.random() < .5}
            ops = O.rcircuit(t.rng, n, 6); c = O.build(Circuit, ops, n); log = []
            class R(NumPyBackend):
                def _get_action(self, gate):
                    f = super()._get_action(gate)
                    if f is None: return None
                    def g(gt, ctx): log.append(gt); return f(gt, ctx)
                    return g
            r = R(); sup = [a for a in ALL + ['ccz'] if hasattr(r, 'gate_' + a)]
            c.run(backend=r); t.case(('numpy', n, repr(ops)))
            if not log and ops: continue     # actions are looked up in another way
            want = expand(c.ops, sup, n)
            if [(g.lowername, repr(g.targets), tuple(g.params)) for g in log] != [(g.lowername, repr(g.targets), tuple(g.params)) for g in want]: t.fail('the simulator ran other operations', (n, ops))
    t.guard('simulator', simul)
    def flat():
        for _ in range(60):
            have = set(BASE) | {a for a in ALL if t.rng.random() < .3}; ops = O.rcircuit(t.rng, 4, 6); gs = gates(ops); log = []; b = mk(have, log)
            if not hasattr(b, '_resolve_fallback'): return
            f = b._resolve_fallback(gs, 4); want = expand(gs, have, 4); t.case(('flat', repr(ops)))
            if [(g.lowername, repr(g.targets), tuple(g.params)) for g in f] != [(g.lowername, repr(g.targets), tuple(g.params)) for g in want]: t.fail('flattened operations differ', ops)
    t.guard('flatten', flat)
