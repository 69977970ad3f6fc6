"""C23: a backend sees every operation once, in order, directly or decomposed."""
from contracts.common import *
from engine.opaque import Opaque, OName, GList, Seg, either, content, raw

class Op(Opaque):
    """an arbitrary operation: has a name, and its decomposition is either a list of
    operations or refused"""
    def __init__(self, tag, n=None):
        Opaque.__init__(self, 'op.%s' % tag)
        s = object.__setattr__
        s(self, 'lowername', OName('name of op.%s' % tag, 'op.%s' % tag)); s(self, 'asked', []); s(self, 'dec', None)
    def fallback(self, n_qubits):
        self.asked.append(n_qubits)
        if either(('nofb', self.vx_name), '%s has no decomposition' % self.vx_name): raise NotImplementedError('no fallback')
        if self.dec is None: object.__setattr__(self, 'dec', Seq('dec(%s)' % self.vx_name, self))
        return self.dec
class Seq(Opaque):
    """the list of operations an operation decomposes into"""
    def __init__(self, name, of): Opaque.__init__(self, name); object.__setattr__(self, 'of', of)

class Ctx:
    """a run's context; the ghost history says what was done to reach it.  Contexts may be
    any value, hence true or false, and steps make new ones."""
    def __init__(self, hist): self.hist = hist
    def __bool__(self): return either(('ctx', self.hist), 'context is true')
    def __eq__(self, o): return self is o
    __hash__ = None
    def vx_classify(self, lp, initial):
        if initial: self.h0 = self.hist; return 'F'
        return 'F' if self.hist == lp.h0 + (('all before', lp.seq.name),) + step(lp.item) else 'any'
    def vx_concretize(self, lp, tag, mode):
        if tag != 'F': return Ctx(('unknown', id(lp)))
        lp.h0 = self.h0
        return Ctx(self.h0 + (('all before' if mode == 'body' else 'all', lp.seq.name),))
    def __copy__(self): return self
    def __repr__(self): return 'Ctx%r' % (self.hist,)
def has_action(op): return either(('act', op.vx_name), '%s has an action' % op.vx_name)
def step(op):
    """what the contract says happens for one operation"""
    return (('act', op.vx_name),) if has_action(op) else (('dec', op.vx_name),)

def backend_class(base, log, rec=True):
    def getattr_(self, nm):
        if nm.startswith('gate_\ue000') and nm.endswith('\ue001'):
            tag = nm[len('gate_\ue000'):-1]
            if has_action_name(tag):
                def action(gate, ctx):
                    if gate.lowername.key != tag: raise Unsupported('action of another operation')
                    log.append(('act', gate, ctx)); return Ctx(ctx.hist + (('act', gate.vx_name),))
                return action
        raise AttributeError(nm)
    def has_action_name(tag): return either(('act', tag), '%s has an action' % tag)
    def run_gates(self, gates, n, ctx):
        # the callee's contract, for the operations an operation decomposes into
        if isinstance(gates, Seq):
            log.append(('sub', gates, n, ctx))
            if either(('refused', gates.vx_name), '%s is refused' % gates.vx_name): raise NotImplementedError('refused')
            return Ctx(ctx.hist + (('dec', gates.of.vx_name),))
        return base._run_gates(self, gates, n, ctx)
    def resolve(self, gates, n):
        if isinstance(gates, Seq):
            if either(('refused', gates.vx_name), '%s is refused' % gates.vx_name): raise NotImplementedError('refused')
            return [Seg('flat(%s)' % gates.of.vx_name)]
        return base._resolve_fallback(self, gates, n)
    d = {'__getattr__': getattr_, 'vx_static': True}
    if rec: d['_run_gates'] = run_gates; d['_resolve_fallback'] = resolve
    return type('B', (base,), d)

def refused(c):
    return any(v[0] for k, v in c.extra.get('either', {}).items() if k[0] in ('nofb', 'refused'))

def run_gates(led, k=None):
    base = sys.modules['blueqat.backends.backendbase'].Backend
    def path():
        c = cur(); log = []
        b = backend_class(base, log)()
        n = Opaque('n_qubits')
        ctx0 = Ctx(('start',))
        ops = [Op(str(i)) for i in range(k)] if k is not None else SymSeq('gates', Op)
        if k is None: ops.pytype = list
        try: out = base._run_gates(b, ops, n, ctx0)
        except NotImplementedError:
            c.require(refused(c), 'refused only when an operation has neither action nor decomposition')
            return
        c.require(not refused(c), 'an operation without action and decomposition is refused')
        if not isinstance(out, Ctx): c.require(False, 'the last context is returned', repr(out)); return
        if k is None: c.require(out.hist == ('start', ('all', 'gates')), 'every operation once, in order, each step given the context the one before returned', repr(out.hist))
        else:
            want = ('start',) + tuple(x for o in ops for x in step(o))
            c.require(out.hist == want, 'every operation once, in order, each step given the context the one before returned', '%r' % (out.hist,))
            done = [(e[1].vx_name if e[0] == 'act' else e[1].of.vx_name) for e in log]
            c.require(done == [o.vx_name for o in ops], 'every operation once, in order', '%r' % done)
            c.require(all(x is n for o in ops for x in o.asked) and all(e[2] is n for e in log if e[0] == 'sub'), 'decompositions are made for the size of the register')
    return run_explore(led, 'Backend._run_gates' + ('' if k is None else '[%d operations]' % k), path)

def resolve(led, k=None):
    base = sys.modules['blueqat.backends.backendbase'].Backend
    def path():
        c = cur(); log = []
        b = backend_class(base, log)()
        n = Opaque('n_qubits')
        ops = [Op(str(i)) for i in range(k)] if k is not None else SymSeq('gates', Op)
        try: out = base._resolve_fallback(b, ops, n)
        except NotImplementedError:
            c.require(refused(c), 'refused only when an operation has neither action nor decomposition'); return
        c.require(not refused(c), 'an operation without action and decomposition is refused')
        if k is not None:
            got = [x[1] if x[0] == 'item' else x for x in content(out)]
            items = raw(out)
            ok = len(items) == k and all((x is o) if has_action(o) else (isinstance(x, Seg) and x.vx_name == 'flat(dec(%s))' % o.vx_name or getattr(x, 'vx_name', '') == 'flat(%s)' % o.vx_name) for x, o in zip(items, ops))
            c.require(ok, 'each operation, or its own flattened decomposition, in order', repr(items))
        else:
            items = raw(out)
            if len(items) != 1 or not isinstance(items[0], FoldSeg): raise Unsupported('not built by one pass')
            for _, el, its, _ in items[0].alternatives:
                ok = len(its) == 1 and (its[0] is el or (isinstance(its[0], Seg) and its[0].vx_name == 'flat(%s)' % el.vx_name))
                c.require(ok, 'each operation, or its own flattened decomposition, in order', repr(its))
            kinds = sorted('self' if its[0] is el else 'dec' for _, el, its, _ in items[0].alternatives if len(its) == 1)
            c.require(kinds.count('self') >= 1 and kinds.count('dec') >= 1, 'both kinds of operations are covered')
    return run_explore(led, 'Backend._resolve_fallback' + ('' if k is None else '[%d operations]' % k), path)

def run(led, tier='quick'):
    load_repo()
    bm = sys.modules['blueqat.backends.backendbase']; base = bm.Backend
    n0 = len(led.obs)
    run_gates(led)
    for k in (0, 1, 2, 3) if any(o.status != 'proved' for o in led.obs[n0:]) else (1, 2): run_gates(led, k)
    n0 = len(led.obs)
    resolve(led)
    for k in (0, 1, 2): resolve(led, k)
    def entry():
        c = cur(); calls = []
        x, y, z, a, kw, c0, c1, res = [Opaque(s) for s in ('gates', 'gates2', 'n', 'args', 'kwargs', 'ctx0', 'ctx1', 'result')]
        class B(base):
            vx_static = True
            def _preprocess_run(self, gates, n_qubits, args, kwargs): calls.append(('pre', gates, n_qubits, args, kwargs)); return y, c0
            def _run_gates(self, gates, n_qubits, ctx): calls.append(('run', gates, n_qubits, ctx)); return c1
            def _postprocess_run(self, ctx): calls.append(('post', ctx)); return res
        out = base._run(B(), x, z, a, kw)
        want = [('pre', x, z, a, kw), ('run', y, z, c0), ('post', c1)]
        c.require(len(calls) == 3 and all(len(p) == len(q) and all(u is v for u, v in zip(p, q)) for p, q in zip(calls, want)), 'preparation once, the operations it returns run from its context, finishing given the last context', repr(calls))
        c.require(out is res, 'the result is what finishing returns')
    run_explore(led, 'Backend._run', entry)
    def opts():
        c = cur(); calls = []
        x, z, a0, a1, v = [Opaque(s) for s in ('gates', 'n', 'arg', 'arg2', 'option')]
        class B(base):
            vx_static = True
            def _run(self, gates, n_qubits, args, kwargs): calls.append((gates, n_qubits, args, kwargs)); return v
        for args, kw in (((), {}), ((a0, a1), {'shots': v, 'other': a0})):
            del calls[:]
            out = base.run(B(), x, z, *args, **kw)
            c.require(out is v and len(calls) == 1 and len(calls[0]) == 4 and calls[0][0] is x and calls[0][1] is z and tuple(map(id, calls[0][2])) == tuple(map(id, args))
                      and {k: id(u) for k, u in calls[0][3].items()} == {k: id(u) for k, u in kw.items()}, 'options are passed on unchanged')
    run_explore(led, 'Backend.run', opts)
    def defaults():
        c = cur()
        b = base.__new__(base)
        g, n, a, k, ctx = [Opaque(s) for s in ('gates', 'n', 'args', 'kwargs', 'ctx')]
        p = base._preprocess_run(b, g, n, a, k)
        c.require(isinstance(p, tuple) and len(p) == 2 and p[0] is g, 'default preparation keeps the operations')
        c.require(base._postprocess_run(b, ctx) is None, 'default finishing returns nothing')
        c.require(base.make_cache(b, g, n) is None, 'default cache does nothing')
    run_explore(led, 'Backend defaults', defaults)
    def lookup():
        c = cur(); log = []
        b = backend_class(base, log)()
        o = Op('g')
        a, h = base._get_action(b, o), base._has_action(b, o)
        c.require((a is not None) == has_action(o) and bool(h) == has_action(o), 'an action is found exactly when the backend has one')
        if a is not None:
            x = Ctx(('x',)); r = a(o, x)
            c.require(r.hist == ('x', ('act', o.vx_name)), 'the action found is the operation\'s own')
    run_explore(led, 'Backend._get_action, _has_action', lookup)
    def nofallback():
        c = cur()
        gate = sys.modules['blueqat.gate']
        class G(gate.Gate): lowername = 'g'; vx_static = True
        for cls in (G, gate.Measurement, gate.Reset, gate.CCZGate):
            o = cls(Opaque('targets'))
            try: o.fallback(Opaque('n'))
            except NotImplementedError: c.require(True, 'an operation without decomposition refuses'); continue
            c.require(False, 'an operation without decomposition refuses', cls.__name__)
    run_explore(led, 'Gate.fallback (default)', nofallback)
    for f, w in (('_run_gates', 'any list of operations, any set of actions, by induction on the decomposition'), ('_resolve_fallback', 'the same'), ('_run', 'all'), ('run', 'all'),
                 ('_get_action', 'any name'), ('_has_action', 'any name'), ('_preprocess_run', 'default'), ('_postprocess_run', 'default'), ('make_cache', 'default')):
        led.functions['blueqat.backends.backendbase.Backend.' + f] = w
    led.functions['blueqat.gate.Gate.fallback'] = 'default'
    led.need = 40
ASSUMPTIONS = ['Decomposition ends (C02 shows that the rank of a gate decreases); the recursive call is replaced by the contract being proved.']
