"""C19: registration of gates, macros and backends behaves as a registry."""
from contracts.common import *
from engine.opaque import Opaque, OName, GDict, GList, Seg, either, raw
from functools import partial

KINDS = ('GATE_SET', 'GLOBAL_MACROS', 'BACKENDS')
class World:
    """the global tables and default, in an arbitrary state"""
    def __init__(self, cm):
        self.cm = cm
        for k in KINDS: setattr(cm, k, GDict(k))
        cm.DEFAULT_BACKEND_NAME = self.default = OName('global default', 'default')
        self.tabs = [getattr(cm, k) for k in KINDS]
    def logs(self): return {k: list(t.log) for k, t in zip(KINDS, self.tabs)}
    def intact(self): return all(getattr(self.cm, k) is t for k, t in zip(KINDS, self.tabs))
    def unchanged(self): return self.intact() and all(not t.log for t in self.tabs) and self.cm.DEFAULT_BACKEND_NAME is self.default
    def only(self, kind, entry):
        """the one change made is this one"""
        return self.intact() and all(effective(t) == ({entry[1]: entry} if k == kind else {}) for k, t in zip(KINDS, self.tabs))
def effective(t):
    """net effect of a table's updates, by name"""
    out = {}
    for e in t.log: out[e[1]] = e
    return {k: e for k, e in out.items()}
def asked(c, *key):
    """the answer this path gave, or None if the code never asked"""
    v = c.extra.get('either', {}).get(key)
    return None if v is None else v[0]
def dec(c, *key):
    return either(key, ' '.join(map(str, key)))

def register(led, kind, fn):
    cm = sys.modules['blueqat.circuit']
    def path():
        c = cur(); w = World(cm)
        name = OName('name', 'N'); val = Opaque('value')
        over = [False, True, None][c.choose(3, 'allow_overwrite')]
        kw = {} if over is None else {'allow_overwrite': over}
        f = getattr(cm.BlueqatGlobalSetting, fn)
        try: f(name, val, **kw)
        except ValueError: raised = True
        else: raised = False
        over = bool(over)
        if kind == 'BACKENDS': taken = [dec(c, 'hasattr', 'Circuit', 'run_with_N'), dec(c, 'in', id(cm.BACKENDS), 'N') if w.intact() else None]
        else: taken = [dec(c, 'hasattr', 'Circuit', 'N'), dec(c, 'startswith', 'N', 'run_with_'), dec(c, 'in', id(cm.GATE_SET), 'N'), dec(c, 'in', id(cm.GLOBAL_MACROS), 'N')]
        if raised:
            c.require(not over and any(taken), 'refused only for an existing or reserved name without overwriting')
            c.require(w.unchanged(), 'frame: a refused registration changes nothing', repr(w.logs()))
        else:
            c.require(over or not any(taken), 'an existing or reserved name is refused unless overwriting is asked for', repr(taken))
            c.require(w.only(kind, ('set', 'N', val)), 'exactly the named entry is set', repr(w.logs()))
            c.require(cm.DEFAULT_BACKEND_NAME is w.default, 'frame: the default backend is kept')
    return run_explore(led, 'BlueqatGlobalSetting.' + fn, path)

def unregister(led, kind, fn):
    cm = sys.modules['blueqat.circuit']
    def path():
        c = cur(); w = World(cm)
        name = OName('name', 'N')
        try: getattr(cm.BlueqatGlobalSetting, fn)(name)
        except ValueError: raised = True
        else: raised = False
        if not w.intact(): raise Unsupported('a table is replaced')
        there = dec(c, 'in', id(getattr(cm, kind)), 'N')
        if raised:
            c.require(not there, 'refused only when there is no such entry'); c.require(w.unchanged(), 'frame: nothing changes')
        else:
            c.require(there, 'a name which is not registered is refused')
            c.require(w.only(kind, ('del', 'N', None)), 'exactly the named entry of this kind is removed', repr(w.logs()))
            c.require(cm.DEFAULT_BACKEND_NAME is w.default, 'frame: the default backend is kept')
    return run_explore(led, 'BlueqatGlobalSetting.' + fn, path)

def default(led):
    cm = sys.modules['blueqat.circuit']
    def path():
        c = cur(); w = World(cm)
        name = OName('name', 'N')
        try: cm.BlueqatGlobalSetting.set_default_backend(name)
        except ValueError:
            c.require(not dec(c, 'in', id(cm.BACKENDS), 'N'), 'refused only for an unknown name'); c.require(w.unchanged(), 'the previous default is kept'); return
        c.require(dec(c, 'in', id(cm.BACKENDS), 'N'), 'an unknown name is refused')
        c.require(cm.DEFAULT_BACKEND_NAME is name and not any(t.log for t in w.tabs), 'the default is the name given')
        c.require(cm.BlueqatGlobalSetting.get_default_backend_name() is name, 'and is reported')
    run_explore(led, 'BlueqatGlobalSetting.set_default_backend', path)
    def own():
        c = cur(); w = World(cm)
        k = cm.Circuit(3); old = [None, OName('own', 'own')][c.choose(2, 'own default')]
        k._default_backend = old
        c.require(k.get_default_backend_name() is (old or w.default), 'own default, else the global one')
        name = [None, OName('name', 'N')][c.choose(2, 'name')]
        try: k.set_default_backend(name)
        except ValueError:
            c.require(name is not None and not dec(c, 'in', id(cm.BACKENDS), 'N'), 'refused only for an unknown name'); c.require(k._default_backend is old and w.unchanged(), 'the previous default is kept'); return
        c.require(name is None or dec(c, 'in', id(cm.BACKENDS), 'N'), 'an unknown name is refused')
        c.require(k._default_backend is name and w.unchanged(), 'the circuit\'s default is the name given')
        c.require(k.get_default_backend_name() is (name or w.default), 'and is reported')
    run_explore(led, 'Circuit.set_default_backend', own)

class Bk(Opaque):
    def __init__(self, name): Opaque.__init__(self, name); object.__setattr__(self, 'calls', []); object.__setattr__(self, 'made', [])
    def __call__(self):
        b = Bk('instance of ' + self.vx_name); self.made.append(b); return b
    def run(self, *a, **k):
        r = Opaque('result'); self.calls.append((a, k, r)); return r
    def make_cache(self, *a): r = Opaque('cached'); self.calls.append((a, {}, r)); return r
def same(a, b): return len(a) == len(b) and all(x is y for x, y in zip(a, b))

def copies(led):
    """a copy (sum, conjugate) has the own default of the circuit, or none where it has none"""
    cm = sys.modules['blueqat.circuit']
    def path():
        c = cur(); w = World(cm); k = cm.Circuit(3); own = [None, OName('own', 'own')][c.choose(2, 'own default')]; k._default_backend = own
        how = c.choose(4, 'how')
        if how == 0: r, want = k.copy(), own
        elif how == 1: r, want = k + cm.Circuit(2), own
        elif how == 2: r, want = k.dagger(), own
        else: r, want = k.copy(copy_default_backend=False), None
        c.require(r._default_backend is want, 'the own default of the circuit, or none')
        c.require(w.unchanged() and k._default_backend is own, 'frame: tables and defaults are not changed')
    run_explore(led, 'copies of a circuit', path)
def runs(led, how):
    """which backend runs the circuit, and with what"""
    cm = sys.modules['blueqat.circuit']
    def path():
        c = cur(); w = World(cm)
        cm.BACKENDS.value = lambda k: Bk('backend class ' + k)
        k = cm.Circuit(3); k.n_qubits = n = Opaque('n'); k.ops = ops = GList([Seg('ops')])
        own = [None, OName('own', 'own')][c.choose(2, 'own default')]
        k._default_backend = own
        k._backends = GDict('instances', lambda key: Bk('instance of ' + key)); inst = k._backends
        x, y = Opaque('arg'), Opaque('option')
        given = None
        kw = {}
        if how == 'run':
            given = [None, OName('name', 'N'), Bk('a backend')][c.choose(3, 'backend given')]
            if given is not None or c.choose(2, 'backend=None given'): kw = {'backend': given}
        elif how == 'make_cache':
            given = [None, OName('name', 'N')][c.choose(2, 'backend given')]
            if given is not None: kw = {'backend': given}
        else: given = OName('name', 'N')
        name = given if given is not None else own if own is not None else w.default
        try:
            if how == 'run': r = k.run(x, shots=y, **kw)
            elif how == 'make_cache': r = k.make_cache(**kw)
            else:
                dec(c, 'in', id(cm.GATE_SET), 'run_with_N'); dec(c, 'in', id(cm.GLOBAL_MACROS), 'run_with_N')
                if ('run_with_N' in cm.GATE_SET) or ('run_with_N' in cm.GLOBAL_MACROS): return
                r = cm.Circuit.__getattr__(k, 'run_with_' + given)(x, shots=y)
        except (ValueError, AttributeError) as e:
            c.require(isinstance(e, ValueError if how != 'run_with' else (ValueError, AttributeError)), 'refused with ValueError')
            c.require(isinstance(name, OName) and (not cm.BACKENDS.state(name)[0]) and (how == 'run_with' or not dec(c, 'in', id(inst), name.key)), 'refused only for an unknown backend')
            c.require(w.unchanged() and not inst.log and k._default_backend is own, 'the previous defaults are kept'); return
        if isinstance(name, OName):
            p, b = inst.state(name)
            had = dec(c, 'in', id(inst), name.key)
            if not had:
                cls = cm.BACKENDS.state(name)
                c.require(cls[0], 'an unknown backend is refused')
                if not cls[0]: return
                c.require(p and any(b is m for m in cls[1].made) and len(cls[1].made) == 1, 'one instance of the named backend is made and kept')
                c.require(set(effective(inst)) <= {name.key}, 'no other instance changes')
            elif how == 'run_with': c.require(cm.BACKENDS.state(name)[0], 'an unregistered backend has no runner')
        else: b = name
        if not isinstance(b, Bk): c.require(False, 'the named backend runs', repr(b)); return
        c.require(len(b.calls) == 1 and b.calls[0][2] is r, 'the backend named in the call, else the circuit\'s own default, else the global default, runs once and its result is returned')
        if len(b.calls) == 1:
            a, kk, _ = b.calls[0]
            want = (ops, n) if how == 'make_cache' else (ops, n, x)
            c.require(same(a, want) and (how == 'make_cache' or (set(kk) == {'shots'} and kk['shots'] is y)), 'with the circuit\'s operations and size, and the options given', repr(b.calls))
        c.require(w.unchanged() and k._default_backend is own and k.ops is ops and k.n_qubits is n, 'frame: tables, defaults and the circuit are not changed')
    return run_explore(led, {'run': 'Circuit.run', 'make_cache': 'Circuit.make_cache', 'run_with': 'Circuit.run_with_*'}[how], path)

def lookup(led):
    cm = sys.modules['blueqat.circuit']
    def path():
        c = cur(); w = World(cm)
        k = cm.Circuit(3); name = OName('name', 'N')
        try: r = cm.Circuit.__getattr__(k, name)
        except AttributeError:
            if dec(c, 'startswith', 'N', 'run_with_'): return
            c.require(not dec(c, 'in', id(cm.GATE_SET), 'N') and not dec(c, 'in', id(cm.GLOBAL_MACROS), 'N'), 'a registered gate or macro is usable on every circuit'); return
        except Unsupported:
            if asked(c, 'startswith', 'N', 'run_with_'): return      # runners: the contract of run_with_*
            raise
        g, m = dec(c, 'in', id(cm.GATE_SET), 'N'), dec(c, 'in', id(cm.GLOBAL_MACROS), 'N')
        if type(r) is cm._GateWrapper:
            c.require(g and r.gate is cm.GATE_SET.memo['N'] and r.circuit is k, 'the gate registered under the name is applied to this circuit')
        elif isinstance(r, partial):
            c.require(m and r.func is cm.GLOBAL_MACROS.memo['N'] and same(r.args, (k,)) and not r.keywords, 'the macro registered under the name gets this circuit first')
        else: raise Unsupported('attribute of another kind: %r' % (r,))
        c.require(w.unchanged(), 'frame: looking up changes nothing')
    run_explore(led, 'Circuit.__getattr__', path)

def lifecycle(led):
    """a registered entry is found by every circuit, an unregistered one by none"""
    cm = sys.modules['blueqat.circuit']
    S = cm.BlueqatGlobalSetting
    def gates():
        c = cur(); w = World(cm); name = OName('name', 'N'); v = Opaque('gate'); other = OName('other', 'M')
        before = 'M' in cm.GATE_SET
        S.register_gate(name, v, allow_overwrite=True)
        r = cm.Circuit.__getattr__(cm.Circuit(2), name)
        c.require(type(r) is cm._GateWrapper and r.gate is v, 'a registered gate is usable on every circuit')
        S.unregister_gate(name)
        try: r = cm.Circuit.__getattr__(cm.Circuit(2), name)
        except AttributeError: c.require(True, 'an unregistered gate is not usable')
        except Unsupported:
            if not asked(c, 'startswith', 'N', 'run_with_'): raise
        else: c.require(type(r) is not cm._GateWrapper, 'an unregistered gate is not usable')
        c.require(('M' in cm.GATE_SET) == before, 'other gates are not affected')
    run_explore(led, 'lemma: gates', gates)
    def macros():
        c = cur(); w = World(cm); name = OName('name', 'N'); v = Opaque('macro')
        try: S.register_macro(name, v)
        except ValueError: return
        r = cm.Circuit.__getattr__(cm.Circuit(2), name)
        c.require(isinstance(r, partial) and r.func is v, 'a registered macro is usable on every circuit')
        S.unregister_macro(name)
        try: cm.Circuit.__getattr__(cm.Circuit(2), name)
        except AttributeError: c.require(True, 'an unregistered macro is not usable'); return
        c.require(False, 'an unregistered macro is not usable')
    run_explore(led, 'lemma: macros', macros)
    def backends():
        c = cur(); w = World(cm); name = OName('name', 'N'); v = Bk('class')
        S.register_backend(name, v, allow_overwrite=True)
        k = cm.Circuit(2); k._backends = GDict('instances'); c.extra.setdefault('either', {})[('in', id(k._backends), 'N')] = (False,)
        r = k.run(backend=name)
        c.require(len(v.made) == 1 and len(v.made[0].calls) == 1, 'a registered backend is usable on every circuit')
        S.unregister_backend(name)
        k = cm.Circuit(2); k._backends = GDict('instances'); c.extra['either'][('in', id(k._backends), 'N')] = (False,)
        try: k.run(backend=name)
        except ValueError: c.require(True, 'an unregistered backend is not usable on a new circuit'); return
        c.require(False, 'an unregistered backend is not usable on a new circuit')
    run_explore(led, 'lemma: backends', backends)

def run(led, tier='quick'):
    load_repo()
    cm = sys.modules['blueqat.circuit']
    class W:
        DeprecationWarning = DeprecationWarning
        @staticmethod
        def warn(*a, **k): pass
    cm.warnings = W
    for kind, r, us in (('GATE_SET', 'register_gate', ['unregister_gate']), ('GLOBAL_MACROS', 'register_macro', ['unregister_macro']), ('BACKENDS', 'register_backend', ['unregister_backend', 'remove_backend'])):
        register(led, kind, r); led.functions['blueqat.circuit.BlueqatGlobalSetting.' + r] = 'any name, any state of the tables'
        for u in us: unregister(led, kind, u); led.functions['blueqat.circuit.BlueqatGlobalSetting.' + u] = 'any name, any state of the tables'
    default(led); copies(led)
    for h in ('run', 'make_cache', 'run_with'): runs(led, h)
    lookup(led); lifecycle(led)
    for f in ('set_default_backend', 'get_default_backend_name'):
        led.functions['blueqat.circuit.BlueqatGlobalSetting.' + f] = 'any name'; led.functions['blueqat.circuit.Circuit.' + f] = 'any name or None'
    for f in ('run', 'make_cache', '__getattr__', '__get_backend', '__backend_runner_wrapper'): led.functions['blueqat.circuit.Circuit.' + f] = 'any names, any state of the tables'
    led.need = 200
ASSUMPTIONS = ['The tables are dicts: an arbitrary table is given by its answers for the names asked about.', 'What hasattr(Circuit, name) answers is arbitrary (any method may exist).', 'No registered backend is None.']
