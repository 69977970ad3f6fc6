import warnings, collections, numpy as np
import oracle as O
from blueqat import Circuit, BlueqatGlobalSetting as B
import blueqat
from blueqat.gate import OneQubitGate, XGate, HGate
from blueqat.backends.backendbase import Backend
class Foo(OneQubitGate):
    lowername = 'foo'
    def fallback(self, n): return [XGate(t) for t in self.target_iter(n)]
    def dagger(self): return self
class Bar(OneQubitGate):
    lowername = 'bar'
    def fallback(self, n): return [HGate(t) for t in self.target_iter(n)]
def mk(tag):
    class Bk(Backend):
        def run(self, gates, n, *a, **k): return (tag, len(gates), n, a, tuple(sorted(k.items())))
    return Bk
def refused(t, f, what):
    try: f()
    except ValueError: return True
    except Exception as e: t.fail('%s raises %s instead of ValueError' % (what, type(e).__name__), what); return True
    t.fail('%s is accepted' % what, what); return False
def has(c, name):
    try: getattr(c, name)
    except AttributeError: return False
    return True
def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore'); return f(*a, **k)
def check(t):
    t.rule = 'histories of register, unregister, overwrite and run for the three kinds, against a dictionary'
    t.bounds = ['histories of at most 40 steps over 4 names per kind']
    def basics():
        old = Circuit(2)
        B.register_gate('foo', Foo); t.case('gate')
        for c in (old, Circuit(2)):
            c.foo[1]
            if not O.phase_close(c.run(), [0, 0, 1, 0]): t.fail('registered gate does not run', 'foo')
        refused(t, lambda: B.register_gate('foo', Bar), 'registering an existing gate')
        refused(t, lambda: B.register_macro('foo', lambda c: c), 'macro with the name of a gate')
        if type(Circuit().foo[0].ops[0]) is not Foo: t.fail('a refused registration took effect', 'foo')
        quiet(B.register_gate, 'foo', Bar, allow_overwrite=True)
        if type(Circuit().foo[0].ops[0]) is not Bar: t.fail('overwriting did not take effect', 'foo')
        B.unregister_gate('foo')
        if has(Circuit(), 'foo') or has(old, 'foo'): t.fail('unregistered gate is still usable', 'foo')
        refused(t, lambda: B.unregister_gate('foo'), 'unregistering an unknown gate')
        for nm in ('x', 'cx', 'm', 'u3', 'toffoli'):
            refused(t, lambda: B.register_gate(nm, Foo), 'gate with existing name %s' % nm); refused(t, lambda: B.register_macro(nm, lambda c: c), 'macro with gate name %s' % nm)
        for nm in ('run', 'copy', 'dagger', 'to_qasm', 'set_default_backend', 'make_cache', 'run_with_numpy', 'run_with_zzz'):
            refused(t, lambda: B.register_gate(nm, Foo), 'gate with reserved name %s' % nm); refused(t, lambda: B.register_macro(nm, lambda c: c), 'macro with reserved name %s' % nm)
        for nm in ('nosuch', 'numpy', 'run'):
            refused(t, lambda: B.unregister_gate(nm), 'unregistering gate %s' % nm); refused(t, lambda: B.unregister_macro(nm), 'unregistering macro %s' % nm)
        for nm in ('x', 'nosuch'): refused(t, lambda: B.unregister_backend(nm), 'unregistering backend %s' % nm)
    t.guard('basics', basics)
    def macros():
        def mac(c, a, b=2): 
            for i in range(a): c.x[i]
            return (c, a, b)
        B.register_macro('mac', mac); c = Circuit(3); t.case('macro')
        if c.mac(2, b=5) != (c, 2, 5) or len(c.ops) != 2: t.fail('macro is not called with the circuit and the arguments', 'mac')
        refused(t, lambda: B.register_macro('mac', lambda c: 0), 'registering an existing macro'); refused(t, lambda: B.register_gate('mac', Foo), 'gate with the name of a macro')
        if Circuit().mac(0) [1] != 0: t.fail('refused registration took effect', 'mac')
        quiet(B.register_macro, 'mac', lambda c: 7, allow_overwrite=True)
        if Circuit().mac() != 7: t.fail('overwriting did not take effect', 'mac')
        refused(t, lambda: B.unregister_gate('mac'), 'unregistering a macro as gate'); refused(t, lambda: B.unregister_backend('mac'), 'unregistering a macro as backend')
        if Circuit().mac() != 7: t.fail('unregistering another kind removed it', 'mac')
        B.unregister_macro('mac')
        if has(Circuit(), 'mac'): t.fail('unregistered macro is still usable', 'mac')
    t.guard('macros', macros)
    def kept():
        """circuits that have used a name before it is replaced or removed"""
        c = Circuit(2); d = c.copy(); t.case('kept')
        B.register_macro('kept', lambda c, v=1: ('old', v)); B.register_gate('keptg', Foo)
        if c.kept() != ('old', 1) or c.kept(3) != ('old', 3): t.fail('macro', 'kept')
        c.keptg[0]; d.keptg[1]; w = c.copy()
        quiet(B.register_macro, 'kept', lambda c: 'new', allow_overwrite=True); quiet(B.register_gate, 'keptg', Bar, allow_overwrite=True)
        for x in (c, d, w, c + d, Circuit(), c.copy()):
            if x.kept() != 'new': t.fail('a circuit keeps a replaced macro', 'kept')
            if type(x.keptg[0].ops[-1]) is not Bar: t.fail('a circuit keeps a replaced gate', 'keptg')
        B.unregister_macro('kept'); B.unregister_gate('keptg')
        for x in (Circuit(), c.copy(), d + Circuit(1)):
            if has(x, 'kept') or has(x, 'keptg'): t.fail('usable after it was unregistered', 'kept')
        B.register_gate('kept', Foo); B.register_macro('keptg', lambda c: 5)        # the names change kind
        for x in (Circuit(2), c.copy()):
            if type(x.kept[0].ops[-1]) is not Foo or x.keptg() != 5: t.fail('the names registered as the other kind', 'kept')
        B.unregister_gate('kept'); B.unregister_macro('keptg')
    t.guard('kept', kept)
    def histories():
        for h in range(60 if t.thorough else 25):
            G, M, K = {}, {}, {}; names = ['aa', 'bb', 'cc', 'dd'] if h else ['nm%d' % k for k in range(24)]; default = 'numpy'; log = []
            try:
                for step in range(40 if h else 160):
                    n = t.rng.choice(names); k = t.rng.randrange(9); ow = t.rng.random() < .3; log.append((k, n, ow)); t.case((h, tuple(log[-6:])))
                    if k == 0:
                        g = t.rng.choice([Foo, Bar])
                        if ow or not (n in G or n in M): quiet(B.register_gate, n, g, ow); G[n] = g
                        else: refused(t, lambda: B.register_gate(n, g), 'gate %s' % n)
                    elif k == 1:
                        f = (lambda v: lambda c: v)(step)
                        if ow or not (n in G or n in M): quiet(B.register_macro, n, f, ow); M[n] = step
                        else: refused(t, lambda: B.register_macro(n, f), 'macro %s' % n)
                    elif k == 2:
                        if ow or n not in K: quiet(B.register_backend, n, mk((n, step)), ow); K[n] = (n, step)
                        else: refused(t, lambda: B.register_backend(n, mk(0)), 'backend %s' % n)
                    elif k == 3: (B.unregister_gate(n), G.pop(n)) if n in G else refused(t, lambda: B.unregister_gate(n), 'unregister gate %s' % n)
                    elif k == 4: (B.unregister_macro(n), M.pop(n)) if n in M else refused(t, lambda: B.unregister_macro(n), 'unregister macro %s' % n)
                    elif k == 5 and n != default:
                        un = B.unregister_backend if ow else lambda x: quiet(B.remove_backend, x)
                        (un(n), K.pop(n)) if n in K else refused(t, lambda: B.unregister_backend(n), 'unregister backend %s' % n)
                    elif k == 6:
                        if n in K: B.set_default_backend(n); default = n
                        else: refused(t, lambda: B.set_default_backend(n), 'default backend %s' % n)
                    elif k == 7: B.set_default_backend('numpy'); default = 'numpy'
                    if B.get_default_backend_name() != default or Circuit().get_default_backend_name() != default: t.fail('default backend is %r, not %r' % (B.get_default_backend_name(), default), log)
                    for m in names:
                        c = Circuit(1)
                        if m in G:
                            if type(getattr(c, m)[0].ops[0]) is not G[m]: t.fail('gate %s' % m, log)
                        elif m in M:
                            if getattr(c, m)() != M[m]: t.fail('macro %s' % m, log)
                        elif has(c, m): t.fail('%s is usable' % m, log)
                        c = Circuit(2)
                        if m in K:
                            w = (K[m], 0, 2, (1,), (('b', 2),))
                            if c.run(1, b=2, backend=m) != w or getattr(c, 'run_with_' + m)(1, b=2) != w: t.fail('backend %s' % m, log)
                        else:
                            refused(t, lambda: c.run(backend=m), 'run on unknown backend %s' % m)
                            if has(c, 'run_with_' + m): t.fail('run_with_%s is usable' % m, log)
                    r = Circuit(1).x[0].run()
                    if default == 'numpy':
                        if not isinstance(r, np.ndarray): t.fail('default run', log)
                    elif r != (K[default], 1, 1, (), ()): t.fail('default run gives %r' % (r,), log)
            finally:
                B.set_default_backend('numpy')
                for n in list(G): B.unregister_gate(n)
                for n in list(M): B.unregister_macro(n)
                for n in list(K): B.unregister_backend(n)
    t.guard('histories', histories)
    def choose():
        B.register_backend('b1', mk('b1')); B.register_backend('b2', mk('b2')); B.register_backend('b3', mk('b3'))
        try:
            for own in (None, 'b1', 'b2', 'numpy'):
                for glob in ('numpy', 'b2', 'b3'):
                    for call in (None, 'b1', 'b3', 'numpy', mk('obj')()):
                        B.set_default_backend(glob); c = Circuit(1).x[0]; t.case((own, glob, str(call)[:5]))
                        if own: c.set_default_backend(own)
                        want = call if call is not None else own or glob
                        kw = {} if call is None else {'backend': call}
                        for cc in (c, c.copy(), c + Circuit(1)):
                            r = cc.run(**kw); tag = 'numpy' if isinstance(r, np.ndarray) else r[0]
                            if tag != (want if isinstance(want, str) else 'obj'): t.fail('ran on %r instead of %r' % (tag, want), (own, glob, str(call)))
                        if c.get_default_backend_name() != (own or glob): t.fail('default name', (own, glob))
                        if c.copy(copy_default_backend=False).get_default_backend_name() != glob: t.fail('copy without default', (own, glob))
                        refused(t, lambda: c.set_default_backend('nosuch'), 'unknown default'); refused(t, lambda: B.set_default_backend('nosuch'), 'unknown global default'); refused(t, lambda: c.run(backend='nosuch'), 'unknown backend')
                        if c.get_default_backend_name() != (own or glob) or B.get_default_backend_name() != glob: t.fail('a refused name changed the default', (own, glob))
                        # a copy without own default follows the global one
                        kk = [c.copy(), c + Circuit(1), c.dagger()]
                        B.set_default_backend('b1')
                        for cc in kk + [x.copy() for x in kk]:
                            r = cc.run(); tag = 'numpy' if isinstance(r, np.ndarray) else r[0]
                            if tag != (own or 'b1') or cc.get_default_backend_name() != (own or 'b1'): t.fail('a copy ran on %r' % tag, (own, glob))
                        B.set_default_backend(glob)
                        c.set_default_backend(None)
                        if c.get_default_backend_name() != glob: t.fail('default not removed', (own, glob))
        finally:
            B.set_default_backend('numpy')
            for n in ('b1', 'b2', 'b3'): B.unregister_backend(n)
        # names differ by their letters' case
        B.register_backend('Bx', mk('Bx')); B.register_backend('bx', mk('bx'))
        try:
            c = Circuit(1); t.case('case of names')
            for _ in range(2):
                for nm in ('Bx', 'bx', 'Bx'):
                    if c.run(backend=nm)[0] != nm or getattr(c, 'run_with_' + nm)()[0] != nm: t.fail('backend %s is another' % nm, nm)
        finally: B.unregister_backend('Bx'); B.unregister_backend('bx')
        # after unregistering: same name, other backend
        B.register_backend('b1', mk('old')); Circuit(1).run(backend='b1'); B.unregister_backend('b1'); B.register_backend('b1', mk('new'))
        try:
            if Circuit(1).run(backend='b1')[0] != 'new': t.fail('the old backend runs', 'b1')
        finally: B.unregister_backend('b1')
    t.guard('choosing a backend', choose)
