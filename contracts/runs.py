"""The run method of the simulator backends, for any number of operations and shots, any
earlier cache: what it returns and what it leaves behind (used for C06 and C07)."""
from contracts.common import *
from engine import hist, iseq
from engine.hist import Seq, G, St, Arr, Regs, Table, Ops, World, ZERO, JUNK, OLD, same, I
from engine.opaque import Opaque, either
import types

OLD_DT = Opaque('dtype of the earlier cache')
class Machine:
    """one call: the operations, the register, the earlier cache, the ghost count of random runs"""
    def __init__(self, L=None, U=None):
        c = cur()
        self.conc = L is not None
        L = z3.Int('L') if L is None else z3.IntVal(L)
        U = z3.Int('U') if U is None else z3.IntVal(U)
        self.n, self.nc = z3.Int('n'), z3.Int('n_old')
        c.assume(z3.And(L >= 0, U >= 0, U <= L, self.n >= 1, self.nc >= 1))
        self.seq = Seq('gates', L, U); self.seqs = {'gates': self.seq}
        self.oldN = z3.Int('old_len'); self.agree = z3.Bool('old operations agree'); self.world = World()
        self.extra_bases = []
        c.extra['machine'] = self
        self.backend = None; self.bad = []
    def bases(self): return [z3.IntVal(0), self.seq.first, self.seq.N] + self.extra_bases
    def old_valid(self):
        return cur().implied(z3.And(z3.Or(self.agree, self.oldN == 0), self.oldN <= self.seq.N, self.nc == self.n))
    def fallback(self, g, n):
        c = cur()
        if not same(zn(n), self.n): c.require(False, 'decompositions are made for the size of the register')
        if g.dec is None:
            if self.conc and g.seq.parent is not None: pass
            elif either(('nodec', g.seq.name, str(g.k)), '%r has no decomposition' % g): raise NotImplementedError('no decomposition')
            nm = 'dec(%r)' % g
            # a decomposition of a random operation may hold one only where the backend allows it
            if self.conc:
                N = 1 + c.choose(2, 'length of %s' % nm); q = Seq(nm, z3.IntVal(N), z3.IntVal(N), g.seq); q.parent = g
                g.dec = q
            else:
                N = z3.Int('len ' + nm); c.assume(N >= 1)
                q = Seq(nm, N, N, g); g.dec = q
            q.parent = ParentOf(g)
            self.seqs[nm] = q
            if self.random(g): # the first random operation inside
                q.first = z3.Int('first ' + nm) if not self.conc else None
                if self.conc:
                    q.first = z3.IntVal(c.choose(N, 'first random operation'))
                else: c.assume(z3.And(q.first >= 0, q.first < N))
        q = g.dec
        if self.conc: return [q.at(i) for i in range(q.N.as_long())]
        return Ops(q, 0, q.N)
    numba = False
    def random(self, g):
        """is the operation random (a measurement or reset, or decomposed into such)"""
        c = cur()
        if g.seq.parent is not None:
            # precondition: decompositions hold no measurement or reset
            if self.numba or not self.random(g.seq.parent.g): return False
        if c.decide(g.k < g.seq.first): return False
        if c.decide(g.k == g.seq.first): return True
        return either(('random', g.seq.name, str(g.k)), '%r is random' % g)
class ParentOf:
    """the operation a decomposition belongs to, seen as a level above"""
    def __init__(self, g): self.g = g; self.seq = g.seq; self.k = g.k
    def level(self): return self.g.level()
def zn(n):
    if isinstance(n, SInt): return n.e
    return I(n) if isinstance(n, int) else z3.Int('not a number')

def has_action(g):
    m = cur().extra['machine']
    if g.level() >= 3 or m.numba and m.random(g): return True
    if m.variant is not None: # unrolled runs: one operation is decomposed, to one or two levels
        if g.level() == 1 and not same(g.k, m.which): return True
        return m.variant < g.level()
    # below the first level: by induction on the depth of decompositions, the recursive
    # call does what an action does (the unrolled runs go one level deeper)
    if g.level() >= 2: return True
    return either(('action', g.seq.name, str(g.k)), '%r has an action' % g)
def make_action(backend, numba):
    def action(g, ctx):
        c = cur(); m = c.extra['machine']
        if not isinstance(g, G): raise Unsupported('an action for something else')
        a, regs = getattr(ctx, 'qubits', None), getattr(ctx, 'cregs', None)
        if not isinstance(a, Arr) or not isinstance(regs, Regs): raise Unsupported('context of another kind')
        new = hist.step(a.x, g) if a.x is not JUNK else None
        rnd = m.random(g)
        old = hist.norm(a.x)
        if new is None: new = JUNK
        elif rnd and new.run is None:
            new = St(m.world.t, new.path); m.world.t = z3.simplify(m.world.t + 1)
        # the classical bits belong to the same history
        if new is JUNK: rx = JUNK
        elif hist.eq0(regs.x, old) or hist.eq(regs.x, old): rx = new
        else: rx = JUNK
        if rnd and numba and getattr(ctx, 'save_cache', None): backend.cache = a.copy()
        buf = getattr(ctx, 'qubits_buf', None)
        if not rnd and isinstance(buf, Arr) and m.swap:
            a.write(JUNK); buf.write(new); ctx.qubits, ctx.qubits_buf = buf, a
        else:
            a.write(new)
            if isinstance(buf, Arr) and buf is not a: buf.write(JUNK)
        regs.x = rx
        if rnd: ctx.save_cache = False
        return ctx
    return action

class NP:
    """numpy, as far as running is concerned"""
    vx_static = True
    complex128, complex64, uint32, uint64 = Opaque('complex128'), Opaque('complex64'), Opaque('uint32'), Opaque('uint64')
    def size(self, shape):
        if isinstance(shape, tuple) and len(shape) == 1: shape = shape[0]
        if not isinstance(shape, SInt) or shape.p2 is None: raise Unsupported('array of another length')
        return shape.p2
    def zeros(self, shape, dtype=None, **k): return Arr(self.size(shape), ZERO, dtype)
    def empty(self, shape, dtype=None, **k): return Arr(self.size(shape), JUNK, dtype)
    def zeros_like(self, a, **k): return Arr(a.n, ZERO, a.dt)
    def empty_like(self, a, **k): return Arr(a.n, JUNK, a.dt)
    def arange(self, *a, **k): return Opaque('indices')
    def copyto(self, dst, src, **k):
        if k or not isinstance(dst, Arr): raise Unsupported('copyto')
        if isinstance(src, Arr): dst.write(src.x if same(src.n, dst.n) else JUNK)
        else: dst.fill(src)
    def array(self, a, dtype=None, copy=True, **k):
        if not isinstance(a, Arr) or not copy: raise Unsupported('array')
        return a.copy()
    def copy(self, a):
        if not isinstance(a, Arr): raise Unsupported('copy')
        return a.copy()
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported('numpy.%s' % n)
class Warn:
    def warn(self, *a, **k): pass
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return Warning
def phase_stub(a, *r):
    if not isinstance(a, Arr): raise Unsupported('global phase of something else')
    x = a.x; a.write(x); a.phase = True
    return a

def hook(it, ident, lv, rb):
    if isinstance(it, shadows.SymRange) or isinstance(it, range) and len(it) > 8:
        s = iseq.of(it)
        if s is not None: return hist.Loop(s, ident, lv, rb)
    if isinstance(it, iseq.ISeq): return hist.Loop(it, ident, lv, rb)

def prepare(mod, cls, numba):
    """put the contracts of the callees in place"""
    mod.np = NP(); mod.warnings = Warn(); mod.Counter = Table
    for nm in ('ignore_global_phase', '_ignore_global'):
        if hasattr(mod, nm): setattr(mod, nm, phase_stub)
    cls._get_action = lambda self, g: make_action(self, numba) if has_action(g) else None
    cls._has_action = lambda self, g: has_action(g)
    seqs.SymRepeat = lambda item, n: Regs(item, n)
def setup(m):
    c = cur()
    c.extra['loop_hook'] = hook
    if not m.conc: c.extra['list_hook'] = lambda: Ops(m.seq, 0, 0)
def inv_fields(b):
    """the cache of a backend: the state, how many operations it covers, which"""
    v = vars(b)
    if set(v) != {'cache', 'cache_idx', 'cache_gates'}: raise Unsupported('the cache is kept in another way')
    return v['cache'], v['cache_idx'], v['cache_gates']
def invariant(c, m, b, gates, result, tag=''):
    cache, idx, cg = inv_fields(b)
    ops = m.seq
    if cache is None:
        if not isinstance(idx, (int, SInt)) or isinstance(idx, bool): raise Unsupported('cache index')
        c.prove(zn(idx) == -1, tag + 'without a cached state no operation counts as cached')
        k = z3.IntVal(0)
    else:
        if not isinstance(cache, Arr): raise Unsupported('the cache holds something else')
        k = z3.simplify(zn(idx) + 1)
        x = hist.norm(cache.x)
        if x is OLD:
            # the earlier cache, left as it was
            c.require(isinstance(cg, Ops) and cg.norm().old and same(k, m.oldN) and same(cache.n, m.nc), tag + 'an earlier cache left alone keeps its operations'); return
        good = isinstance(x, St) and x.run is None and len(x.path) == 1 and same(cache.n, m.n) and not cache.phase
        c.require(good, tag + 'the cached state is the state after some first operations', repr(x))
        if not good: return
        c.prove(I(x.path[0][1]) == k, tag + 'the cached state is the state after exactly the operations counted', repr(x))
        c.prove(k <= ops.first, tag + 'the cache covers only operations before the first measurement or reset')
    if isinstance(cg, Ops): ok = cg.isprefix(k)
    elif isinstance(cg, list): ok = cg is not gates and same(k, len(cg)) and all(g is ops.at(i) for i, g in enumerate(cg))
    else: raise Unsupported('list of cached operations')
    c.require(ok, tag + 'the operations remembered are those the cached state was made of')
    c.require(cg is not gates, tag + 'the list of operations given is not kept')
    if cache is not None: c.require(all(cache is not r for r in result), tag + 'the cached state is not handed out')

RETS = (None, 'statevector', 'shots', 'statevector_and_shots', '_inner_ctx')
def run_contract(led, mod, cls, numba, what, conc=None, sel=None):
    """what: 'results' (C06: fresh backend) or 'cache' (C07: any earlier cache)"""
    name = '%s.run%s' % (cls.__name__, '' if conc is None else '[%d operations, first random %d, %s shots]' % conc)
    def path():
        c = cur()
        m = Machine(*(conc[:2] if conc else ()))
        setup(m); m.numba = numba
        m.swap = not numba and (c.choose(2, 'gates swap buffers') == 0 if sel is None else sel[2])
        m.variant = c.choose(3, 'decompositions') if conc else None
        if m.variant: m.which = z3.IntVal(c.choose(conc[0], 'which is decomposed')) 
        elif conc: m.which = z3.IntVal(-1)
        b = cls()
        kind = (c.choose(2, 'earlier cache') if sel is None else sel[3] != 'fresh') if what == 'cache' else 0
        L = m.seq.N
        if conc: gates = [m.seq.at(i) for i in range(conc[0])]
        else: gates = Ops(m.seq, 0, L); gates.shared = True
        given = list(gates) if conc else (gates.lo, gates.hi)
        if kind:
            if conc:
                k = c.choose(conc[0] + 2, 'operations of the earlier cache'); both = min(k, conc[0])
                dis = both > 0 and c.choose(2, 'an operation differs') == 1
                # operations which are the same are random or not alike; those of a cache are not
                if not dis and both > conc[1]: raise Infeasible()
                cg = [gates[i] if i < both and not (dis and i == both - 1) else G(m.seq, z3.Int('other%d' % i)) for i in range(k)]
                c.assume(z3.And(m.oldN == k, m.agree == z3.BoolVal(not dis)))
                if c.choose(2, 'the earlier register has another size'): c.assume(m.nc != m.n)
                else: c.assume(m.nc == m.n)
                b.cache_idx = k - 1; b.cache_gates = cg
            else:
                c.assume(m.oldN >= 0)
                # operations which are the same are random or not alike; those of a cache are not
                c.assume(z3.Implies(z3.And(m.agree, m.oldN <= L), m.oldN <= m.seq.first))
                c.assume(z3.Implies(z3.And(m.agree, m.oldN > L), m.seq.first == L))
                b.cache_idx = SInt(z3.simplify(m.oldN - 1)); b.cache_gates = Ops(None, 0, 0, old=True)
                m.extra_bases.append(m.oldN)
                valid = z3.And(z3.Or(m.agree, m.oldN == 0), m.oldN <= L, m.nc == m.n)
                if sel is not None: c.assume(valid if sel[3] == 'valid' else z3.Not(valid))
            b.cache = Arr(m.nc, OLD, OLD_DT, shared=True)
        oldcache = b.cache
        ret = RETS[c.choose(len(RETS), 'returns')] if sel is None else sel[0]
        args = {}
        if ret is not None: args['returns'] = ret
        sh = None
        if conc: sh = conc[2]
        elif c.choose(2, 'shots given') if sel is None else sel[1]: sh = ivar('shots'); c.assume(sh.e >= 1)
        if sh is not None: args['shots'] = sh
        ig = ret in (None, 'statevector') and c.choose(2, 'ignore_global') == 1
        if ig: args['ignore_global'] = True
        if numba:
            if c.choose(2, 'enable_cache=False') if sel is None or len(sel) < 5 else sel[4]: args['enable_cache'] = False
        if sh is None: N = z3.IntVal(1) if ret in (None, 'statevector', '_inner_ctx') else z3.IntVal(cls.DEFAULT_SHOTS)
        else: N = zn(sh)
        if not conc: m.extra_bases.append(N)
        try: out = cls.run(b, gates, SInt(m.n), **args)
        except NotImplementedError:
            c.require(any(v[0] for k, v in c.extra.get('either', {}).items() if k[0] == 'nodec'), 'refused only when an operation has neither action nor decomposition'); return
        want = ret or ('statevector' if sh is None else 'shots')
        sv = tab = None
        if want == 'statevector': sv = out
        elif want == 'shots': tab = out
        elif want == 'statevector_and_shots':
            if not isinstance(out, tuple) or len(out) != 2: c.require(False, 'the state and the counts'); return
            sv, tab = out
        else: sv, tab = out.qubits, out.shots_result
        res = [x for x in (sv, tab) if x is not None]
        if sv is not None:
            if not isinstance(sv, Arr): raise Unsupported('result of another kind')
            x = hist.norm(sv.x)
            good = isinstance(x, St) and len(x.path) == 1 and x.path[0][0] is m.seq and same(x.path[0][1], L)
            c.require(good, 'the state returned is that of one run of every operation, in order, from |0...0>', repr(x))
            c.require(same(sv.n, m.n), 'the state returned has the size of the register')
            c.require(sv.phase == ig, 'a global phase is dropped exactly when asked for')
            c.require(not sv.shared, 'the state returned is not shared with the cache')
        if tab is not None:
            if not isinstance(tab, Table): raise Unsupported('counts of another kind')
            tab.fold()
            c.require(tab.bad is None and not tab.keys, 'every record is the bits of one complete run of its own', repr((tab.bad, [k.x for k in tab.keys])))
            c.prove(tab.done == N, 'one record for each shot')
            if sv is not None:
                x = hist.norm(sv.x)
                if isinstance(x, St) and x.run is not None: c.prove(x.run == tab.hi - 1, 'the state belongs to the last shot')
        invariant(c, m, b, gates, res, 'afterwards: ')
        if oldcache is not None: c.require(oldcache.shared and hist.eq(oldcache.x, OLD) and not oldcache.phase, 'an earlier cached state is not written to')
        c.require((list(gates) == given and all(x is y for x, y in zip(gates, given))) if conc else same(gates.lo, given[0]) and same(gates.hi, given[1]) and not gates.junk, 'the list of operations given is not changed')
        c.require(all(x is not getattr(b, k) for x in res for k in vars(b)), 'nothing handed out is kept')
    return run_explore(led, name, path, budget_s=100)
def new_contract(led, mod, cls):
    """a new backend, and copies of one"""
    name = cls.__name__
    def path():
        c = cur(); m = Machine(); setup(m)
        invariant(c, m, cls(), None, (), 'a new backend: ')
        a, b = cls(), cls()
        c.require(a.cache_gates is not b.cache_gates, 'two new backends share no list')
    run_explore(led, name + '.__init__', path)
    def copied():
        c = cur(); m = Machine(); setup(m)
        b = cls(); kind = c.choose(2, 'cache')
        if kind:
            b.cache_idx = SInt(z3.simplify(m.oldN - 1)); b.cache_gates = Ops(None, 0, 0, old=True); b.cache = Arr(m.nc, OLD, OLD_DT, shared=True)
            c.assume(z3.And(m.oldN >= 1, m.agree, m.oldN <= m.seq.first, m.nc == m.n))
        before = inv_fields(b)
        r = b.copy()
        c.require(type(r) is cls and r is not b, 'a copy is another backend of the same kind')
        c.require(all(x is y for x, y in zip(inv_fields(b), before)), 'the original keeps its cache')
        if kind: c.require(b.cache.x is OLD and before[2].norm().seq is m.seq and same(before[2].hi, m.oldN), 'the original cache is not changed')
        invariant(c, m, r, None, (), 'the copy: ')
        x = inv_fields(r)[2]
        c.require(x is not before[2], 'the copy has a list of operations of its own')
    run_explore(led, name + '.copy', copied)
    def cached():
        c = cur(); log = []
        b = cls(); g, n = Opaque('operations'), Opaque('size')
        old = cls.run
        cls.run = lambda self, *a, **k: log.append((self, a, k))
        try: b.make_cache(g, n)
        finally: cls.run = old
        c.require(all(e[0] is b and len(e[1]) == 2 and e[1][0] is g and e[1][1] is n and not e[2] for e in log), 'making the cache at most runs the circuit', repr(log))
    run_explore(led, name + '.make_cache', cached)
