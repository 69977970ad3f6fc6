"""C18: annealing and the helpers which build constraints.

The couplings are probed (engine/tensor.py): one arbitrary entry.  Loops are run once from an
arbitrary state (any spins, temperature, field) and have to keep: the last energy recorded is
the one of the present spins.  A passage of the innermost loop may only flip the spin drawn,
by the Metropolis rule for the true difference of energy."""
from contracts.common import *
from contracts import c15, c17
from contracts.c17 import size, probe, setup, expect
from engine import alg, tensor as T
from engine.alg import Alg
from engine.tensor import PV, FArr, zero, num
from engine.opaque import Opaque, either
from engine.seqs import EndPath, Poison
from engine.shadows import SymRange
from engine.pool import parallel
import types

W = None
# ---------------------------------------------------------------- numpy.random, exp, log
class ExpObj:
    vx_static = True
    def __init__(self, e): self.e = e
    def _cmp(self, op, o):
        if not isinstance(o, Rand): raise Unsupported('a comparison of an exponential')
        r = cur().choose(2, 'exp %s random' % op) == 0
        cur().extra.setdefault('conds', []).append(('exp', self.e, r if op in ('>', '>=') else not r)); return r
    def __gt__(self, o): return self._cmp('>', o)
    def __ge__(self, o): return self._cmp('>=', o)
    def __lt__(self, o): return self._cmp('<', o)
    def __le__(self, o): return self._cmp('<=', o)
    def _bad(self, *a): raise Unsupported('an exponential used in another way')
    __bool__ = __eq__ = __ne__ = __add__ = __mul__ = _bad
    __hash__ = None
class Rand:
    """a number drawn uniformly from [0, 1)"""
    vx_static = True
    def __lt__(self, o): return o._cmp('>', self) if isinstance(o, ExpObj) else self._bad()
    def __le__(self, o): return o._cmp('>=', self) if isinstance(o, ExpObj) else self._bad()
    def __gt__(self, o): return o._cmp('<', self) if isinstance(o, ExpObj) else self._bad()
    def __ge__(self, o): return o._cmp('<=', self) if isinstance(o, ExpObj) else self._bad()
    def _bad(self, *a): raise Unsupported('a random number used in another way')
    __bool__ = __eq__ = __ne__ = __add__ = __mul__ = __sub__ = __rsub__ = _bad
    __hash__ = None
def compare(pv, op, o):
    if not (num(o) and zero(Alg.of(o))): raise Unsupported('a comparison of matrix entries')
    r = cur().choose(2, 'difference %s 0' % op) == 0
    if op not in ('<', '<=', '>', '>='): raise Unsupported('a comparison of matrix entries')
    cur().extra.setdefault('conds', []).append(('neg', pv, r if op in ('<', '<=') else not r)); return r
def named(name, x):
    c = cur(); tab = c.extra.setdefault('fn_' + name, [])
    x = Alg.of(x)
    for y, s in tab:
        if c.norm(x - y).is_zero(): return s
    s = alg.rsym('%s(%s)' % (name, x.pretty())); tab.append((x, s)); return s
def np_log(x):
    x = Alg.of(x) if num(x) else None
    if x is None: raise Unsupported('log')
    for y, s in cur().extra.get('fn_tanh', []):
        if cur().norm(x * s - 1).is_zero(): return -named('log', s)
        if cur().norm(x - s).is_zero(): return named('log', s)
    return named('log', x)
def np_exp(x):
    if isinstance(x, PV): return ExpObj(x)
    raise Unsupported('exp')
def spins(dims):
    c = cur(); s = T.atoms(c.fresh('q'), T.spin); r = FArr(dims, s); r.spins = True; return r
class Flat:
    vx_static = True
    def __init__(self, n): self.n = n
    def reshape(self, *s):
        if len(s) == 1 and isinstance(s[0], tuple): s = s[0]
        if len(s) != 2 or not cur().implied(T.ze(s[0]) * T.ze(s[1]) == self.n): raise Unsupported('reshape')
        return spins(T.dims_of(s))
    def __getattr__(self, n):
        if n.startswith('vx_') or n.startswith('__'): raise AttributeError(n)
        raise Unsupported('random.%s' % n)
class Draws:
    """indices drawn from a range"""
    vx_static = True
    def __init__(self, lo, hi, n): self.lo, self.hi, self.n = lo, hi, n
    def draw(self, special=False):
        c = cur(); x = ivar(c.fresh('x')); c.assume(z3.And(x.e >= self.lo, x.e < self.hi))
        if c.check() != z3.sat: raise core.Infeasible()
        if special: c.extra['specials'] = T.specials() + [x.e]
        c.extra.setdefault('draws', []).append((x, self.lo, self.hi)); return x
    def slen(self): return SInt(self.n)
    def vx_loop(self, ident, lv, rb): return Moves(ident, rb, lv, lambda: self.draw(True))
    def __getitem__(self, i):
        if not isinstance(i, SInt): raise Unsupported('the draws')
        return self.draw(True)
    def _bad(self, *a): raise Unsupported('the draws')
    __iter__ = __len__ = __eq__ = _bad
    __hash__ = None
class Random:
    def __init__(self, N): self.N = N
    def choice(self, vals, size=None, *a, **k):
        if a or k or not isinstance(vals, (list, tuple)) or set(vals) != {-1, 1}: raise Unsupported('choice')
        if isinstance(size, tuple): return spins(T.dims_of(size))
        if cur().extra.get('flat'): return Flat(T.ze(size))
        return spins([(0, T.ze(size))])
    def randint(self, a, b=None, size=None, *r, **k):
        if r or k: raise Unsupported('randint')
        lo, hi = (0, a) if b is None else (a, b)
        d = Draws(T.ze(lo), T.ze(hi), None if size is None else T.ze(size))
        if size is None: return d.draw(cur().implied(d.hi == self.N))
        return d
    def rand(self, *a):
        if a: raise Unsupported('rand')
        return Rand()
    random = rand
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported('random.%s' % n)
# ---------------------------------------------------------------- energies
def energy(J, q):
    """the energy of spins: the contract of Ei (C17)"""
    J, q = T.asarr(J), T.asarr(q)
    if J is None or q is None or J.ndim != 2 or q.ndim != 1: raise Unsupported('energy of something else')
    n = cur().extra['N']; f, g = J.frozen(), q.frozen()
    if not (cur().implied(J.dims[0][1] - J.dims[0][0] == n) and cur().implied(q.dims[0][1] - q.dims[0][0] == n)): raise Unsupported('energy of something else')
    off = q.dims[0][0]
    g2 = lambda y: g(z3.simplify(y + off))
    tot = PV(0)
    tot = tot + PV.of(T.ssum(lambda i: PV.of(f(i, i)) * g2(i), 0, n))
    return tot + PV.of(T.ssum(lambda i: T.ssum(lambda j: PV.of(f(i, j)) * (g2(i) * g2(j)), i + 1, n), 0, n))
class Rec:
    """a list which the code appends to"""
    vx_static = True
    def __init__(self): self.items = []; self.unk = False; cur().extra.setdefault('recs', []).append(self)
    def append(self, v):
        c = cur(); h = c.extra['on_append']
        self.items.append(h(self, v))
    def __iadd__(self, o):
        if type(o) is not list: raise Unsupported('lists')
        for x in o: self.append(x)
        return self
    def __getitem__(self, i):
        if isinstance(i, int) and not isinstance(i, bool):
            if i < 0 and -i <= len(self.items): return self.items[i]
            if not self.unk and 0 <= i < len(self.items): return self.items[i]
        raise Unsupported('an item of a record')
    def vx_isinstance(self, t): return t in (list, object)
    def vx_seq(self, ty): return self
    def slen(self):
        if self.unk: raise Unsupported('length of a record')
        return len(self.items)
    def _bad(self, *a): raise Unsupported('a record used in another way')
    __iter__ = __len__ = __bool__ = __eq__ = __setitem__ = __add__ = insert = extend = pop = _bad
    __hash__ = None
def same_at(a, f):
    """the entries of an array are f(index)"""
    c = cur()
    def go():
        c = cur(); y = [z3.Int(c.fresh('y')) for _ in range(a.ndim)]; c.assume(z3.And(*[z3.And(v >= lo, v < hi) for v, (lo, hi) in zip(y, a.dims)]))
        return zero(PV.of(a.peek(*y)) - f(*y))
    return all(c.cases(go))
# ---------------------------------------------------------------- loops
def now():
    """the spins at present"""
    q = [t for t in cur().extra.get('tensors', ()) if getattr(t, 'spins', False)]
    if not q: raise Unsupported('no spins yet')
    return q[-1]
class Anneal:
    """a loop run once from an arbitrary state"""
    rebind = True
    def __init__(self, ident, rebound, lv=(), item=None): self.ident, self.rebound, self.lv, self.mk = ident, list(rebound), set(lv), item; self.env = {}; self.entered = self.done = False
    def head(self, loc):
        c = cur()
        if self.entered:
            if self.mode == 1: raise EndPath()
            return self.end(loc)
        self.entered = True
        if c.depth: raise Unsupported('a loop inside a condition')
        self.st = c.store.setdefault(('ann', self.ident, tuple(c.trace[:c.pos])), [])
        self.mode = c.choose(2, 'loop %s' % self.ident)
        objs = {r: loc[r] for r in self.rebound if isinstance(loc.get(r), Rec) or isinstance(loc.get(r), FArr) and loc[r].spins}
        self.keep = {k: v for k, v in loc.items() if k not in self.rebound and k not in self.lv}; self.keep.update(objs)
        self.q = [t for t in c.extra.get('tensors', ()) if getattr(t, 'spins', False)]
        self.ten = [t for t in c.extra.get('tensors', ()) if not getattr(t, 'spins', False)]
        self.recs = list(c.extra.get('recs', ()))
        self.tracked = [r for r in self.recs if r.items and c.extra['current'](r.items[-1])] if self.q else []
        moved = bool(self.q) and (self.mode == 0 or any(d['q'] for d in self.st))
        for r in self.rebound: self.env[r] = objs.get(r, Poison(r))
        for r in self.rebound:
            if r not in loc or not num(loc[r]): continue
            if self.mode == 1 and all(r in d['same'] for d in self.st): self.env[r] = loc[r]; continue
            self.env[r] = alg.rsym(c.fresh('any ' + r)); c.extra.setdefault('states', []).append(self.env[r])
        self.begin = dict(self.env)
        if moved:
            for t in self.q:
                s = T.atoms(c.fresh('q'), T.spin); t.layers.append(lambda *y, s=s: s(*y))
        for k, r in enumerate(self.recs):
            grew = self.mode == 0 or any(d['grew'].get(k) for d in self.st)
            if grew: r.unk = True
            if grew or moved: r.items = [c.extra['present']()] if any(r is t for t in self.tracked) and self.keeps() else []
        self.heap = [(o, k, v) for o in c.extra.get('heap', ()) for k, v in vars(o).items()]
        if self.mode == 0:
            self.snap = [t.frozen() for t in self.q]; self.nl = [len(t.layers) for t in self.q]; self.nl2 = [len(t.layers) for t in self.ten]
            self.n0 = {id(r): len(r.items) for r in self.recs}
            c.extra['conds'] = []; c.extra['draws'] = []; self.nest0 = c.extra.get('nest', 0)
            if self.mk is not None: self.item = self.mk()
            return True
        if moved: c.extra['nest'] = c.extra.get('nest', 0) + 1
        return False
    def keeps(self): return False
    def end(self, loc):
        c = cur()
        bad = [k for k, v in self.keep.items() if loc.get(k) is not v and not k.startswith('_vx_')]
        if bad: raise Unsupported('other variables change: %s' % bad)
        for o, k, v in self.heap:
            if vars(o).get(k) is not v: raise Unsupported('the object changes in the loop')
        if any(len(t.layers) != n for t, n in zip(self.ten, self.nl2)): raise Unsupported('another array changes')
        k = c.extra.get('nest', 0) - self.nest0; self.nested = k > 0
        self.changed = any(len(t.layers) != n + k for t, n in zip(self.q, self.nl))
        self.new = {id(r): r.items[self.n0[id(r)]:] for r in self.recs}
        d = {'q': self.changed or self.nested, 'grew': {k: bool(self.new[id(r)]) for k, r in enumerate(self.recs)}, 'same': {r for r in self.begin if loc.get(r) is self.begin[r]}}
        self.check(loc)
        self.st.append(d)
        raise EndPath()
    def exit(self):
        self.done = True
        if self.mode == 0: raise EndPath()
class Moves(Anneal):
    """a loop of single moves"""
    def check(self, loc):
        if self.nested: raise Unsupported('loops of moves inside each other')
        if any(self.new.values()): raise Unsupported('energies recorded at each move')
        if len(self.q) != 1: raise Unsupported('spins')
        cur().extra['move'](self.snap[0], self.q[0])
class Steps(Anneal):
    """the loop over temperatures or fields: the last energy recorded is the one of the present spins"""
    def keeps(self): return True
    def check(self, loc):
        c = cur()
        if self.changed: raise Unsupported('moves outside of a loop')
        for r in self.recs:
            if any(r is t for t in self.tracked):
                if not r.items or not c.extra['current'](r.items[-1]): raise Unsupported('the last energy recorded is out of step')
            elif self.new[id(r)]: raise Unsupported('another record')
class Shots(Anneal):
    def check(self, loc): cur().extra['shot_end']([(r, self.new[id(r)]) for r in self.recs])
def loops(it, ident, lv, rb):
    c = cur()
    if isinstance(it, SymRange) and not it.bv and it.step == 1:
        if isinstance(it.start, int) and it.start == 0 and c.extra.get('shots') is not None and it.stop is c.extra['shots']: return Shots(ident, rb, lv, lambda: it.elem('shot'))
        if c.implied(T.ze(it.stop) <= c.extra['N']) and c.implied(T.ze(it.start) >= 0): return T.SpLoop(it, ident, lv, rb)
        return Moves(ident, rb, lv, lambda: it.elem('move'))
# ---------------------------------------------------------------- simulated annealing
class IntS:
    """int of a number which is an integer for both values of each spin in it"""
    vx_real = int
    def __call__(self, x=0, *a):
        if a: return int(x, *a)
        if isinstance(x, SInt): return x
        if isinstance(x, (int, float)): return int(x)
        if isinstance(x, SBool): return 1 if x else 0
        x = Alg.of(x)
        if x is None: raise Unsupported('int of something else')
        sy = list(x.syms())
        if len(sy) != 1 or alg.TABLE[sy[0]].sq is None: raise Unsupported('int of a number')
        for v in (1, -1):
            r = x.subs(sy[0], Alg.of(v))
            if not r.is_numeric(): raise Unsupported('int of a number')
            f = r.numeric({})
            if abs(f - round(f.real)) > 0: raise Unsupported('int of a fraction')
        return x
def problem(given):
    """an optimiser with couplings J (probed) and constant ep, by the contract of qi and reJ (C17)"""
    c = cur(); n = size(); J, a, b = probe(n, ty='array'); c.extra['N'] = n; c.extra['loop_hook'] = loops
    o = W.Opt(); ep = alg.rsym('ep'); W.np.random = Random(n); W.int = IntS()
    c.extra['heap'] = [o]; c.extra['list_hook'] = Rec; c.extra['pv_cmp'] = compare
    o.Ts, o.Tf, o.Gs, o.Gf, o.R = (alg.rsym(k) for k in ('Ts', 'Tf', 'Gs', 'Gf', 'R'))
    o.ite = ivar('ite'); c.assume(o.ite.e >= 0)
    o.E = Opaque('energies of an earlier run')
    f = T.atoms('Q', alg.rsym)
    o.qubo = FArr([(0, n), (0, n)], f) if given else []
    o.J, o.ep = (Opaque('couplings of an earlier run'), alg.rsym('ep of an earlier run')) if given else (J, ep)
    called = []
    def qi():
        called.append(1); o.J, o.ep = J, ep
    o.qi = qi
    return types.SimpleNamespace(o=o, J=J, a=a, b=b, n=n, ep=ep, given=given, called=called, qubo=o.qubo)
def unchanged(P):
    cur().require(P.o.qubo is P.qubo and (not P.given or not P.qubo.layers) and not P.J.layers, 'the problem is not changed')
def flipped_energy(P, f, x):
    """change of energy when spin x is flipped"""
    n = P.n; q0 = FArr([(0, n)], f); q1 = FArr([(0, n)], lambda y: -f(y) if cur().decide(y == x) else f(y))
    return energy(P.J, q1) - energy(P.J, q0)
def metropolis(conds, flipped, diff, temps):
    c = cur()
    for kind, v, r in conds:
        if kind == 'neg':
            c.prove_zero(v.k - diff.k, 'the move is judged by the true difference of energy'); c.prove_zero(v.c - diff.c, 'the move is judged by the true difference of energy')
        else:
            ok = any(zero(v * t + diff) for t in temps)
            c.require(ok, 'accepted with probability exp(-difference / T)', repr((v, diff)))
    if flipped: c.require(any(r for k, v, r in conds), 'a move is made when the energy falls or by the draw')
    else: c.require(not any(r for k, v, r in conds) and any(k == 'exp' for k, v, r in conds), 'a move is refused by the draw only')
def sa(led, case):
    def path():
        c = cur(); setup(); P = problem(case < 2); o = P.o
        how = case == 1; shots = 1 if how == 0 else ivar('shots')
        if how: c.assume(shots.e >= 2); c.extra['shots'] = shots
        fast = case > 0; target = alg.rsym('targetT')
        present = lambda: energy(P.J, now()) + P.ep
        c.extra['present'] = present
        c.extra['current'] = lambda v: isinstance(v, PV) and zero(v - present())
        def on_append(rec, v):
            if isinstance(v, PV):
                d = v - present()
                c.prove_zero(d.k, 'every energy recorded is the one of the spins at the time'); c.prove_zero(d.c, 'with the constant')
                return v
            if isinstance(v, Rec): return v
            a = v.array(list) if isinstance(v, T.Each) else v
            if not isinstance(a, FArr) or a.ndim != 1: raise Unsupported('another kind of record')
            q = now().frozen()
            c.require(a.ty is list, 'a solution is a list')
            c.prove(a.dims[0][1] - a.dims[0][0] == P.n, 'an entry for each variable')
            lo = a.dims[0][0]
            c.require(same_at(a, lambda y: (q(z3.simplify(y - lo)) + 1) / 2), 'a solution is the spins as 0 and 1')
            r = a.copy(); return r
        c.extra['on_append'] = on_append
        def move(f, q):
            dr = c.extra['draws']
            if len(dr) != 1: raise Unsupported('draws')
            x = dr[0][0].e
            def go():
                c = cur(); y = z3.Int(c.fresh('y')); c.assume(z3.And(y >= 0, y < P.n, y != x))
                return zero(q.peek(y) - f(y))
            c.require(all(c.cases(go)), 'only the spin drawn moves')
            a, b = f(x), q.peek(x)
            fl = zero(Alg.of(a) + b); c.require(fl or zero(Alg.of(b) - a), 'a spin stays or is flipped')
            metropolis(c.extra['conds'], fl, flipped_energy(P, f, x), c.extra.get('states', []))
        c.extra['move'] = move
        def shot(X, EE):
            if not isinstance(X, FArr) or not isinstance(EE, Rec) or not EE.items or not isinstance(EE.items[-1], PV): raise Unsupported('another kind of result')
            lo = X.dims[0][0]; g = X.frozen()
            d = EE.items[-1] - (energy(P.J, FArr([(0, P.n)], lambda y: Alg.of(g(z3.simplify(y + lo))) * 2 - 1)) + P.ep)
            c.require(zero(d), 'the last energy is the one of the solution', repr(d))
        def shot_end(new):
            grew = [(r, v) for r, v in new if v]
            for r, v in grew: c.require(len(v) == 1, 'one entry for each shot')
            sol = [(r, v[0]) for r, v in grew if isinstance(v[0], FArr)]; es = [(r, v[0]) for r, v in grew if isinstance(v[0], Rec)]
            if len(sol) != 1 or len(es) != 1 or es[0][0] is not o.E: raise Unsupported('other records')
            sol[0][0].solutions = True; es[0][0].runs = True
            c.store['sol'] = True
            shot(sol[0][1], es[0][1])
        c.extra['shot_end'] = shot_end
        c.extra['wloop_hook'] = lambda ident, names: Steps(ident, names)
        r = o.run(shots=shots, sampler='fast' if fast else 'normal', targetT=target)
        c.require(len(P.called) == (1 if P.given else 0), 'the couplings are those of the problem'); unchanged(P)
        if how == 0: shot(r, o.E)
        else: c.require(isinstance(r, Rec) and isinstance(o.E, Rec) and r is not o.E and r.unk and o.E.unk, 'a list of solutions and one of records')
    run_explore(led, 'Opt.run (%s)' % ('one shot', 'several shots', 'several shots, couplings given')[case], path)
def direct(led):
    def direct():
        c = cur(); o = W.Opt(); box = []; R = Opaque('solutions'); shots = ivar('shots'); smp = Opaque('sampler')
        o.run = lambda *a, **k: (box.append((a, k)), R)[1]
        r = o.sa(shots=shots, sampler=smp)
        c.require(r is R and len(box) == 1, 'sa is run')
        a, k = box[0]; k = dict(k)
        for nm, v in zip(('shots', 'sampler', 'targetT', 'verbose'), a): k[nm] = v
        c.require(k.pop('shots', None) is shots and k.pop('sampler', None) is smp and k.pop('targetT', .02) == .02 and not k.pop('verbose', False) and not k, 'sa is run with the same options')
    run_explore(led, 'Opt.sa', direct)
# ---------------------------------------------------------------- quantum annealing
def row_sum(a, f):
    """a sum over a row of unknown length, known by its summand"""
    c = cur()
    if a.ndim != 1 or not c.implied(a.dims[0][1] - a.dims[0][0] == c.extra['N']): raise Unsupported('a sum of another kind')
    k = z3.Int('a column'); tab = c.extra.setdefault('rows', [])
    if not tab: c.assume(z3.And(k >= 0, k < c.extra['N']))
    v = Alg.of(f(z3.simplify(k + a.dims[0][0])))
    for w, s in tab:
        if c.norm(v - w).is_zero(): return s
    s = alg.rsym('sum of ' + v.pretty()); tab.append((v, s)); return s
def ei_sqa(led):
    def path():
        c = cur(); setup(); n = size(); P = z3.Int('P'); c.assume(P >= 1); c.extra['N'] = n; c.extra['mod_window'] = True
        Tm, G = alg.rsym('T'), alg.rsym('G'); s = T.atoms('s', T.spin); q = FArr([(0, P), (0, n)], s); J = Opaque('couplings')
        Pn = SInt(P); en = T.atoms('energy of row', alg.rsym); totals = {}
        def ei(row, j):
            if j is not J or not isinstance(row, T.View) or row.of is not q or list(row.fixed) != [0] or len(row.free) != 1 or not (c.implied(row.dims[0][0] == 0) and c.implied(row.dims[0][1] == n)): raise Unsupported('energy of something else')
            return en(row.fixed[0])
        old, W.Ei = W.Ei, ei
        class O(c15.Of):
            """the passages: what each adds, and what it should, by the place of the replica"""
            may_be_empty = False
            def element(self, lp):
                c = cur(); p = z3.Int('a replica'); c.assume(z3.And(p >= 0, p < P)); more, first = c.decide(p + 1 < P), c.decide(p == 0)
                nx = z3.simplify(p + 1) if more else z3.IntVal(0)
                pv = z3.simplify(p - 1) if not first else z3.simplify(P - 1)
                e = en(p) / Pn.__alg__(); k = Tm / 2 * named('log', named('tanh', G / Tm / Pn.__alg__()))
                over = [row_sum(a, a.frozen()) for a in (FArr([(0, n)], lambda y, z=z: s(p, y) * s(z, y)) for z in (nx, pv))]
                self.label = (more, first); self.want = (e + k * over[0], e + k * over[1], e + k * (over[0] + over[1]) / 2)
                return SInt(p)
            def done(self, lp): return self.label, self.want
            def total(self, lp, ds, r):
                t = alg.rsym(cur().fresh('sum over the replicas')); totals[next(iter(t.syms()))] = (lp, ds); return t
        def hook(it, ident, lv, rb):
            if isinstance(it, SymRange) and it.step == 1 and it.start == 0 and c.implied(T.ze(it.stop) == P): return c15.AccLoop(O(), ident, rb, lv)
            raise Unsupported('another loop')
        c.extra['loop_hook'] = hook; c.extra['sum_atom'] = row_sum
        try: r = W.Ei_sqa(q, J, Tm, Pn, G)
        finally: W.Ei = old
        c.require(not q.layers, 'the replicas are not changed')
        r = Alg.of(r); coef = {}; rest = r
        for t in totals: coef[t] = (r.subs(t, Alg.of(1)) - r.subs(t, Alg.of(0))); rest = rest.subs(t, Alg.of(0))
        lps = {id(lp): (lp, ds) for lp, ds in totals.values()}
        if not zero(rest) or len(lps) != 1 and lps or any(set(k.syms()) & set(totals) for k in coef.values()): raise Unsupported('another sum')
        (lp, ds), = lps.values() if lps else [(None, [])]
        diffs = [[], [], []]
        for k, ((label, want), _) in enumerate(ds):
            got = Alg.of(0)
            for t, (_, ts) in totals.items(): got = got + coef[t] * ts[k][1]
            for l, w in zip(diffs, want): l.append(got - w)
        best = min(diffs, key=lambda l: sum(not zero(d) for d in l))
        for d in best: c.prove_zero(d, 'each replica adds its energy / P and -(T / 2) ln coth(G / (T P)) times the overlap with its neighbour')
    run_explore(led, 'Ei_sqa', path)
def sqa(led, given):
    def path():
        c = cur(); setup(); c.extra['flat'] = True; c.extra['mod_window'] = True; P = problem(given); o = P.o; n = P.n
        tro = z3.Int('tro'); c.assume(tro >= 1); o.tro = SInt(tro); tA = o.tro.__alg__(); o.E = Rec()
        keys = []
        def symbol(q, G):
            for k, v in keys:
                if k[0] is q and k[1] == len(q.layers) and (k[2] is None or G is None or zero(k[2] - G)): return v
            v = alg.rsym(c.fresh('E')); keys.append(((q, len(q.layers), G), v)); return v
        def ei(q, J, Tm, p, G):
            f = T.asarr(J)
            if not (isinstance(q, FArr) and q is now()): raise Unsupported('energy of something else')
            def go():
                x, y = z3.Int(c.fresh('x')), z3.Int(c.fresh('y')); cur().assume(z3.And(x >= 0, x <= y, y < n)); return zero(f.peek(x, y) - P.J.peek(x, y))
            c.require(all(c.cases(go)), 'the couplings of the problem')
            c.prove_zero(Alg.of(Tm) - o.Tf, 'the temperature of the run'); c.prove(T.ze(p) == tro, 'the number of replicas')
            c.require(any(zero(Alg.of(G) - g) for g in [o.Gs] + c.extra.get('states', [])), 'the field at present'); c.extra['Gseen'] = Alg.of(G)
            return symbol(q, Alg.of(G))
        W.Ei_sqa = ei
        def current(v):
            if not num(v): return False
            v = Alg.of(v) - P.ep
            return any(zero(v - s) and k[0] is now() and k[1] == len(now().layers) for k, s in keys)
        c.extra['current'] = current; c.extra['present'] = lambda: symbol(now(), None) + P.ep
        def on_append(rec, v):
            if rec is not o.E or not num(v): raise Unsupported('another kind of record')
            c.require(current(v), 'every energy recorded is the one of the replicas at the time, with the constant'); return v
        c.extra['on_append'] = on_append
        def move(f, q):
            c = cur(); dr = c.extra['draws']
            xs = [d for d in dr if c.implied(d[2] == n)]; ys = [d for d in dr if c.implied(d[2] == tro)]
            if len(xs) != 1 or len(ys) != 1 or len(dr) != 2: raise Unsupported('draws')
            x, y = xs[0][0].e, ys[0][0].e
            def go():
                c = cur(); u, v = z3.Int(c.fresh('u')), z3.Int(c.fresh('v')); c.assume(z3.And(u >= 0, u < tro, v >= 0, v < n, z3.Or(u != y, v != x)))
                return zero(q.peek(u, v) - f(u, v))
            c.require(all(c.cases(go)), 'only the spin drawn moves')
            a, b = f(y, x), q.peek(y, x)
            fl = zero(Alg.of(a) + b); c.require(fl or zero(Alg.of(b) - a), 'a spin stays or is flipped')
            d = flipped_energy(P, lambda v: f(y, v), x) / tA
            up = z3.simplify(y + 1) if c.decide(y + 1 < tro) else z3.IntVal(0)
            dn = z3.simplify(y - 1) if c.decide(y >= 1) else z3.simplify(tro - 1)
            gs = [g for g in c.extra['states']]
            cand = [-o.Tf * named('log', named('tanh', g / o.Tf / tA)) for g in gs]
            rest = a * (f(up, x) + f(dn, x)) if c.decide(tro >= 2) else Alg.of(0)
            for t in cand:
                diff = d + PV(0, rest * t)
                if all(zero(v - diff) if k == 'neg' else zero(v * o.Tf + diff) for k, v, r in c.extra['conds']): break
            metropolis(c.extra['conds'], fl, diff, [o.Tf])
        c.extra['move'] = move; c.extra['wloop_hook'] = lambda ident, names: Steps(ident, names)
        r = o.sqa()
        c.require(len(P.called) == (1 if P.given else 0), 'the couplings are those of the problem'); unchanged(P)
        if r is not now(): raise Unsupported('another result')
        c.require(bool(o.E.items) and current(o.E.items[-1]), 'the last energy is the one of the replicas returned')
        (l, h), (l2, h2) = r.dims; c.prove(z3.And(h - l == tro, h2 - l2 == n), 'a row for each replica')
    run_explore(led, 'Opt.sqa (%s)' % ('QUBO' if given else 'couplings given'), path)
# ---------------------------------------------------------------- constraints
class Scatter:
    """a loop over items each of which changes one cell: what a cell becomes is a function of how
    many (or whether any) items name it"""
    rebind = True
    def __init__(self, ident, rebound, lv, item, step, final): self.ident, self.rebound, self.lv, self.mk, self.stepf, self.final = ident, rebound, set(lv), item, step, final; self.env = {}; self.entered = False
    def head(self, loc):
        c = cur()
        if self.entered: return self.end(loc)
        self.entered = True
        if c.depth: raise Unsupported('a loop inside a condition')
        mode = c.choose(2, 'loop %s' % self.ident)
        for r in self.rebound: self.env[r] = Poison(r)
        self.keep = {k: v for k, v in loc.items() if k not in self.rebound and k not in self.lv}
        ts = [t for t in c.extra.get('tensors', ()) if any(t is v for v in loc.values())]
        self.st = c.store.setdefault(('sc', self.ident, tuple(c.trace[:c.pos - 1])), [])
        if mode == 1 and len(set(self.st)) != 1 or not ts: raise Unsupported('arrays')
        self.k = self.st[0] if mode == 1 else c.choose(len(ts), 'the array') if len(ts) > 1 else 0
        self.t = ts[self.k]; self.others = [(t, len(t.layers)) for t in c.extra['tensors'] if t is not self.t]
        def blank():
            c = cur(); y = [z3.Int(c.fresh('y')) for _ in range(self.t.ndim)]; c.assume(z3.And(*[z3.And(v >= lo, v < hi) for v, (lo, hi) in zip(y, self.t.dims)]))
            return zero(PV.of(self.t.peek(*y)))
        if not all(c.cases(blank)):
            if mode == 0 and len(ts) > 1: raise EndPath()
            raise Unsupported('an array which is not zero at first')
        if mode == 1:
            fin = self.final; self.t.layers.append(lambda *y: fin(*y)); return False
        f = self.prev = T.atoms(c.fresh('state'), alg.rsym); self.t.layers.append(lambda *y: f(*y)); self.n0 = len(self.t.layers)
        self.item, self.cell = self.mk(); return True
    def end(self, loc):
        c = cur()
        bad = [k for k, v in self.keep.items() if loc.get(k) is not v and not k.startswith('_vx_')]
        if bad: raise Unsupported('other variables change')
        if any(len(t.layers) != n for t, n in self.others): raise EndPath()
        self.st.append(self.k)
        def go():
            c = cur(); y = [z3.Int(c.fresh('y')) for _ in range(self.t.ndim)]; c.assume(z3.And(*[z3.And(v >= lo, v < hi) for v, (lo, hi) in zip(y, self.t.dims)]))
            p = self.prev(*y); cell = self.cell()
            if len(cell) != len(y): raise Unsupported('an array of another kind')
            want = self.stepf(p) if c.decide(z3.And(*[a == b for a, b in zip(y, cell)])) else p
            return zero(PV.of(self.t.peek(*y)) - want)
        if not all(c.cases(go)): raise Unsupported('an item changes something else')
        raise EndPath()
class Named:
    """a list of unknown length of which only generic items are known"""
    vx_static = True
    def __init__(self, item): self.m = ivar(cur().fresh('items')); cur().assume(self.m.e >= 0); self.item = item
    def slen(self): return self.m
    def __getitem__(self, i):
        if cur().extra.get('at') is None or not (isinstance(i, SInt) and cur().implied(i.e == cur().extra['at'].e)): raise Unsupported('an item of a list')
        return cur().extra['it']
    def loop(self, ident, lv, rb, by_index, step, final):
        def mk():
            c = cur(); k = ivar(c.fresh('k')); c.assume(z3.And(k.e >= 0, k.e < self.m.e)); it, cell = self.item(); c.extra['at'], c.extra['it'] = k, it
            return (k if by_index else it), cell
        return Scatter(ident, rb, lv, mk, step, final)
    def vx_isinstance(self, t): return t in (list, object)
    def _bad(self, *a): raise Unsupported('a list')
    __iter__ = __len__ = __eq__ = _bad
    __hash__ = None
class Edge:
    vx_static = True
    def __init__(self, u, v): self.u, self.v = u, v
    def slen(self): return 2
    def __getitem__(self, i): return (self.u, self.v)[i]
    def vx_iter(self): return iter((self.u, self.v))
    def __iter__(self): return iter((self.u, self.v))
    def ends(self): return (self.u.e, self.v.e) if cur().decide(self.u.e <= self.v.e) else (self.v.e, self.u.e)
def np_sort(x):
    if isinstance(x, Edge):
        a, b = x.ends(); return Edge(SInt(a), SInt(b))
    return __import__('numpy').sort(x)
def helpers(led):
    def cells(c, n):
        x, y = z3.Int('x'), z3.Int('y'); c.assume(z3.And(x >= 0, x < n, y >= 0, y < n)); return x, y
    def square(c, R, n):
        R = T.asarr(R)
        if R is None or R.ndim != 2: raise Unsupported('a matrix of another kind')
        for l, h in R.dims: c.prove(h - l == n, 'a row and a column for each variable')
        return R
    def hook(lst, step, final):
        def h(it, ident, lv, rb):
            if it is lst: return lst.loop(ident, lv, rb, False, step, final)
            if isinstance(it, SymRange) and it.step == 1 and it.start == 0 and it.stop is lst.m: return lst.loop(ident, lv, rb, True, step, final)
            return T.range_loop(it, ident, lv, rb)
        return h
    def sel(led):
        c = cur(); setup(); n = size(); K = ivar('K'); how = c.choose(2, 'preferred variables'); cnt = T.atoms('count', alg.rsym)
        if how:
            def item():
                t = ivar(cur().fresh('t')); cur().assume(z3.And(t.e >= 0, t.e < n)); return t, lambda: (t.e,)
            arr = Named(item); c.extra['loop_hook'] = hook(arr, lambda p: p + 1, lambda y: cnt(y))
            R = W.sel(SInt(n), K, arr)
        else: R = W.sel(SInt(n), K)
        R = square(c, R, n); x, y = cells(c, n); v = Alg.of(R.peek(x, y)); k = K.__alg__()
        want = (1 - 2 * k - (cnt(x) / 2 if how else 0)) if c.decide(x == y) else Alg.of(2) if c.decide(x < y) else Alg.of(0)
        c.prove_zero(v - want, '1 - 2K on the diagonal (less a half for each time it is preferred) and 2 above it')
    run_explore(led, 'sel', lambda: sel(led))
    def sqr():
        c = cur(); setup(); n = size(); f = T.atoms('A', alg.rsym); A = FArr([(0, n)], f, ('array', list)[c.choose(2, 'list')])
        R = square(c, W.sqr(A), n); x, y = cells(c, n)
        want = f(x) * f(x) if c.decide(x == y) else 2 * f(x) * f(y) if c.decide(x < y) else Alg.of(0)
        c.prove_zero(Alg.of(R.peek(x, y)) - want, 'squares on the diagonal, twice the products above it')
        c.require(not A.layers, 'the coefficients are not changed')
    run_explore(led, 'sqr', sqr)
    def net():
        c = cur(); setup(); n = size(); inset = T.atoms('edge', alg.rsym)
        def item():
            u, v = ivar(cur().fresh('u')), ivar(cur().fresh('v')); cur().assume(z3.And(u.e >= 0, u.e < n, v.e >= 0, v.e < n)); e = Edge(u, v); return e, e.ends
        arr = Named(item); c.extra['loop_hook'] = hook(arr, lambda p: Alg.of(1), lambda x, y: inset(x, y))
        R = square(c, W.net(arr, SInt(n)), n); x, y = cells(c, n)
        c.prove_zero(Alg.of(R.peek(x, y)) - inset(x, y), 'one for each edge, at its smaller and larger end')
    run_explore(led, 'net', net)
    def diag():
        c = cur(); setup(); n = size(); f = T.atoms('A', alg.rsym); R = square(c, W.diag(FArr([(0, n)], f, list)), n); x, y = cells(c, n)
        c.prove_zero(Alg.of(R.peek(x, y)) - (f(x) if c.decide(x == y) else 0), 'the list on the diagonal')
        R = square(c, W.zeros(SInt(n)), n); c.prove_zero(Alg.of(R.peek(x, y)), 'all zero')
    run_explore(led, 'diag, zeros', diag)
    def lemma():
        c = cur(); s, x, K, N = z3.Ints('s x K N'); c.assume(z3.And(s >= 0, z3.Or(x == 0, x == 1), K >= 0, K <= N))
        # the energy of s ones: (1 - 2K) s + s (s - 1), by induction on the variables
        e = lambda t: (1 - 2 * K) * t + t * (t - 1)
        c.prove(e(s + x) == e(s) + (1 - 2 * K) * x + 2 * s * x, 'choose K of N: the energy depends on the number of ones')
        d = z3.Int('d'); c.prove(z3.Implies(s == K + d, e(s) + K * K == d * d), 'choose K of N: least exactly for K ones')
        a, t = z3.Reals('a t'); X = z3.ToReal(x)
        c.prove((t + a * X) * (t + a * X) == t * t + a * a * X + 2 * a * X * t, 'square: adding a variable adds its diagonal entry and the products with the others')
    run_explore(led, 'lemma', lemma)
def module():
    global W
    W = c17.module()
    d = dict(sort=np_sort, log=np_log, exp=np_exp, tanh=lambda x: named('tanh', x))
    W.np = shadows.Shadow(__import__('numpy'), T.numpy_over(d))
    W.Ei = lambda q, J: energy(J, q)
    return W
def run(led, tier='quick'):
    def job(f, *a):
        def go(led): module(); f(led, *a)
        return go
    def ei(led): c17.module(); c17.ei(led)
    parallel(led, [('Opt.sqa', job(sqa, True)), ('Opt.sqa given', job(sqa, False))] + [('Opt.run %d' % k, job(sa, k)) for k in range(3)] + [('Opt.sa', job(direct)), ('Ei', ei), ('Ei_sqa', job(ei_sqa)), ('helpers', job(helpers))])
    for n, t in [('Ei', 'any matrix and spins'), ('Ei_sqa', 'any replicas'), ('Opt.run', 'any couplings, temperatures, schedule, draws, shots'), ('Opt.sa', 'any options'), ('Opt.sqa', 'any couplings, schedule, draws, at least two replicas'),
        ('sel', 'any size, number and preferred variables'), ('sqr', 'any coefficients'), ('net', 'any edges'), ('diag', 'any list'), ('zeros', 'any size')]: led.functions['blueqat.wq.' + n] = t
    led.need = 1500
ASSUMPTIONS = ['qi and reJ give the couplings and the constant of the problem (C17), and Opt keeps couplings given in advance; an instance is only used by one caller at a time',
 'the run reads the couplings linearly: known at the probes of one entry (what is linear is checked by the stand-ins); comparisons of an energy difference read it as a whole',
 'numpy.random: choice([-1, 1], shape) gives spins, randint indices of the range, rand a number of [0, 1); that draws are independent and uniform is not proved',
 'the temperature and field may have any value at any passage (their schedule is not part of the statement); a loop which does not end gives no solution',
 'minimal exactly on the assignments described: by the matrices proved entry by entry and the lemmas on their energies (completed square), preferred variables of sel excepted; counter, rands, mul and the RBM helpers by bounded check only']
EXPLANATION = ''
