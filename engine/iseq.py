"""Sequences of unknown length whose items are a known function of their position, and
loops over them whose bodies only append gates to a recorded circuit."""
import z3
from .alg import Alg, Unsupported
from . import core, seqs, shadows
from .core import SInt, cur, Infeasible
from .seqs import EndPath, Poison, heap_of

def zint(v):
    if isinstance(v, SInt):
        if v.isbv: raise Unsupported('machine integer as a position')
        return v.e
    if isinstance(v, bool) or not isinstance(v, int): raise Unsupported('position %r' % type(v))
    return z3.IntVal(v)
def pick(p, a, b):
    c = cur()
    return a if c.implied(p) else b if c.implied(z3.Not(p)) else z3.If(p, a, b)
class ISeq:
    vx_static = True
    def __init__(self, N, at, name='seq'): self.N = z3.simplify(N); self.at = at; self.name = name
    def slen(self): return SInt(self.N)
    def __len__(self): raise Unsupported('length of %s' % self.name)
    def __iter__(self): raise Unsupported('iteration over %s' % self.name)
    def __bool__(self): return cur().decide(self.N > 0)
    def pos(self, i):
        e = zint(i); c = cur()
        if not c.decide(z3.And(e < self.N, e >= -self.N)): raise IndexError('index out of range')
        return z3.simplify(z3.If(e < 0, e + self.N, e) if not c.implied(e >= 0) else e) if not c.implied(e < 0) else z3.simplify(e + self.N)
    def __getitem__(self, i):
        if not isinstance(i, slice): return self.at(self.pos(i))
        N = self.N; step = 1 if i.step is None else i.step
        if step not in (1, -1): raise Unsupported('stepped slice')
        def clip(v, lo, hi):
            e = pick(zint(v) < 0, zint(v) + N, zint(v))
            return pick(e < lo, lo, pick(e > hi, hi, e))
        z, one = z3.IntVal(0), z3.IntVal(1)
        if step == 1:
            a = z if i.start is None else clip(i.start, z, N)
            b = N if i.stop is None else clip(i.stop, z, N)
            return ISeq(pick(b > a, b - a, z), lambda m: self.at(z3.simplify(a + m)), self.name)
        a = N - 1 if i.start is None else clip(i.start, -one, N - 1)
        b = -one if i.stop is None else clip(i.stop, -one, N - 1)
        return ISeq(pick(a > b, a - b, z), lambda m: self.at(z3.simplify(a - m)), self.name)
    def rev(self): return ISeq(self.N, lambda m: self.at(z3.simplify(self.N - 1 - m)), self.name)
    vx_reversed = rev
    def vx_seq(self, ty): return self
    def vx_iter(self): return self
    def vx_enumerate(self, start): return ISeq(self.N, lambda m: (SInt(z3.simplify(m + zint(start))), self.at(m)), self.name)
    def vx_comp(self, kind, f, cond, star):
        if kind not in ('list', 'gen') or cond is not None: raise Unsupported('comprehension over %s' % self.name)
        return ISeq(self.N, (lambda m: f(*self.at(m))) if star else (lambda m: f(self.at(m))), self.name)
    def vx_loop(self, ident, loopvars, rebound):
        h = cur().extra.get('iseq_loop')
        if h is None: raise Unsupported('a loop over %s' % self.name)
        return h(self, ident, set(rebound))
    def _bad(self, *a, **k): raise Unsupported('the code looks into %s' % self.name)
    __contains__ = __eq__ = __ne__ = __add__ = __radd__ = __mul__ = __lt__ = _bad
    __hash__ = None
def of(it):
    if isinstance(it, ISeq): return it
    if isinstance(it, shadows.SymRange) and isinstance(it.step, int) and abs(it.step) == 1 and not it.bv:
        a, b = zint(it.start), zint(it.stop)
        d = b - a if it.step == 1 else a - b
        s = it.step
        return ISeq(z3.If(d > 0, d, z3.IntVal(0)), lambda m: SInt(z3.simplify(a + m if s == 1 else a - m)), 'range')
    if isinstance(it, range) and abs(it.step) == 1 and len(it) > 8:
        return ISeq(z3.IntVal(len(it)), lambda m: SInt(z3.simplify(it.start + m * it.step)), 'range')
    return None
def zipped(seqs_):
    xs = [of(x) for x in seqs_]
    if any(x is None for x in xs): raise Unsupported('zip of symbolic and concrete')
    N = xs[0].N
    for x in xs[1:]: N = z3.If(x.N < N, x.N, N)
    return ISeq(N, lambda m: tuple(x.at(m) for x in xs), 'zip')
ISeq.vx_zip = staticmethod(zipped)

# ---------------------------------------------------------------- recorded circuits
class Gate:
    def __init__(self, name, params, targets): self.name, self.params, self.targets = name, params, targets
    def __repr__(self): return '%s%s%s' % (self.name, tuple(self.params) or '', self.targets)
class Rec:
    """a circuit to which gates are appended"""
    vx_static = True
    def __init__(self, gates): object.__setattr__(self, 'gates', gates); object.__setattr__(self, 'log', [])
    def __getattr__(self, n):
        if n.startswith('__') or n.startswith('vx_') or n not in self.gates: raise Unsupported('circuit.%s' % n) if not n.startswith(('__', 'vx_')) else AttributeError(n)
        return Builder(self, n, ())
    def __setattr__(self, n, v): raise Unsupported('setting circuit.%s' % n)
class Builder:
    vx_static = True
    def __init__(self, rec, n, ps): self.rec, self.n, self.ps = rec, n, ps
    def __call__(self, *ps, **k):
        if k or self.ps or len(ps) != self.rec.gates[self.n][1]: raise Unsupported('parameters of %s' % self.n)
        return Builder(self.rec, self.n, tuple(Alg.of(p) for p in ps))
    def __getitem__(self, t):
        if len(self.ps) != self.rec.gates[self.n][1]: raise Unsupported('parameters of %s' % self.n)
        k = self.rec.gates[self.n][0]
        ts = t if isinstance(t, tuple) else (t,)
        if k == 1 and len(ts) > 1 and all(isinstance(x, (SInt, int)) for x in ts):
            for x in ts: self.rec.log.append(Gate(self.n, self.ps, (x,)))
            return self.rec
        if len(ts) != k or not all(isinstance(x, (SInt, int)) and not isinstance(x, bool) for x in ts): raise Unsupported('targets of %s' % self.n)
        self.rec.log.append(Gate(self.n, self.ps, ts))
        return self.rec
class LoopSeg:
    """the gates of a loop: cases of one passage (facts, gates), as functions of the position m"""
    def __init__(self, N, m, cases): self.N, self.m, self.cases = N, m, cases
    def __repr__(self): return 'loop(%s)%r' % (self.N, self.cases)

class RecLoop:
    rebind = True
    def __init__(self, sq, ident, rebound): self.sq, self.ident, self.rebound = sq, ident, rebound; self.env = {}; self.entered = False
    def head(self, loc):
        c = cur()
        if self.entered: return self.end(loc)
        self.entered = True
        occ = c.extra.setdefault('loop_occ', {})
        n = occ.get(self.ident, 0); occ[self.ident] = n + 1
        self.key = ('rec', self.ident, n, tuple(c.trace[:c.pos]))
        st = self.st = c.store.setdefault(self.key, [])
        recs = self.all = list(c.extra['recs'])
        if c.pos >= len(c.trace):
            c.trace.append(0); c.deferred.append(c.trace[:c.pos] + [1])
        mode = c.trace[c.pos]; c.pos += 1
        c.desc.append('loop %s %s' % (self.ident, ['body', 'exit'][mode]))
        self.recs = {r: loc[r] for r in self.rebound if any(loc.get(r) is x for x in recs)}
        for r in self.rebound: self.env[r] = Poison(r)
        self.env.update(self.recs)
        m = z3.Int('m[%s/%d]' % (self.ident, n))
        if mode == 0:
            for r in recs: object.__setattr__(r, 'log', [])
            self.heap0 = heap_of(loc)
            c.assume(z3.And(m >= 0, m < self.sq.N))
            self.npc = len(c.pc); self.kinds = dict(c.extra.get('kinds', {}))
            self.item = self.sq.at(m)
            return True
        if not st and not c.implied(self.sq.N <= 0): raise Infeasible()
        if any(x is None for x in st): raise Unsupported('a passage of the loop does something else')
        for i, r in enumerate(recs):
            cs = [(k, logs[i]) for k, logs in st]
            if any(g for _, g in cs): r.log.append(LoopSeg(self.sq.N, m, cs))
        return False
    def end(self, loc):
        c = cur()
        bad = any(loc.get(r) is not x for r, x in self.recs.items()) or len(c.extra['recs']) != len(self.all)
        h1 = heap_of({k: v for k, v in loc.items() if k in self.heap0[0]})
        if {p: v for p, v in h1[1].items() if p in self.heap0[1] and p[0] not in self.rebound} != {p: v for p, v in self.heap0[1].items() if p[0] not in self.rebound and p[0] in loc}: bad = True
        # conditions on positions which are not implied would split the loop
        extra = [p for p in c.pc[self.npc:]]
        s = z3.Solver(); s.set('timeout', 5000)
        for p in c.pc[:self.npc]: s.add(p)
        if extra and s.check(z3.Not(z3.And(*extra))) != z3.unsat: bad = True
        kinds = {k: v for k, v in c.extra.get('kinds', {}).items() if k not in self.kinds}
        self.st.append(None if bad else (kinds, [list(r.log) for r in self.all]))
        raise EndPath()
def rec_hook(it, ident, lv, rb):
    if isinstance(it, (shadows.SymRange,)):
        s = of(it)
        if s is not None: return RecLoop(s, ident, set(rb))
def setup(c, gates):
    c.extra['recs'] = []
    c.extra['iseq_loop'] = RecLoop
    c.extra['loop_hook'] = rec_hook
    return new(gates)
def new(gates):
    r = Rec(gates); cur().extra['recs'].append(r); return r
