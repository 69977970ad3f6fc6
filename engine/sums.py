"""Sums over sequences of unknown length.

`Op` is a polynomial in non-commuting letters (operators) with exact scalar coefficients.
A `Run` stands for the terms f(e), e over a sequence of unknown length whose generic
element has a contribution c*w (scalar symbol times operator letter) and whose elements
sum to a given total; what the run sums to follows when f(e)'s meaning is linear in c*w.
`SumLoop` is the loop rule for accumulators: every passage of the body must add the same
step to what an accumulator (a table, a list, a number) means, whatever that was before;
the sum of the steps is what it gains in the loop.  `GVec` is a table used as a vector:
its meaning is the sum of value * key."""
import z3
from .alg import Alg, Unsupported
from . import alg, core, seqs
from .core import SInt, cur, Infeasible
from .opaque import Seg, GTuple, GList, GSeq, raw, either, Opaque
from .seqs import EndPath, Poison, heap_of

class Op:
    __slots__ = ('t',)
    def __init__(self, t=None): self.t = t or {}
    @staticmethod
    def letter(l): return Op({(l,): Alg.of(1)})
    @staticmethod
    def of(x):
        if isinstance(x, Op): return x
        a = Alg.of(x)
        if a is None: raise Unsupported('operator from %r' % type(x))
        return Op({(): a} if a.t else {})
    def __add__(self, o):
        o = Op.of(o); d = dict(self.t)
        for w, c in o.t.items():
            s = d[w] + c if w in d else c
            if s.t: d[w] = s
            else: d.pop(w, None)
        return Op(d)
    __radd__ = __add__
    def __neg__(self): return Op({w: -c for w, c in self.t.items()})
    def __sub__(self, o): return self + (-Op.of(o))
    def __mul__(self, o):
        o = Op.of(o); d = {}
        for w1, c1 in self.t.items():
            for w2, c2 in o.t.items():
                w = reduce_word(w1 + w2); c = c1 * c2
                s = d[w] + c if w in d else c
                if s.t: d[w] = s
                else: d.pop(w, None)
        return Op(d)
    def __rmul__(self, o): return Op.of(o) * self
    def map(self, f):
        out = Op()
        for w, c in self.t.items(): out = out + Op({w: f(c)} if f(c).t else {})
        return out
    def norm(self, facts):
        def g(a):
            for sid, v in facts:
                if sid in a.syms(): a = a.subs(sid, v)
            return a
        return self.map(g)
    def zero(self): return all(c.is_zero() for c in self.t.values())
    def letters(self): return {l for w in self.t for l in w}
    def __repr__(self): return ' + '.join('(%s)%s' % (c.pretty()[:80], '.'.join(map(str, w))) for w, c in self.t.items()) or '0'

def reduce_word(w):
    out = []
    for l in w:
        if out and l[0] == 'P' and out[-1] == l: out.pop()
        else: out.append(l)
    return tuple(out)

class Drop: pass
DROP = Drop()

class Base:
    """a sequence of unknown length: mk(tag) makes the generic element and its binds, a
    list of (id of scalar symbol, letter, total)"""
    def __init__(self, name, mk): self.name = name; self.mk = mk
class Run(Seg):
    def __init__(self, base, den, fns=()):
        Seg.__init__(self, 'terms of ' + base.name)
        for k, v in (('base', base), ('den', den), ('fns', tuple(fns))): object.__setattr__(self, k, v)
    def then(self, kind, f, star): return Run(self.base, self.den, self.fns + ((kind, f, star),))
    def evaluate(self, tag):
        e, binds = self.base.mk(tag)
        for kind, f, star in self.fns:
            r = f(*e) if star else f(e)
            if kind == 'map': e = r
            elif not r: return DROP, binds
        return e, binds
    def total(self):
        c = cur(); tag = c.fresh('el')
        got = []
        def go():
            v, binds = self.evaluate(tag)
            got.append((Op() if v is DROP else self.den(v), list(c.facts0), binds))
        c.cases(go)
        if not got: return Op()
        return total(law([(s, f) for s, f, _ in got]), got[0][2])
class Tot(Seg):
    """a run with a known sum"""
    def __init__(self, name, op): Seg.__init__(self, name); object.__setattr__(self, 'op', op)
    def total(self): return self.op

def law(entries):
    """the one step which every case's step equals under the facts of that case"""
    for s, _ in sorted(entries, key=lambda e: -sum(len(c.t) for c in e[0].t.values())):
        if all((st - s).norm(f).zero() for st, f in entries): return s
    raise Unsupported('passages of the loop add different things: ' + repr([s for s, _ in entries])[:300])
def total(step, binds):
    out = Op()
    for w, co in step.t.items():
        for (pm, em, r), k in co.t.items():
            d = dict(pm); op = None
            for sid, l, T in binds:
                if d.pop(sid, 0) != 1 or w.count(l) != 1: raise Unsupported('what is summed is not linear in the elements: ' + repr(step)[:200])
            if any(alg.TABLE[s].kind == 'inv' and any(sid in alg.TABLE[s].data.syms() for sid, _, _ in binds) for s in d): raise Unsupported('not linear in the elements')
            if any(any(sid in m for sid, _, _ in binds) for m, _ in em): raise Unsupported('not linear in the elements')
            p = Op.of(Alg({(tuple(sorted(d.items())), em, r): k}))
            for l in w:
                T = next((T for _, l2, T in binds if l2 == l), None)
                p = p * (T if T is not None else Op.letter(l))
            out = out + p
    return out

# ---------------------------------------------------------------- lists and iterators
def has(x): return isinstance(x, (Run, Tot))
def parts_of(x): return x.parts if isinstance(x, SSeq) else raw(x)
class STuple(GTuple):
    vx_static = True
    def vx_seq(self, ty): return (SList if ty is list else STuple)(raw(self))
    def vx_loop(self, *a): return SSeq(raw(self)).vx_loop(*a)
    def vx_comp(self, *a): return SSeq(raw(self)).vx_comp(*a)
    def vx_iter(self): return SSeq(raw(self))
    def __add__(self, o): return STuple(raw(self) + raw(o))
    def vx_isinstance(self, t): return t in (tuple, object) or None
    def __eq__(self, o):
        if not isinstance(o, tuple) or other_runs(o): return NotImplemented
        return same_terms(self, o)
    def __ne__(self, o):
        if not isinstance(o, tuple) or other_runs(o): return NotImplemented
        return not same_terms(self, o)
    def __hash__(self): raise Unsupported('hash of terms')
    def vx_combinations(self, n): return Pairs(self, n)
EQ_HOOK = [None]
def other_runs(o): return any(isinstance(p, Seg) and not has(p) for p in raw(o))
def same_terms(a, b):
    x, y = list(raw(a)), list(raw(b))
    if len(x) == len(y) and all(p is q for p, q in zip(x, y)): return True
    if not any(has(p) for p in x + y): return tuple(x) == tuple(y)
    if EQ_HOOK[0] is None: raise Unsupported('comparing terms of unknown number')
    return EQ_HOOK[0](x, y)
class Pairs:
    """the pairs of a sequence of unknown length, in order"""
    vx_static = True
    def __init__(self, seq, n):
        if n != 2: raise Unsupported('combinations of %r' % (n,))
        self.seq = seq
        items = raw(seq)
        if len(items) != 1 or not isinstance(items[0], Run): raise Unsupported('pairs of a mixed sequence')
    def __iter__(self): raise Unsupported('pairs of a sequence of unknown length')
    def vx_iter(self): return self
    def vx_comp(self, kind, f, cond, star):
        if kind not in ('gen', 'list') or cond is not None: raise Unsupported('comprehension over pairs')
        return PairVals(self, f, star)
class PairVals:
    vx_static = True
    def __init__(self, pairs, f, star): self.pairs, self.f, self.star = pairs, f, star
    def __iter__(self): raise Unsupported('pairs of a sequence of unknown length')
    def values(self):
        """what f says about the generic pair, under which facts"""
        c = cur(); r = raw(self.pairs.seq)[0]; out = []
        def go():
            e1, _ = r.evaluate('first'); e2, _ = r.evaluate('second')
            if e1 is DROP or e2 is DROP: raise Unsupported('pairs of a selection')
            v = self.f(e1, e2) if self.star else self.f((e1, e2))
            out.append(((e1, e2), v))
        c.cases(go)
        return out
    def vx_all(self):
        h = cur().extra.get('pairs_hook')
        if h is None: raise Unsupported('all() over pairs')
        return h(self, 'all')
    def vx_any(self):
        h = cur().extra.get('pairs_hook')
        if h is None: raise Unsupported('any() over pairs')
        return h(self, 'any')
class SList(GList):
    vx_static = True
    def vx_seq(self, ty): return (SList if ty is list else STuple)(raw(self))
    def vx_loop(self, *a): return SSeq(raw(self)).vx_loop(*a)
    def vx_comp(self, *a): return SSeq(raw(self)).vx_comp(*a)
    def vx_iter(self): return SSeq(raw(self))
class SSeq:
    vx_static = True
    def __init__(self, parts): self.parts = list(parts)
    def __iter__(self): raise Unsupported('iteration over terms of unknown number')
    def __next__(self): raise Unsupported('next of terms of unknown number')
    def vx_iter(self): return self
    def vx_sum(self, start=0):
        tot = Op.of(start)
        for x in self.parts: tot = tot + (self.run_sum(x) if isinstance(x, Run) else x.total() if isinstance(x, Tot) else Op.of(x))
        if set(tot.t) - {()}: raise Unsupported('sum of operators')
        return tot.t.get((), Alg.of(0))
    def run_sum(self, r):
        """a sum of numbers which is not linear in the elements is an unknown number"""
        c = cur(); tag = c.fresh('el'); got = []
        def go():
            v, binds = r.evaluate(tag)
            got.append((Op() if v is DROP else Op.of(v), list(c.facts0), binds))
        c.cases(go)
        if not got: return Op()
        st = law([(s, f) for s, f, _ in got])
        if set(st.t) - {()}: raise Unsupported('sum of operators')
        try: return total(st, got[0][2])
        except Unsupported:
            v = st.t[()]
            z = alg.csym('sum over %s of %s' % (r.base.name, v.key())) if not (v - v.conjugate()).is_zero() else alg.rsym('sum over %s of %s' % (r.base.name, v.key()))
            c.extra.setdefault('sums', []).append((z, r, v, tag))
            return Op.of(z)
    def vx_seq(self, ty):
        if ty not in (list, tuple): raise Unsupported('%s of terms' % ty)
        return (SList if ty is list else STuple)(self.parts)
    def vx_comp(self, kind, f, cond, star):
        if kind not in ('gen', 'list'): raise Unsupported('%s comprehension over terms of unknown number' % kind)
        out = []
        for x in self.parts:
            if isinstance(x, Run):
                if cond is not None: x = x.then('if', cond, star)
                out.append(x.then('map', f, star))
            elif isinstance(x, Tot): raise Unsupported('comprehension over a list built by a loop')
            else:
                a = tuple(x) if star else (x,)
                if cond is None or cond(*a): out.append(f(*a))
        return SList(out) if kind == 'list' else SSeq(out)
    def vx_loop(self, ident, loopvars, rebound):
        if not any(has(x) for x in self.parts): return seqs.ConcreteLoop(self.parts)
        if len(self.parts) != 1 or not isinstance(self.parts[0], Run): raise Unsupported('a loop over several runs')
        return SumLoop(self.parts[0], ident, set(rebound))

class SumLoop:
    rebind = True
    def __init__(self, run, ident, rebound): self.run = run; self.ident = ident; self.rebound = rebound; self.env = {}; self.entered = False
    def head(self, loc):
        c = cur()
        if self.entered: return self.end(loc)
        self.entered = True
        occ = c.extra.setdefault('loop_occ', {})
        n = occ.get(self.ident, 0); occ[self.ident] = n + 1
        self.key = ('sum', self.ident, n, tuple(c.trace[:c.pos]))
        new = self.key not in c.store
        st = self.st = c.store.setdefault(self.key, {'steps': [], 'names': None})
        if c.pos >= len(c.trace):
            c.trace.append(0); c.deferred.append(c.trace[:c.pos] + [1])
        mode = c.trace[c.pos]; c.pos += 1
        c.desc.append('loop %s %s' % (self.ident, ['body', 'exit'][mode]))
        tag = '%s/%d' % (self.ident, n)
        self.tag = tag
        # accumulators
        acc = {}; seen = set()
        for nm in sorted(loc):
            v = loc[nm]
            if nm.startswith('_vx_'): continue
            if isinstance(v, GVec):
                if id(v) not in seen: seen.add(id(v)); acc[nm] = ('vec', v)
            elif type(v) in (list, SList) and id(v) not in seen: seen.add(id(v)); acc[nm] = ('list', v)
            elif nm in self.rebound and isinstance(v, (int, float, complex, Alg)) and not isinstance(v, bool): acc[nm] = ('num', v)
        self.acc = acc
        self.lists = {nm: raw(v) for nm, (k, v) in acc.items() if k == 'list'}
        if mode == 0:
            for nm, (k, v) in acc.items():
                l = ('D', tag, nm)
                if k == 'vec': v.havoc(Op.letter(l))
                elif k == 'num': self.env[nm] = alg.csym('acc[%s.%s]' % (tag, nm))
            for nm in self.rebound:
                if nm not in acc: self.env[nm] = Poison(nm)
            self.heap0 = heap_of({k: v for k, v in loc.items() if not (k in acc and acc[k][0] == 'list')})
            e, self.binds = self.run.evaluate(tag)
            if e is DROP: self.record(loc); raise EndPath()
            self.item = e
            return True
        steps = st['steps']
        if not steps: raise Infeasible()
        if len(steps) and any(s is None for s in steps): raise Unsupported('loop over terms')
        if sorted(acc) != st['names']: raise Unsupported('loop over terms: accumulators')
        binds = self.run.base.mk(tag)[1]
        for nm, (k, v) in acc.items():
            T = total(law([(s[nm], f) for s, f, _ in steps]), binds)
            if k == 'vec':
                fl = all(x[nm] for _, _, x in steps if nm in x)
                v.havoc(v.D + T); v.allcanon = v.allcanon and fl
            elif k == 'num':
                if any(T.t) and set(T.t) - {()}: raise Unsupported('a number which sums operators')
                self.env[nm] = Alg.of(v) + T.t.get((), Alg.of(0))
            elif T.t:
                if type(v) is list: raise Unsupported('a list filled by a loop')   # replaced by the contract's list type where needed
                list.append(v, Tot('built by the loop', T))
        for nm in self.rebound:
            if nm not in acc: self.env[nm] = Poison(nm)
        return False
    def record(self, loc):
        c = cur(); step = {}; flags = {}
        for nm, (k, v) in self.acc.items():
            l = ('D', self.tag, nm)
            if k == 'vec':
                d = v.D - Op.letter(l); flags[nm] = v.allcanon
                if any(x[0] == 'D' for x in d.letters()): raise Unsupported('a table is not just added to')
            elif k == 'num':
                d = Op.of(Alg.of(loc.get(nm)) - self.env[nm])
                sid = next(iter(self.env[nm].syms()))
                if any(sid in a.syms() for a in d.t.values()): raise Unsupported('%s is not just added to' % nm)
            else:
                now = raw(v); old = self.lists[nm]
                if len(now) < len(old) or any(a is not b for a, b in zip(old, now)): raise Unsupported('a list is not just appended to')
                if now[len(old):]: d = sum((self.run.den(x) for x in now[len(old):]), Op())
                else: d = Op()
            step[nm] = d
        self.st['names'] = sorted(self.acc)
        self.st['steps'].append((step, list(c.facts0), flags))
    def end(self, loc):
        h1 = heap_of({k: v for k, v in loc.items() if k in self.heap0[0]})
        h0 = ({k for k in self.heap0[0] if k in loc}, {p: v for p, v in self.heap0[1].items() if p[0] in loc and p[0] not in self.rebound})
        if {p: v for p, v in h1[1].items() if p in h0[1]} != h0[1]: raise Unsupported('the loop changes something else')
        self.record(loc)
        raise EndPath()

# ---------------------------------------------------------------- tables used as vectors
class GVec:
    """a table; its meaning is the sum of value * meaning of key"""
    vx_static = True
    def __init__(self, sem, default=None):
        self.sem = sem; self.default = default
        self.D = Op(); self.open = False; self.seen = []; self.allcanon = True; self.touched = False
    def havoc(self, D): self.D = D; self.open = True; self.seen = []
    def entry(self, key):
        c = cur()
        for e in self.seen:
            if self.sem.same_key(e[0], key): return e
        if not self.open: e = [key, False, None]
        elif either(('has', id(self), len(self.seen), self.sem.key_id(key)), 'the key is in the table'):
            e = [key, True, alg.csym(c.fresh('old'))]
        else: e = [key, False, None]
        self.seen.append(e)
        return e
    def __contains__(self, key): return self.entry(key)[1]
    def get(self, key, d=None):
        e = self.entry(key)
        return e[2] if e[1] else d
    def __getitem__(self, key):
        if getattr(key, 'vx_of', None) is not None and key.vx_of[0] is self and key.vx_of[1] == self.stamp(): return key.vx_of[2]
        e = self.entry(key)
        if e[1]: return e[2]
        if self.default is None: raise KeyError(key)
        v = self.default()
        self[key] = v
        return v
    def __setitem__(self, key, v):
        e = self.entry(key)
        a = Alg.of(v)
        if a is None: raise Unsupported('a table of %r' % type(v))
        self.D = self.D + Op.of(a - (e[2] if e[1] else Alg.of(0))) * self.sem.den_key(key)
        self.allcanon = self.allcanon and self.sem.canon(key)
        e[1], e[2] = True, a; self.touched = True
    def __delitem__(self, key):
        e = self.entry(key)
        if not e[1]: raise KeyError(key)
        self.D = self.D - Op.of(e[2]) * self.sem.den_key(key)
        e[1], e[2] = False, None; self.touched = True
    def pop(self, key, *d):
        e = self.entry(key)
        if not e[1]:
            if d: return d[0]
            raise KeyError(key)
        v = e[2]; del self[key]; return v
    def setdefault(self, key, d=None):
        e = self.entry(key)
        if not e[1]: self[key] = d
        return e[2]
    def copy(self):
        g = GVec(self.sem, self.default); g.D, g.open, g.allcanon = self.D, self.open, self.allcanon
        g.seen = [list(e) for e in self.seen]
        return g
    __copy__ = copy
    def stamp(self): return repr(sorted((repr(w), a.key()) for w, a in self.D.t.items()))
    def base(self, mkelem, what):
        D, canon, stamp = self.D, self.allcanon, self.stamp()
        def mk(tag):
            v = alg.csym('val[%s]' % tag); l = ('key', tag)
            k = self.sem.generic_key(l, canon); k.vx_of = (self, stamp, v)
            (sid,) = [s for s in v.syms()]
            return mkelem(k, v), [(sid, l, D)]
        b = Base(what, mk); b.vec = self; b.canon = canon; b.sorted = False
        return b
    def items(self): return SSeq([Run(self.base(lambda k, v: (k, v), 'items'), self.sem.den)])
    def keys(self): return SSeq([Run(self.base(lambda k, v: k, 'keys'), self.sem.den)])
    def values(self): return SSeq([Run(self.base(lambda k, v: v, 'values'), self.sem.den)])
    def vx_iter(self): return self.keys()
    def vx_loop(self, *a): return self.keys().vx_loop(*a)
    def vx_comp(self, *a): return self.keys().vx_comp(*a)
    def vx_sorted(self, kw): return self.keys().vx_sorted(kw)
    def vx_seq(self, ty): return self.keys().vx_seq(ty)
    def _bad(self, *a, **k): raise Unsupported('the code looks into a table of unknown size')
    __iter__ = __len__ = __bool__ = popitem = __eq__ = __or__ = __ror__ = update = clear = _bad
    __hash__ = None
def sort_parts(s, kw):
    """sorted(): the same items in the order of a key which is a function of the item"""
    if len(s.parts) != 1 or not isinstance(s.parts[0], Run): raise Unsupported('sorting')
    r = s.parts[0]
    b = Base(r.base.name, r.base.mk); b.__dict__.update(r.base.__dict__)
    k = kw.get('key')
    b.sorted = (k is None or k in (repr, str)) and not (set(kw) - {'key', 'reverse'}) and not r.fns and r.base.name in ('keys', 'items')
    if not b.sorted and k is not None and not callable(k): raise Unsupported('sorting')
    return SSeq([Run(b, r.den, r.fns)])
SSeq.vx_sorted = sort_parts
STuple.vx_sorted = lambda self, kw: SSeq(raw(self)).vx_sorted(kw)
