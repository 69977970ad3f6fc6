"""Running a list of operations of unknown length: ghost histories and a loop rule which
infers what the heap holds at the head of an iteration.

What a state vector holds is a ghost history: which prefix of which operations has been
applied to |0...0>, and in which run of the random operations.  A loop is cut at its
head.  The states the head can be in are found by exploration: the shape of the reachable
heap (which objects, truth values, None or not) is a state; within a shape every integer,
history and list keeps the relations to the position and to the sizes involved which hold
on every way of reaching it (candidates are tested with z3 and dropped when one fails,
until nothing changes).  Paths after the loop run from every state found."""
import z3, types
from .alg import Alg, Unsupported
from . import core, seqs, shadows, iseq
from .core import SInt, SBool, Infeasible, cur
from .seqs import EndPath, Poison
from .iseq import zint
from .opaque import either, Opaque

def I(e): return z3.IntVal(e) if isinstance(e, int) else e
def same(a, b):
    a, b = z3.simplify(I(a)), z3.simplify(I(b))
    return a.eq(b) or cur().implied(a == b)

# ---------------------------------------------------------------- operations
class Seq:
    """a sequence of operations; first: position of the first which is random"""
    def __init__(self, name, N, first, parent=None): self.name, self.N, self.first, self.parent = name, N, first, parent; self.made = []
    def at(self, k):
        k = z3.simplify(I(k))
        for e, g in self.made:
            if e.eq(k) or same(e, k): return g
        g = G(self, k); self.made.append((k, g)); return g
class G:
    """an operation, known by its position"""
    vx_static = True
    def __init__(self, seq, k): self.seq, self.k, self.dec = seq, k, None
    def __repr__(self): return '%s[%s]' % (self.seq.name, self.k)
    def __getattr__(self, n):
        if n.startswith('vx_') or n.startswith('__'): raise AttributeError(n)
        raise Unsupported('operation.%s' % n)
    def fallback(self, n): return cur().extra['machine'].fallback(self, n)
    def level(self): return 1 if self.seq.parent is None else 1 + self.seq.parent.level()

# ---------------------------------------------------------------- histories
class St:
    """the state after path[0] (a prefix of the operations), then prefixes of decompositions;
    run: the run of the random operations it belongs to (None before the first)"""
    def __init__(self, run, path): self.run, self.path = run, path
    def __repr__(self): return 'after %s%s' % ('/'.join('%s of %s' % (k, q.name) for q, k in self.path), '' if self.run is None else ' in run %s' % self.run)
class Word(str): pass
ZERO, JUNK, OLD = Word('zeros'), Word('something else'), Word('the earlier cache')
def norm(x):
    c = cur()
    if x is OLD:
        m = c.extra['machine']
        if m.old_valid(): return norm(St(None, ((m.seq, m.oldN),)))
        return OLD
    if not isinstance(x, St): return x
    path = list(x.path)
    while len(path) > 1:
        q, k = path[-1]
        if same(k, 0): path.pop(); continue
        if same(k, q.N): path.pop(); path[-1] = (path[-1][0], z3.simplify(path[-1][1] + 1)); continue
        break
    run = x.run
    if run is not None and before_random(path): run = None
    return St(run, tuple(path))
def before_random(path):
    c = cur()
    for i, (q, k) in enumerate(path):
        if i == len(path) - 1: return c.implied(I(k) <= q.first)
        if c.implied(I(k) < q.first): return True
        if not same(k, q.first): return False
def eq(a, b):
    """equal histories, as far as the path knows"""
    a, b = norm(a), norm(b)
    if isinstance(a, Word) or isinstance(b, Word): return a is b and a is not JUNK
    if len(a.path) != len(b.path) or any(p is not q for (p, _), (q, _) in zip(a.path, b.path)): return False
    if not all(same(j, k) for (_, j), (_, k) in zip(a.path, b.path)): return False
    return (a.run is None) == (b.run is None) and (a.run is None or same(a.run, b.run))
def step(x, g):
    """the history after operation g, or JUNK when g is not the next one; also its position"""
    x = norm(x)
    if not isinstance(x, St): return None
    chain = []; h = g
    while h is not None: chain.append(h); h = h.seq.parent
    chain.reverse()
    # x must be after chain[0] .. : same parents, positions as in x
    path = list(x.path)
    if len(path) > len(chain): return None
    for i, h in enumerate(chain):
        if i >= len(path):
            if not same(h.k, 0): return None          # the first of a decomposition
            path.append((h.seq, z3.IntVal(0)))
        elif path[i][0] is not h.seq or not same(path[i][1], h.k): return None
    q, k = path[-1]; path[-1] = (q, z3.simplify(k + 1))
    return St(x.run, tuple(path))

# ---------------------------------------------------------------- values on the heap
class Val:
    """something on the heap the loop rule knows how to describe"""
    vx_static = True
    def fresh(self): raise NotImplementedError
class Dt:
    vx_static = True
    def __init__(self, key): self.key = key
    def __eq__(self, o): return True if o is self else either(('dtype', str(self.key), str(getattr(o, 'key', o))), 'dtypes are equal')
    def __ne__(self, o): return not self == o
    __hash__ = None
class Same:
    """compared by identity"""
    def __init__(self, o): self.o = o
    def __eq__(self, x): return isinstance(x, Same) and self.o is x.o
    def __hash__(self): return id(self.o)
class Arr(Val):
    def __init__(self, n, x, dtype=None, shared=False): self.n, self.x, self.dt, self.shared = n, x, dtype, shared; self.phase = False
    def write(self, x):
        c = cur()
        if self.shared: c.require(False, 'a cached state is not written to', repr(x)); raise Infeasible()
        self.x = x; self.phase = False
    def copy(self, *a):
        r = Arr(self.n, self.x, self.dt); r.phase = self.phase; return r
    def __copy__(self): return self.copy()
    def __deepcopy__(self, m): return self.copy()
    @property
    def dtype(self): return Dt(self.dt)
    def slen(self): return 2 ** SInt(self.n)
    @property
    def size(self): return self.slen()
    @property
    def shape(self): return (self.slen(),)
    def fill(self, v): self.write(ZERO if iszero(v) else JUNK)
    def __setitem__(self, i, v):
        c = cur()
        if isinstance(i, slice) and i == slice(None) or i is Ellipsis:
            if isinstance(v, Arr): self.write(v.x if same(v.n, self.n) else JUNK)
            else: self.fill(v)
            return
        if not isinstance(i, (int, SInt)): raise Unsupported('writing part of a state')
        a = Alg.of(v)
        if a is None: raise Unsupported('amplitude')
        m = c.extra['machine']
        ok = same(zint(i), 0) and (a - 1).is_zero() and self.x is ZERO and same(self.n, m.n)
        self.write(St(None, ((m.seq, z3.IntVal(0)),)) if ok else JUNK)
    def __len__(self): raise Unsupported('length of a state')
    def __bool__(self): raise ValueError('truth value of an array')
    def _bad(self, *a, **k): raise Unsupported('the code looks into a state vector')
    __getitem__ = __iter__ = __eq__ = __ne__ = __add__ = __mul__ = __imul__ = __iadd__ = __itruediv__ = __contains__ = _bad
    __hash__ = None
    def __getattr__(self, n):
        if n.startswith('vx_') or n.startswith('__') or n in ('slen_',): raise AttributeError(n)
        raise Unsupported('array.%s' % n)
def iszero(v):
    a = Alg.of(v)
    return a is not None and a.is_zero()
class Regs(Val):
    """classical bits: zeros, or those of a history"""
    def __init__(self, item, n, x=ZERO): self.item, self.n, self.x = item, n, x
    def slen(self): return self.n
    def __bool__(self): return bool(self.n > 0)
    def copy(self): return Regs(self.item, self.n, self.x)
    def vx_comp(self, kind, f, cond, star):
        if kind not in ('gen', 'list') or cond is not None or star or not zero_item(self.item): raise Unsupported('passage over the classical bits')
        if (f(0), f(1)) != ('0', '1'): raise Unsupported('rendering of the classical bits')
        return Chars(self)
    def __getitem__(self, i):
        if isinstance(i, slice) and i.start is None and i.stop is None and i.step in (None, 1): return self.copy()
        raise Unsupported('the code looks into the classical bits')
    def vx_seq(self, ty): return self.copy()
    def _bad(self, *a, **k): raise Unsupported('the code looks into the classical bits')
    __iter__ = __len__ = __setitem__ = __eq__ = __ne__ = __contains__ = __add__ = _bad
    __hash__ = None
def zero_item(x): return isinstance(x, list) and len(x) == 1 and type(x[0]) is int and x[0] == 0
class Chars:
    """'0' or '1' for each classical bit, in order"""
    vx_static = True
    def __init__(self, regs): self.x = norm(regs.x); self.n = regs.n
    def vx_join(self, sep):
        if sep != '': raise Unsupported('separator')
        return Key(self.x, self.n)
    def vx_seq(self, ty): return self
class Key:
    """the text of the classical bits"""
    vx_static = True
    def __init__(self, x, n): self.x, self.n = x, n
    def same(self, o): return isinstance(o, Key) and eq0(self.x, o.x)
    def _bad(self, *a, **k): raise Unsupported('the code looks into a key')
    __iter__ = __len__ = __getitem__ = __eq__ = __ne__ = __add__ = __hash__ = __lt__ = __contains__ = _bad
def eq0(a, b):
    """bits of a history; those before the first random operation are zeros"""
    def det(x):
        x = norm(x); return x is ZERO or isinstance(x, St) and x.run is None
    return det(a) and det(b) or eq(a, b)
class Count:
    vx_static = True
    def __init__(self, tab, ver, key, plus): self.tab, self.ver, self.key, self.plus = tab, ver, key, plus
    def __add__(self, o):
        if not isinstance(o, int) or isinstance(o, bool): raise Unsupported('counting')
        return Count(self.tab, self.ver, self.key, self.plus + o)
    __radd__ = __iadd__ = __add__
    def _bad(self, *a, **k): raise Unsupported('the code looks into a count')
    __eq__ = __ne__ = __bool__ = __lt__ = __gt__ = __sub__ = __mul__ = __hash__ = __int__ = _bad
class Table(Val):
    """counts: one record for each of the first `done` complete runs of the circuit, whose
    random runs are all below `hi`; then the given keys"""
    def __init__(self, *a):
        if a: raise Unsupported('a filled table')
        self.done, self.hi, self.keys, self.bad, self.ver = z3.IntVal(0), z3.IntVal(0), [], None, 0
    def fold(self):
        c = cur(); m = c.extra['machine']
        while self.keys:
            x = norm(self.keys[0].x)
            full = St(None, ((m.seq, m.seq.N),))
            if x is ZERO or isinstance(x, St) and x.run is None:
                if not before_random(full.path): break
            elif isinstance(x, St):
                if len(x.path) != 1 or not same(x.path[0][1], m.seq.N) or not c.implied(x.run >= self.hi): break
                self.hi = z3.simplify(x.run + 1)
            else: break
            self.keys.pop(0); self.done = z3.simplify(self.done + 1)
    def get(self, k, d=None):
        if not isinstance(k, Key) or d is not None and not (isinstance(d, int) and d == 0): raise Unsupported('look-up of a count')
        if d is None: raise Unsupported('look-up of a count')
        return Count(self, self.ver, k, 0)
    def __getitem__(self, k): return self.get(k, 0)
    def __setitem__(self, k, v):
        if not isinstance(k, Key) or not isinstance(v, Count) or v.tab is not self: raise Unsupported('writing a count')
        if v.ver != self.ver or not k.same(v.key) or v.plus != 1: self.bad = 'a count is not increased by one'
        self.ver += 1; self.keys.append(k)
    def update(self, it):
        if isinstance(it, (list, tuple)) and all(isinstance(k, Key) for k in it):
            for k in it: self[k] = self[k] + 1
            return
        raise Unsupported('updating the counts')
    def _bad(self, *a, **k): raise Unsupported('the code looks into the counts')
    __iter__ = __len__ = __contains__ = __eq__ = __ne__ = __add__ = __bool__ = _bad
    __hash__ = None
    def __getattr__(self, n):
        if n.startswith('vx_') or n.startswith('__'): raise AttributeError(n)
        raise Unsupported('counts.%s' % n)
class Ops(Val):
    """a list of operations seq[lo:hi]; or the list the earlier cache was made from"""
    def __init__(self, seq, lo, hi, old=False, shared=False): self.seq, self.lo, self.hi, self.old, self.shared = seq, I(lo), I(hi), old, shared; self.junk = False
    def norm(self):
        if self.old and cur().extra['machine'].old_valid(): self.old = False; m = cur().extra['machine']; self.seq, self.lo, self.hi = m.seq, z3.IntVal(0), m.oldN
        return self
    def N(self): return z3.simplify(cur().extra['machine'].oldN if self.old else self.hi - self.lo)
    def slen(self):
        if self.junk: raise Unsupported('length of a list')
        return SInt(self.N())
    def __bool__(self): return cur().decide(self.N() > 0)
    def at(self, j):
        if self.old or self.junk: raise Unsupported('operations of the earlier cache')
        return self.seq.at(self.lo + j)
    def copy(self):
        r = Ops(self.seq, self.lo, self.hi, self.old); r.junk = self.junk; return r
    __copy__ = copy
    def __deepcopy__(self, m):
        r = self.copy(); r.junk = True; return r
    def vx_seq(self, ty): return self.copy()
    def __getitem__(self, i):
        self.norm()
        if self.old or self.junk: raise Unsupported('operations of the earlier cache')
        if isinstance(i, slice):
            if i.step not in (None, 1): raise Unsupported('stepped slice')
            N = self.N(); z = z3.IntVal(0)
            def clip(v):
                e = iseq.pick(zint(v) < 0, zint(v) + N, zint(v))
                return iseq.pick(e < 0, z, iseq.pick(e > N, N, e))
            a = z if i.start is None else clip(i.start)
            b = N if i.stop is None else clip(i.stop)
            b = iseq.pick(b >= a, b, a)
            return Ops(self.seq, z3.simplify(self.lo + a), z3.simplify(self.lo + b))
        e = zint(i); c = cur(); N = self.N()
        if not c.decide(z3.And(e < N, e >= -N)): raise IndexError('list index out of range')
        return self.at(iseq.pick(e < 0, e + N, e))
    def append(self, g):
        self.norm()
        if self.shared: cur().require(False, 'the list of operations given is not changed'); raise Infeasible()
        if isinstance(g, G) and not self.old and not self.junk and g.seq.parent is None:
            if same(self.lo, self.hi): self.seq, self.lo, self.hi = g.seq, g.k, z3.simplify(g.k + 1); return
            if g.seq is self.seq and same(g.k, self.hi): self.hi = z3.simplify(self.hi + 1); return
        self.junk = True
    def extend(self, o):
        if self.shared: cur().require(False, 'the list of operations given is not changed'); raise Infeasible()
        r = self + o; self.seq, self.lo, self.hi, self.old, self.junk = r.seq, r.lo, r.hi, r.old, r.junk
    def __iadd__(self, o): self.extend(o); return self
    def __add__(self, o):
        self.norm()
        if not isinstance(o, Ops): raise Unsupported('adding to a list of operations')
        o.norm()
        if not (self.junk or o.junk or self.old or o.old) and self.seq is o.seq and same(self.hi, o.lo): return Ops(self.seq, self.lo, o.hi)
        if not (o.junk or o.old) and same(self.N(), 0): return o.copy()
        r = self.copy(); r.junk = True; return r
    def clear(self):
        if self.shared: cur().require(False, 'the list of operations given is not changed'); raise Infeasible()
        self.seq, self.lo, self.hi, self.old, self.junk = cur().extra['machine'].seq, z3.IntVal(0), z3.IntVal(0), False, False
    def isprefix(self, k):
        """are these the first k of the operations"""
        self.norm()
        if self.old or self.junk: return False
        return same(self.hi - self.lo, k) and (same(k, 0) or self.seq is cur().extra['machine'].seq and same(self.lo, 0))
    def vx_zip(self, a):
        if len(a) == 2 and all(isinstance(x, Ops) for x in a): return ZipOps(*a)
        xs = [Iseq_of(x) for x in a]
        return iseq.zipped(xs)
    def vx_enumerate(self, start): return Iseq_of(self).vx_enumerate(start)
    def __eq__(self, o):
        m = cur().extra['machine']
        if not isinstance(o, Ops) or self.junk or o.junk: raise Unsupported('comparing lists of operations')
        self.norm(); o.norm()
        if self.old == o.old: return True if self.old else bool(cur().decide(z3.Or(z3.And(self.lo == o.lo, self.hi == o.hi), z3.And(self.lo == self.hi, o.lo == o.hi)))) if self.seq is o.seq else False
        old, q = (self, o) if self.old else (o, self)
        if q.seq is not m.seq or not same(q.lo, 0): raise Unsupported('comparing lists of operations')
        return bool(cur().decide(z3.And(m.oldN == q.hi, m.agree)))
    def __ne__(self, o): return not self == o
    def vx_loop(self, ident, lv, rb):
        self.norm()
        if self.old or self.junk: raise Unsupported('passage over the operations of the earlier cache')
        return Loop(Iseq_of(self), ident, lv, rb)
    def vx_iter(self): return self
    def vx_comp(self, kind, f, cond, star): raise Unsupported('comprehension over the operations')
    def _bad(self, *a, **k): raise Unsupported('the code looks into a list of operations')
    __iter__ = __len__ = __contains__ = __setitem__ = __delitem__ = __mul__ = _bad
    __hash__ = None
    def __getattr__(self, n):
        if n.startswith('vx_') or n.startswith('__') or n == 'pos': raise AttributeError(n)
        raise Unsupported('list.%s' % n)
def Iseq_of(x):
    if isinstance(x, Ops):
        x.norm()
        s = iseq.ISeq(x.N(), x.at, 'operations'); s.base = x.lo; s.seq = x.seq; return s
    s = iseq.of(x)
    if s is None: raise Unsupported('passage')
    return s
class ZipOps:
    """pairs of the earlier cache's operations and those given, as far as both go"""
    vx_static = True
    def __init__(self, a, b): self.a, self.b = a.norm(), b.norm()
    def vx_comp(self, kind, f, cond, star):
        if kind not in ('gen', 'list') or cond is not None: raise Unsupported('comprehension over operations')
        return Quant(self, (lambda p: f(*p)) if star else f)
    def vx_loop(self, ident, lv, rb): raise Unsupported('passage over pairs of operations')
class Quant:
    """a yes/no question about each pair.  Only identity of operations can be asked (any
    other question is refused by G), so the answers for a pair of one operation and for a
    pair of two decide"""
    vx_static = True
    def __init__(self, z, f): self.z, self.f = z, f
    def answers(self):
        m = cur().extra['machine']
        g, h = G(m.seq, z3.Int('pair')), G(m.seq, z3.Int('pair'))
        return bool(self.f((g, g))), bool(self.f((g, h)))
    def ask(self):
        """(the operations agree, there are any)"""
        c = cur(); m = c.extra['machine']; a, b = self.z.a, self.z.b
        if a.junk or b.junk: raise Unsupported('comparing lists of operations')
        n = z3.If(a.N() < b.N(), a.N(), b.N())
        some = c.decide(n > 0)
        if not some: return True, False
        if a.old == b.old:
            if a.old or a.seq is b.seq and same(a.lo, b.lo): return True, True
            raise Unsupported('comparing lists of operations')
        q = b if a.old else a
        if q.seq is not m.seq or not same(q.lo, 0): raise Unsupported('comparing lists of operations')
        # m.agree: the operations agree as far as both lists go
        if not c.implied(n == z3.If(m.oldN < m.seq.N, m.oldN, m.seq.N)): raise Unsupported('comparing lists of operations')
        return c.decide(m.agree), True
    def vx_any(self):
        s, d = self.answers(); agree, some = self.ask()
        if not some: return False
        if agree: return s
        if s and d: return True
        if not s and d: return True
        if s: raise Unsupported('question about operations')
        return False
    def vx_all(self):
        s, d = self.answers(); agree, some = self.ask()
        if not some: return True
        if agree: return s
        if not d: return False
        if s: return True
        raise Unsupported('question about operations')
class World(Val):
    """how many random runs were begun"""
    def __init__(self, n=0): self.t = I(n)

# ---------------------------------------------------------------- the loop rule
def bases():
    c = cur()
    return c.extra['machine'].bases()
class Loop:
    rebind = True
    def __init__(self, sq, ident, loopvars, rebound):
        self.sq, self.ident, self.rebound, self.loopvars = sq, ident, set(rebound), set(loopvars)
        self.env = {}; self.entered = False
    def bounds(self, j):
        """candidates: named terms a value at the head of iteration j may equal"""
        out = [('j', j)]
        base = getattr(self.sq, 'base', None)
        if base is not None: out.append(('p', z3.simplify(base + j)))
        return out + [('b%d' % i, b) for i, b in enumerate(bases())] + [('e%d' % i, b) for i, b in enumerate(self.entry.ints)]
    def facts(self, j):
        base = getattr(self.sq, 'base', None)
        if base is None: return []
        p = base + j; f = self.sq.seq.first
        return [('p<=first', p <= f), ('p>first', p > f)]
    def cands(self, e, j):
        c = cur(); e = z3.simplify(I(e)); out = set()
        if e.get_id() in self.known: return self.known[e.get_id()]
        def value(t, m):
            if z3.is_int_value(t): return t.as_long()
            return m.eval(t, model_completion=True).as_long()
        mine = [value(e, m) for m in self.models]
        for i, (nm, b) in enumerate(self.bnd):
            col = self.cols[i]
            # the models of the path met so far leave at most one candidate
            k = None
            for n, m in enumerate(self.models):
                if n == len(mine): mine.append(value(e, m))
                if n == len(col): col.append(value(b, m))
                v = mine[n] - col[n]
                if abs(v) > 1 or k is not None and v != k: k = 'no'; break
                k = v
            if k == 'no': continue
            if e.eq(b): out.add((nm, 0)); continue
            if z3.is_int_value(e) and z3.is_int_value(b): out.add((nm, k)); continue
            c.solver.push()
            try:
                c.solver.add(e != b + k)
                r = c.check()
                if r == z3.unsat: out.add((nm, k))
                elif r == z3.sat: self.models.append(c.solver.model())
            finally: c.solver.pop()
        self.known[e.get_id()] = out = frozenset(out)
        self.keep.append(e)
        return out
    def head(self, loc):
        c = cur()
        if self.entered: return self.end(loc)
        self.entered = True
        c.extra['abstract'] = True
        occ = c.extra.setdefault('loop_occ', {})
        n = occ.get(self.ident, 0); occ[self.ident] = n + 1
        self.key = ('hist', self.ident, n, tuple(c.trace[:c.pos]))
        self.pos0 = c.pos
        tab = self.tab = c.store.setdefault(self.key, [])
        self.entry = Heap(loc)
        if c.pos >= len(c.trace):
            c.trace.append(0)
            c.deferred.append(c.trace[:c.pos] + [1])
        code = c.trace[c.pos]; c.pos += 1
        mode, st, ver = code % 2, code // 2 % 100, code // 200
        c.desc.append('loop %s state %d.%d %s' % (self.ident, st, ver, ['body', 'exit'][mode]))
        self.state = st
        if st == 0:
            self.j = z3.IntVal(0)
            c.assume(self.sq.N > 0 if mode == 0 else self.sq.N <= 0)
            if not c.check() == z3.sat: raise Infeasible()
        else:
            d = tab[st - 1]
            if d['ver'] != ver: raise Infeasible()
            self.j = z3.Int('%s#%d.%d' % (self.ident, n, st)); c.assume(self.j >= 1)
            c.assume(self.j < self.sq.N if mode == 0 else self.j == self.sq.N)
            self.put(d, loc)
            if not c.check() == z3.sat: raise Infeasible()
        if mode: return False
        self.item = self.sq.at(self.j)
        return True
    def end(self, loc):
        c = cur()
        j = z3.simplify(self.j + 1)
        if c.check() != z3.sat: raise Infeasible()
        self.models = [c.solver.model()]
        self.bnd = [(nm, z3.simplify(b)) for nm, b in self.bounds(j)]; self.cols = [[] for _ in self.bnd]; self.known = {}; self.keep = []
        h = Heap(loc, skip=self.loopvars)
        shape, vals = h.describe(self, j)
        facts = frozenset(n for n, f in self.facts(j) if c.implied(f))
        for i, d in enumerate(self.tab):
            if d['shape'] == shape:
                new = [a & b for a, b in zip(d['vals'], vals)]; nf = d['facts'] & facts
                if new == d['vals'] and nf == d['facts']: raise EndPath()
                d['vals'], d['facts'] = new, nf; d['ver'] += 1
                break
        else:
            if len(self.tab) > 30: raise Unsupported('loop state does not stabilise: ' + self.ident)
            i = len(self.tab); self.tab.append({'shape': shape, 'vals': vals, 'facts': facts, 'ver': 0})
        d = self.tab[i]
        if d['ver'] > 40: raise Unsupported('loop state does not stabilise: ' + self.ident)
        code = 2 * (i + 1) + 200 * d['ver']
        pre = c.trace[:self.pos0]
        c.worklist.append(pre + [code]); c.deferred.append(pre + [code + 1])
        raise EndPath()
    def put(self, d, loc):
        """make the heap what the description says"""
        c = cur()
        B = dict(self.bounds(self.j))
        for n, f in self.facts(self.j):
            if n in d['facts']: c.assume(f)
        vals = iter(d['vals'])
        def num():
            cs = sorted(next(vals))
            if not cs: return z3.Int(c.fresh('havoc'))
            es = [z3.simplify(B[n] + k) for n, k in cs]
            for e in es[1:]: c.assume(e == es[0])
            return es[0]
        objs = {}
        def hist(s):
            if s[0] == 'w': return {str(w): w for w in (ZERO, JUNK, OLD)}[s[1]]
            run = num() if s[1] else None
            return St(run, tuple((self.entry.seqs[q] if q in self.entry.seqs else c.extra['machine'].seqs[q], num()) for q in s[2]))
        def make(s):
            k = s[0]
            if k == 'const': return s[1]
            if k == 'entry': return self.entry.static[s[1]]
            if k == 'int': return SInt(num())
            if k == 'poison': return Poison(s[1])
            if k == 'ref': return objs[s[1]]
            num_, ent, body = s[1], s[2], s[3]
            if k == 'obj':
                o = self.entry.objs[ent] if ent is not None else body[0].__new__(body[0])
                objs[num_] = o
                for nm in list(vars(o)):
                    if nm not in dict(body[1]): del vars(o)[nm]
                for nm, t in body[1]: vars(o)[nm] = make(t)
                return o
            if k == 'tuple': return tuple(make(t) for t in body)
            if k == 'fn':
                f = self.entry.objs[ent]; objs[num_] = f
                for cell, t in zip(f.__closure__ or (), body):
                    if t is None: continue
                    v = make(t)
                    if v is not cell.cell_contents: cell.cell_contents = v
                return f
            if k == 'arr':
                x = hist(body[0])
                o = self.entry.objs[ent] if ent is not None else Arr(c.extra['machine'].n if body[3] == 'n' else c.extra['machine'].nc, x, body[2].o, body[1])
                o.x, o.phase, o.shared = x, body[4], body[1]
            elif k == 'regs':
                o = self.entry.objs[ent] if ent is not None else Regs([0], SInt(c.extra['machine'].n))
                o.x = hist(body)
            elif k == 'tab':
                o = self.entry.objs[ent] if ent is not None else Table()
                o.done, o.hi, o.keys, o.bad = num(), num(), [Key(hist(x), SInt(c.extra['machine'].n)) for x in body[0]], body[1]
            elif k == 'ops':
                if ent is not None: o = self.entry.objs[ent]
                else: o = Ops(None, 0, 0)
                o.old, o.junk, o.shared = body[1], body[2], body[3]
                if not o.old and not o.junk: o.seq = self.entry.seqs.get(body[0]) or c.extra['machine'].seqs[body[0]]; o.lo, o.hi = num(), num()
            elif k == 'world':
                o = self.entry.objs[ent]; o.t = num()
            objs[num_] = o
            return o
        self.env = {}
        for nm, t in d['shape']:
            v = make(t)
            if nm == '*world': continue
            self.env[nm] = v
        for nm in self.rebound:
            if nm not in self.env: self.env[nm] = Poison(nm)

STATIC = (int, float, complex, str, bytes, bool, type(None))
def ours(f): return isinstance(f, types.FunctionType) and (f.__module__ or '').split('.')[0] == 'blueqat'
class Heap:
    """the part of the heap reachable from the local variables"""
    def __init__(self, loc, skip=()):
        self.roots = [(k, loc[k]) for k in sorted(loc) if not k.startswith('_vx_')]
        self.roots.append(('*world', cur().extra['machine'].world))
        self.skip = set(skip)
        self.ints = []; self.objs = []; self.static = []; self.seqs = {}
        self.index = {}; self.sindex = {}
        self.walk()
    def kind(self, v):
        if isinstance(v, Val): return type(v).__name__
        if isinstance(v, SInt): return 'int'
        if isinstance(v, (seqs.Poison,)): return 'poison'
        if isinstance(v, STATIC): return 'const'
        if type(v) is tuple: return 'tuple'
        if ours(v) and v.__closure__: return 'fn'
        if seqs.tracked(v) and not isinstance(v, type) and not isinstance(v, types.FunctionType): return 'obj'
        return 'entry'
    def walk(self):
        seen = set()
        def visit(v):
            k = self.kind(v)
            if k == 'int': self.num(v.e)
            if k in ('int', 'const', 'poison'): return
            if k == 'entry':
                if id(v) not in self.sindex: self.sindex[id(v)] = len(self.static); self.static.append(v)
                return
            if k == 'tuple':
                for x in v: visit(x)
                return
            if id(v) in seen: return
            seen.add(id(v)); self.index[id(v)] = len(self.objs); self.objs.append(v)
            if k == 'obj':
                for n in sorted(vars(v)): visit(vars(v)[n])
            elif k == 'fn':
                for cell in v.__closure__:
                    try: visit(cell.cell_contents)
                    except ValueError: pass
            elif isinstance(v, Arr): self.seq_of(v.x)
            elif isinstance(v, Regs): self.seq_of(v.x)
            elif isinstance(v, Table):
                v.fold()
                for q in v.keys: self.seq_of(q.x)
                self.num(v.done); self.num(v.hi)
            elif isinstance(v, World): self.num(v.t)
            elif isinstance(v, Ops):
                v.norm()
                if not v.old and not v.junk: self.num(v.lo); self.num(v.hi)
                if v.seq is not None: self.seqs[v.seq.name] = v.seq
        for nm, v in self.roots:
            if nm not in self.skip: visit(v)
    def num(self, e):
        e = z3.simplify(I(e))
        if not any(e.eq(x) for x in self.ints): self.ints.append(e)
    def seq_of(self, x):
        if isinstance(x, St):
            for q, k in x.path: self.seqs[q.name] = q; self.num(k)
            if x.run is not None: self.num(x.run)
    def describe(self, lp, j):
        """shape of the heap relative to the entry of the loop, and the candidates of every number"""
        c = cur(); m = c.extra['machine']
        ent = lp.entry; num = {}; vals = []
        def val(e): vals.append(lp.cands(e, j))
        def hist(x):
            x = norm(x)
            if isinstance(x, Word): return ('w', str(x))
            if x.run is not None: val(x.run)
            for q, k in x.path: val(k)
            return ('s', x.run is not None, tuple(q.name for q, _ in x.path))
        def d(v, path):
            k = self.kind(v)
            if k == 'const': return ('const', v) if type(v) is not int else intd(v)
            if k == 'int': val(v.e); return ('int',)
            if k == 'poison': return ('poison', object.__getattribute__(v, 'nm'))
            if k == 'entry':
                i = ent.sindex.get(id(v))
                return ('entry', i) if i is not None else ('poison', '.'.join(path))
            if k == 'tuple': return ('tuple', None, None, tuple(d(x, path + ('#',)) for x in v))
            if id(v) in num: return ('ref', num[id(v)])
            n = num[id(v)] = len(num)
            e = ent.index.get(id(v))
            if k == 'obj': return ('obj', n, e, (type(v), tuple((a, d(vars(v)[a], path + (a,))) for a in sorted(vars(v)))))
            if k == 'fn':
                if e is None: return ('poison', '.'.join(path))
                out = []
                for cell in v.__closure__:
                    try: out.append(d(cell.cell_contents, path + ('()',)))
                    except ValueError: out.append(None)
                return ('fn', n, e, tuple(out))
            if isinstance(v, Arr): return ('arr', n, e, (hist(v.x), v.shared, Same(v.dt), 'n' if same(v.n, m.n) else 'nc', v.phase))
            if isinstance(v, Regs):
                if not zero_item(v.item) or not same(v.n.e, m.n): raise Unsupported('classical bits of another kind')
                return ('regs', n, e, hist(v.x))
            if isinstance(v, Table):
                v.fold(); val(v.done); val(v.hi)
                return ('tab', n, e, (tuple(hist(q.x) for q in v.keys), v.bad))
            if isinstance(v, Ops):
                v.norm()
                if not v.old and not v.junk: val(v.lo); val(v.hi)
                return ('ops', n, e, (v.seq.name if v.seq is not None else None, v.old, v.junk, v.shared))
            if isinstance(v, World): val(v.t); return ('world', n, e, None)
            raise Unsupported('a value of kind %s' % k)
        def intd(v): val(z3.IntVal(v)); return ('int',)
        shape = []
        for nm, v in self.roots:
            if nm in self.skip or nm not in dict(ent.roots) and nm not in lp.rebound: continue
            if nm not in dict(ent.roots) and self.kind(v) not in ('int', 'const'): shape.append((nm, ('poison', nm))); continue
            shape.append((nm, d(v, (nm,))))
        have = {nm for nm, _ in self.roots}
        for nm in sorted(lp.rebound):
            if nm not in have and nm not in self.skip: shape.append((nm, ('poison', nm)))
        return tuple(shape), vals
