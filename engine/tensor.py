"""Arrays of unknown size as functions of their indices, and sums and loops over index ranges.

A matrix the problem is given by is *probed*: all entries are zero but the one at (a, b),
a and b arbitrary.  A quantity linear in the matrix is determined by its values at the
probes, and `PV` (which has no product of two matrix entries) shows that it is linear (or
affine: the part free of the matrix is kept apart).  Under a probe only the special indices
a, b, .. matter: a loop over a range runs its body once for any other index, which must
leave the accumulators as they are (what it writes to its own row is tabulated as a function
of the index), and once for each special index in the range, in order."""
import z3
from . import alg, core, seqs
from .alg import Alg, Unsupported
from .core import SInt, SBool, cur, Infeasible
from .seqs import EndPath, Poison, SymRepeat

def num(v): return isinstance(v, (int, float, complex, Alg)) and not isinstance(v, bool)
def ze(i):
    if isinstance(i, SInt):
        if i.isbv: raise Unsupported('machine index')
        return i.e
    if isinstance(i, bool): raise Unsupported('index')
    if isinstance(i, int): return z3.IntVal(i)
    if z3.is_expr(i): return i
    raise Unsupported('an index of another kind')
def decide(x): return cur().decide(x)
# ---------------------------------------------------------------- values
class PV:
    """k * (the probed entry) + c"""
    __slots__ = ('k', 'c')
    vx_static = True
    def __init__(self, k, c=0): self.k, self.c = Alg.of(k), Alg.of(c)
    @staticmethod
    def of(x):
        if isinstance(x, PV): return x
        if isinstance(x, SInt): x = x.__alg__()
        a = Alg.of(x) if num(x) else None
        return None if a is None else PV(0, a)
    def __add__(self, o):
        o = PV.of(o)
        return NotImplemented if o is None else PV(self.k + o.k, self.c + o.c)
    __radd__ = __add__
    def __neg__(self): return PV(-self.k, -self.c)
    def __pos__(self): return self
    def __sub__(self, o):
        o = PV.of(o)
        return NotImplemented if o is None else PV(self.k - o.k, self.c - o.c)
    def __rsub__(self, o): return (-self) + o
    def __mul__(self, o):
        if isinstance(o, PV): raise Unsupported('a product of matrix entries')
        if isinstance(o, SInt): o = o.__alg__()
        if not num(o): return NotImplemented
        return PV(self.k * o, self.c * o)
    __rmul__ = __mul__
    def __truediv__(self, o):
        if isinstance(o, PV): raise Unsupported('a product of matrix entries')
        if isinstance(o, SInt): o = o.__alg__()
        if not num(o): return NotImplemented
        return PV(self.k / Alg.of(o), self.c / Alg.of(o))
    def zero(self): c = cur(); return c.norm(self.k).is_zero() and c.norm(self.c).is_zero()
    def _cmp(self, op, o):
        h = cur().extra.get('pv_cmp')
        if h is None: raise Unsupported('a comparison of matrix entries')
        return h(self, op, o)
    def __lt__(self, o): return self._cmp('<', o)
    def __gt__(self, o): return self._cmp('>', o)
    def __le__(self, o): return self._cmp('<=', o)
    def __ge__(self, o): return self._cmp('>=', o)
    def __eq__(self, o): return self._cmp('==', o)
    def __ne__(self, o): return self._cmp('!=', o)
    def __bool__(self): raise Unsupported('truth of a matrix entry')
    __hash__ = None
    @property
    def real(self): return self
    def __repr__(self): return 'PV(%s, %s)' % (self.k.pretty(), self.c.pretty())
def zero(v):
    if isinstance(v, PV): return v.zero()
    if hasattr(v, 'vx_zero'): return v.vx_zero()
    a = Alg.of(v) if num(v) else None
    if a is None: raise Unsupported('a value of another kind')
    return cur().norm(a).is_zero()
def entry(i, j, a, b):
    """the entry (i, j) of the probed matrix"""
    if decide(ze(i) == a) and decide(ze(j) == b): return PV(1)
    return PV(0)
def spin(name):
    s = alg.rsym(name); (sid,) = s.syms(); alg.TABLE[sid].sq = Alg.of(1)
    return s
def same_index(i, j):
    e = [x == y for x, y in zip(i, j) if not x.eq(y)]
    return e[0] if len(e) == 1 else z3.And(*e)
SHORT = {}
def short(x):
    """a name of an index which is cheap to make"""
    if x.num_args() == 0: return x.decl().name() if not z3.is_int_value(x) else str(x.as_long())
    if x.get_id() not in SHORT: SHORT[x.get_id()] = (x, '#%d' % len(SHORT))
    return SHORT[x.get_id()][1]
def atoms(name, make):
    """an arbitrary function of indices"""
    def f(*idx):
        c = cur(); tab = c.extra.setdefault('tatoms', []); idx = tuple(z3.simplify(ze(i)) for i in idx)
        for nm, j, old in tab:
            if nm == name and all(x.eq(y) for x, y in zip(idx, j)): return old
        for nm, j, old in tab:
            if nm == name and decide(same_index(idx, j)): return old
        v = make('%s[%s]' % (name, ','.join(short(x) for x in idx))); tab.append((name, idx, v))
        return v
    f.atom_name = name
    return f
# ---------------------------------------------------------------- special indices
def specials(): return cur().extra.setdefault('specials', [])
def arrange(lo, hi):
    """the special indices in range, in increasing order"""
    out = []
    for t in list(specials()):
        if not decide(z3.And(t >= lo, t < hi)): continue
        for k, u in enumerate(out):
            if decide(t == u): break
            if decide(t < u): out.insert(k, t); break
        else: out.append(t)
    return out
def other(lo, hi):
    """any other index of the range"""
    c = cur(); i = z3.Int(c.fresh('o'))
    c.assume(z3.And(i >= lo, i < hi, *[i != t for t in specials()]))
    if c.check() != z3.sat: raise Infeasible()
    return i
def ssum(f, lo, hi):
    c = cur(); tot = 0
    for t in arrange(lo, hi): tot = tot + f(t)
    def go():
        c = cur(); i = other(lo, hi); c.extra['specials'] = specials() + [i]
        return zero(f(i))
    if not all(c.cases(go)): raise Unsupported('a sum with too many parts')
    return tot
# ---------------------------------------------------------------- arrays
class FArr:
    vx_static = True
    __array_ufunc__ = None
    spins = False
    __array_priority__ = 1e6
    def __init__(self, dims, f, ty='array'):
        """dims: (lo, hi) for each index; f: of absolute indices"""
        self.dims = tuple((ze(l), ze(h)) for l, h in dims); self.base = f; self.layers = []; self.trackers = []; self.ty = ty
        c = core.CUR
        if c is not None: c.extra.setdefault('tensors', []).append(self)
    @property
    def ndim(self): return len(self.dims)
    @property
    def shape(self): return tuple(SInt(z3.simplify(h - l)) for l, h in self.dims)
    def slen(self): return self.shape[0]
    def vx_isinstance(self, t): return t in (self.ty, object) if isinstance(self.ty, type) else t in (object,)
    def at(self, *y):
        for tr in self.trackers: tr.append(tuple(y))
        return self.peek(*y)
    def peek(self, *y, upto=None):
        for l in reversed(self.layers if upto is None else self.layers[:upto]):
            r = l(*y)
            if r is not None: return r
        return self.base(*y)
    def frozen(self):
        ls = list(self.layers)
        def f(*y):
            for tr in self.trackers: tr.append(tuple(y))
            for l in reversed(ls):
                r = l(*y)
                if r is not None: return r
            return self.base(*y)
        return f
    def pos(self, k, i):
        """absolute index of i in dimension k"""
        lo, hi = self.dims[k]; e = ze(i)
        if not decide(e >= 0): e = hi - lo + e
        e = z3.simplify(lo + e)
        if not decide(z3.And(e >= lo, e < hi)): raise IndexError('index out of range')
        return e
    def win(self, k, s):
        lo, hi = self.dims[k]
        if s.step not in (None, 1): raise Unsupported('slice with a step')
        def end(v, d):
            if v is None: return d
            e = ze(v)
            if not decide(e >= 0): e = hi - lo + e; 
            if not decide(e >= 0): return lo
            e = z3.simplify(lo + e)
            return e if decide(e <= hi) else hi
        a, b = end(s.start, lo), end(s.stop, hi)
        if not decide(a <= b): b = a
        return (a, b)
    def __getitem__(self, i):
        ix = i if isinstance(i, tuple) else (i,)
        if len(ix) > self.ndim: raise Unsupported('too many indices')
        if any(isinstance(x, (list, FArr)) or x is None or x is Ellipsis for x in ix): raise Unsupported('fancy indexing')
        if self.ty != 'array' and len(ix) > 1: raise TypeError('list indices must be integers')
        fixed = {}; dims = []; free = []
        for k in range(self.ndim):
            x = ix[k] if k < len(ix) else slice(None)
            if isinstance(x, slice): dims.append(self.win(k, x)); free.append(k)
            else: fixed[k] = self.pos(k, x)
        if not free: return self.at(*[fixed[k] for k in range(self.ndim)])
        return View(self, fixed, free, dims)
    def __setitem__(self, i, v):
        ix = i if isinstance(i, tuple) else (i,)
        if len(ix) != self.ndim or any(isinstance(x, slice) for x in ix): return self.setview(self[i] if i != slice(None) else self[:], v)
        y = [self.pos(k, x) for k, x in enumerate(ix)]
        self.put(y, v)
    def setview(self, w, v): raise Unsupported('writing a part of an array')
    def put(self, y, v):
        for tr in self.trackers: tr.append(tuple(y))
        if isinstance(v, SInt): v = v.__alg__()
        if hasattr(v, 'vx_number'): v = v.vx_number()
        if not (num(v) or isinstance(v, PV)): raise Unsupported('an entry of another kind')
        self.layers.append(lambda *z: v if decide(z3.And(*[a == b for a, b in zip(z, y)])) else None)
    # elementwise
    def _el(self, o, f):
        g = self.frozen()
        if isinstance(o, FArr):
            h = o.frozen()
            if o.ndim != self.ndim: raise Unsupported('broadcasting')
            sh = []
            for (l, u), (l2, u2) in zip(self.dims, o.dims):
                if not decide(u - l == u2 - l2): raise ValueError('operands could not be broadcast together')
                sh.append(z3.simplify(l2 - l))
            return FArr(self.dims, lambda *y: f(g(*y), h(*[z3.simplify(a + s) for a, s in zip(y, sh)])))
        if isinstance(o, SInt): o = o.__alg__()
        if not (num(o) or isinstance(o, PV)): return NotImplemented
        return FArr(self.dims, lambda *y: f(g(*y), o))
    def islist(self): 
        if self.ty != 'array': raise Unsupported('arithmetic on a list')
    def __add__(self, o): self.islist(); return self._el(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): self.islist(); return self._el(o, lambda a, b: a - b)
    def __rsub__(self, o): self.islist(); return self._el(o, lambda a, b: b - a)
    def __mul__(self, o): self.islist(); return self._el(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o): self.islist(); return self._el(o, lambda a, b: a / b)
    def __neg__(self): self.islist(); return self._el(0, lambda a, b: -a)
    def __pow__(self, n):
        self.islist()
        if not isinstance(n, int): raise Unsupported('power')
        def f(a, b):
            r = 1
            for _ in range(n): r = r * a
            return r
        return self._el(0, f)
    @property
    def T(self):
        f = self.frozen()
        return FArr(self.dims[::-1], lambda *y: f(*y[::-1]))
    def transpose(self): return self.T
    def copy(self): return FArr(self.dims, self.frozen(), self.ty)
    def tolist(self): r = self.copy(); r.ty = list; return r
    def astype(self, t): return self.copy()
    def sum(self, *a, **k): return np_sum(self, *a, **k)
    def dot(self, o): return np_dot(self, o)
    __matmul__ = dot
    def vx_sum(self, start=0): return start + np_sum(self)
    def vx_seq(self, ty): r = self.copy(); r.ty = ty if ty is list else self.ty; return r
    def vx_iter(self): return self
    def vx_comp(self, kind, f, cond, star):
        if cond is not None or star or kind not in ('list', 'gen'): raise Unsupported('comprehension over an array')
        return Each(self.copy(), f)
    def vx_enumerate(self, start=0): raise Unsupported('enumerate')
    def rel(self, k):
        """item k (from 0)"""
        return self[SInt(z3.simplify(k - self.dims[0][0]))]
    def __getattr__(self, n):
        if n.startswith('vx_') or n.startswith('__') or n == 'dtype': raise AttributeError(n)
        raise Unsupported('array.%s' % n)
    def _bad(self, *a): raise Unsupported('an array used in another way')
    __iter__ = __len__ = __bool__ = __eq__ = __ne__ = __lt__ = __gt__ = __contains__ = __call__ = _bad
    __hash__ = None
class View(FArr):
    """part of an array: reads and writes go to the array"""
    def __init__(self, of, fixed, free, dims):
        self.dims = tuple(dims); self.of, self.fixed, self.free = of, fixed, free; self.layers = (); self.trackers = (); self.ty = of.ty
    def full(self, y):
        r = dict(self.fixed); r.update(zip(self.free, y)); return [r[k] for k in range(len(r))]
    def at(self, *y): return self.of.at(*self.full(y))
    def peek(self, *y): return self.of.peek(*self.full(y))
    def put(self, y, v): self.of.put(self.full(y), v)
    def frozen(self):
        g = self.of.frozen()
        return lambda *y: g(*self.full(y))
    @property
    def base(self): return lambda *y: self.of.peek(*self.full(y))
class Each:
    """f of every item of an array, or of a range"""
    vx_static = True
    def __init__(self, of, f): self.of, self.f = of, f
    def vx_all(self): return self.quant(True)
    def vx_any(self): return self.quant(False)
    def quant(self, want):
        lo, hi = self.of.dims[0]; c = cur()
        def go():
            c = cur(); i = z3.Int(c.fresh('any')); c.assume(z3.And(i >= lo, i < hi))
            if c.check() != z3.sat: raise Infeasible()
            return bool(self.f(self.of.rel(i)))
        r = set(c.cases(go))
        if r <= {want}: return want
        if r == {not want} and c.decide(hi > lo): return not want
        if r == {not want}: return want
        raise Unsupported('a condition on all items')
    def vx_sum(self, start=0):
        lo, hi = self.of.dims[0]
        return start + ssum(lambda i: self.f(self.of.rel(i)), lo, hi)
    def vx_seq(self, ty): return self.array(ty)
    def array(self, ty='array'):
        lo, hi = self.of.dims[0]; c = cur()
        n = z3.simplify(hi - lo)
        get = lambda y: self.f(self.of.rel(z3.simplify(y + lo)))
        return stack(n, get, ty)
    def slen(self): return self.of.slen()
    def __getitem__(self, i): return self.array(list)[i]
    def _bad(self, *a): raise Unsupported('items of an array')
    __iter__ = __len__ = __bool__ = __eq__ = _bad
    __hash__ = None
class RangeOf:
    def __init__(self, lo, hi): self.dims = ((lo, hi),)
    def rel(self, i): return SInt(i)
    def slen(self): return SInt(z3.simplify(self.dims[0][1] - self.dims[0][0]))
def stack(n, get, ty):
    """the list of get(0), get(1), .. get(n - 1)"""
    c = cur(); y0 = z3.Int(c.fresh('row')); probe = []
    def go():
        c = cur(); c.assume(z3.And(y0 >= 0, y0 < n)); probe.append(get(y0)); return True
    c.cases(go)
    if not probe: return FArr([(0, n)], lambda y: None, ty)
    r = probe[0]
    if isinstance(r, SymRepeat):
        m = ze(r.n)
        def v(y):
            x = get(y).item
            if isinstance(x, list) and len(x) == 1: x = x[0]
            return x.__alg__() if isinstance(x, SInt) else x
        if not (num(v(y0)) or isinstance(v(y0), PV)): raise Unsupported('nested lists')
        return FArr([(0, n), (0, m)], lambda x, y: v(x), ty)
    if isinstance(r, (FArr, Each)):
        if isinstance(r, Each): g = lambda y: get(y).array(); r = r.array()
        else: g = get
        if r.ndim != 1: raise Unsupported('nested lists')
        m = z3.simplify(r.dims[0][1] - r.dims[0][0])
        return FArr([(0, n), (0, m)], lambda x, y: g(x).rel(z3.simplify(y + g(x).dims[0][0])), ty)
    if num(r) or isinstance(r, (PV, SInt)): return FArr([(0, n)], lambda y: (lambda v: v.__alg__() if isinstance(v, SInt) else v)(get(y)), ty)
    raise Unsupported('a list of other things')
def comp_hook(it, kind, f, cond, star):
    """[f(i) for i in range(..)]"""
    if it.pytype is not range or it.bv or it.step != 1 or cond is not None or star: raise Unsupported('comprehension')
    lo = it.start.e if isinstance(it.start, SInt) else z3.IntVal(it.start); hi = ze(it.stop)
    e = Each(RangeOf(lo, hi), f)
    return e.array(list) if kind == 'list' else e
# ---------------------------------------------------------------- numpy
def asarr(x):
    if isinstance(x, Each): return x.array()
    if isinstance(x, FArr):
        r = x.copy(); r.ty = 'array'; return r
    if isinstance(x, SymRepeat):
        if isinstance(x.item, SymRepeat): return FArr([(0, ze(x.n)), (0, ze(x.item.n))], lambda a, b: x.item.item)
        if isinstance(x.item, list): x0 = x.item[0] if len(x.item) == 1 else None
        else: x0 = x.item
        if x0 is None: raise Unsupported('repeated list')
        if isinstance(x0, SInt): x0 = x0.__alg__()
        return FArr([(0, ze(x.n))], lambda a: x0)
    return None
def np_triu(a, k=0):
    a = asarr(a); f = a.frozen()
    if a.ndim != 2: raise Unsupported('triu')
    (l, _), (l2, _) = a.dims
    return FArr(a.dims, lambda x, y: f(x, y) if decide((y - l2) - (x - l) >= k) else 0)
def np_tril(a, k=0):
    a = asarr(a); f = a.frozen(); (l, _), (l2, _) = a.dims
    return FArr(a.dims, lambda x, y: f(x, y) if decide((y - l2) - (x - l) <= k) else 0)
def np_diag(a, k=0):
    if k != 0: raise Unsupported('diag')
    a = asarr(a); f = a.frozen()
    if a.ndim == 2:
        (l, h), (l2, h2) = a.dims
        if not decide(h - l == h2 - l2): raise Unsupported('diagonal of a rectangle')
        return FArr([(0, z3.simplify(h - l))], lambda y: f(z3.simplify(y + l), z3.simplify(y + l2)))
    (l, h), = a.dims; n = z3.simplify(h - l)
    return FArr([(0, n), (0, n)], lambda x, y: f(z3.simplify(x + l)) if decide(x == y) else 0)
def np_outer(a, b):
    a, b = asarr(a), asarr(b); f, g = a.frozen(), b.frozen()
    return FArr(a.dims + b.dims, lambda x, y: f(x) * g(y))
def np_sum(a, *r, **k):
    if r or k: raise Unsupported('sum along an axis')
    if isinstance(a, Each): return a.vx_sum()
    a = asarr(a); f = a.frozen(); h = cur().extra.get('sum_atom')
    if h is not None: return h(a, f)
    if a.ndim == 1: return ssum(f, *a.dims[0])
    return ssum(lambda i: ssum(lambda j: f(i, j), *a.dims[1]), *a.dims[0])
def np_dot(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 1 and b.ndim == 1: return np_sum(a * b)
    f, g = a.frozen(), b.frozen()
    if a.ndim == 2 and b.ndim == 1: return FArr(a.dims[:1], lambda x: ssum(lambda j: f(x, j) * g(z3.simplify(j - a.dims[1][0] + b.dims[0][0])), *a.dims[1]))
    if a.ndim == 1 and b.ndim == 2: return FArr(b.dims[1:], lambda y: ssum(lambda j: f(j) * g(z3.simplify(j - a.dims[0][0] + b.dims[0][0]), y), *a.dims[0]))
    raise Unsupported('matrix product')
def dims_of(s):
    if isinstance(s, (list, tuple)): return [(0, ze(x)) for x in s]
    return [(0, ze(s))]
def filled(v):
    def f(s, *a, **k): return FArr(dims_of(s), lambda *y: v)
    return f
def numpy_over(extra=()):
    """overrides for the shadow of numpy in a module which works on these arrays"""
    real = __import__('numpy')
    def sel(mine, other):
        def g(a, *r, **k):
            return mine(a, *r, **k) if isinstance(a, (FArr, Each, SymRepeat)) else other(a, *r, **k)
        return g
    def shaped(v, other):
        def g(s, *a, **k):
            ss = s if isinstance(s, (list, tuple)) else (s,)
            return filled(v)(s) if any(isinstance(x, SInt) for x in ss) else other(s, *a, **k)
        return g
    def full(s, v, *a, **k): return FArr(dims_of(s), lambda *y: v)
    d = dict(triu=sel(np_triu, real.triu), tril=sel(np_tril, real.tril), diag=sel(np_diag, real.diag), outer=sel(np_outer, real.outer), sum=sel(np_sum, real.sum),
        dot=sel(np_dot, real.dot), vdot=sel(np_dot, real.vdot), inner=sel(np_dot, real.inner), array=sel(lambda a, *r, **k: asarr(a), real.array), asarray=sel(lambda a, *r, **k: asarr(a), real.asarray),
        zeros=shaped(0, real.zeros), ones=shaped(1, real.ones), full=full, multiply=lambda a, b: a * b, add=lambda a, b: a + b,
        transpose=sel(lambda a: a.T, real.transpose), copy=sel(lambda a: a.copy(), real.copy))
    d.update(extra)
    return d
# ---------------------------------------------------------------- loops
def value(v):
    if isinstance(v, Poison): return False
    return num(v) or isinstance(v, PV) or hasattr(v, "vx_zero")
class SpLoop:
    """for i in range(lo, hi): see the top of this file"""
    rebind = True
    present = None; wrap = SInt; backwards = False
    def __init__(self, it, ident, lv, rebound):
        self.lo, self.hi = ze(it.start), ze(it.stop); self.ident, self.lv, self.rebound = ident, set(lv), set(rebound); self.env = {}; self.mode = None
    def head(self, loc):
        c = cur()
        if self.mode == 'other': return self.end(loc)
        if self.mode == 'special': return self.step(loc)
        if c.depth: raise Unsupported('a loop inside a condition')
        self.key = ('sp', self.ident, tuple(c.trace[:c.pos])); self.st = c.store.setdefault(self.key, [])
        self.accs = [r for r in self.rebound if r in loc and value(loc[r])]
        self.heap = [(o, k, v) for o in c.extra.get('heap', ()) for k, v in vars(o).items()]
        self.tens = list(c.extra.get('tensors', ()))
        self.keep = {k: v for k, v in loc.items() if k not in self.rebound and k not in self.lv}
        if c.choose(2, 'loop %s' % self.ident) == 0:
            self.mode = 'other'; i = other(self.lo, self.hi); self.i = i
            if self.present is not None: c.assume(self.present(i))
            self.n0 = len(c.pc)
            self.cond0 = c.pc[-1]
            c.extra['specials'] = specials() + [i]
            self.sym = {}
            for r in self.rebound: self.env[r] = Poison(r)
            for r in self.accs: self.sym[r] = self.env[r] = alg.csym('acc[%s]' % r)
            self.hsym = {}
            for o, k, v in self.heap:
                if value(v): self.hsym[id(o), k] = alg.csym('acc[.%s]' % k); setattr(o, k, self.hsym[id(o), k])
            for t in self.tens: t.trackers = t.trackers + [[]]
            self.nl = [len(t.layers) for t in self.tens]
            self.item = self.wrap(SInt(i)) if self.wrap is not SInt else SInt(i); return True
        self.temps = set(); self.tabs = {}
        for d in self.st:
            self.temps |= d['temps']
            for j, t in d['tabs'].items(): self.tabs.setdefault(j, []).append(t)
        self.owner = {}
        sp = list(specials()); lo, hi = self.lo, self.hi
        for j, ts in self.tabs.items():
            ds = {t['d'] for t in ts}
            if len(ds) != 1: raise Unsupported('rows and columns')
            self.owner[j] = ds.pop(); self.overlay(self.tens[j], self.owner[j], ts, sp)
        self.queue = [t for t in arrange(lo, hi) if self.present is None or decide(self.present(t))]
        if self.backwards: self.queue.reverse()
        self.mode = 'special'; self.first = True
        return self.step(loc)
    def overlay(self, arr, d, ts, sp):
        lo, hi = self.lo, self.hi
        def layer(*y):
            x = y[d]
            if not decide(z3.And(x >= lo, x < hi, *[x != t for t in sp])): return None
            if self.present is not None and not decide(self.present(x)): return None
            for t in ts:
                sub = [(t['i'], x)] + [(v, y[k]) for k, v in t['y'].items()]
                if not decide(z3.And(True, *[z3.substitute(p, *sub) for p in t['pc']])): continue
                for cs, v in t['cases']:
                    if decide(z3.And(True, *[z3.substitute(p, *sub) for p in cs])): return v
                raise Unsupported('a cell without a case')
            raise Unsupported('an index without a case')
        arr.layers.append(layer)
    def step(self, loc):
        c = cur()
        if not self.first: self.check_pass(loc, self.t)
        for r in self.rebound:
            if r in self.accs and r not in self.temps: self.env[r] = loc[r]
            else: self.env[r] = Poison(r)
        self.first = False
        if not self.queue: return False
        self.t = self.queue.pop(0)
        self.tr = [[] for _ in self.tens]
        for t, l in zip(self.tens, self.tr): t.trackers = t.trackers + [l]
        self.nl = [len(t.layers) for t in self.tens]
        self.item = self.wrap(SInt(self.t)) if self.wrap is not SInt else SInt(self.t); return True
    def frame(self, loc):
        ch = [k for k, v in self.keep.items() if loc.get(k) is not v and not k.startswith('_vx_')]
        if ch: raise Unsupported('other variables change: %s' % ch)
        for o, k, v in self.heap:
            if not value(v) and vars(o).get(k) is not v: raise Unsupported('the object changes in the loop')
    def own(self, t, accesses, i):
        c = cur()
        for d in range(t.ndim):
            if all(c.implied(y[d] == i) for y in accesses): return d
        raise Unsupported('passages of the loop use cells of each other')
    def check_pass(self, loc, i):
        """a passage for a special index keeps to its own row"""
        self.frame(loc)
        for j, t in enumerate(self.tens):
            acc = t.trackers[-1]; t.trackers = t.trackers[:-1]
            wrote = len(t.layers) > self.nl[j]
            if j in self.owner or wrote:
                d = self.owner.get(j)
                if d is None: d = self.owner[j] = self.own(t, acc, i)
                elif not all(cur().implied(y[d] == i) for y in acc): raise Unsupported('passages of the loop use cells of each other')
    def end(self, loc):
        c = cur(); self.frame(loc)
        symids = {s for v in list(self.sym.values()) + list(self.hsym.values()) for s in v.syms()}
        def pure(v):
            if isinstance(v, PV): return pure(v.k) and pure(v.c)
            a = Alg.of(v); return a is not None and (a.is_numeric() or all(s in c.extra.get('constsyms', ()) for s in a.syms()))
        d = {'temps': set(), 'tabs': {}}
        for r in self.accs:
            v = loc[r]; dv = None
            try: dv = v - self.sym[r] if value(v) else None
            except Unsupported: pass
            if dv is None or not zero(dv): d['temps'].add(r)
        for o, k, v in self.heap:
            if value(v):
                x = vars(o).get(k)
                if not value(x) or not zero(x - self.hsym[id(o), k]): raise Unsupported('every index changes .%s' % k)
        pc = [self.cond0] + c.pc[self.n0:]
        for j, t in enumerate(self.tens):
            acc = t.trackers[-1]; t.trackers = t.trackers[:-1]
            if len(t.layers) == self.nl[j]: continue
            dd = self.own(t, acc, self.i)
            ys = {k: z3.Int(c.fresh('y')) for k in range(t.ndim) if k != dd}
            new = t.layers[self.nl[j]:]
            at = [self.i if k == dd else ys[k] for k in range(t.ndim)]
            def go():
                c = cur(); m = len(c.pc)
                for l in reversed(new):
                    r = l(*at)
                    if r is not None: break
                else: r = None
                if r is not None and not pure(r): raise Unsupported('an entry depends on more than its index')
                return (c.pc[m:], r)
            d['tabs'][j] = {'i': self.i, 'y': ys, 'd': dd, 'pc': pc, 'cases': c.cases(go)}
        d['any'] = pc
        self.st.append(d)
        raise EndPath()
def range_loop(it, ident, lv, rb):
    from .shadows import SymRange
    if isinstance(it, SymRange) and not it.bv and it.step == 1: return SpLoop(it, ident, lv, rb)
