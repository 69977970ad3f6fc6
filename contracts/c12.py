"""C12: the matrix of a Pauli operator, term or expression.

A term is known by which operator acts on each qubit: what the code stores for a qubit or puts
into a Kronecker product is a function of that operator, so the loops over operators and runs
of equal operators are run once for each kind.  A matrix is a set of entries
(row, column = row ^ mask, value = product over the qubits), compared qubit by qubit."""
from contracts.common import *
from engine import alg
from engine.alg import Alg
from engine.seqs import EndPath, Poison
from engine.core import pow2
import types

M = None
FORMATS = ['bsr', 'coo', 'csc', 'csr', 'dia', 'dok', 'lil']
I_ = alg.I
SINGLE = {'I': ((1, 0), (0, 1)), 'X': ((0, 1), (1, 0)), 'Y': ((0, -I_), (I_, 0)), 'Z': ((1, 0), (0, -1))}
def num(v): return isinstance(v, (int, float, complex, Alg)) and not isinstance(v, bool)
def ze(v): return v.e if isinstance(v, SInt) else z3.IntVal(v) if isinstance(v, int) and not isinstance(v, bool) else v if z3.is_expr(v) else bad('a number of another kind')
def bad(s='a value used in another way'): raise Unsupported(s)
def same(a, b): return cur().implied(ze(a) == ze(b))
def zero(v): return cur().norm(Alg.of(v)).is_zero()
class NQ(SInt):
    """a number of qubits: a list repeated so often has an item for each qubit"""
    def __rmul__(self, o):
        if type(o) is list and len(o) == 1 and type(o[0]) is str: return Letters(self, o[0])
        return SInt.__rmul__(self, o)
    def __mul__(self, o):
        if type(o) is list: return self.__rmul__(o)
        return SInt.__mul__(self, o)
class Tok:
    vx_static = True
    def _no(self, *a, **k): raise Unsupported('a %s used in another way' % type(self).__name__)
    __iter__ = __len__ = __bool__ = __eq__ = __ne__ = __add__ = __radd__ = __mul__ = __rmul__ = __getitem__ = __setitem__ = __lt__ = __gt__ = _no
    __hash__ = None
# ---------------------------------------------------------------- terms
class Ops(Tok):
    """the operators of a term"""
    def __init__(self, top, distinct=True, small=None): self.top, self.distinct, self.small = top, distinct, small
    def elem(self, letter=None, any_=False):
        c = cur(); n = ivar(c.fresh('op'))
        # what is done to an operator does not depend on whether there is one
        if self.small is not None and not any_: c.assume(n.e >= self.small); c.assume(n.e < self.top)
        else: c.assume(n.e >= 0) if any_ else c.assume(z3.And(n.e >= 0, n.e < c.extra['N']))
        if c.check() != z3.sat: raise core.Infeasible()
        if letter is None: letter = 'XYZ'[c.choose(3, 'operator')]
        return {'X': M.X, 'Y': M.Y, 'Z': M.Z}[letter](n)
    def some(self):
        """is there an operator"""
        c = cur(); k = ('some', id(self))
        if k not in c.extra: c.extra[k] = c.decide(self.top > 0)
        return c.extra[k]
    def __bool__(self): return self.some()
    def vx_isinstance(self, t): return t in (tuple, object)
    def vx_loop(self, ident, lv, rb): return OpsLoop(self, ident, rb, lv)
    def vx_iter(self): return self
    def vx_comp(self, kind, f, cond, star):
        if star or kind not in ('gen', 'list'): raise Unsupported('comprehension')
        c = cur(); bits = set(); what = set()
        for L in 'XYZ':
            def go():
                op = self.elem(L, True)
                if cond is not None and not cond(op): return None
                v = f(op)
                if isinstance(v, SInt) and getattr(v, 'p2', None) is not None and c.implied(v.p2 == op.n.e): return 'bit'
                if isinstance(v, SInt) and c.implied(v.e == op.n.e): return 'index'
                raise Unsupported('what is made of the operators')
            r = c.cases(go)
            if not r: continue
            if len(set(r)) != 1: raise Unsupported('operators')
            if r[0] is not None: bits.add(L); what.add(r[0])
        if len(what) > 1: raise Unsupported('operators')
        if what == {'index'}: return Indices(self, frozenset(bits))
        return Bits(self, frozenset(bits))
    def slen(self): raise Unsupported('number of operators')
class Bits(Tok):
    def __init__(self, ops, letters): self.ops, self.letters = ops, letters
    def vx_sum(self, start=0):
        if start != 0 or not self.ops.distinct: raise Unsupported('sum')
        return Mask(self.ops, self.letters)
class Indices(Tok):
    def __init__(self, ops, letters): self.ops, self.letters = ops, letters
    def vx_minmax(self, name, k):
        c = cur()
        if name != 'max' or set(k) - {'default'}: raise Unsupported(name)
        if self.letters != set('XYZ'): raise Unsupported('the largest of some indices')
        if not self.ops.some():
            if 'default' in k: return k['default']
            raise ValueError('max() iterable argument is empty')
        return SInt(z3.simplify(self.ops.top - 1))
class Mask(Tok):
    """one bit for each operator of some kinds"""
    def __init__(self, ops, letters): self.ops, self.letters = ops, letters
def plain(k): return isinstance(k, int) and not isinstance(k, bool) and k == 0
def make_term(ops, coeff, need=None, simp=None):
    t = tuple.__new__(SymTerm, (ops, coeff)); t.need, t.simp = need, simp; return t
# ---------------------------------------------------------------- lists of letters
class Letters(Tok):
    """a letter for each qubit: by the operator which acts on it"""
    def __init__(self, n, first): self.n = n; self.put = {L: first for L in 'IXYZ'}; self.ops = None; self.writes = []
    def __setitem__(self, i, v):
        c = cur(); e = ze(i)
        if not c.decide(z3.And(e >= 0, e < self.n.e)): raise IndexError('list assignment index out of range')
        if type(v) is not str: raise Unsupported('a letter')
        self.writes.append((e, v))
    def slen(self): return self.n
    def vx_reversed(self): raise Unsupported('reversed letters')
class OpsLoop:
    """a loop over the operators, run once for each kind"""
    rebind = True
    def __init__(self, ops, ident, rebound, lv): self.ops, self.ident, self.rebound, self.lv = ops, ident, list(rebound), set(lv); self.env = {}; self.entered = False
    def head(self, loc):
        c = cur()
        if self.entered: return self.end(loc)
        self.entered = True
        self.st = c.store.setdefault(('ops', self.ident, tuple(c.trace[:c.pos])), [])
        mode = c.choose(2, 'loop %s' % self.ident)
        self.lists = [v for v in loc.values() if isinstance(v, Letters)]
        self.keep = {k: v for k, v in loc.items() if k not in self.rebound and k not in self.lv}
        for r in self.rebound: self.env[r] = AccMask(r) if plain(loc.get(r)) else Poison(r)
        if not self.ops.distinct: raise Unsupported('operators which repeat a qubit')
        if mode == 0:
            if any(l.ops is not None for l in self.lists): raise Unsupported('letters written twice')
            self.item = self.ops.elem(); self.n0 = [len(l.writes) for l in self.lists]; return True
        if self.ops.small is not None: raise core.Infeasible() if not self.st else Unsupported('an operator beyond the last qubit is passed over')
        masks = {}; puts = {}
        for L, m, w in self.st:
            for r, b in m.items():
                s = masks.setdefault(r, {}); b == s.setdefault(L, b) or bad('masks')
            for k, v in w.items():
                s = puts.setdefault(k, {}); v == s.setdefault(L, v) or bad('letters')
        for r, d in masks.items(): self.env[r] = Mask(self.ops, frozenset(L for L in d if d[L]))
        for k, d in puts.items():
            l = self.lists[k]
            if any(v is not None for v in d.values()):
                l.ops = self.ops
                for L, v in d.items():
                    if v is not None: l.put[L] = v
        return False
    def end(self, loc):
        c = cur(); changed(loc, self.keep)
        m = {}
        for r in self.rebound:
            v = loc.get(r)
            if isinstance(v, AccMask) and v.name == r:
                if len(v.added) > 1 or v.added and not c.implied(v.added[0] == self.item.n.e): raise Unsupported('masks')
                m[r] = bool(v.added)
        w = {}
        for k, l in enumerate(self.lists):
            d = l.writes[self.n0[k]:]
            if len(d) > 1 or d and not c.implied(d[0][0] == self.item.n.e): raise Unsupported('letters')
            w[k] = d[0][1] if d else None
        self.st.append((self.item.op, m, w)); raise EndPath()
def changed(loc, keep):
    if any(loc.get(k) is not v for k, v in keep.items() if not k.startswith('_vx_')): raise Unsupported('other variables change')
class AccMask(Tok):
    """an accumulator of bits of different qubits"""
    def __init__(self, name, added=()): self.name, self.added = name, tuple(added)
    def _add(self, o):
        if not isinstance(o, SInt) or getattr(o, 'p2', None) is None: raise Unsupported('mask')
        return AccMask(self.name, self.added + (o.p2,))
    __add__ = __radd__ = __or__ = __ror__ = __xor__ = __rxor__ = _add
class Runs(Tok):
    """runs of equal letters"""
    def __init__(self, letters): self.letters = letters
    def vx_loop(self, ident, lv, rb): return RunLoop(self.letters, ident, rb, lv, True)
class Run(Tok):
    def __init__(self): self.n = ivar(cur().fresh('run')); cur().assume(self.n.e >= 1)
    def vx_seq(self, ty): return self
    def slen(self): return self.n
    def vx_sum(self, start=0): bad()
    def vx_comp(self, kind, f, cond, star):
        if cond is not None or kind not in ('gen', 'list'): raise Unsupported('comprehension')
        v = f(Poison('a letter'))
        if not (isinstance(v, int) and v == 1): raise Unsupported('comprehension')
        return types.SimpleNamespace(vx_sum=lambda start=0: self.n)
class RunLoop:
    """the passages of a loop over runs of equal letters add the factors of their qubits, in order"""
    rebind = True
    def __init__(self, letters, ident, rebound, lv, runs): self.letters, self.ident, self.rebound, self.lv = letters, ident, list(rebound), set(lv); self.env = {}; self.entered = False
    def head(self, loc):
        c = cur()
        if self.entered: return self.end(loc)
        self.entered = True
        self.st = c.store.setdefault(('run', self.ident, tuple(c.trace[:c.pos])), [])
        mode = c.choose(2, 'loop %s' % self.ident)
        self.keep = {k: v for k, v in loc.items() if k not in self.rebound and k not in self.lv}
        lists = [v for v in loc.values() if isinstance(v, DList)]
        for r in self.rebound: self.env[r] = loc[r] if isinstance(loc.get(r), DList) else Poison(r)
        if len({id(l) for l in lists}) != 1 or lists[0].factors is not None or lists[0].items: raise Unsupported('lists')
        self.l = lists[0]
        vals = sorted(set(self.letters.put.values()) if self.letters.ops is not None else {self.letters.put['I']})
        if mode == 0:
            g = vals[c.choose(len(vals), 'letter')]; self.g = g; self.run = Run(); self.item = (g, self.run); return True
        if {g for g, _ in self.st} != set(vals): raise Unsupported('letters')
        f = {}
        for g, p in self.st:
            if f.setdefault(g, p) is not p and not all(zero(x - y) for x, y in zip(f[g][:2], p[:2])): raise Unsupported('factors')
        self.l.factors = (self.letters, f); self.l.cx = all(p[2] for g, p in self.st)
        return False
    def end(self, loc):
        c = cur(); changed(loc, self.keep)
        for r in self.rebound:
            if isinstance(self.env[r], DList) and loc.get(r) is not self.l: raise Unsupported('lists')
        if len(self.l.items) != 1: raise Unsupported('factors')
        kind, n, vals, cx = self.l.items[0]
        c.require(same(n, self.run.n), 'a factor for each qubit of a run')
        self.st.append((self.g, (Alg.of(vals[0]), Alg.of(vals[1]), cx))); raise EndPath()
class Small(Tok):
    """an array of two numbers"""
    def __init__(self, vals, cx, n=1): self.vals, self.cx, self.n = list(vals), cx, n
    def copy(self): return Small(self.vals, self.cx)
    def __mul__(self, o):
        if not num(o): raise Unsupported('product')
        return Small([Alg.of(v) * o for v in self.vals], True)
    __rmul__ = __mul__
    def __neg__(self): return Small([-Alg.of(v) for v in self.vals], self.cx)
    def conj(self): return Small([Alg.of(v).conjugate() for v in self.vals], self.cx)
    conjugate = conj
    def astype(self, t, **k): return Small(self.vals, iscx(t) or self.cx)
    def __getitem__(self, i):
        if isinstance(i, slice) and (i.start, i.stop, i.step) == (None, None, -1): return Small(self.vals[::-1], self.cx)
        bad()
class One(Tok):
    def __init__(self, v, cx): self.v, self.cx = v, cx
class Block(Tok):
    """2**n equal numbers"""
    def __init__(self, n, v, cx): self.n, self.v, self.cx = n, v, cx
class DList(Tok):
    """a list of arrays whose Kronecker product is wanted"""
    def __init__(self): self.items = []; self.factors = None; self.scale = Alg.of(1); self.rev = False; self.cx = False
    def open(self):
        if self.factors is not None: raise Unsupported('more factors')
    def __iadd__(self, o):
        self.open(); c = cur()
        if isinstance(o, (list, tuple)):
            for x in o: self.append(x)
            return self
        if not isinstance(o, seqs.SymSeq): raise Unsupported('lists')
        a, b = o.elem('a'), o.elem('b')
        if not (isinstance(a, Small) and isinstance(b, Small)): raise Unsupported('factors')
        if a is b: raise Unsupported('an array shared by the factors')
        self.items.append(('each', o.slen(), a.vals, a.cx)); return self
    def extend(self, o): self.__iadd__(o)
    def append(self, v):
        self.open()
        if isinstance(v, Block):
            if not zero(Alg.of(v.v) - 1): raise Unsupported('factors')
            self.items.append(('block', v.n, (1, 1), v.cx))
        else: raise Unsupported('factors')
    def done(self):
        if self.factors is None: raise Unsupported('a list being made')
    def vx_minmax(self, name, k):
        self.done()
        if set(k) != {'key'}: raise Unsupported(name)
        return Elem(self)
    def reverse(self): self.done(); self.rev = not self.rev
    def vx_reversed(self): self.done(); r = self.view(); r.rev = not r.rev; return r
    def view(self):
        r = DList(); r.items, r.factors, r.scale, r.rev, r.cx = self.items, self.factors, self.scale, self.rev, self.cx
        return r
    def vx_seq(self, ty): return self.view()
    def __getitem__(self, i):
        self.done()
        if isinstance(i, slice) and i.start is None and i.stop is None: return self.view() if i.step in (None, 1) else self.vx_reversed() if i.step == -1 else bad()
        if isinstance(i, int): return Elem(self)
        bad()
    def __setitem__(self, i, v):
        if isinstance(i, int) and isinstance(v, Elem) and v.l is self and not v.stray: return
        bad()
    def vx_comp(self, kind, f, cond, star):
        self.done()
        if cond is not None or star: raise Unsupported('comprehension')
        v = f(Elem(self))
        if isinstance(v, Elem) and v.size_of: return Sizes(self)
        raise Unsupported('comprehension')
    def slen(self): self.done(); return Count(self)
class Elem(Tok):
    """one of the factors"""
    def __init__(self, l, size_of=False): self.l, self.size_of, self.stray = l, size_of, False
    def __imul__(self, k):
        if not num(k): raise Unsupported('product')
        if not self.l.cx: raise Unsupported('an array of reals multiplied in place')
        self.l.scale = self.l.scale * k; return self
    @property
    def size(self): return Elem(self.l, True)
    def slen(self): return Elem(self.l, True)
class Count(Tok):
    def __init__(self, l): self.l = l
class Sizes(Tok):
    def __init__(self, l): self.l = l
    def cumsum(self): return Cum(self.l)
class Cum(Tok):
    def __init__(self, l): self.l = l
    def slen(self): return Count(self.l)
    def tolist(self): return self
def kron_all(krons, cumsum, lo, hi):
    """the contract of _kron_1d_rec on the whole list"""
    if not (isinstance(krons, DList) and isinstance(cumsum, Cum) and plain(lo) and isinstance(hi, Count)): raise Unsupported('a part of a product')
    if not all(x.rev == krons.rev or True for x in (cumsum.l, hi.l)): bad()
    krons.done()
    if not krons.cx: raise Unsupported('a product of reals')
    letters, f = krons.factors
    return Data(letters.ops, letters.n, {L: f[letters.put[L]][:2] for L in 'IXYZ' if letters.put[L] in f}, krons.scale, krons.rev)
# ---------------------------------------------------------------- vectors over all basis states
class Data(Tok):
    """scale times the product over the qubits of a value of its bit"""
    def __init__(self, ops, n, per, scale, lsb): self.ops, self.n, self.per, self.scale, self.lsb = ops, n, per, Alg.of(scale), lsb
    def copy(self): return Data(self.ops, self.n, self.per, self.scale, self.lsb)
    def __imul__(self, k):
        if not num(k): bad('product')
        self.scale = self.scale * k; return self
    def __mul__(self, k):
        if not num(k): bad('product')
        r = self.copy(); r.scale = r.scale * k; return r
    __rmul__ = __mul__
    def astype(self, *a, **k): return self.copy()
class ZeroVec(Tok):
    def __init__(self, n): self.n = n
    def _add(self, o):
        if isinstance(o, (Data, GroupSum)): return o.copy()
        bad()
    __add__ = __iadd__ = _add
class AccData(Tok):
    def __init__(self, added=()): self.added = list(added)
    def __iadd__(self, o):
        if not isinstance(o, Data): bad('sum')
        self.added.append(o); return self
    def __add__(self, o):
        if not isinstance(o, Data): bad('sum')
        return AccData(self.added + [o])
    __radd__ = __add__
class GroupSum(Tok):
    """the sum over the terms of a group"""
    def __init__(self, d): self.d = d
    def copy(self): return self
class Idx(Tok):
    """the numbers of all basis states, some bits turned over"""
    def __init__(self, n, dtype, mask=None): self.n, self.dtype, self.mask = n, dtype, mask
    def __xor__(self, m):
        if plain(m): return Idx(self.n, self.dtype, self.mask)
        if isinstance(m, Mask) and self.mask is None: return Idx(self.n, self.dtype, m)
        bad('exclusive or')
    __rxor__ = __xor__
    def copy(self): return Idx(self.n, self.dtype, self.mask)
    def astype(self, t, **k): return Idx(self.n, t, self.mask)
class Ptr(Tok):
    """0, k, 2k, .., k 2**n"""
    def __init__(self, n, k): self.n, self.k = n, k
class Inter(Tok):
    """an array filled in strides"""
    def __init__(self, size, dtype): self.size, self.dtype, self.slots, self.full = size, dtype, [], None; cur().extra.setdefault('inters', []).append(self)
    def __setitem__(self, s, v):
        if not isinstance(s, slice) or s.stop is not None or not isinstance(v, (Data, GroupSum, Idx, AccData)): bad('filling')
        self.slots.append((0 if s.start is None else s.start, 1 if s.step is None else s.step, v))
class Mat1(Tok):
    """a matrix with one entry"""
    def __init__(self, v, fmt=None): self.v, self.fmt = v, fmt
class CoefSum(Tok):
    def __init__(self, terms): self.terms = terms
class Mat(Tok):
    """entries (mask, values) of a 2**n by 2**n matrix, by column or by row"""
    def __init__(self, n, major, entries, fmt): self.n, self.major, self.entries, self.fmt = n, major, entries, fmt
    def toarray(self, *a, **k): return Mat(self.n, self.major, self.entries, None) if not a and not k else bad()
    def eliminate_zeros(self): pass
    sum_duplicates = sort_indices = eliminate_zeros
    def asformat(self, f, *a):
        if f not in FORMATS or a: bad('format')
        return Mat(self.n, self.major, self.entries, f)
    def __getattr__(self, k):
        if k.startswith('to') and k[2:] in FORMATS: return lambda: self.asformat(k[2:])
        if k.startswith('vx_') or k.startswith('__'): raise AttributeError(k)
        raise Unsupported('matrix.%s' % k)
# ---------------------------------------------------------------- numpy, scipy
def iscx(t): return getattr(t, 'vx_real', t) is complex
def cxs(l, dtype): return iscx(dtype) or dtype is None and any(isinstance(v, complex) for v in l)
def np_array(x, dtype=None, **k):
    if k: bad('array')
    if isinstance(x, Sizes): return x
    if isinstance(x, (list, tuple)):
        if len(x) == 2 and all(num(v) for v in x): return Small([Alg.of(v) for v in x], cxs(x, dtype))
        if len(x) == 1 and num(x[0]): return One(Alg.of(x[0]), cxs(x, dtype))
        if len(x) == 1 and isinstance(x[0], list) and len(x[0]) == 1 and (num(x[0][0]) or isinstance(x[0][0], CoefSum)): return Mat1(x[0][0])
    if isinstance(x, Small): return x.copy()
    bad('array')
def power(k):
    """n for 2**n"""
    if isinstance(k, SInt) and getattr(k, 'p2', None) is not None: return SInt(k.p2)
    bad('a size which is not a power of two')
def np_repeat(a, k, **kw):
    if isinstance(a, One) and not kw: return Block(power(k), a.v, a.cx)
    if num(a) and not kw: return Block(power(k), Alg.of(a), isinstance(a, complex))
    bad('repeat')
def np_ones(k, dtype=None): return Block(power(k), Alg.of(1), iscx(dtype))
def np_full(k, v, dtype=None): return Block(power(k), Alg.of(v), iscx(dtype) or isinstance(v, complex))
def np_zeros(k, dtype=None):
    if isinstance(k, SInt) and getattr(k, 'p2', None) is not None and iscx(dtype): return ZeroVec(SInt(k.p2))
    return np_empty(k, dtype)
def np_empty(k, dtype=None): return Inter(k, dtype)
INT32 = __import__('numpy').int32; INT64 = __import__('numpy').int64
def limit(dtype, e):
    c = cur()
    if dtype is INT32: c.prove(c.extra['N'] <= (30 if e else 31), 'the indices fit into 32 bits')
    elif dtype not in (INT64, int, None): bad('a type of indices')
def np_arange(*a, dtype=None):
    c = cur(); N = c.extra['N']; dim = pow2(N)
    if len(a) > 3: bad()
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if not plain(lo): bad('arange')
    if same(st, 1) and same(hi, dim): limit(dtype, 0); return Idx(SInt(N), dtype)
    if c.implied(ze(hi) == dim * ze(st) + 1) and c.implied(ze(st) >= 1): limit(dtype, 1); return Ptr(SInt(N), st)
    bad('arange')
def shape_ok(shape):
    c = cur(); dim = pow2(c.extra['N'])
    if not isinstance(shape, tuple) or len(shape) != 2: bad('shape')
    for s in shape: c.prove(ze(s) == dim, 'a square matrix for the qubits')
def filled(a, b, k):
    """the entries of two arrays filled in the same strides of k"""
    if isinstance(a, Idx) and isinstance(b, (Data, GroupSum)):
        if not same(k, 1): bad('pointers')
        return [(a.mask, b)]
    if not (isinstance(a, Inter) and isinstance(b, Inter)): bad('entries')
    c = cur(); dim = pow2(c.extra['N'])
    for x in (a, b):
        if not c.implied(ze(x.size) == ze(k) * dim): bad('size')
    if not iscx(b.dtype): bad('values which are not complex')
    if a.dtype is INT32: c.prove(c.extra['N'] <= 31, 'the indices fit into 32 bits')
    if a.full is not None and b.full is not None:
        (g1, v1), (g2, v2) = a.full, b.full
        if g1 is not g2 or not same(g1.count, k): bad('groups')
        return [('groups', g1, v1, v2)]
    if a.full is None and b.full is None and same(k, 1) and len(a.slots) == len(b.slots) == 1 and all(plain(s[0]) and same(s[1], 1) for s in a.slots + b.slots): return [(a.slots[0][2].mask, b.slots[0][2])]
    bad('entries')
def compressed(fmt, major):
    def f(x, shape=None, **k):
        if isinstance(x, (Mat, Mat1)): return convert(fmt)(x)
        if k or not isinstance(x, tuple) or len(x) != 3: bad('matrix')
        shape_ok(shape); data, ind, ptr = x
        if not isinstance(ptr, Ptr): bad('pointers')
        return Mat(ptr.n, major, filled(ind, data, ptr.k), fmt)
    return f
def coo(x, shape=None, **k):
    if isinstance(x, (Mat, Mat1)): return convert('coo')(x)
    if k or not isinstance(x, tuple) or len(x) != 2: bad('matrix')
    shape_ok(shape); data, rc = x
    if not isinstance(rc, tuple) or len(rc) != 2 or not all(isinstance(r, Idx) for r in rc) or not isinstance(data, (Data, GroupSum)): bad('entries')
    row, col = rc
    if col.mask is None: return Mat(row.n, 'col', [(row.mask, data)], 'coo')
    if row.mask is None: return Mat(row.n, 'row', [(col.mask, data)], 'coo')
    bad('entries')
def convert(fmt):
    def f(x, **k):
        if isinstance(x, Mat1) and not k: return Mat1(x.v, fmt)
        if isinstance(x, Mat) and not k: return Mat(x.n, x.major, x.entries, fmt)
        bad('matrix')
    return f
CONS = {f: convert(f) for f in FORMATS}
CONS['csc'], CONS['csr'], CONS['coo'] = compressed('csc', 'col'), compressed('csr', 'row'), coo
# ---------------------------------------------------------------- terms of an expression
class Terms(Tok):
    """the terms of an expression"""
    def __init__(self, mk, ops=True): self.mk, self.ops = mk, ops
    def vx_loop(self, ident, lv, rb): raise Unsupported('a loop over all terms')
    def vx_seq(self, ty): return self
    def vx_sorted(self, k):
        if set(k) != {'key'}: bad('sorted')
        return Sorted(self, letters_of(self, k['key']))
    def vx_comp(self, kind, f, cond, star):
        c = cur()
        if star: bad()
        got = {}
        for some in (True, False):
            def go():
                t = self.mk(some)
                if cond is not None and not cond(t): return None
                v = f(t)
                if num(v): return 'coefficient' if zero(Alg.of(v) - t.coeff) and cond is None else bad('what is made of the terms')
                if isinstance(v, SInt):
                    if not some: return 'index' if c.implied(v.e == -1) else bad('what is made of a term')
                    return 'index' if c.implied(v.e == t.ops.top - 1) else bad('what is made of a term')
                bad('what is made of the terms')
            r = c.cases(go)
            if not r: continue
            if len(set(r)) != 1: bad('terms')
            got[some] = r[0]
        vals = {v for v in got.values() if v is not None}
        if vals == {'coefficient'}: return types.SimpleNamespace(vx_sum=lambda start=0: CoefSum(self) if plain(start) else bad())
        if vals == {'index'}: return TermMax(self, {s for s in got if got[s]})
        bad('terms')
class TermMax(Tok):
    def __init__(self, terms, which): self.terms, self.which = terms, which
    def vx_minmax(self, name, k):
        c = cur()
        if name != 'max' or set(k) - {'default'}: bad(name)
        kind = c.extra['terms']
        if kind == 'none' or kind == 'constants' and False not in self.which:
            if 'default' in k: return k['default']
            raise ValueError('max() iterable argument is empty')
        if kind == 'constants': return SInt(z3.IntVal(-1))
        if True not in self.which: bad('terms')
        return SInt(c.extra['top'] - 1)
def letters_of(terms, key):
    c = cur(); out = []
    def go():
        t = terms.mk(None); v = key(t)
        if not isinstance(v, Mask) or v.ops is not t.ops: bad('the key of a term')
        return v.letters
    r = c.cases(go)
    if len(set(r)) != 1: bad('the key of a term')
    return r[0]
class Sorted(Tok):
    def __init__(self, terms, letters): self.terms, self.letters = terms, letters
def s_groupby(it, key=None):
    if isinstance(it, Letters): return Runs(it) if key is None else bad('groupby')
    if isinstance(it, Sorted):
        if key is None or letters_of(it.terms, key) != it.letters: bad('groups by another key than the order')
        return Groups(it)
    if isinstance(it, Tok): bad('groupby')
    import itertools
    return itertools.groupby(it, key)
class Groups(Tok):
    def __init__(self, src): self.src = src
    def vx_comp(self, kind, f, cond, star):
        if not star or cond is not None or kind not in ('list', 'gen'): bad('groups')
        g = Group(self.src); r = f(Poison('the key'), g)
        if r is not g or not g.listed: bad('groups')
        return GroupList(self.src)
class GroupList(Tok):
    def __init__(self, src): self.src = src; self.count = None
    def some(self):
        c = cur()
        if 'groups' not in c.extra: c.extra['groups'] = c.extra.get('bad') or c.choose(2, 'no terms') == 0
        if c.extra['groups'] and self.count is None: self.count = ivar('groups'); c.assume(self.count.e >= 1)
        return c.extra['groups']
    def __bool__(self): return self.some()
    def slen(self): return self.count if self.some() else 0
    def vx_seq(self, ty): return self
    def vx_enumerate(self, start=0):
        if not plain(start): bad('enumerate')
        if not self.some(): return enumerate([])
        return types.SimpleNamespace(vx_loop=lambda ident, lv, rb: GroupLoop(self, ident, rb, lv))
class Group(Tok):
    """the terms which have their X and Y on the same qubits"""
    def __init__(self, src): self.src = src; self.listed = False; self.lead = None
    def vx_seq(self, ty): self.listed = True; return self
    def __getitem__(self, i):
        if plain(i):
            if self.lead is None: self.lead = self.src.terms.mk(None, small=cur().extra.get('bad') == 'first'); self.lead.group = self
            return self.lead
        if isinstance(i, slice) and i.start == 1 and i.stop is None and i.step in (None, 1): return types.SimpleNamespace(vx_loop=lambda ident, lv, rb: TermLoop(self, ident, rb, lv, True))
        bad('a group')
    def vx_loop(self, ident, lv, rb): return TermLoop(self, ident, rb, lv, False)
class TermLoop:
    """the terms of a group are added"""
    rebind = True
    def __init__(self, group, ident, rebound, lv, rest): self.group, self.ident, self.rebound, self.lv, self.rest = group, ident, list(rebound), set(lv), rest; self.env = {}; self.entered = False
    def head(self, loc):
        c = cur()
        if self.entered: return self.end(loc)
        self.entered = True
        self.st = c.store.setdefault(('term', self.ident, tuple(c.trace[:c.pos])), [])
        mode = c.choose(2, 'loop %s' % self.ident)
        self.keep = {k: v for k, v in loc.items() if k not in self.rebound and k not in self.lv}
        acc = [r for r in self.rebound if isinstance(loc.get(r), (Data, ZeroVec))]
        if len(acc) != 1: bad('accumulators')
        self.r = acc[0]; start = loc[self.r]
        for r in self.rebound: self.env[r] = Poison(r)
        if mode == 0:
            self.env[self.r] = self.acc = AccData()
            self.item = self.group.src.terms.mk(None, small=c.extra.get('bad') in ('rest', 'first' if not self.rest else '-')); self.item.group = self.group; return True
        if c.extra.get('bad') in ('rest', 'first' if not self.rest else '-'): raise Unsupported('an operator beyond the last qubit is passed over')
        if not self.st: bad('terms')
        d = self.st[0]
        if self.rest:
            c.require(isinstance(start, Data) and start.ops is self.group[0].ops, 'the first term of a group is added too')
            if isinstance(start, Data): own(start, self.group[0])
        elif not isinstance(start, ZeroVec): bad('the sum starts elsewhere')
        for x in self.st + ([start] if isinstance(start, Data) else []):
            if x.lsb != d.lsb or any(not zero(x.per[L][b] - d.per[L][b]) for L in 'IXYZ' for b in (0, 1)): bad('terms are treated differently')
        self.env[self.r] = GroupSum(d); return False
    def end(self, loc):
        c = cur(); changed(loc, self.keep); a = loc.get(self.r)
        if not isinstance(a, AccData): bad('accumulator')
        c.require(len(a.added) == 1 and a.added[0].ops is self.item.ops, 'every term of a group is added once')
        if len(a.added) != 1: raise EndPath()
        own(a.added[0], self.item); self.st.append(a.added[0]); raise EndPath()
def own(d, t):
    c = cur(); c.prove_zero(d.scale - t.coeff, 'the values of a term are multiplied by its coefficient once')
class GroupLoop:
    rebind = True
    def __init__(self, gl, ident, rebound, lv): self.gl, self.ident, self.rebound, self.lv = gl, ident, list(rebound), set(lv); self.env = {}; self.entered = False
    def head(self, loc):
        c = cur()
        if self.entered: return self.end(loc)
        self.entered = True
        self.st = c.store.setdefault(('grp', self.ident, tuple(c.trace[:c.pos])), [])
        mode = c.choose(2, 'loop %s' % self.ident)
        self.keep = {k: v for k, v in loc.items() if k not in self.rebound and k not in self.lv}
        for r in self.rebound: self.env[r] = Poison(r)
        self.inters = list(c.extra.get('inters', ()))
        if any(x.slots or x.full for x in self.inters): bad('arrays filled before')
        if mode == 0:
            self.i = ivar(c.fresh('group')); c.assume(z3.And(self.i.e >= 0, self.i.e < self.gl.count.e))
            self.g = Group(self.gl.src); self.item = (self.i, self.g); return True
        if c.extra.get('bad'): raise Unsupported('an operator beyond the last qubit is passed over')
        if len(self.st) != 1: bad('groups')
        for k, v in self.st[0].items(): self.inters[k].full = (self.gl, v)
        return False
    def end(self, loc):
        c = cur(); changed(loc, self.keep); d = {}
        if c.extra.get('bad'): raise Unsupported('an operator beyond the last qubit is passed over')
        for k, x in enumerate(self.inters):
            if len(x.slots) != 1: bad('filling')
            s, st, v = x.slots[0]
            if not (same(s, self.i) and same(st, self.gl.count)): bad('filling')
            if isinstance(v, Idx):
                if v.mask is None or v.mask.ops is not self.g[0].ops: bad('the mask of a group')
                d[k] = ('mask', v.mask.letters)
            elif isinstance(v, GroupSum): d[k] = ('sum', v.d)
            elif isinstance(v, Data): c.require(False, 'every term of a group is added once'); raise EndPath()
            else: bad('filling')
        if len(c.extra['inters']) != len(self.inters): bad('more arrays')
        self.st.append(d); raise EndPath()
# ---------------------------------------------------------------- what a matrix should be
def by_qubit(letters, d, major):
    """each qubit contributes the single-qubit matrix of its operator"""
    c = cur(); c.require(d.lsb, 'qubit 0 is the least significant bit')
    for L in 'IXYZ':
        x = L in letters
        for r in (0, 1):
            for k in (0, 1):
                got = Alg.of(d.per[L][k if major == 'col' else r]) if (r ^ k) == x else Alg.of(0)
                c.prove_zero(got - SINGLE[L][r][k], 'entry (%d, %d) of the matrix of %s' % (r, k, L))
def check(r, fmt, N, term=None, terms=None):
    c = cur()
    if not isinstance(r, Mat): bad('another result')
    c.require(r.fmt == fmt, 'the format asked for'); c.prove(ze(r.n) == ze(N), 'a matrix for the qubits')
    if term is None and len(r.entries) == 1 and r.entries[0][0] == 'groups':
        _, g, m, s = r.entries[0]
        if m[0] != 'mask' or s[0] != 'sum': bad('entries')
        if m[1] != g.src.letters: c.require(False, 'the terms of a group have the same non-zero entries', repr((m[1], g.src.letters)))
        by_qubit(m[1], s[1], r.major); return
    if len(r.entries) != 1: bad('entries')
    mask, d = r.entries[0]
    if not isinstance(d, Data): bad('entries')
    if term is None:
        if c.extra.get('groups') is not False: bad('no groups')
        c.prove_zero(d.scale, 'the matrix of nothing is zero'); return
    if d.ops is not term.ops and d.ops is not None or mask is not None and mask.ops is not term.ops: bad('another term')
    own(d, term)
    if mask is None or d.ops is None: bad('a diagonal matrix')
    by_qubit(mask.letters, d, r.major)
# ---------------------------------------------------------------- what is run
def module():
    global M, SymTerm, SymExpr
    loader.fresh(); M = loader.load('blueqat.pauli')
    M.np = shadows.Shadow(__import__('numpy'), dict(array=np_array, asarray=np_array, repeat=np_repeat, ones=np_ones, full=np_full, zeros=np_zeros, empty=np_empty, arange=np_arange))
    M.scipy = types.SimpleNamespace(sparse=types.SimpleNamespace(**{f + '_matrix': CONS[f] for f in FORMATS}))
    M._sparse_types = dict(CONS); M.groupby = s_groupby; M._kron_1d_rec = kron_all
    class SymTerm(M.Term):
        @property
        def n_qubits(self): return self.need if self.need is not None else bad('number of qubits')
        def simplify(self): return self.simp if self.simp is not None else self
        def max_n(self): return self.n_qubits - 1
    class SymExpr(M.Expr):
        @property
        def n_qubits(self): return self.need if self.need is not None else bad('number of qubits')
        def max_n(self): return self.n_qubits - 1
        def simplify(self): return self.simp if self.simp is not None else self
    return M
def sizes(case):
    """the number of qubits asked for and those the operator needs, before and after simplifying"""
    c = cur(); N, need, need1 = z3.Ints('N need need1'); c.assume(z3.And(need >= need1, need1 >= 0))
    c.extra['N'] = N; nq = NQ(N); sig = NQ(need)
    if case == 'default': c.assume(N == need); args = (); sig = nq
    elif case == 'given': c.assume(N >= need); args = (nq,)
    elif case == 'small': c.assume(z3.And(N >= 0, N < need1)); args = (nq,)
    return args, nq, sig, need, need1
def sym_expr(case):
    c = cur(); args, nq, sig, need, need1 = sizes(case)
    def mk(top, lo):
        def f(some, small=False):
            c = cur(); t = z3.Int(c.fresh('top')); c.assume(z3.And(t >= 0, t <= top))
            if some is not None: c.assume(t > 0 if some else t == 0)
            if small: c.assume(t == top)
            if c.check() != z3.sat: raise core.Infeasible()
            return make_term(Ops(t, small=c.extra['N'] if small else None), alg.csym(c.fresh('coeff')), SInt(t))
        return f
    simp = tuple.__new__(SymExpr, (Terms(mk(need1, 0)),)); simp.need = NQ(need1); simp.simp = None
    e = tuple.__new__(SymExpr, (Terms(mk(need, 0)),)); e.need = sig; e.simp = simp
    return e, simp, args, nq
def refused(f):
    c = cur()
    try: f()
    except (IndexError, ValueError, TypeError, AssertionError): return c.require(True, 'too few qubits are refused')
    c.require(False, 'too few qubits are refused')
def to_matrix(led, what):
    def path(case):
        c = cur(); c.extra['list_hook'] = DList
        fmt = ([None] + FORMATS)[c.choose(8, 'format')] if case != 'small' else (None, 'csc', 'csr', 'coo')[c.choose(4, 'format')]
        if what == 'Term':
            args, nq, sig, need, need1 = sizes(case)
            co = alg.csym('coeff'); t1 = make_term(Ops(need1, small=nq.e if case == 'small' else None), co, NQ(need1))
            if case == 'small': c.assume(nq.e >= 0)
            me = make_term(Ops(need, distinct=False), co, sig, t1)
        else:
            me, simp, args, nq = sym_expr(case)
            if case == 'small': c.extra['bad'] = ('first', 'rest')[c.choose(2, 'which term')]
        if case == 'small': return refused(lambda: me.to_matrix(*args, sparse=fmt))
        if what == 'Expr' and not c.decide(nq.e > 0): c.extra['constants'] = True
        r = me.to_matrix(*args, sparse=fmt)
        if not c.decide(nq.e > 0):
            if not isinstance(r, Mat1): bad('another result')
            c.require(r.fmt == fmt, 'the format asked for')
            if what == 'Term': c.require(num(r.v) and zero(Alg.of(r.v) - co), 'without qubits: the coefficient')
            else: c.require(isinstance(r.v, CoefSum), 'without qubits: the sum of the coefficients')
            return
        if what == 'Term': check(r, fmt, nq, term=t1)
        else: check(r, fmt, nq, terms=simp)
    for case in ('default', 'given', 'small'): run_explore(led, '%s.to_matrix (%s size)' % (what, {'small': 'too small a', 'given': 'any', 'default': 'default'}[case]), lambda: path(case))
    def unknown():
        c = cur(); c.extra['list_hook'] = DList
        if what == 'Term': me = make_term(Ops(z3.IntVal(2)), alg.csym('coeff'), NQ(z3.IntVal(2)))
        else: me = sym_expr('given')[0]
        c.extra.setdefault('N', z3.IntVal(2))
        try: me.to_matrix(sparse=('abc', 'CSC', '')[c.choose(3, 'format')])
        except (ValueError, KeyError, TypeError): return c.require(True, 'an unknown format is refused')
        c.require(False, 'an unknown format is refused')
    run_explore(led, '%s.to_matrix (unknown format)' % what, unknown)
def sizes_of(led):
    def term():
        c = cur(); top = z3.Int('top'); c.assume(top >= 0); t = tuple.__new__(M.Term, (Ops(top, distinct=False), alg.csym('coeff')))
        c.prove(ze(t.n_qubits) == top, 'one more than the largest index, or 0'); c.prove(ze(t.max_n()) == top - 1, 'the largest index, or -1')
    run_explore(led, 'Term.n_qubits', term)
    def expr():
        c = cur(); top = z3.Int('top'); c.assume(top >= 0); kind = c.extra['terms'] = ('none', 'constants', 'some')[c.choose(3, 'terms')]; c.extra['top'] = top
        c.assume(top > 0 if kind == 'some' else top == 0)
        def mk(some):
            c = cur(); t = z3.Int(c.fresh('top')); c.assume(z3.And(t >= 0, t <= 1000000)); c.assume(t > 0 if some else t == 0)
            return make_term(Ops(t, distinct=False), alg.csym(c.fresh('coeff')), SInt(t))
        e = tuple.__new__(M.Expr, (Terms(mk),))
        c.prove(ze(e.n_qubits) == top, 'one more than the largest index, or 0'); c.prove(ze(e.max_n()) == top - 1, 'the largest index, or -1')
    run_explore(led, 'Expr.n_qubits', expr)
    def single():
        c = cur(); k = c.choose(4, 'operator'); n = ivar('n'); c.assume(n.e >= 0)
        op = M.I if k == 3 else (M.X, M.Y, M.Z)[k](n)
        c.prove(ze(op.n_qubits) == (n.e + 1 if k < 3 else 0), 'one more than the index, or 0')
        box = []; R = Poison('matrix'); A = SInt(z3.Int('A')); S = (None, 'csc')[c.choose(2, 'format')]
        old = M.Term.to_matrix
        def stub(self, *a, **kw): box.append((self, a, kw)); return R
        M.Term.to_matrix = stub
        try: r = op.to_matrix(A, sparse=S) if c.choose(2, 'size') == 0 else op.to_matrix(sparse=S)
        finally: M.Term.to_matrix = old
        if r is not R or len(box) != 1: bad('another way')
        t, a, kw = box[0]; kw = dict(kw)
        if a: kw['n_qubits'] = a[0]
        given = c.trace[c.pos - 1] == 0
        c.require(kw.get('n_qubits', -1) is A if given else kw.get('n_qubits', -1) == -1, 'for the size asked for'); c.require(kw.get('sparse') == S, 'in the format asked for')
        c.require(zero(Alg.of(t.coeff) - 1) and (tuple(t.ops) == () if k == 3 else len(t.ops) == 1 and t.ops[0] is op), 'the matrix of the operator itself')
    run_explore(led, 'Pauli.to_matrix', single)
    def table():
        c = cur(); import numpy
        for L in 'IXYZ':
            m = {'I': M.I, 'X': M.X, 'Y': M.Y, 'Z': M.Z}[L].matrix
            c.require(isinstance(m, numpy.ndarray) and m.shape == (2, 2) and all(zero(Alg.of(complex(m[i, j])) - SINGLE[L][i][j]) for i in (0, 1) for j in (0, 1)), 'the matrix of %s' % L)
    run_explore(led, 'matrix', table)
# ---------------------------------------------------------------- products of vectors
class Vec(Tok):
    """an array of unknown length"""
    def __init__(self, name, size): self.name, self.size = name, size
    def slen(self): return self.size
    def copy(self): return Rep1(self)
    def ravel(self): return self
class Rep1(Tok):
    def __init__(self, v): self.v = v
class Rep(Tok):
    """every entry k times"""
    def __init__(self, a, k): self.a, self.k = a, k
    def reshape(self, *s):
        if len(s) == 1 and isinstance(s[0], tuple): s = s[0]
        if len(s) != 2 or not same(s[1], self.k) or not (s[0] == -1 if isinstance(s[0], int) else same(s[0], self.a.size)): bad('reshape')
        return Outer(self.a, None, self.k)
class Outer(Tok):
    """rows by a, columns by b"""
    def __init__(self, a, b, k, flat=False): self.a, self.b, self.k, self.flat = a, b, k, flat
    def __imul__(self, b):
        if self.flat or self.b is not None or not isinstance(b, Vec) or not same(b.size, self.k): bad('product')
        self.b = b; return self
    def __mul__(self, b): r = Outer(self.a, self.b, self.k); r *= b; return r
    __rmul__ = __mul__
    def reshape(self, *s):
        if len(s) == 1 and s[0] == -1 or len(s) == 1 and isinstance(s[0], tuple) and len(s[0]) == 1: return Outer(self.a, self.b, self.k, True)
        bad('reshape')
    def ravel(self): return self.reshape(-1)
    flatten = ravel
def products(led):
    def kron():
        c = cur(); a, b = (Vec(k, ivar('size of ' + k)) for k in 'ab'); c.assume(z3.And(a.size.e >= 1, b.size.e >= 1))
        old = M.np
        outer = lambda x, y: Outer(x, y, y.size) if isinstance(x, Vec) and isinstance(y, Vec) else bad()
        M.np = shadows.Shadow(__import__('numpy'), dict(repeat=lambda x, k: Rep(x, k) if isinstance(x, Vec) else bad(), outer=outer, kron=lambda x, y: Outer(x, y, y.size, True), multiply=types.SimpleNamespace(outer=outer)))
        try: r = M._kron_1d(a, b)
        finally: M.np = old
        if not isinstance(r, Outer) or r.b is None or not r.flat: bad('another result')
        c.require(r.a is a and r.b is b, 'entry i * (size of b) + j is a[i] * b[j]')
    run_explore(led, '_kron_1d', kron)
    class Seg(Tok):
        def __init__(self, a, b): self.a, self.b = a, b
    class Krons(Tok):
        def __init__(self, m): self.m = m
        def __getitem__(self, i):
            c = cur(); e = ze(i)
            if not c.decide(z3.And(e >= 0, e < self.m)): raise Unsupported('an index outside of the list')
            return Seg(e, z3.simplify(e + 1))
        def slen(self): return SInt(self.m)
    class CumL(Tok):
        def __init__(self, m): self.m = m; self.S = z3.Function('cumulated', z3.IntSort(), z3.IntSort()); self.seen = []
        def at(self, e):
            c = cur(); v = self.S(e); c.assume(v >= 1)
            for o in self.seen: c.assume(z3.And(z3.Implies(o <= e, self.S(o) <= v), z3.Implies(e <= o, v <= self.S(o))))
            self.seen.append(e); return v
        def __getitem__(self, i):
            c = cur(); e = ze(i)
            if not c.decide(z3.And(e >= 0, e < self.m)): raise Unsupported('an index outside of the list')
            return SInt(self.at(e))
        def slen(self): return SInt(self.m)
    def rec(led):
        orig = M_rec
        def path():
            c = cur(); m, lo, hi = z3.Ints('m lo hi'); c.assume(z3.And(lo >= 0, lo < hi, hi <= m)); ks, cum = Krons(m), CumL(m)
            def kron(a, b):
                if not (isinstance(a, Seg) and isinstance(b, Seg)): bad('product')
                c.prove(a.b == b.a, 'the factors stay in order and none is left out'); return Seg(a.a, b.b)
            def again(k, cu, a, b):
                if k is not ks or cu is not cum: bad('another list')
                a, b = ze(a), ze(b)
                c.prove(z3.And(a >= lo, a < b, b <= hi), 'a part which is not empty'); c.prove(b - a < hi - lo, 'a smaller part'); return Seg(a, b)
            def bisect(x, v, a=0, b=None):
                if x is not cum or b is None: bad('bisect')
                a, b, v = ze(a), ze(b), ze(v); k = z3.Int(c.fresh('mid')); c.assume(z3.And(k >= a, k <= b))
                for e in list(cum.seen): c.assume(z3.And(z3.Implies(z3.And(e >= a, e < k), cum.S(e) < v), z3.Implies(z3.And(e >= k, e < b), cum.S(e) >= v)))
                return SInt(k)
            M._kron_1d, M._kron_1d_rec, M.bisect_left = kron, again, bisect
            M.reduce = lambda *a: bad('reduce')
            r = orig(ks, cum, SInt(lo), SInt(hi))
            if not isinstance(r, Seg): bad('another result')
            c.prove(z3.And(r.a == lo, r.b == hi), 'the product of all factors')
        run_explore(led, '_kron_1d_rec', path)
    rec(led)
M_rec = None
def run(led, tier='quick'):
    global M_rec
    loader.fresh(); m = loader.load('blueqat.pauli'); M_rec0 = m._kron_1d_rec
    module(); sizes_of(led); to_matrix(led, 'Term'); to_matrix(led, 'Expr')
    loader.fresh(); m = loader.load('blueqat.pauli')
    global M
    M = m; M_rec = m._kron_1d_rec
    products(led)
    p = 'blueqat.pauli.'
    for n, t in [('_kron_1d', 'any lengths'), ('_kron_1d_rec', 'any list and range, by recursion on its length'), ('_term_to_dataarray', 'through to_matrix'), ('_term_to_indices', 'through to_matrix'),
        ('Term.to_matrix', 'any term, number of qubits up to 62, every format'), ('Expr.to_matrix', 'any expression, number of qubits up to 62, every format'), ('_PauliImpl.to_matrix', 'any operator'),
        ('Term.n_qubits', 'any term'), ('Expr.n_qubits', 'any expression'), ('_PauliImpl.n_qubits', 'any operator')]: led.functions[p + n] = t
    led.need = 600
ASSUMPTIONS = ['simplify keeps the operator and gives terms which name a qubit at most once, never a larger qubit (C11)',
 'scipy.sparse: the constructors from (data, indices, indptr) and (data, (row, column)) and conversions between formats describe the same matrix; duplicates add up',
 'numpy: array, arange, repeat, cumsum, assignment to a stride, exclusive or with an integer; itertools.groupby gives runs of equal letters in order; sorted brings terms with equal keys together',
 'the entry (r, c) of a Kronecker product is the product over the qubits of the entries at their bits: a product of vectors over the factors of the list in reverse order has qubit 0 as the least significant bit',
 'a number of qubits below the one an expression needs as written, but enough once it is simplified, may be accepted or refused; negative numbers other than -1 are not considered; memory suffices']
EXPLANATION = ''
