"""numpy arrays of length 2**n with symbolic n, as functions of a 64-bit index.

Boolean-mask selection `a[m]` lists the selected elements in increasing index order.
Two selections are combined only after showing that one mask is the other translated by
a constant: translation preserves order, so the k-th elements correspond."""
import z3
from . import alg, core
from .alg import Alg, Unsupported
from .core import SInt, SBool, cur, BVW

def bv(k): return z3.BitVecVal(k, BVW)

class Dom:
    """index set 0 <= x < 2**n"""
    def __init__(self, n): self.n = n
    def size(self): return bv(1) << self.n
    def inside(self, x): return z3.ULT(x, self.size())
    def same(self, o): return self is o or cur().implied(self.n == o.n)
    def generic(self, nm='x'):
        x = z3.BitVec(cur().fresh(nm), BVW)
        cur().assume(self.inside(x))
        return x
    def slen(self): return SInt(z3.simplify(self.size()), p2=self.n)

def atoms(name):
    """content function of an arbitrary array called `name`"""
    def f(idx):
        c = cur()
        tab = c.extra.setdefault('atoms', {}).setdefault(name, [])
        idx = z3.simplify(idx)
        for j, old in tab:
            st = c.status(idx == j)
            if st is True: return old
            if st is None and c.decide(idx == j): return old
        a = alg.csym('%s[%d]' % (name, len(tab)))
        tab.append((idx, a))
        return a
    f.atom_name = name
    return f

def const(v):
    v = Alg.of(v)
    return lambda idx: v

def same_content(f, g, dom):
    """True when f(x) == g(x) for every x in the domain"""
    c = cur()
    if f is g: return True
    def go():
        x = dom.generic()
        d = c.norm(f(x) - g(x))
        return d.is_zero()
    return all(c.cases(go))

class IdxVec:
    """integer array, elementwise function of the position"""
    __array_ufunc__ = None
    vx_static = True
    def __init__(self, dom, f, bits=32): self.dom = dom; self.f = f; self.bits = bits
    def wrap(self, e):
        if self.bits == 32: return e & bv(0xffffffff)
        return e
    def other(self, o):
        if isinstance(o, IdxVec):
            if not self.dom.same(o.dom): raise Unsupported('array lengths')
            return o.f
        if isinstance(o, SInt):
            if not o.isbv: raise Unsupported('mathematical int with an index array')
            return lambda x: o.e
        if isinstance(o, int): return lambda x: bv(o)
        raise Unsupported('index array with %r' % type(o))
    def bv_binop(self, op, o, swap):
        g = self.other(o); f = self.f
        fn = {'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b,
              'add': lambda a, b: self.wrap(a + b), 'sub': lambda a, b: self.wrap(a - b) if not swap else self.wrap(b - a),
              'shl': lambda a, b: self.wrap(a << b) if not swap else self.wrap(b << a),
              'shr': lambda a, b: z3.LShR(a, b) if not swap else z3.LShR(b, a),
              'mul': lambda a, b: self.wrap(a * b),
              'mod': lambda a, b: z3.URem(a, b) if not swap else z3.URem(b, a),
              'div': lambda a, b: z3.UDiv(a, b) if not swap else z3.UDiv(b, a)}[op]
        return IdxVec(self.dom, lambda x: fn(f(x), g(x)), self.bits)
    def __and__(self, o): return self.bv_binop('and', o, False)
    __rand__ = __and__
    def __or__(self, o): return self.bv_binop('or', o, False)
    __ror__ = __or__
    def __xor__(self, o): return self.bv_binop('xor', o, False)
    __rxor__ = __xor__
    def __add__(self, o): return self.bv_binop('add', o, False)
    __radd__ = __add__
    def __sub__(self, o): return self.bv_binop('sub', o, False)
    def __rsub__(self, o): return self.bv_binop('sub', o, True)
    def __lshift__(self, o): return self.bv_binop('shl', o, False)
    def __rshift__(self, o): return self.bv_binop('shr', o, False)
    def __mod__(self, o): return self.bv_binop('mod', o, False)
    def __floordiv__(self, o): return self.bv_binop('div', o, False)
    def __mul__(self, o): return self.bv_binop('mul', o, False)
    __rmul__ = __mul__
    def cmp(self, o, fn):
        g = self.other(o); f = self.f
        return BoolVec(self.dom, lambda x: fn(f(x), g(x)))
    def __eq__(self, o): return self.cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self.cmp(o, lambda a, b: a != b)
    def __lt__(self, o): return self.cmp(o, z3.ULT)
    def __gt__(self, o): return self.cmp(o, z3.UGT)
    def __le__(self, o): return self.cmp(o, z3.ULE)
    def __ge__(self, o): return self.cmp(o, z3.UGE)
    __hash__ = None
    def astype(self, ty):
        if ty is bool or str(ty) == 'bool': return self != 0
        return self
    def __iter__(self): raise Unsupported('iteration over an index array')
    def copy(self): return IdxVec(self.dom, self.f, self.bits)

class BoolVec:
    __array_ufunc__ = None
    def __init__(self, dom, f): self.dom = dom; self.f = f
    def oth(self, o):
        if isinstance(o, BoolVec):
            if not self.dom.same(o.dom): raise Unsupported('array lengths')
            return o.f
        if isinstance(o, (bool, SBool)): return lambda x: core.zb(o)
        raise Unsupported('mask with %r' % type(o))
    def __and__(self, o):
        f, g = self.f, self.oth(o)
        return BoolVec(self.dom, lambda x: z3.And(f(x), g(x)))
    __rand__ = __and__
    __mul__ = __and__
    def __or__(self, o):
        f, g = self.f, self.oth(o)
        return BoolVec(self.dom, lambda x: z3.Or(f(x), g(x)))
    __ror__ = __or__
    def __xor__(self, o):
        f, g = self.f, self.oth(o)
        return BoolVec(self.dom, lambda x: z3.Xor(f(x), g(x)))
    __rxor__ = __xor__
    def __eq__(self, o):
        f, g = self.f, self.oth(o)
        return BoolVec(self.dom, lambda x: f(x) == g(x))
    def __ne__(self, o): return self ^ o
    __hash__ = None
    def __iand__(self, o): self.f = (self & o).f; return self
    def __ior__(self, o): self.f = (self | o).f; return self
    def __ixor__(self, o): self.f = (self ^ o).f; return self
    def __invert__(self):
        f = self.f
        return BoolVec(self.dom, lambda x: z3.Not(f(x)))
    def copy(self): return BoolVec(self.dom, self.f)
    def snap(self): return BoolVec(self.dom, self.f)
    def __bool__(self): raise ValueError('The truth value of an array with more than one element is ambiguous')
    def __iter__(self): raise Unsupported('iteration over a mask')

def shift_between(m1, m2):
    """d with  m1(x) <=> m2(x+d)  on the domain, or None"""
    c = cur()
    dom = m1.dom
    x = z3.BitVec('x!shift', BVW)
    f1 = z3.simplify(m1.f(x)); f2 = z3.simplify(m2.f(x))
    key = ('shift', f1.get_id(), f2.get_id())
    memo = c.extra.setdefault('shifts', {})
    if key in memo: return memo[key][0]
    cands = [bv(0)]
    ts = c.extra.get('qubits', [])
    one = [bv(1) << t for t in ts]
    cands += one + [-o for o in one]
    for i, a in enumerate(one):
        for j, b in enumerate(one):
            if i < j: cands += [a + b, -(a + b), a - b, b - a]
    for d in cands:
        y = x + d
        # forward: x in m1 -> x+d in domain and in m2 ; backward: y in m2 -> y-d in domain and in m1
        bad = z3.Or(z3.And(dom.inside(x), f1, z3.Not(z3.And(dom.inside(y), z3.substitute(f2, (x, y))))),
                    z3.And(dom.inside(x), f2, z3.Not(z3.And(dom.inside(x - d), z3.substitute(f1, (x, x - d))))))
        if c.check(bad) == z3.unsat:
            memo[key] = (d, f1, f2)
            return d
    memo[key] = (None, f1, f2)
    return None

class SelVec:
    """selected elements in increasing order; f gives the element by its original index"""
    __array_ufunc__ = None
    def __init__(self, mask, f): self.mask = mask; self.f = f
    @property
    def dom(self): return self.mask.dom
    def lift(self, o):
        """o as a function of my indices"""
        if isinstance(o, SelVec):
            d = shift_between(self.mask, o.mask)
            if d is None: raise Unsupported('selections which are not translates of each other')
            g = o.f
            return lambda x: g(z3.simplify(x + d))
        a = Alg.of(o)
        if a is None: raise Unsupported('selection with %r' % type(o))
        return lambda x: a
    def _b(self, o, fn):
        f, g = self.f, self.lift(o)
        return SelVec(self.mask, lambda x: fn(f(x), g(x)))
    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._b(o, lambda a, b: a / b)
    def __neg__(self):
        f = self.f
        return SelVec(self.mask, lambda x: -f(x))
    def conj(self):
        f = self.f
        return SelVec(self.mask, lambda x: f(x).conjugate())
    conjugate = conj
    def copy(self): return SelVec(self.mask, self.f)
    def __iadd__(self, o): self.f = (self + o).f; return self
    def __isub__(self, o): self.f = (self - o).f; return self
    def __imul__(self, o): self.f = (self * o).f; return self
    def __itruediv__(self, o): self.f = (self / o).f; return self
    def __iter__(self): raise Unsupported('iteration over a selection')

class SymArr:
    """mutable complex array"""
    __array_ufunc__ = None
    def __init__(self, dom, f, dtype='complex128'): self.dom = dom; self.f = f; self.dtype = dtype; self.version = 0
    def __len__(self): raise Unsupported('len() needs a machine int')
    def slen(self): return self.dom.slen()
    @property
    def size(self): return self.slen()
    @property
    def shape(self): return (self.slen(),)
    def set(self, f): self.f = f; self.version += 1
    def lift(self, o):
        if isinstance(o, SymArr):
            if not self.dom.same(o.dom): raise Unsupported('array lengths')
            return o.f
        a = Alg.of(o)
        if a is None: raise Unsupported('array with %r' % type(o))
        return lambda x: a
    def _b(self, o, fn):
        f, g = self.f, self.lift(o)
        return SymArr(self.dom, lambda x: fn(f(x), g(x)))
    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._b(o, lambda a, b: a / b)
    def __neg__(self): return self * -1
    def __iadd__(self, o): self.set((self + o).f); return self
    def __isub__(self, o): self.set((self - o).f); return self
    def __imul__(self, o): self.set((self * o).f); return self
    def __itruediv__(self, o): self.set((self / o).f); return self
    def conj(self):
        f = self.f
        return SymArr(self.dom, lambda x: f(x).conjugate())
    conjugate = conj
    def copy(self): return SymArr(self.dom, self.f, self.dtype)
    def fill(self, v):
        a = Alg.of(v); self.set(lambda x: a)
    def mask_of(self, m):
        if isinstance(m, BoolVec):
            if not self.dom.same(m.dom): raise Unsupported('mask length')
            return m.snap()
        return None
    def idx_of(self, i):
        if isinstance(i, SInt):
            e = i.e
            if not i.isbv: raise Unsupported('mathematical index')
        elif isinstance(i, int): e = bv(i)
        else: return None
        if not cur().implied(self.dom.inside(e)):
            if isinstance(i, int) and i < 0:
                e = self.dom.size() + bv(i)
            if not cur().implied(self.dom.inside(e)):
                raise Unsupported('index not shown to be in range')
        return e
    def __getitem__(self, k):
        m = self.mask_of(k)
        if m is not None: return SelVec(m, self.f)
        e = self.idx_of(k)
        if e is not None:
            p = cur().extra.get('par')
            if p is not None: p.touch(self, e, False)
            return self.f(e)
        if isinstance(k, slice) and k == slice(None): return self
        if isinstance(k, IdxVec):
            f, g = self.f, k.f
            if not self.dom.same(k.dom): raise Unsupported('gather length')
            x = z3.BitVec('x!g', BVW)
            if cur().check(self.dom.inside(x), z3.Not(self.dom.inside(g(x)))) != z3.unsat:
                raise Unsupported('gather out of range')
            return SymArr(self.dom, lambda y: f(z3.simplify(g(y))))
        raise Unsupported('array index %r' % type(k))
    def __setitem__(self, k, v):
        m = self.mask_of(k)
        if m is not None and cur().extra.get('par') is not None: raise Unsupported('masks in a parallel loop')
        old = self.f
        if m is not None:
            if isinstance(v, SelVec):
                g = SelVec(m, None).lift(v)
            elif isinstance(v, SymArr):
                raise Unsupported('mask assignment from a whole array')
            else:
                a = Alg.of(v)
                if a is None: raise Unsupported('assigning %r' % type(v))
                g = lambda x: a
            mf = m.f
            self.set(lambda x: g(x) if cur().decide(mf(x)) else old(x))
            return
        e = self.idx_of(k)
        if e is not None:
            a = Alg.of(v)
            p = cur().extra.get('par')
            if p is not None: p.touch(self, e, True); old = self.f
            self.set(lambda x: a if cur().decide(x == e) else old(x))
            return
        if isinstance(k, slice) and k == slice(None):
            self.set(self.lift(v)); return
        if isinstance(k, IdxVec) and isinstance(v, SymArr):
            raise Unsupported('scatter')
        raise Unsupported('array index %r' % type(k))
    def __eq__(self, o): raise Unsupported('array comparison')
    __hash__ = object.__hash__
    def __iter__(self): raise Unsupported('iteration over a symbolic array')
    # -- loop rule
    def classify(self, lp, initial):
        if initial:
            if lp.spec is not None and lp.spec.is_state(lp, self): return 'F'
            return 'entry'
        if lp.spec is not None and lp.F is not None and hasattr(lp.spec, 'step'):
            try:
                if same_content(self.f, lp.spec.step(lp.F, lp.item, lp), self.dom): return 'F'
            except Unsupported:
                raise
        h = getattr(lp, 'entry_arr', {}).get(id(self))
        if h is not None and h == self.version: return 'entry'
        return 'any'
    @staticmethod
    def concretize(lp, j, tag, mode, ent):
        dom = lp.spec.dom if lp.spec is not None else (ent.dom if ent is not None else None)
        if tag == 'entry':
            lp.entry_arr = getattr(lp, 'entry_arr', {})
            lp.entry_arr[id(ent)] = ent.version
            return ent
        if dom is None: raise Unsupported('array made in the loop')
        if tag == 'F':
            if mode == 'body':
                f = atoms('F')
                lp.F = f
                if hasattr(lp.spec, 'at_head'): lp.spec.at_head(lp)
            else:
                f = lp.spec.at_exit(lp) if hasattr(lp.spec, 'at_exit') else atoms('Fold')
                cur().extra['fold_exit'] = f
                lp.F = f
        else: f = atoms(cur().fresh('havoc'))
        if ent is not None and ent.dom is dom:
            ent.set(f); return ent
        return SymArr(dom, f)

def norm_of(v):
    """np.linalg.norm: a symbol N with N**2 = p, p registered with what it sums"""
    c = cur()
    reg = c.extra.setdefault('norms', [])
    if isinstance(v, SelVec): mask, f = v.mask, v.f
    elif isinstance(v, SymArr): mask, f = BoolVec(v.dom, lambda x: z3.BoolVal(True)), v.f
    else: raise Unsupported('norm')
    p = sum_register(mask, f)
    return alg.sqrt(p)

def covers(dom, fn):
    """fn(generic index) holds on every case of the domain"""
    def go():
        return bool(fn(dom.generic()))
    return all(cur().cases(go))
def normalised(f, dom):
    return any(f is g or same_content(f, g, dom) for g in cur().extra.get('normalised', []))
def ratio(a, b):
    """c free of array elements with a == c*b, or None"""
    c = cur()
    a, b = c.norm(a), c.norm(b)
    if a.is_zero(): return Alg.of(0)
    if len(b.t) != 1: return None
    try: r = a * b.inv()
    except ZeroDivisionError: return None
    if any('[' in alg.TABLE[s].name and alg.TABLE[s].kind not in ('inv', 'sqrt') for s in r.syms()): return None
    return r
def unit(v): return Alg.of(1) if (v - 1).is_zero() else Alg.of(0) if v.is_zero() else v
def sum_register(mask, f, kind='norm2'):
    """sum of |f(x)|^2 over the mask: a symbol, the same one for the same sum; 0 when f is
    zero there, |c|^2 times a known sum when f is c times its terms (possibly shifted),
    1 - p for the complement of a known part of a normalised vector, 1 for the whole"""
    c = cur()
    reg = c.extra.setdefault('norms', [])
    dom = mask.dom
    if covers(dom, lambda y: not c.decide(mask.f(y)) or c.norm(f(y)).is_zero()): return Alg.of(0)
    x = z3.BitVec('x!n', BVW)
    whole = c.check(dom.inside(x), z3.Not(mask.f(x))) == z3.unsat
    if whole and normalised(f, dom): return Alg.of(1)
    for p, m2, f2 in reg:
        for m, val in ((m2, lambda: p), (~m2, lambda: Alg.of(1) - p)):
            if m is not m2 and not normalised(f2, dom): continue
            d = shift_between(mask, m)
            if d is None: continue
            rs = []
            def go():
                y = dom.generic()
                if not c.decide(mask.f(y)): return True
                a, b = f(y), f2(z3.simplify(y + d))
                if c.norm(a).is_zero() and c.norm(b).is_zero(): return True
                if c.norm(a - b).is_zero(): rs.append(Alg.of(1)); return True
                r = ratio(a, b)
                rs.append(r); return r is not None
            if all(c.cases(go)) and all((r - rs[0]).is_zero() for r in rs): return unit(val() * rs[0] * rs[0].conjugate())
    if whole:
        for q in c.extra.get('qubits', []):
            halves = [BoolVec(dom, lambda y, v=v: (z3.LShR(y, q) & bv(1)) == bv(v)) for v in (0, 1)]
            if any(covers(dom, lambda y: not c.decide(h.f(y)) or c.norm(f(y)).is_zero()) for h in halves):
                return sum_register(halves[0], f) + sum_register(halves[1], f)
    p = alg.rsym('p%d' % len(reg))
    reg.append((p, mask, f))
    return p
