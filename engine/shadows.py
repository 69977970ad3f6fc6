"""Stand-ins for builtins and library modules in the symbolically executed code.
Each falls through to the real object when no argument is symbolic; what it does on
symbolic arguments is an assumed contract on the dependency (see TRUSTED)."""
import builtins, math, cmath, types, sys, numbers, collections, itertools, functools, random as _random
import z3
from fractions import Fraction
from . import alg, core, seqs, arrays
from .alg import Alg, Unsupported
from .core import SInt, SBool, cur, BVW
from .arrays import SymArr, SelVec, BoolVec, IdxVec, Dom
from .seqs import SymSeq, SymRepeat

TRUSTED = [
 'CPython evaluates the rewritten code as the language reference says',
 'numpy: zeros/arange/copyto/boolean-mask get and set, elementwise arithmetic, sqrt/cos/sin, linalg.norm behave as documented',
 'math/cmath: sin, cos, sqrt, exp, pi are the mathematical functions',
 'floating point is treated as exact real/complex arithmetic; 32-bit indices do not wrap (n <= 31)',
]

def sym(x):
    return isinstance(x, (Alg, SInt, SBool, SymArr, SelVec, BoolVec, IdxVec, SymSeq))

# ------------------------------------------------------------- builtins
_isinstance = builtins.isinstance
def _one(x, t):
    if isinstance(x, Alg):
        if t in (Alg, object): return True
        kind = getattr(x, 'pykind', None)
        if t is complex: return False
        if t in (float, numbers.Number, numbers.Complex, numbers.Real): return True
        return False
    if isinstance(x, SInt):
        return t in (SInt, int, object, numbers.Number, numbers.Integral, numbers.Real, numbers.Complex, numbers.Rational)
    if isinstance(x, SBool): return t in (SBool, bool, int, object, numbers.Number, numbers.Integral)
    if isinstance(x, (SymSeq,)):
        k = getattr(x, 'pytype', None)
        if t in (tuple, list):
            if k is None: raise Unsupported('type of a symbolic sequence')
            return t is k
        return t in (SymSeq, object)
    hook = getattr(type(x), 'vx_isinstance', None)
    if hook is not None:
        r = hook(x, t)
        if r is not None: return r
    return _isinstance(x, t)
def s_isinstance(x, t):
    if _isinstance(t, tuple): return any(s_isinstance(x, u) for u in t)
    if _isinstance(t, types.UnionType): return any(s_isinstance(x, u) for u in t.__args__)
    return _one(x, t)
def s_len(x):
    f = getattr(x, 'slen', None)
    if f is not None: return f()
    norun(x)
    return len(x)
class SymRange(SymSeq):
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step
        self.name = 'range'; self.length = None; self.reversed_ = False; self.spec = None; self.src = self
        ks = [v.isbv for v in (start, stop, step) if isinstance(v, SInt)]
        self.bv = any(ks)
        self.pytype = range
    def elem(self, tag):
        c = cur()
        if not isinstance(self.step, int) or abs(self.step) != 1:
            if self.bv: raise Unsupported('range with this step')
            k = core.ivar(c.fresh('k')); c.assume(k.e >= 0)
            i = self.start + k * self.step
            c.assume(self.before(i.e)); c.extra['range_k'] = k
            return i
        i = (core.bvar if self.bv else core.ivar)(c.fresh('i'))
        c.assume(self.contains(i.e))
        return i
    def nth(self, k):
        L = SInt(k).lift
        return L(self.start) + k * L(self.step)
    def before(self, e):
        L = SInt(e).lift
        st = L(self.step)
        return z3.Or(z3.And(st > 0, e < L(self.stop)), z3.And(st < 0, e > L(self.stop)))
    def contains(self, e):
        st, sp, k = self.start, self.stop, self.step
        one = SInt(e)
        L = one.lift
        if isinstance(k, int) and k == 1:
            return z3.And(e >= L(st), e < L(sp))
        if isinstance(k, int) and k == -1:
            return z3.And(e <= L(st), e > L(sp))
        raise Unsupported('range with this step')
    def slen(self):
        if isinstance(self.step, int) and self.step == 1:
            d = self.stop - self.start
            return d if d > 0 else 0
        return SymSeq.slen(self)
    def rev(self): 
        if self.step == 1: return SymRange(self.stop - 1, self.start - 1, -1)
        if self.step == -1: return SymRange(self.stop + 1, self.start + 1, 1)
        raise Unsupported('reversed range')
def s_range(*a):
    if any(isinstance(x, SInt) for x in a):
        if len(a) == 1: st, sp, k = 0, a[0], 1
        elif len(a) == 2: st, sp, k = a[0], a[1], 1
        else: st, sp, k = a
        h = cur().extra.get('range_hook')
        if h is not None:
            r = h(st, sp, k)
            if r is not None: return r
        return SymRange(st, sp, k)
    return range(*a)
def norun(x):
    if _isinstance(x, (list, tuple)) and any(getattr(e, 'vx_run', False) for e in (list.__iter__(x) if _isinstance(x, list) else tuple.__iter__(x))): raise Unsupported('elements of a list of unknown length')
def s_zip(*a, **k):
    for x in a:
        if hasattr(x, 'vx_zip') and not k: return x.vx_zip(a)
    for x in a: norun(x)
    if any(isinstance(x, SymSeq) for x in a):
        if not all(isinstance(x, SymSeq) for x in a): raise Unsupported('zip of symbolic and concrete')
        srcs = {id(x.src) for x in a}
        n0 = a[0]
        for x in a[1:]:
            if x.slen() is not n0.slen() and not cur().implied(x.slen().e == n0.slen().e): raise Unsupported('zip of unequal lengths')
        s = SymSeq('zip(%s)' % ','.join(x.name for x in a), lambda tag: tuple(x.elem(tag) for x in a), n0.length)
        return s
    return zip(*a, **k)
def s_enumerate(it, start=0):
    if hasattr(it, 'vx_enumerate'): return it.vx_enumerate(start)
    norun(it)
    if isinstance(it, SymSeq):
        def el(tag):
            i = core.ivar(cur().fresh('i')); cur().assume(i.e >= start)
            return (i, it.elem(tag))
        return SymSeq('enumerate(%s)' % it.name, el, it.length)
    return enumerate(it, start)
def s_reversed(it):
    if isinstance(it, SymSeq): return it.rev()
    h = getattr(it, 'vx_reversed', None)
    if h is not None: return h()
    return reversed(it)
def _mkseq(ty):
    def f(*a):
        if a and isinstance(a[0], SymSeq): return a[0]
        if a and hasattr(a[0], 'vx_seq'): return a[0].vx_seq(ty)
        return ty(*a)
    return f
def _minmax(name):
    real = getattr(builtins, name)
    def f(*a, **k):
        if len(a) == 1 and hasattr(a[0], 'vx_minmax'): return a[0].vx_minmax(name, k)
        if len(a) == 1 and isinstance(a[0], SymSeq):
            return seqs.seq_minmax(name, a[0], k)
        vals = list(a[0]) if len(a) == 1 else list(a)
        if any(isinstance(v, (SInt, Alg)) for v in vals) and 'key' not in k:
            best = vals[0]
            for v in vals[1:]:
                if isinstance(best, int) and isinstance(v, int): best = real(best, v); continue
                x = best if isinstance(best, SInt) else v
                if isinstance(x, SInt):
                    p, q = x.lift(best), x.lift(v)
                    best = SInt(z3.simplify(z3.If(q > p, q, p) if name == 'max' else z3.If(q < p, q, p)))
                else:
                    if (v > best) if name == 'max' else (v < best): best = v
            return best
        if len(a) == 1: return real(vals, **k)
        return real(*a, **k)
    return f
def s_sum(it, start=0):
    h = getattr(it, 'vx_sum', None)
    if h is not None: return h(start)
    if isinstance(it, SymSeq):
        h = cur().extra.get('sum_hook')
        if h: return h(it, start)
        raise Unsupported('sum over symbolic sequence')
    tot = start
    for x in it: tot = tot + x
    return tot
class HashVal:
    """the hash of a tuple with symbolic parts; equal parts, equal hash"""
    vx_static = True
    def __init__(self, parts): self.parts = parts
    def __repr__(self): return 'hash%r' % (self.parts,)
def s_hash(x):
    def flat(v):
        if isinstance(v, (SInt, Alg)): return v
        if type(v) is tuple or isinstance(v, tuple) and type(v).__hash__ is tuple.__hash__: return tuple(flat(u) for u in tuple.__iter__(v))
        h = type(v).__hash__
        r = h(v) if h is not None else hash(v)
        return r if isinstance(r, HashVal) else v if isinstance(v, (str, int, float, complex, type(None))) else r
    def sym(v): return isinstance(v, (SInt, Alg, HashVal)) or isinstance(v, tuple) and any(map(sym, v))
    f = flat(x)
    return f if isinstance(f, HashVal) else HashVal(f) if sym(f) else hash(x)
def s_any(it):
    if hasattr(it, 'vx_any'): return it.vx_any()
    if isinstance(it, SymSeq): return it.vx_any() if hasattr(it, 'vx_any') else _quant(it, 'any')
    norun(it)
    for x in it:
        if x: return True
    return False
def s_all(it):
    if hasattr(it, 'vx_all'): return it.vx_all()
    if isinstance(it, SymSeq): return it.vx_all() if hasattr(it, 'vx_all') else _quant(it, 'all')
    norun(it)
    for x in it:
        if not x: return False
    return True
def _quant(it, k):
    return seqs.seq_any(it) if k == 'any' else seqs.seq_all(it)
def s_int(*a, **k):
    if a and hasattr(type(a[0]), 'vx_int'): return a[0].vx_int(*a[1:], **k)
    if a and isinstance(a[0], SInt): return a[0]
    if a and isinstance(a[0], SBool): return SInt(z3.If(a[0].e, z3.IntVal(1), z3.IntVal(0)))
    return int(*a, **k)
def s_float(*a):
    if a and isinstance(a[0], Alg): return a[0]
    if a and isinstance(a[0], SInt): return a[0].__alg__()
    return float(*a)
def s_complex(*a):
    if any(sym(x) for x in a):
        re_ = Alg.of(a[0]); im_ = Alg.of(a[1]) if len(a) > 1 else Alg({})
        return re_ + alg.I * im_
    return complex(*a)
def s_abs(x):
    return abs(x)
def s_str(*a):
    return str(*a)
def s_bool(*a):
    return bool(*a)
def s_getattr(o, name, *d):
    if getattr(name, 'vx_static', False): name = str.__str__(name)
    return getattr(o, name, *d)
def s_hasattr(o, name):
    if getattr(name, 'vx_static', False):
        if _isinstance(o, type):
            from .opaque import either
            return either(('hasattr', o.__name__, name.key), '%s has attribute %s' % (o.__name__, name.label))
        name = str.__str__(name)
    return hasattr(o, name)
def s_next(it, *d):
    if isinstance(it, SymSeq): raise Unsupported('next of symbolic sequence')
    norun(it)
    return next(it, *d)
def s_sorted(it, **k):
    h = getattr(it, 'vx_sorted', None)
    if h is not None: return h(k)
    if isinstance(it, SymSeq): raise Unsupported('sorted symbolic sequence')
    return sorted(it, **k)
def s_iter(it, *a):
    if isinstance(it, SymSeq): return it
    h = getattr(it, 'vx_iter', None)
    if h is not None and not a: return h()
    norun(it)
    return iter(it, *a)
def s_divmod(a, b):
    if isinstance(a, SInt) or isinstance(b, SInt): return a // b, a % b
    return divmod(a, b)
def s_pow(a, b, *m):
    if not m: return a ** b
    return pow(a, b, *m)

def s_map(f, *its):
    if len(its) == 1:
        it = its[0]
        if isinstance(it, SymSeq): return sym_comp('gen', it, f, None, False)
        h = getattr(it, 'vx_comp', None)
        if h is not None: return h('gen', f, None, False)
    return map(f, *its)
class _TypeShadow(type):
    """lets `int`, `list`... stay usable as types while calls go through the shadow"""
def type_shadow(real, fn):
    return _Callable(real, fn)
class _Meta(type):
    def __instancecheck__(cls, x): return s_isinstance(x, cls.vx_real)
    def __eq__(cls, o): return o is cls or o is cls.vx_real
    def __hash__(cls): return hash(cls.vx_real)
    def __getattr__(cls, n): return getattr(cls.vx_real, n)
    def __subclasscheck__(cls, s): return issubclass(s, cls.vx_real)
    def __call__(cls, *a, **k): return cls.vx_fn(*a, **k)
    def __or__(cls, o): return (cls, o)
def mk(real, fn):
    return _Meta(real.__name__, (), {'vx_real': real, 'vx_fn': staticmethod(fn)})

s_int_t = mk(int, s_int); s_float_t = mk(float, s_float); s_complex_t = mk(complex, s_complex)
s_list_t = mk(list, _mkseq(list)); s_tuple_t = mk(tuple, _mkseq(tuple))
s_range_t = mk(range, s_range)
_unreal = {}
for _t in (s_int_t, s_float_t, s_complex_t, s_list_t, s_tuple_t, s_range_t): _unreal[_t] = _t.vx_real
def real_type(t): return getattr(t, 'vx_real', t) if isinstance(type(t), type) and type(t) is _Meta else t
_old_one = _one
def _one(x, t):
    return _old_one(x, t.vx_real if type(t) is _Meta else t)
def s_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SInt): return s_int_t
        if isinstance(x, Alg): return s_float_t
        t = type(x)
        for sh, r in _unreal.items():
            if r is t: return sh
        return t
    return type(*a)
s_type_t = _Meta('type', (), {'vx_real': type, 'vx_fn': staticmethod(s_type)})

BUILTINS = dict(isinstance=s_isinstance, len=s_len, range=s_range_t, zip=s_zip, enumerate=s_enumerate,
    reversed=s_reversed, list=s_list_t, tuple=s_tuple_t, max=_minmax('max'), min=_minmax('min'), sum=s_sum, hash=s_hash,
    any=s_any, all=s_all, int=s_int_t, float=s_float_t, complex=s_complex_t, abs=s_abs, next=s_next,
    sorted=s_sorted, map=s_map, getattr=s_getattr, hasattr=s_hasattr, iter=s_iter, divmod=s_divmod, pow=s_pow)

def sym_comp(kind, it, f, cond, star):
    if cond is not None: raise Unsupported('filtered comprehension over a symbolic sequence')
    g = (lambda e: f(*e)) if star else f
    s = it.mapped(g, it.name + '.comp')
    s.pytype = list if kind == 'list' else None
    if kind in ('list', 'gen'): return s
    raise Unsupported('%s comprehension over a symbolic sequence' % kind)

# ------------------------------------------------------------- math
class Shadow(types.ModuleType):
    def __init__(self, real, over):
        super().__init__(real.__name__)
        self.__dict__['_real'] = real
        self.__dict__.update(over)
    def __getattr__(self, n): return getattr(self.__dict__['_real'], n)

def lift1(real, f):
    def g(x, *a, **k):
        if isinstance(x, (Alg, SInt)): return f(Alg.of(x))
        return real(x, *a, **k)
    return g
def exact1(f, real):
    """exact on symbolic and on concrete arguments alike"""
    def g(x):
        a = Alg.of(x)
        if a is None: return real(x)
        return f(a)
    return g
def tan(a): return alg.sin(a) / alg.cos(a)
MATH = Shadow(math, dict(pi=alg.PI, tau=alg.PI * 2, sin=exact1(alg.sin, math.sin), cos=exact1(alg.cos, math.cos), sqrt=exact1(alg.sqrt, math.sqrt), tan=exact1(tan, math.tan)))
def cexp(z): return alg.exp(z)
def polar(r, phi): return None
CMATH = Shadow(cmath, dict(pi=alg.PI, exp=exact1(cexp, cmath.exp), sin=exact1(alg.sin, cmath.sin), cos=exact1(alg.cos, cmath.cos), sqrt=exact1(alg.sqrt, cmath.sqrt),
    rect=lambda r, p: Alg.of(r) * alg.exp_i(Alg.of(p))))

# ------------------------------------------------------------- random
def rnd():
    c = cur()
    k = c.extra.get('n_rand', 0); c.extra['n_rand'] = k + 1
    u = alg.rsym('u%d' % k)
    c.extra.setdefault('rands', []).append(u)
    # 0 <= u < 1
    c.known['lt', u.key()] = False; c.known['lt', (u - 1).key()] = True
    return u
RANDOM = Shadow(_random, dict(random=rnd))

# ------------------------------------------------------------- numpy
import numpy as _np
def _dim(shape):
    if isinstance(shape, tuple) and len(shape) == 1: shape = shape[0]
    if isinstance(shape, SInt):
        if shape.p2 is None: raise Unsupported('array whose length is not a power of two')
        return Dom(shape.p2)
    return None
def np_zeros(shape, dtype=float, **k):
    d = _dim(shape)
    if d is not None: return SymArr(d, arrays.const(0), dt(dtype))
    return _np.zeros(shape, real_type(dtype), **k)
def np_empty(shape, dtype=float, **k):
    d = _dim(shape)
    if d is not None: return SymArr(d, arrays.atoms(cur().fresh('empty')), dt(dtype))
    return _np.empty(shape, real_type(dtype), **k)
def np_empty_like(a, **k):
    if isinstance(a, SymArr): return SymArr(a.dom, arrays.atoms(cur().fresh('empty')), a.dtype)
    return _np.empty_like(a, **k)
def np_zeros_like(a, **k):
    if isinstance(a, SymArr): return SymArr(a.dom, arrays.const(0), a.dtype)
    return _np.zeros_like(a, **k)
def dt(d):
    d = real_type(d)
    return _np.dtype(d)
def np_arange(*a, dtype=None, **k):
    if len(a) == 1 and isinstance(a[0], SInt):
        d = _dim(a[0])
        if dtype is not None and _np.dtype(dtype).itemsize < 4: raise Unsupported('indices of %r' % _np.dtype(dtype))
        return IdxVec(d, lambda x: x, 32 if dtype is not None and _np.dtype(dtype).itemsize == 4 else 64)
    return _np.arange(*a, dtype=dtype, **k)
def np_copyto(dst, src, **k):
    if isinstance(dst, SymArr):
        if 'where' in k:
            w = k['where']; g = dst.lift(src); old = dst.f; mf = w.snap().f
            dst.set(lambda x: g(x) if cur().decide(mf(x)) else old(x)); return
        dst.set(dst.lift(src)); return
    return _np.copyto(dst, src, **k)
def np_array(x, *a, **k):
    if isinstance(x, SymArr): return x.copy()
    return _np.array(x, *a, **k)
def np_asarray(x, *a, **k):
    if isinstance(x, SymArr): return x
    return _np.asarray(x, *a, **k)
def np_where(*a):
    if len(a) == 3 and isinstance(a[0], BoolVec):
        m = a[0].snap(); d = m.dom
        t = SymArr(d, None)
        f, g = t.lift(a[1]), t.lift(a[2]); mf = m.f
        return SymArr(d, lambda x: f(x) if cur().decide(mf(x)) else g(x))
    return _np.where(*a)
def np_bool(fn, real):
    def g(*a, **k):
        if any(isinstance(x, (BoolVec,)) for x in a): return fn(*a)
        return real(*a, **k)
    return g
def np_bit(op, real):
    def g(a, b, **k):
        if isinstance(a, (IdxVec, BoolVec)): return getattr(a, '__%s__' % op)(b)
        if isinstance(b, (IdxVec, BoolVec)): return getattr(b, '__%s__' % op)(a)
        return real(a, b, **k)
    return g
def np_norm(x, *a, **k):
    if isinstance(x, (SelVec, SymArr)):
        if a or k: raise Unsupported('norm options')
        return arrays.norm_of(x)
    return _np.linalg.norm(x, *a, **k)
def np_sum(x, *a, **k):
    if isinstance(x, (SelVec, SymArr)): raise Unsupported('np.sum of symbolic array')
    return _np.sum(x, *a, **k)
def np_vdot(a, b):
    if isinstance(a, SelVec) and isinstance(b, SelVec):
        if arrays.shift_between(a.mask, b.mask) is None: raise Unsupported('vdot')
        def go():
            x = a.mask.dom.generic()
            if not cur().decide(a.mask.f(x)): return True
            return cur().norm(a.f(x) - b.f(x)).is_zero()
        if all(cur().cases(go)): return arrays.sum_register(a.mask, a.f)
        raise Unsupported('vdot of different vectors')
    if sym(a) or sym(b): raise Unsupported('vdot')
    return _np.vdot(a, b)
def np_isclose(a, b, *r, **k):
    if sym(a) or sym(b): raise Unsupported('isclose')
    return _np.isclose(a, b, *r, **k)
LINALG = Shadow(_np.linalg, dict(norm=np_norm))
def u64(x):
    if isinstance(x, SInt): return x
    return _np.uint64(x)
def angle_abs(x):
    if isinstance(x, Alg): return abs(x)
    return _np.abs(x)
def np_exp(x):
    a = Alg.of(x)
    return alg.exp(a) if a is not None else _np.exp(x)
def np_mk(real, f):
    def g(x, *a, **k):
        v = Alg.of(x)
        if v is None: return real(x, *a, **k)
        return f(v)
    return g
NUMPY = Shadow(_np, dict(zeros=np_zeros, empty=np_empty, empty_like=np_empty_like, zeros_like=np_zeros_like, arange=np_arange, copyto=np_copyto,
    array=np_array, asarray=np_asarray, where=np_where, sqrt=np_mk(_np.sqrt, alg.sqrt), cos=np_mk(_np.cos, alg.cos), sin=np_mk(_np.sin, alg.sin),
    exp=np_mk(_np.exp, alg.exp), pi=alg.PI, linalg=LINALG, sum=np_sum, vdot=np_vdot, abs=angle_abs, absolute=angle_abs,
    bitwise_and=np_bit('and', _np.bitwise_and), bitwise_or=np_bit('or', _np.bitwise_or), bitwise_xor=np_bit('xor', _np.bitwise_xor),
    logical_and=np_bool(lambda a, b: a & b, _np.logical_and), logical_or=np_bool(lambda a, b: a | b, _np.logical_or),
    logical_not=np_bool(lambda a: ~a, _np.logical_not), invert=np_bool(lambda a: ~a, _np.invert), isclose=np_isclose,
    multiply=lambda a, b, out=None: _inplace(a * b, out), divide=lambda a, b, out=None: _inplace(a / b, out)))
def _inplace(v, out):
    if out is None: return v
    if isinstance(out, SymArr): out.set(v.f); return out
    out[...] = v; return out

MODULES = {'numpy': NUMPY, 'math': MATH, 'cmath': CMATH, 'random': RANDOM}
EXTRA_MODULES = {}      # contracts may add sympy, qiskit, ...
HOOKS = []              # called with each module after it is executed

def make_import(modname):
    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and name.split('.')[0] in EXTRA_MODULES:
            e = EXTRA_MODULES[name.split('.')[0]]
            if callable(e): return e(name, fromlist)
        m = builtins.__import__(name, globals, locals, fromlist, level)
        if level == 0:
            if name in EXTRA_MODULES: return EXTRA_MODULES[name]
            if name in MODULES: return MODULES[name]
            if '.' in name and name.split('.')[0] in EXTRA_MODULES and not fromlist:
                return EXTRA_MODULES[name.split('.')[0]]
        return m
    return imp
def post_import(module):
    for h in HOOKS: h(module)
