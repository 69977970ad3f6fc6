"""Exact arithmetic for the verifier.

An `Alg` is a finite sum of   c * prod(sym^k) * exp(i * sum(f_m * m)) * exp(i*pi*r)
with c, f_m, r rational, k integers (negative allowed) and m a monomial in real symbols.
Symbols are algebraically independent apart from the declared relation `sym^2 = Alg`
(square roots) and the conjugation pairing.  Two Algs are equal iff their normal forms
are equal: distinct exponentials of distinct polynomials are linearly independent, and
exp(i*pi*r), r in [0,1) with a power-of-two denominator, are independent over Q.
"""
from fractions import Fraction as Q
import cmath, math, numbers

class Unsupported(BaseException):
    """A construct the verifier does not cover: the obligation stays undecided."""

class _Sym:
    __slots__ = ('name', 'conj', 'sq', 'num', 'id', 'kind', 'data')
TABLE = []
BYNAME = {}

def _new(name):
    if name in BYNAME:
        return BYNAME[name]
    s = _Sym(); s.name = name; s.conj = None; s.sq = None; s.num = None
    s.kind = 'real'; s.data = None
    s.id = len(TABLE); TABLE.append(s); BYNAME[name] = s
    return s

def rsym(name):
    """real symbol"""
    s = _new(name); s.conj = s.id
    return Alg({(((s.id, 1),), (), ZERO): ONE})

def csym(name):
    """complex symbol (a conjugate partner is made with it)"""
    s = _new(name); c = _new(name + '*')
    s.conj = c.id; c.conj = s.id; s.kind = c.kind = 'complex'
    return Alg({(((s.id, 1),), (), ZERO): ONE})

ZERO = Q(0); ONE = Q(1); HALF = Q(1, 2)
_pi = _new('pi'); _pi.conj = _pi.id; _pi.num = math.pi
PI_ID = _pi.id

def _pow2(d):
    return d & (d - 1) == 0

def _normr(r, c):
    """exp(i pi r) * c with r brought into [0,1)"""
    r = r % 2
    if r >= 1:
        return r - 1, -c
    return r, c

def _mulpm(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for s, k in b:
        k2 = d.get(s, 0) + k
        if k2: d[s] = k2
        else: d.pop(s, None)
    return tuple(sorted(d.items()))

def _mulem(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for s, k in b:
        k2 = d.get(s, ZERO) + k
        if k2: d[s] = k2
        else: d.pop(s, None)
    return tuple(sorted(d.items()))

_SPECIAL = None
def _nice(f):
    """A float constant as the exact real it stands for."""
    fr = Q(f)
    if fr.denominator <= 2 ** 24:
        return Alg({((), (), ZERO): fr} if fr else {})
    a = abs(f)
    # square roots of two, multiples of pi (a double cannot be exactly either)
    for base, alg in ((math.sqrt(2), SQRT2), (math.pi, PI)):
        q = a / base
        c = Q(q).limit_denominator(64)
        if c and abs(float(c) * base - a) <= 4e-16 * a:
            return alg * (c if f > 0 else -c)
    c = Q(f).limit_denominator(1000)
    if c and abs(float(c) - f) <= 2e-16 * a:   # decimal literals such as 0.1
        fr = c
    return Alg({((), (), ZERO): fr})

class Alg:
    __slots__ = ('t',)
    __array_priority__ = 1000
    __array_ufunc__ = None
    def __init__(self, t):
        self.t = t

    # -- construction
    @staticmethod
    def of(x):
        if isinstance(x, Alg): return x
        if isinstance(x, bool): x = int(x)
        if isinstance(x, int): return Alg({((), (), ZERO): Q(x)} if x else {})
        if isinstance(x, Q): return Alg({((), (), ZERO): x} if x else {})
        if isinstance(x, float):
            if math.isinf(x) or math.isnan(x): raise Unsupported('inf/nan')
            return _nice(float(x))
        if isinstance(x, complex):
            return Alg.of(x.real) + Alg.of(x.imag) * I
        if hasattr(x, '__alg__'): return x.__alg__()
        if hasattr(x, 'dtype') and getattr(x, 'shape', None) == ():
            return Alg.of(x.item())
        return None

    def __add__(self, o):
        o = Alg.of(o)
        if o is None: return NotImplemented
        d = dict(self.t)
        for k, c in o.t.items():
            c2 = d.get(k, ZERO) + c
            if c2: d[k] = c2
            else: d.pop(k, None)
        return Alg(d)
    __radd__ = __add__
    def __neg__(self):
        return Alg({k: -c for k, c in self.t.items()})
    def __pos__(self): return self
    def __sub__(self, o):
        o = Alg.of(o)
        if o is None: return NotImplemented
        return self + (-o)
    def __rsub__(self, o):
        o = Alg.of(o)
        if o is None: return NotImplemented
        return o + (-self)
    def __mul__(self, o):
        o = Alg.of(o)
        if o is None: return NotImplemented
        d = {}
        again = False
        for (p1, e1, r1), c1 in self.t.items():
            for (p2, e2, r2), c2 in o.t.items():
                r, c = _normr(r1 + r2, c1 * c2)
                pm = _mulpm(p1, p2)
                for s, k in pm:
                    if abs(k) >= 2 and TABLE[s].sq is not None: again = True
                k = (pm, _mulem(e1, e2), r)
                c = d.get(k, ZERO) + c
                if c: d[k] = c
                else: d.pop(k, None)
        out = Alg(d)
        return out._reduce() if again else out
    __rmul__ = __mul__

    def _reduce(self):
        """use sym^2 = relation"""
        out = Alg({})
        for (pm, em, r), c in self.t.items():
            f = Alg.of(1); rest = []
            for s, k in pm:
                sq = TABLE[s].sq
                if sq is not None and abs(k) >= 2:
                    h = abs(k) // 2
                    base = sq
                    if k < 0:
                        base = sq.inv(); 
                    for _ in range(h): f = f * base
                    k = (abs(k) % 2) * (1 if k > 0 else -1)
                if k: rest.append((s, k))
            out = out + Alg({(tuple(rest), em, r): c}) * f if f.t != _ONE_T else out + Alg({(tuple(rest), em, r): c})
        return out

    def inv(self):
        t = self.t
        if not t: raise ZeroDivisionError('division by an expression that is zero')
        if len(t) == 1:
            ((pm, em, r), c), = t.items()
            r2, c2 = _normr(-r, 1 / c)
            return Alg({(tuple((s, -k) for s, k in pm), tuple((m, -f) for m, f in em), r2): c2})._reduce_if()
        n = self * self.conjugate()
        if len(n.t) == 1:
            return self.conjugate() * n.inv()
        # opaque inverse
        nm = 'inv(%s)' % self.key()
        s = BYNAME.get(nm)
        if s is None:
            s = _new(nm); s.kind = 'inv'; s.data = self
            cj = self.conjugate()
            if (cj - self).is_zero(): s.conj = s.id
            else:
                c = _new('inv(%s)' % cj.key()); c.kind = 'inv'; c.data = cj
                s.conj = c.id; c.conj = s.id
        return Alg({(((s.id, 1),), (), ZERO): ONE})
    def _reduce_if(self):
        for (pm, em, r) in self.t:
            for s, k in pm:
                if abs(k) >= 2 and TABLE[s].sq is not None: return self._reduce()
        return self

    def __truediv__(self, o):
        o = Alg.of(o)
        if o is None: return NotImplemented
        return self * o.inv()
    def __rtruediv__(self, o):
        o = Alg.of(o)
        if o is None: return NotImplemented
        return o * self.inv()
    def __pow__(self, n):
        if isinstance(n, Alg):
            if n.is_const() and n.const().denominator in (1, 2): 
                q = n.const()
                if q.denominator == 2: return sqrt(self) ** int(q * 2)
                n = int(q)
            else: raise Unsupported('power with symbolic exponent')
        if isinstance(n, float):
            if n == 0.5: return sqrt(self)
            if n == int(n): n = int(n)
        if hasattr(n, 'e') and hasattr(n, 'p2'):
            return csym('pow(%s,%s)' % (self.key(), n.e))    # a symbolic exponent: opaque
        if not isinstance(n, int): 
            return NotImplemented
        if n < 0: return self.inv() ** (-n)
        out = Alg.of(1)
        for _ in range(n): out = out * self
        return out
    def __rpow__(self, o):
        raise Unsupported('symbolic exponent')

    def conjugate(self):
        d = {}
        for (pm, em, r), c in self.t.items():
            r2, c2 = _normr(-r, c)
            pm2 = []
            for s, k in pm:
                cj = TABLE[s].conj
                if cj is None: raise Unsupported('conjugate of ' + TABLE[s].name)
                pm2.append((cj, k))
            key = (tuple(sorted(pm2)), tuple((m, -f) for m, f in em), r2)
            c2 = d.get(key, ZERO) + c2
            if c2: d[key] = c2
            else: d.pop(key, None)
        return Alg(d)
    conj = conjugate
    @property
    def real(self):
        return (self + self.conjugate()) * HALF
    @property
    def imag(self):
        return (self - self.conjugate()) * HALF * MINUS_I

    # -- tests
    def clear(self):
        """times the denominators held in inverse symbols: zero iff self is"""
        e = self
        for _ in range(20):
            s = next((x for (pm, em, r) in e.t for x, k in pm if k > 0 and TABLE[x].kind == 'inv'), None)
            if s is None: return e
            top = max(k for (pm, em, r) in e.t for x, k in pm if x == s)
            out = Alg({})
            for (pm, em, r), c in e.t.items():
                k = dict(pm).get(s, 0)
                out = out + Alg({(tuple((x, j) for x, j in pm if x != s), em, r): c}) * TABLE[s].data ** (top - k)
            e = out
        return e
    def is_zero(self):
        if not self.t: return True
        if any(k > 0 and TABLE[x].kind == 'inv' for (pm, em, r) in self.t for x, k in pm): return self.clear().is_zero()
        neg = {x for (pm, em, r) in self.t for x, k in pm if k < 0 and TABLE[x].sq is not None}
        if neg and len(self.t) > 1:
            e = self
            for x in neg: e = e * Alg({(((x, 1),), (), ZERO): ONE})
            return e.is_zero()
        odd = any(not _pow2(r.denominator) for (_, _, r) in self.t)
        if not odd: return False
        # general cyclotomic reduction, per (pm, em)
        groups = {}
        for (pm, em, r), c in self.t.items():
            groups.setdefault((pm, em), []).append((r, c))
        return all(_cyc_zero(g) for g in groups.values())
    def is_const(self):
        return all(k == ((), (), ZERO) for k in self.t)
    def const(self):
        return self.t.get(((), (), ZERO), ZERO)
    def is_numeric(self):
        return all(pm == () and em == () for (pm, em, r) in self.t) 
    def is_real(self):
        return (self - self.conjugate()).is_zero()
    def syms(self):
        out = set()
        for (pm, em, r) in self.t:
            for s, _ in pm: out.add(s)
            for m, _ in em: out.update(m)
        return out

    def key(self):
        return repr(sorted(self.t.items()))
    def __hash__(self):
        raise TypeError('unhashable Alg')
    def __eq__(self, o):
        o2 = Alg.of(o)
        if o2 is None: return NotImplemented
        return HOOK.eq(self, o2)
    def __ne__(self, o):
        o2 = Alg.of(o)
        if o2 is None: return NotImplemented
        return HOOK.ne(self, o2)
    def __lt__(self, o): return HOOK.lt(self, Alg.of(o))
    def __gt__(self, o): return HOOK.lt(Alg.of(o), self)
    def __le__(self, o): return HOOK.le(self, Alg.of(o))
    def __ge__(self, o): return HOOK.le(Alg.of(o), self)
    def __bool__(self): return HOOK.truth(self)
    def __abs__(self): return aabs(self)
    def __float__(self):
        raise Unsupported('float() of a symbolic number')
    def __complex__(self):
        raise Unsupported('complex() of a symbolic number')
    def __int__(self):
        raise Unsupported('int() of a symbolic number')
    def __format__(self, spec):
        return HOOK.fmt(self, spec)
    def __str__(self):
        return HOOK.fmt(self, '')
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __repr__(self):
        return 'Alg<%s>' % self.pretty()

    def pretty(self):
        if not self.t: return '0'
        out = []
        for (pm, em, r), c in sorted(self.t.items(), key=lambda kv: repr(kv[0])):
            s = str(c)
            for i, k in pm: s += '*' + TABLE[i].name + ('' if k == 1 else '^%d' % k)
            if em: s += '*exp(i(' + ' + '.join('%s*%s' % (f, '*'.join(TABLE[x].name for x in m) or '1') for m, f in em) + '))'
            if r: s += '*exp(i*pi*%s)' % r
            out.append(s)
        return ' + '.join(out)

    def subs(self, sid, val):
        """substitute a polynomial symbol (not inside exponentials) by an Alg"""
        out = Alg({})
        for (pm, em, r), c in self.t.items():
            if any(sid in m for m, _ in em): raise Unsupported('substitution in exponent')
            k = dict(pm).get(sid, 0)
            rest = Alg({(tuple(x for x in pm if x[0] != sid), em, r): c})
            out = out + (rest * (val ** k) if k else rest)
        return out

    def numeric(self, env):
        """complex value; env: symbol name -> number"""
        tot = 0
        def sv(i):
            s = TABLE[i]
            if s.name in env: return env[s.name]
            if s.num is not None: return s.num
            if s.kind == 'complex' and s.name.endswith('*'):
                return complex(env[s.name[:-1]]).conjugate()
            if s.sq is not None: return cmath.sqrt(s.sq.numeric(env))
            if s.kind == 'inv': return 1 / s.data.numeric(env)
            raise KeyError(s.name)
        for (pm, em, r), c in self.t.items():
            v = complex(float(c)) * cmath.exp(1j * math.pi * float(r))
            for s, k in pm: v *= sv(s) ** k
            for m, f in em:
                p = float(f)
                for x in m: p *= sv(x)
                v *= cmath.exp(1j * p)
            tot += v
        return tot

_ONE_T = {((), (), ZERO): ONE}

def _cyc_zero(pairs):
    import sympy
    n = 1
    for r, _ in pairs: n = n * r.denominator // math.gcd(n, r.denominator)
    N = 2 * n
    x = sympy.Symbol('x')
    p = sympy.Poly(sum(sympy.Rational(c.numerator, c.denominator) * x ** int(r * n) for r, c in pairs), x)
    return sympy.rem(p, sympy.Poly(sympy.cyclotomic_poly(N, x), x)).is_zero

class _Hook:
    """Where comparisons of symbolic numbers go; the explorer replaces it."""
    def eq(self, a, b): return (a - b).is_zero()
    def ne(self, a, b): return not self.eq(a, b)
    def lt(self, a, b):
        d = a - b
        if d.is_const(): return d.const() < 0
        raise Unsupported('order of symbolic numbers')
    def le(self, a, b):
        d = a - b
        if d.is_const(): return d.const() <= 0
        raise Unsupported('order of symbolic numbers')
    def truth(self, a): return not a.is_zero()
    def fmt(self, a, spec): return a.pretty()
HOOK = _Hook()
def set_hook(h):
    global HOOK
    HOOK = h

I = Alg({((), (), HALF): ONE})
MINUS_I = -I
PI = Alg({(((PI_ID, 1),), (), ZERO): ONE})
SQRT2 = Alg({((), (), Q(1, 4)): ONE, ((), (), Q(3, 4)): -ONE})

def exp_i(a):
    """exp(i*a) for a real polynomial a"""
    a = Alg.of(a)
    em = {}; r = ZERO
    for (pm, e, rr), c in a.t.items():
        if e or rr: raise Unsupported('exponent is not a real polynomial: ' + a.pretty())
        mono = []
        for s, k in pm:
            if k < 0 or TABLE[s].conj != s: raise Unsupported('exponent is not a real polynomial: ' + a.pretty())
            mono += [s] * k
        mono = tuple(sorted(mono))
        if mono == (PI_ID,): r += c
        else: em[mono] = em.get(mono, ZERO) + c
    r, c = _normr(r, ONE)
    return Alg({((), tuple(sorted((m, f) for m, f in em.items() if f)), r): c})

def exp(z):
    z = Alg.of(z)
    re_, im_ = {}, {}
    for (pm, e, r), c in z.t.items():
        if e: raise Unsupported('exp of an exponential')
        if r == HALF: im_[(pm, e, ZERO)] = c
        else: re_[(pm, e, r)] = c
    if re_:
        raise Unsupported('exp with a real part')
    return exp_i(Alg(im_))
def cos(a):
    return (exp_i(a) + exp_i(-Alg.of(a))) * HALF
def sin(a):
    return (exp_i(a) - exp_i(-Alg.of(a))) * HALF * MINUS_I

def _isq(n):
    s = math.isqrt(n)
    return s if s * s == n else None
def sqrt(a):
    a = Alg.of(a)
    if a.is_const():
        c = a.const()
        if c == 0: return Alg({})
        if c > 0:
            for mult, alg in ((1, Alg.of(1)), (2, SQRT2)):
                q = c / mult
                n, d = _isq(q.numerator), _isq(q.denominator)
                if n is not None and d is not None: return alg * Q(n, d)
    nm = 'sqrt(%s)' % a.key()
    if nm not in BYNAME:
        s = _new(nm); s.conj = s.id; s.sq = a; s.kind = 'sqrt'; s.data = a
    return Alg({(((BYNAME[nm].id, 1),), (), ZERO): ONE})

def aabs(a):
    a = Alg.of(a)
    if a.is_const(): return Alg.of(abs(a.const()))
    if a.is_real():
        # |x| for a real x: decided by its sign
        return a if not (a < 0) else -a
    return sqrt(a * a.conjugate())
