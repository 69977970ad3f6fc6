"""Stand-ins for sympy expressions, and a loop rule with classified accumulators.

An expression is known by its value (`v`) on an assignment of 0/1 to the symbols: each
symbol has a letter, other expressions get a letter of their own.  What is assumed of sympy:
the classes of the arguments of a sum, the coefficient comes first in a product, + - * ** and
expand keep values, free_symbols are the symbols, subs(p, q) keeps the value wherever p and
q have the same one."""
import itertools
import z3
from . import alg, core, seqs
from .alg import Alg, Unsupported
from .core import SInt, cur, Infeasible
from .seqs import EndPath, Poison
from .tensor import num, ze, decide

# ---------------------------------------------------------------- names and symbols
class DigitStr(str):
    vx_static = True
    def vx_int(self, *a):
        if a: raise Unsupported('int(text, base)')
        return self.sym.idx
class SymName(str):
    """the name of a symbol: q and its index"""
    vx_static = True
    def __getitem__(self, i):
        if not (isinstance(i, slice) and i.start == 1 and i.stop is None and i.step in (None, 1)): raise Unsupported('part of a name')
        d = DigitStr(str.__str__(self) + '[1:]'); d.sym = self.sym; return d
    def lstrip(self, ch=None):
        if ch != 'q': raise Unsupported('part of a name')
        return self[1:]
    strip = removeprefix = lstrip
    def replace(self, a, b, *k):
        if (a, b) != ('q', ''): raise Unsupported('part of a name')
        return self[1:]
    def __lt__(self, o):
        if not isinstance(o, SymName): raise Unsupported('order of names')
        if o.sym is self.sym: return False
        k = tuple(sorted((id(self.sym), id(o.sym)))); t = cur().extra.setdefault('name_order', {})
        if k not in t: t[k] = cur().choose(2, 'order of names') == 0
        return t[k] == (k[0] == id(self.sym))
    def __gt__(self, o): return o < self
    def __le__(self, o): return not o < self
    def __ge__(self, o): return not self < o
    def __iter__(self): raise Unsupported('letters of a name')
    def __add__(self, o): raise Unsupported('text made of names')
    __radd__ = __mul__ = __mod__ = __add__
class SP:
    vx_static = True
    """an expression: its value"""
    def __init__(self, v, fs=None, parts=None): self.v, self._fs, self.parts = Alg.of(v), fs, parts
    @staticmethod
    def of(x):
        if isinstance(x, SP): return x
        if isinstance(x, SInt): x = x.__alg__()
        return NumS(x) if num(x) else None
    def pieces(self): return self.parts if self.parts is not None else (self,)
    def __add__(self, o):
        o = SP.of(o)
        return NotImplemented if o is None else SP(self.v + o.v, parts=self.pieces() + o.pieces())
    def __radd__(self, o):
        o = SP.of(o)
        return NotImplemented if o is None else o + self
    def __neg__(self): return SP(-self.v)
    def __sub__(self, o):
        o = SP.of(o)
        return NotImplemented if o is None else SP(self.v - o.v)
    def __rsub__(self, o): return (-self) + o
    def __mul__(self, o):
        o = SP.of(o)
        return NotImplemented if o is None else SP(self.v * o.v)
    __rmul__ = __mul__
    def __truediv__(self, o):
        if not num(o): return NotImplemented
        return SP(self.v / Alg.of(o))
    def __pow__(self, k):
        if isinstance(k, SInt):
            if isinstance(self, Sym) and cur().implied(k.e >= 1): return Power(self)
            raise Unsupported('power')
        if not isinstance(k, int) or k < 0: raise Unsupported('power')
        r = SP(1)
        for _ in range(k): r = r * self
        return r
    def vx_zero(self): return cur().norm(self.v).is_zero()
    @property
    def free_symbols(self):
        if self._fs is None: self._fs = FSet(of=self)
        return self._fs
    def subs(self, *a, **k):
        if len(a) == 1 and isinstance(a[0], dict) and not k:
            r = self
            for p, q in a[0].items(): r = r.subs(p, q)
            return r
        if len(a) != 2 or k: raise Unsupported('subs')
        p, q = SP.of(a[0]), SP.of(a[1])
        if p is None or q is None: raise Unsupported('subs')
        if not same_value(p.v, q.v): raise Unsupported('a substitution which changes the value')
        return SP(self.v + err('cons'))
    def copy(self): return self
    def expand(self): return self
    def __getattr__(self, n):
        if n.startswith('vx_') or n.startswith('__') or n in ('dtype', 'shape', 'slen'): raise AttributeError(n)
        raise Unsupported('expression.%s' % n)
    def __str__(self): return '<expression>'
    __repr__ = __str__
    def _bad(self, *a): raise Unsupported('an expression used in another way')
    __bool__ = __eq__ = __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __iter__ = __len__ = __contains__ = _bad
    __hash__ = object.__hash__
class NumS(SP):
    def __init__(self, v): SP.__init__(self, v, FSet(items=())); self.args = ()
    is_Symbol = is_Mul = is_Add = False
class Sym(SP):
    is_Mul = is_Add = False; is_Symbol = True
    def __init__(self, idx=None, name=None):
        c = cur(); k = c.extra['nsym'] = c.extra.get('nsym', 0) + 1
        nm = name or 'q?%d' % k
        SP.__init__(self, alg.rsym(nm)); self.letter, = self.v.syms(); self.idx = idx; self.args = ()
        self.sname = SymName(nm); self.sname.sym = self; self._fs = FSet(items=(self,))
        c.extra.setdefault('bitletters', {})[self.letter] = self
    def __str__(self): return self.sname
    __repr__ = __str__
    @property
    def name(self): return self.sname
    def __eq__(self, o):
        if isinstance(o, Sym): return o is self
        if isinstance(o, SP): raise Unsupported('an expression used in another way')
        return False
    def __ne__(self, o): return not self == o
    __hash__ = object.__hash__
class Power(SP):
    """a symbol to a power of at least one"""
    def __init__(self, s): SP.__init__(self, s.v)
class MulS(SP):
    is_Symbol = is_Add = False; is_Mul = True
    def __init__(self, v, fs=None, args=None): SP.__init__(self, v, fs); self._args = args
    @property
    def args(self):
        if self._args is None: raise Unsupported('the factors of a product')
        return self._args
    def as_coeff_Mul(self, *a):
        if self._args is None: raise Unsupported('the factors of a product')
        if num(self._args[0]): return self._args[0], MulS(1, args=self._args[1:])
        return 1, self
class AddS(SP):
    is_Symbol = is_Mul = False; is_Add = True
def same_value(a, b):
    """equal whenever all supplementary variables are the products they stand for"""
    return cons_zero(Alg.of(a) - Alg.of(b))
def errs(): return cur().extra.setdefault('errs', {})
def err(kind):
    c = cur(); a = alg.csym(c.fresh('err')); sid, = a.syms(); errs()[sid] = kind; return a
def cons_zero(d):
    c = cur(); d = c.norm(d)
    for sid, kind in errs().items():
        if kind in ('cons', 'pen') and sid in d.syms(): d = d.subs(sid, Alg.of(0))
    defs = c.extra.get('defs', {})
    for _ in range(8):
        hit = [s for s in d.syms() if s in defs]
        if not hit: break
        for s in hit: d = d.subs(s, defs[s])
    return bits_zero(d)
def bits_zero(d):
    bl = [s for s in d.syms() if s in cur().extra.get('bitletters', {})]
    if len(bl) > 8: raise Unsupported('too many symbols')
    for vals in itertools.product((0, 1), repeat=len(bl)):
        e = d
        for s, v in zip(bl, vals): e = e.subs(s, Alg.of(v))
        if not cur().norm(e).is_zero(): return False
    return True
# ---------------------------------------------------------------- sets of symbols
class FSet(set):
    """a set of symbols, in any order; of unknown size when items is None"""
    vx_static = True
    def __init__(self, items=None, of=None): set.__init__(self); self.items = items; self.of = of; self.n = None; self.order = None
    def slen(self):
        if self.items is not None: return len(self.items)
        if self.n is None:
            c = cur(); self.n = core.ivar(c.fresh('nsyms')); c.assume(self.n.e >= 0)
        return self.n
    def __bool__(self): return bool(self.slen() > 0)
    def listed(self):
        if self.items is None: raise Unsupported('the symbols of an expression')
        if self.order is None:
            its = list(self.items)
            if len(its) == 2 and cur().choose(2, 'order of a set') == 1: its.reverse()
            elif len(its) > 2: raise Unsupported('order of a set')
            self.order = its
        return self.order
    def __iter__(self): return iter(self.listed())
    def vx_iter(self): return iter(self.listed()) if self.items is not None else FIter(self)
    def vx_seq(self, ty): return ty(self.listed()) if self.items is not None else SymList(self)
    def vx_comp(self, kind, f, cond, star):
        if cond is not None or star: raise Unsupported('comprehension over symbols')
        if self.items is not None: return [f(x) for x in self.listed()]
        return SymList(self).vx_comp(kind, f, cond, star)
    def vx_sorted(self, k): return sorted(self.listed(), **k)
    def copy(self): return self
    def pop(self): raise Unsupported('a symbol taken out of a set')
    add = remove = discard = update = union = intersection = difference = pop
    __or__ = __and__ = __sub__ = __eq__ = __ne__ = __le__ = __lt__ = __gt__ = __ge__ = lambda self, o: self.pop()
    def __contains__(self, o): raise Unsupported('membership of a symbol')
    __hash__ = None
    def vx_loop(self, ident, lv, rb):
        if self.items is not None: return seqs.ConcreteLoop(self.listed())
        return InvLoop(ident, rb, lv, lambda: Sym())
class SymList:
    """the symbols of an expression as a list"""
    vx_static = True
    def __init__(self, s): self.s = s
    def slen(self): return self.s.slen()
    def __getitem__(self, i):
        if not isinstance(i, (int, SInt)) or isinstance(i, bool): raise Unsupported('part of a list of symbols')
        t = cur().extra.setdefault('listed', [])
        for o, j, x in t:
            if o is self and decide(ze(i) == ze(j)): return x
        x = Sym(); t.append((self, i, x)); return x
    def vx_comp(self, kind, f, cond, star):
        if cond is not None or star: raise Unsupported('comprehension over symbols')
        return Named(f(Sym()))
    def vx_loop(self, ident, lv, rb): return InvLoop(ident, rb, lv, lambda: Sym())
    def _bad(self, *a): raise Unsupported('a list of symbols')
    __iter__ = __len__ = __eq__ = _bad
    __hash__ = None
class Named:
    vx_static = True
    def __init__(self, x): self.x = x
    def vx_join(self, sep): return Named(self.x)
    def vx_seq(self, ty): return self
    def _bad(self, *a): raise Unsupported('names')
    __iter__ = __len__ = __eq__ = _bad
    __hash__ = None
class FIter:
    vx_static = True
    def __init__(self, s): self.s = s
    def vx_zip(self, a):
        if len(a) != 2 or any(x is not self for x in a): raise Unsupported('zip')
        return Pairs(self.s)
    def _bad(self, *a): raise Unsupported('iterator')
    __iter__ = __next__ = _bad
class Pairs:
    """disjoint pairs of different symbols of a set"""
    vx_static = True
    def __init__(self, s): self.s = s
    def vx_loop(self, ident, lv, rb): return InvLoop(ident, rb, lv, lambda: (Sym(), Sym()))
    def __iter__(self): raise Unsupported('pairs')
class Supply:
    """the supplementary variables given: different from all others"""
    vx_static = True
    def __getitem__(self, i):
        c = cur(); U = c.extra['U']
        if not c.implied(ze(i) == ze(U)): raise Unsupported('which supplementary variable is used')
        c.extra['U'] = SInt(z3.simplify(ze(U) + 1)); s = Sym(); c.extra.setdefault('supplied', []).append(s); return s
    def vx_iter(self): return self
    def __next__(self): return self[cur().extra['U']]
    def __iter__(self): return self
def letters_of(key):
    if isinstance(key, (SymName,)): return [key.sym]
    if isinstance(key, Sym): return [key]
    if isinstance(key, (tuple, list, frozenset)): return [x for k in key for x in letters_of(k)]
    raise Unsupported('a key of another kind')
class Mapping:
    """the table of supplementary variables: each entry stands for the product of its key"""
    vx_static = True
    def __init__(self): self.known = {}; self.absent = set(); self.new = []; self.n = 0
    def key(self, key):
        ls = letters_of(key); return (type(key).__name__, tuple(s.letter for s in ls)), ls
    def __contains__(self, key):
        k, ls = self.key(key)
        if k in self.known: return True
        if k in self.absent: return False
        if cur().choose(2, 'in the table') == 0: self.absent.add(k); return False
        w = Sym(); p = Alg.of(1)
        for s in ls: p = p * s.v
        cur().extra.setdefault('defs', {})[w.letter] = p; self.known[k] = w
        return True
    def __getitem__(self, key):
        if key not in self: raise KeyError(key)
        return self.known[self.key(key)[0]]
    def get(self, key, d=None): return self[key] if key in self else d
    def __setitem__(self, key, v):
        k, ls = self.key(key)
        if key in self: raise Unsupported('an entry is replaced')
        if not (isinstance(key, tuple) and len(key) == 2 and all(isinstance(x, SymName) for x in key)): raise Unsupported('a key of another kind')
        if v not in cur().extra.get('supplied', []) or v.letter in cur().extra.get('defs', {}): raise Unsupported('an entry of another kind')
        p = Alg.of(1)
        for s in ls: p = p * s.v
        cur().extra.setdefault('defs', {})[v.letter] = p
        self.known[k] = v; self.new.append((v, ls))
    def setdefault(self, key, v):
        if key not in self: self[key] = v
        return self[key]
    def havoc(self): self.known = {}; self.absent = set(); self.new = []
    def slen(self): return cur().extra['U']
    def _bad(self, *a): raise Unsupported('the table used in another way')
    __iter__ = __len__ = __eq__ = __delitem__ = items = values = keys = pop = update = _bad
    __hash__ = None
def penalty_ok(d, new):
    """d, in the letters of one new variable and its product only, is zero where the variable
    is the product and positive elsewhere; quadratic"""
    (w, ls), = new
    if len(ls) != 2: return False
    allowed = {w.letter, ls[0].letter, ls[1].letter}
    if not set(d.syms()) <= allowed: return False
    for b1, b2, x in itertools.product((0, 1), repeat=3):
        e = d.subs(ls[0].letter, Alg.of(b1)).subs(ls[1].letter, Alg.of(b2)).subs(w.letter, Alg.of(x))
        if not e.is_numeric(): return False
        r = e.numeric({})
        if abs(r.imag) > 1e-12: return False
        if x == b1 * b2:
            if not e.is_zero(): return False
        elif r.real <= 1e-9: return False
    # of second order: third mixed difference is zero
    t = Alg.of(0)
    for b in itertools.product((0, 1), repeat=3):
        e = d.subs(ls[0].letter, Alg.of(b[0])).subs(ls[1].letter, Alg.of(b[1])).subs(w.letter, Alg.of(b[2]))
        t = t + e * (-1) ** sum(b)
    return t.is_zero()
# ---------------------------------------------------------------- the loop rule
class InvLoop:
    """A loop (for, or while) run once from an arbitrary state.  What a passage does to each
    expression it assigns is classified: nothing; a value-preserving change ('cons'); the
    penalty of exactly the entries the table gains ('pen'); the value of the item ('tot').
    After the loop the expression has changed by a sum of changes of its class."""
    rebind = True
    def __init__(self, ident, rebound, lv=(), item=None, want=None, total=None):
        self.ident, self.rebound, self.lv, self.mk, self.want, self.total = ident, list(rebound), set(lv), item, want, total; self.env = {}; self.entered = self.done = False
    def head(self, loc):
        c = cur()
        if self.entered:
            if self.mode == 1: raise EndPath()
            return self.end(loc)
        self.entered = True
        if c.depth: raise Unsupported('a loop inside a condition')
        self.st = c.store.setdefault(('inv', self.ident, tuple(c.trace[:c.pos])), [])
        self.mode = c.choose(2, 'loop %s' % self.ident)
        self.map = [v for v in c.extra.get('maps', ())]
        self.exprs = {r: loc[r] for r in self.rebound if r in loc and (isinstance(loc[r], SP) or num(loc[r]) and not isinstance(loc[r], bool) and not isinstance(loc[r], int))}
        U = c.extra['U']
        self.counters = [r for r in self.rebound if r in loc and isinstance(loc[r], (int, SInt)) and not isinstance(loc[r], bool) and c.implied(ze(loc[r]) == ze(U))]
        self.rel = [(r, x) for r in self.rebound if isinstance(loc.get(r), FSet) for x in self.exprs if loc[r].of is not None and loc[r].of is loc[x]]
        self.keep = {k: v for k, v in loc.items() if k not in self.rebound and k not in self.lv}
        grows = self.mode == 0 or any(d['grows'] for d in self.st)
        if grows:
            U2 = core.ivar(c.fresh('U')); c.assume(U2.e >= ze(U)); c.extra['U'] = U2
        for r in self.rebound: self.env[r] = Poison(r)
        for r in self.counters: self.env[r] = c.extra['U']
        self.cls = {}
        for r, v in self.exprs.items():
            if self.mode == 0: self.env[r] = SP(alg.csym(c.fresh('state.' + r)))
            else:
                cl = self.env_class(r)
                if cl is None: continue
                self.cls[r] = cl
                if cl == 'same': self.env[r] = v
                else:
                    base = SP.of(v).v
                    if cl == 'tot': base = base + self.total; cl2 = 'cons'
                    else: cl2 = cl
                    self.env[r] = SP(base + err(cl2))
        for r, x in self.rel:
            if isinstance(self.env[x], SP): self.env[r] = self.env[x].free_symbols
        self.start = dict(self.env)
        if self.mode == 0 or grows:
            for m in self.map: m.havoc()
        if self.mode == 0:
            c.extra['loops'] = []; self.old_U = c.extra['U']
            if self.mk is not None: self.item = self.mk()
            return True
        c.extra.setdefault('loops', []).append((grows, {r: self.errof(r) for r, cl in self.cls.items() if cl == 'pen'}))
        return False
    def errof(self, r):
        v = self.env[r].v
        return [s for s in v.syms() if errs().get(s) == 'pen' and s not in SP.of(self.exprs[r]).v.syms()][0]
    def env_class(self, r):
        for cl in ('same', 'pen', 'cons', 'tot'):
            if all(cl in d['cls'].get(r, ()) for d in self.st): return cl
        return None
    def end(self, loc):
        c = cur()
        bad = [k for k, v in self.keep.items() if loc.get(k) is not v and not k.startswith('_vx_')]
        if bad: raise Unsupported('other variables change: %s' % bad)
        for r, x in self.rel:
            if not (isinstance(loc[r], FSet) and isinstance(loc[x], SP) and loc[r].of is loc[x]): raise Unsupported('the symbols of an expression are out of step')
        U = c.extra['U']
        for r in self.counters:
            if not (isinstance(loc[r], (int, SInt)) and c.implied(ze(loc[r]) == ze(U))): raise Unsupported('supplementary variables are not counted')
        new = [e for m in self.map for e in m.new]
        loops = c.extra.get('loops', [])
        if not any(g for g, _ in loops) and not c.implied(ze(U) == ze(self.old_U) + len(new)): raise Unsupported('supplementary variables out of step with the table')
        d = {'cls': {}, 'grows': bool(new) or any(g for g, _ in loops)}
        for r in self.exprs:
            if not isinstance(loc[r], SP) and not num(loc[r]): continue
            x = SP.of(loc[r]).v - self.start[r].v; cl = set()
            if set(self.start[r].v.syms()) & set(x.syms()): d['cls'][r] = cl; continue
            if c.norm(x).is_zero(): cl.add('same')
            if cons_zero(x): cl.add('cons')
            if self.want is not None and cons_zero(x - self.want(self)) and self.small(loc[r], self.start[r]): cl.add('tot')
            y = x; ok = True
            for g, es in loops:
                hit = [s for s in es.values() if s in y.syms()]
                if len(hit) == 1:
                    e = alg.Alg.of(1) * 0
                    z = y.subs(hit[0], Alg.of(0)); one = y.subs(hit[0], Alg.of(1)) - z
                    ok = ok and (one - Alg.of(1)).is_zero(); y = z
                elif hit or g: ok = False
            if ok:
                if not new: ok = c.norm(y).is_zero()
                elif len(new) == 1: ok = penalty_ok(y, new)
                else: ok = False
            if ok: cl.add('pen')
            d['cls'][r] = cl
        self.st.append(d)
        raise EndPath()
    def small(self, v, s):
        """what is added are terms of at most two symbols"""
        if not isinstance(v, SP): return False
        ps = [p for p in v.pieces() if p is not s]
        if len(ps) != len(v.pieces()) - 1: return False
        for p in ps:
            if isinstance(p, (NumS, Sym)): continue
            n = p.free_symbols.slen()
            if isinstance(n, int):
                if n > 2: return False
            elif not cur().implied(n.e <= 2): return False
        return True
    def exit(self):
        self.done = True
        if self.mode == 0: raise EndPath()
def inv_range(it, ident, lv, rb):
    from .shadows import SymRange
    if isinstance(it, SymRange) and not it.bv and it.step in (1, -1): return InvLoop(ident, rb, lv, lambda: it.elem('i'))
class Poly:
    vx_static = True
    def __init__(self, e): self.e = e
    def total_degree(self):
        c = cur(); n = core.ivar(c.fresh('degree')); c.assume(n.e >= 0); return n
    def __getattr__(self, n):
        if n.startswith('vx_') or n.startswith('__'): raise AttributeError(n)
        raise Unsupported('poly.%s' % n)
# ---------------------------------------------------------------- polynomials, probed
class Lin:
    """a number (k) plus multiples of symbols, by index"""
    vx_static = True
    def __init__(self, k, t=()): self.k, self.t = k, tuple(t)
    def subs(self, p, q):
        if not isinstance(p, ISym) or not num(q): raise Unsupported('subs')
        k = self.k; t = []
        for i, c in self.t:
            if decide(i == ze(p.idx)): k = k + c * q
            else: t.append((i, c))
        return Lin(k, t)
    def __sub__(self, o):
        if not isinstance(o, Lin): raise Unsupported('difference')
        return LinDiff(self, o)
    def vx_zero(self):
        from .tensor import zero
        return not self.t and zero(self.k)
    def vx_number(self):
        if self.t: raise Unsupported('an entry with symbols')
        return self.k
    def _bad(self, *a): raise Unsupported('an expression used in another way')
    __add__ = __mul__ = __eq__ = __bool__ = __iter__ = _bad
    __hash__ = None
class LinDiff(Lin):
    def __init__(self, a, b): self.a, self.b = a, b
    def vx_zero(self): return self.a is self.b or len(self.a.t) == len(self.b.t) and all(x is y or x[1] is y[1] and decide(x[0] == y[0]) for x, y in zip(self.a.t, self.b.t)) and PVzero(self.a.k, self.b.k)
    def syms(self): return set()
def PVzero(a, b):
    from .tensor import zero
    return a is b or zero(a - b)
class ISym(Sym):
    """the symbol with an index"""
    def __eq__(self, o):
        if isinstance(o, ISym): return decide(ze(self.idx) == ze(o.idx))
        return Sym.__eq__(self, o)
    def __ne__(self, o): return not self == o
    def __mul__(self, o):
        if isinstance(o, ISym): return IProd(self, o)
        raise Unsupported('product')
    __hash__ = object.__hash__
class IProd:
    vx_static = True
    def __init__(self, a, b): self.a, self.b = a, b
# ---------------------------------------------------------------- the module
class SympyS:
    """the module"""
    vx_static = True
    Mul, Add, Symbol = MulS, AddS, Sym
    Number = NumS
    def expand(self, e, *a, **k):
        if a or k: raise Unsupported('expand')
        r = SP.of(e)
        if r is None: raise Unsupported('expand of something else')
        return r
    def var(self, names, **k): pass
    def re(self, e):
        if isinstance(e, (Lin, SP)): return e
        if num(e): return Alg.of(e).real
        if hasattr(e, 'k'): return e
        raise Unsupported('re of something else')
    def poly(self, e):
        if not isinstance(e, SP): raise Unsupported('poly of something else')
        return Poly(e)
    def sympify(self, e): return self.expand(e)
    def Integer(self, n): return NumS(n)
    Float = Rational = Integer
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported('sympy.%s' % n)
