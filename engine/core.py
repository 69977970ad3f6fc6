"""Path exploration, symbolic integers/booleans and the obligation ledger."""
import time, z3, itertools
from fractions import Fraction as Q
from . import alg
from .alg import Alg, Unsupported

class Infeasible(BaseException):
    """The current path cannot happen; it is dropped."""
class PathLimit(Unsupported):
    pass
class ContractRaise(Exception):
    """used by contract stubs to raise 'some exception'"""

BVW = 64
DEADLINE = [float('inf')]

class Obligation:
    __slots__ = ('name', 'status', 'backend', 'detail', 'path', 'model', 'secs')
    def __init__(self, name, status, backend, detail='', path='', model=None, secs=0.0):
        self.name = name; self.status = status; self.backend = backend
        self.detail = detail; self.path = path; self.model = model; self.secs = secs

class Ledger:
    """Everything one check proved, refuted or left open."""
    def __init__(self):
        self.obs = []; self.functions = {}; self.notes = []
        self.solver_s = 0.0; self.queries = 0; self.paths = 0
        self.trusted = set(); self.bounded = []
    def add(self, name, status, backend, **kw):
        self.obs.append(Obligation(name, status, backend, **kw))
    def count(self, st): return sum(o.status == st for o in self.obs)
    def merge(self, o):
        self.obs += o.obs; self.functions.update(o.functions); self.notes += o.notes; self.bounded += o.bounded
        self.solver_s += o.solver_s; self.queries += o.queries; self.paths += o.paths; self.trusted |= o.trusted

def told(d):
    return d if isinstance(d, str) else ('' if d[1] else 'not ') + str(d[0])[:120]

class Explorer:
    MAXPATHS = 4000
    def __init__(self, ledger, name, maxpaths=None, budget_s=120):
        self.ledger = ledger; self.name = name
        if maxpaths: self.MAXPATHS = maxpaths
        self.budget = budget_s
        self.base = []              # assumptions of every path
    # -- run all paths
    def explore(self, fn):
        global CUR
        work = [[]]
        n = 0; t0 = time.process_time()
        self.worklist = work
        self.deferred = []          # loop exits: run after every body path is known
        self.store = {}             # survives between paths (loop state tables)
        prev = CUR
        CUR = self
        alg.set_hook(_HOOK)
        try:
            while work or self.deferred:
                if work: trace = work.pop()
                else:
                    self.deferred.sort(key=len)
                    trace = self.deferred.pop()
                self.worklist = work
                n += 1
                if n > self.MAXPATHS: raise PathLimit('too many paths in ' + self.name)
                if time.process_time() - t0 > self.budget or time.time() > DEADLINE[0]: raise PathLimit('time budget in ' + self.name)
                self.begin(trace)
                try:
                    fn()
                    self.ledger.paths += 1
                except Infeasible:
                    pass
        finally:
            CUR = prev
        return n
    def begin(self, trace):
        self.trace = list(trace); self.pos = 0; self.depth = 0
        self.solver = z3.Solver(); self.solver.set('timeout', 20000)
        for b in self.base: self.solver.add(b)
        self.pc = []; self.desc = []
        self.facts0 = []            # substitutions from equations E = 0
        self.known = {}             # key -> bool, for undecidable comparisons
        self.counter = itertools.count()
        self.tokens = {}
        self.cache = {}
        self.extra = {}             # per-path scratch for shadows
    # -- assumptions
    def assume(self, cond):
        self.solver.add(cond); self.pc.append(cond); self.cache.clear()
    def check(self, *conds):
        t = time.time()
        self.ledger.queries += 1
        r = self.solver.check(*conds)
        self.ledger.solver_s += time.time() - t
        return r
    # -- decisions
    def choose(self, n, label=''):
        if n == 1: return 0
        if self.pos < len(self.trace):
            c = self.trace[self.pos]
        else:
            c = 0
            for k in range(n - 1, 0, -1):
                self.worklist.append(self.trace[:self.pos] + [k])
            self.trace.append(0)
        self.pos += 1
        self.desc.append('%s=%d' % (label, c) if label else str(c))
        return c
    def decide(self, cond):
        if isinstance(cond, bool): return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        if self.pos < len(self.trace):
            c = self.trace[self.pos]; self.pos += 1
            if c in (True, False) and not isinstance(c, bool): raise AssertionError
            if isinstance(c, bool):
                self.assume(cond if c else z3.Not(cond)); self.desc.append((cond, c))
                return c
            raise AssertionError('trace mismatch')
        key = cond.get_id()
        st = self.status(cond)
        if st is not None:
            # deterministic: recorded so that replays stay in step
            self.trace.append(st); self.pos += 1
            self.assume(cond if st else z3.Not(cond))
            return st
        self.worklist.append(self.trace[:self.pos] + [False])
        self.trace.append(True); self.pos += 1
        self.assume(cond); self.desc.append((cond, True))
        return True
    def status(self, cond):
        """True/False when implied by the path, None otherwise (no fork)"""
        if isinstance(cond, bool): return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        k = cond.get_id()
        if k in self.cache: return self.cache[k][0]
        rt = self.check(cond)
        if rt == z3.unknown: raise Unsupported('solver gave up on ' + str(cond)[:200])
        if rt == z3.unsat: r = False
        else:
            rf = self.check(z3.Not(cond))
            if rf == z3.unknown: raise Unsupported('solver gave up on ' + str(cond)[:200])
            r = True if rf == z3.unsat else None
        self.cache[k] = (r, cond)
        return r
    def implied(self, cond):
        return self.status(cond) is True
    # -- symbolic numbers
    def norm(self, e):
        for sid, val in self.facts0:
            if sid in e.syms(): e = e.subs(sid, val)
        return e
    def alg_zero(self, e, label='== 0'):
        e = self.norm(e)
        if e.is_zero(): return True
        if e.is_numeric(): return False
        k = e.key(); k2 = (-e).key()
        for kk in (k, k2):
            if ('z', kk) in self.known: return self.known['z', kk]
        for kk in (k, k2):
            if ('lt', kk) in self.known and self.known['lt', kk]: return False
        if self.nonzero_atoms(e): return False
        c = self.choose(2, '[%s %s]' % (e.pretty()[:80], label))
        if c == 0:
            self.known['z', k] = False; return False
        self.add_zero(e)
        self.known['z', k] = True
        return True
    def nonzero_atoms(self, e):
        # a product of inverses is never zero
        return len(e.t) == 1 and all(k < 0 for (pm, _, _) in e.t for _, k in pm)
    def sym_nonzero(self, sid):
        return self.known.get(('z', Alg({(((sid, 1),), (), alg.ZERO): alg.ONE}).key())) is False
    def add_zero(self, e):
        """record e == 0 as a substitution when that is possible"""
        # single symbol
        for (pm, em, r), c in e.t.items():
            if em == () and len(pm) == 1 and pm[0][1] == 1:
                sid = pm[0][0]
                rest = Alg({k: v for k, v in e.t.items() if k != (pm, em, r)})
                if sid in rest.syms(): continue
                if alg.TABLE[sid].sq is not None or alg.TABLE[sid].kind == 'inv' or sid == alg.PI_ID: continue
                cj = alg.TABLE[sid].conj
                if cj != sid and cj in rest.syms(): continue
                coef = Alg({((), (), r): c})
                val = -(rest * coef.inv())
                self.facts0.append((sid, val))
                if cj is not None and cj != sid: self.facts0.append((cj, val.conjugate()))
                return
        # a s + b s* = 0
        if len(e.t) == 2:
            ks = list(e.t.items())
            if all(em == () and len(pm) == 1 and pm[0][1] == 1 for (pm, em, r), _ in ks):
                s1, s2 = ks[0][0][0][0][0], ks[1][0][0][0][0]
                if alg.TABLE[s1].conj == s2 and s1 != s2:
                    q = -Alg({((), (), ks[0][0][2]): ks[0][1]}) * Alg({((), (), ks[1][0][2]): ks[1][1]}).inv()
                    if (q * q.conjugate() - 1).is_zero(): self.facts0.append((s2, q * Alg({(((s1, 1),), (), alg.ZERO): alg.ONE}))); return
        # a s p + rest = 0 with p known not to be zero
        for (pm, em, r), c in e.t.items():
            if em != (): continue
            for sid, k in pm:
                if k != 1 or alg.TABLE[sid].sq is not None or alg.TABLE[sid].kind == 'inv' or sid == alg.PI_ID or self.sym_nonzero(sid): continue
                others = tuple((s, j) for s, j in pm if s != sid)
                if not others or not all(j < 0 or self.sym_nonzero(s) for s, j in others): continue
                rest = Alg({q: v for q, v in e.t.items() if q != (pm, em, r)})
                cj = alg.TABLE[sid].conj
                if sid in rest.syms() or cj != sid and cj in rest.syms() or any(s == cj for s, _ in others): continue
                val = -(rest * Alg({(others, (), r): c}).inv())
                self.facts0.append((sid, val))
                if cj is not None and cj != sid: self.facts0.append((cj, val.conjugate()))
                return
        if len(e.t) == 1:
            (pm, em, r), = e.t
            pos = [s for s, k in pm if k > 0 and alg.TABLE[s].sq is None and not self.sym_nonzero(s)]
            if not pos and em == () and all(k < 0 or self.sym_nonzero(s) for s, k in pm): raise Infeasible()
            if len(pos) == 1:
                self.facts0.append((pos[0], Alg({})))
                cj = alg.TABLE[pos[0]].conj
                if cj not in (None, pos[0]): self.facts0.append((cj, Alg({})))
                return
            if pos:
                s = pos[self.choose(len(pos), 'zero factor')]
                self.facts0.append((s, Alg({})))
                cj = alg.TABLE[s].conj
                if cj not in (None, s): self.facts0.append((cj, Alg({})))
                return
        self.known['z', e.key()] = True
        self.known.setdefault('unused zero fact', True)
    def alg_lt(self, a, b):
        d = self.norm(a - b)
        if d.is_const(): return d.const() < 0
        if d.is_numeric():
            return d.numeric({}).real < 0
        k, k2 = d.key(), (-d).key()
        if ('lt', k) in self.known: return self.known['lt', k]
        if self.known.get(('lt', k2)) is True: return False
        if self.known.get(('z', k)) is True or self.known.get(('z', k2)) is True: return False
        c = self.choose(2, '[%s < 0]' % d.pretty()[:80])
        self.known['lt', k] = (c == 0)
        self.extra.setdefault('signs', []).append((d, c == 0))
        return c == 0
    def cases(self, fn):
        """run fn on every sub-case of the current path (forks stay local);
        returns the list of results"""
        saved = (self.trace, self.pos, self.worklist, self.pc, self.desc, self.facts0, self.known, self.cache, self.extra)
        out = []; work = [[]]; self.depth = getattr(self, 'depth', 0) + 1
        try:
            n = 0
            while work:
                tr = work.pop(); n += 1
                if n > 600: raise PathLimit('too many cases')
                self.trace = list(tr); self.pos = 0; self.worklist = work
                self.pc = list(saved[3]); self.desc = list(saved[4]); self.facts0 = list(saved[5])
                self.known = dict(saved[6]); self.cache = dict(saved[7])
                self.extra = {k: (dict(v) if type(v) is dict else list(v) if type(v) is list else v) for k, v in saved[8].items()}
                if 'atoms' in self.extra: self.extra['atoms'] = {k: list(v) for k, v in self.extra['atoms'].items()}
                self.solver.push()
                try: out.append(fn())
                except Infeasible: pass
                finally: self.solver.pop()
        finally:
            self.depth -= 1
            (self.trace, self.pos, self.worklist, self.pc, self.desc, self.facts0, self.known, self.cache, self.extra) = saved
        return out
    # -- obligations
    def prove(self, cond, name, detail=''):
        t = time.time()
        if isinstance(cond, bool):
            self._ob(name, 'proved' if cond else 'refuted', 'constant', detail, None, 0.0)
            return cond
        r = self.check(z3.Not(cond))
        s = time.time() - t
        if r == z3.unsat: self._ob(name, 'proved', 'z3', detail, None, s); return True
        if r == z3.sat:
            m = self.solver.model()
            m = (self.model_with(z3.Not(cond)) or m)
            self._ob(name, 'refuted', 'z3', detail or str(cond)[:300], m, s); return False
        self._ob(name, 'unknown', 'z3', detail, None, s)
        return None
    def prove_zero(self, e, name, detail=''):
        t = time.time()
        e = self.norm(Alg.of(e))
        ok = e.is_zero()
        s = time.time() - t
        if ok: self._ob(name, 'proved', 'alg', detail, None, s)
        elif self.known.get('unused zero fact'):
            self._ob(name, 'unknown', 'alg', 'under an equation the normal form cannot use; difference ' + e.pretty()[:300], None, s)
        elif not self.witnessed(e): self._ob(name, 'unknown', 'alg', 'no values found at which it differs; difference ' + e.pretty()[:300], None, s)
        else: self._ob(name, 'refuted', 'alg', detail + ' difference = ' + e.pretty()[:400], self.model(), s)
        return ok
    def witnessed(self, e):
        """are there values of the symbols, allowed by the path's signs, at which e is not 0"""
        import random, cmath
        rng = random.Random(7)
        signs = [(self.norm(d), v) for d, v in self.extra.get('signs', [])]
        syms = set(e.syms())
        for d, _ in signs: syms |= d.syms()
        def need(s, out):
            t = alg.TABLE[s]
            if t.sq is not None: [need(x, out) for x in t.sq.syms()]
            elif t.kind == 'inv': [need(x, out) for x in t.data.syms()]
            elif t.num is None: out.add(t.name[:-1] if t.kind == 'complex' and t.name.endswith('*') else t.name)
        names = set()
        for s in syms: need(s, names)
        for k in range(400):
            env = {}
            for nm in sorted(names):
                big = 10 ** rng.uniform(-2, 1)
                v = rng.uniform(-1, 1) * big
                if alg.BYNAME[nm].kind == 'complex': v = complex(v, rng.uniform(-1, 1) * big)
                env[nm] = v
            try:
                if not all((d.numeric(env).real < 0) == v for d, v in signs): continue
                x = abs(e.numeric(env)); scale = max([1e-3] + [abs(v) for v in env.values()])
            except (KeyError, ZeroDivisionError, OverflowError): continue
            if x > 1e-7 * min(1, scale): self.extra['witness'] = env; return True
        return False
    def prove_eq(self, a, b, name, detail=''):
        return self.prove_zero(Alg.of(a) - Alg.of(b), name, detail)
    def require(self, ok, name, detail=''):
        """structural obligation decided by the engine itself"""
        ok = bool(ok)
        self._ob(name, 'proved' if ok else 'refuted', 'structure', detail, None if ok else self.model(), 0.0)
        return ok
    def model(self):
        # a small counter-model is easier to replay: prefer small values where there is one
        pref = self.extra.get('prefer', [])
        try:
            for k in (len(pref), 0) if pref else (0,):
                if self.solver.check(*pref[:k]) == z3.sat: return self.solver.model()
        except Exception: pass
        return None
    def model_with(self, cond):
        self.solver.push()
        try:
            self.solver.add(cond); return self.model()
        finally: self.solver.pop()
    def _ob(self, name, status, backend, detail, model, secs):
        if self.extra.get('probe'): return
        md = None
        if status == 'refuted' and self.extra.get('abstract'):
            # on a path which cut a loop at its head: the invariant may be too weak, so this
            # is not a counterexample
            status = 'unknown'; detail = 'does not follow from the loop invariant found. ' + detail
        if model is not None:
            try: md = {str(d): str(model[d]) for d in model.decls()}
            except Exception: md = None
        if status != 'proved':
            sg = [('%s %s 0' % (d.pretty(), '<' if v else '>=')) for d, v in self.extra.get('signs', [])]
            path = ' ; '.join(map(told, self.desc + sg))[:1500]
        else: path = ''
        self.ledger.add('%s: %s' % (self.name, name), status, backend, detail=detail, path=path, model=md, secs=secs)
    def fresh(self, base):
        return '%s!%d' % (base, next(self.counter))

CUR = None
def cur():
    if CUR is None: raise Unsupported('symbolic value outside a verification run')
    return CUR

class _AlgHook:
    def eq(self, a, b):
        d = a - b
        if d.is_zero(): return True
        if d.is_numeric(): return False
        return cur().alg_zero(d)
    def ne(self, a, b): return not self.eq(a, b)
    def lt(self, a, b): return cur().alg_lt(a, b)
    def le(self, a, b): return not cur().alg_lt(b, a)
    def truth(self, a): return not self.eq(a, Alg({}))
    def fmt(self, a, spec):
        if spec: raise Unsupported('formatted with spec ' + spec)
        return token(a)
_HOOK = _AlgHook()

def token(v):
    """A placeholder in text for a symbolic value."""
    c = cur()
    k = '\u27e6%d\u27e7' % len(c.tokens)
    c.tokens[k] = v
    return k

# ---------------------------------------------------------------- booleans
class SBool:
    __slots__ = ('e',)
    def __init__(self, e): self.e = e
    def __bool__(self): return cur().decide(self.e)
    def __and__(self, o): return SBool(z3.And(self.e, zb(o)))
    __rand__ = __and__
    def __or__(self, o): return SBool(z3.Or(self.e, zb(o)))
    __ror__ = __or__
    def __xor__(self, o): return SBool(z3.Xor(self.e, zb(o)))
    __rxor__ = __xor__
    def __invert__(self): return SBool(z3.Not(self.e))
    def __eq__(self, o): return SBool(self.e == zb(o))
    def __ne__(self, o): return SBool(self.e != zb(o))
    def __hash__(self): return hash(bool(self))
    def __int__(self): return 1 if bool(self) else 0
    def __index__(self): return 1 if bool(self) else 0
    def __repr__(self): return 'SBool(%s)' % self.e

def zb(o):
    if isinstance(o, SBool): return o.e
    if isinstance(o, bool): return z3.BoolVal(o)
    if z3.is_expr(o): return o
    raise Unsupported('boolean from %r' % type(o))

# ---------------------------------------------------------------- integers
class SInt:
    """A symbolic int.  kind 'int': mathematical; kind 'bv': 64-bit (indices, qubit numbers)."""
    __slots__ = ('e', 'p2', 'tag')
    __array_ufunc__ = None
    def __init__(self, e, p2=None, tag=None):
        self.e = e
        self.p2 = p2        # z3 expr t when the value is known to be 2**t
        self.tag = tag
    @property
    def isbv(self): return z3.is_bv(self.e)
    def lift(self, o):
        if isinstance(o, SInt):
            if o.isbv == self.isbv: return o.e
            if self.isbv:
                raise Unsupported('mixing mathematical and machine integers')
            raise Unsupported('mixing mathematical and machine integers')
        if isinstance(o, SBool): o = int(o)
        if isinstance(o, bool): o = int(o)
        if isinstance(o, int):
            return z3.BitVecVal(o, BVW) if self.isbv else z3.IntVal(o)
        if hasattr(o, 'dtype') and getattr(o, 'shape', None) == () and 'int' in str(o.dtype):
            return self.lift(int(o))
        return None
    def _bin(self, o, f):
        b = self.lift(o)
        if b is None: return NotImplemented
        return SInt(z3.simplify(f(self.e, b)))
    def _rbin(self, o, f):
        b = self.lift(o)
        if b is None: return NotImplemented
        return SInt(z3.simplify(f(b, self.e)))
    def __add__(self, o):
        if isinstance(o, (float, complex, Alg)): return self.__alg__() + o
        return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o):
        if isinstance(o, (float, complex, Alg)): return self.__alg__() + o
        return self._rbin(o, lambda a, b: a + b)
    def __sub__(self, o):
        if isinstance(o, (float, complex, Alg)): return self.__alg__() - o
        return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o):
        if isinstance(o, (float, complex, Alg)): return o - self.__alg__()
        return self._rbin(o, lambda a, b: a - b)
    def __mul__(self, o):
        if isinstance(o, (float, complex, Alg)): return self.__alg__() * o
        if isinstance(o, (list, tuple, str)): return self.__rmul__(o)
        return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o):
        if isinstance(o, (float, complex, Alg)): return self.__alg__() * o
        if isinstance(o, (list, tuple, str)):
            from .seqs import SymRepeat
            return SymRepeat(o, self)
        return self._rbin(o, lambda a, b: a * b)
    def __truediv__(self, o): return self.__alg__() / o
    def __rtruediv__(self, o): return o / self.__alg__()
    def __alg__(self):
        return int_as_real(self)
    def __floordiv__(self, o):
        b = self.lift(o)
        if b is None: return NotImplemented
        if self.isbv:
            if not cur().implied(z3.And(b > 0, self.e >= 0)): raise Unsupported('machine division of negatives')
            k = p2of(o)
            return SInt(z3.UDiv(self.e, b) if k is None else z3.LShR(self.e, k))
        return SInt(pyfloordiv(self.e, b))
    def __rfloordiv__(self, o):
        return SInt(pyfloordiv(self.lift(o), self.e))
    def __mod__(self, o):
        b = self.lift(o)
        if b is None: return NotImplemented
        if self.isbv:
            if not cur().implied(z3.And(b > 0, self.e >= 0)): raise Unsupported('machine mod of negatives')
            return SInt(z3.URem(self.e, b) if p2of(o) is None else self.e & (b - 1))
        if isinstance(o, int) and o > 0: return SInt(self.e % b)
        if CUR is not None and CUR.extra.get('mod_window') and CUR.implied(b > 0):
            # linear arithmetic where the quotient is small
            for k in (0, 1, -1):
                if CUR.decide(z3.And(self.e >= k * b, self.e < (k + 1) * b)): return SInt(z3.simplify(self.e - k * b))
        return SInt(self.e - b * pyfloordiv(self.e, b))
    def __rmod__(self, o):
        b = self.lift(o)
        return SInt(b - self.e * pyfloordiv(b, self.e))
    def __neg__(self): return SInt(-self.e)
    def __pos__(self): return self
    def __abs__(self): return -self if self < 0 else self
    def __invert__(self): return SInt(~self.e) if self.isbv else SInt(-self.e - 1)
    def __and__(self, o):
        if hasattr(o, 'bv_binop'): return o.bv_binop('and', self, True)
        if not self.isbv: return bitop('and', self, o)
        return self._bin(o, lambda a, b: a & b)
    __rand__ = __and__
    def __or__(self, o):
        if hasattr(o, 'bv_binop'): return o.bv_binop('or', self, True)
        if not self.isbv: return bitop('or', self, o)
        return self._bin(o, lambda a, b: a | b)
    __ror__ = __or__
    def __xor__(self, o):
        if hasattr(o, 'bv_binop'): return o.bv_binop('xor', self, True)
        if not self.isbv: return bitop('xor', self, o)
        return self._bin(o, lambda a, b: a ^ b)
    __rxor__ = __xor__
    def __lshift__(self, o):
        if not self.isbv: raise Unsupported('shift of a mathematical integer')
        return self._bin(o, lambda a, b: a << b)
    def __rlshift__(self, o):
        if self.isbv:
            if not cur().decide(self.e >= 0): raise ValueError('negative shift count')
            r = SInt(z3.simplify(z3.BitVecVal(o, BVW) << self.e))
            if o == 1: r.p2 = self.e
            return r
        if o == 1:
            if not cur().decide(self.e >= 0): raise ValueError('negative shift count')
            return SInt(pow2(self.e), p2=self.e)
        raise Unsupported('shift by a mathematical integer')
    def __rshift__(self, o):
        if not self.isbv:
            if isinstance(o, int): return self // (2 ** o)
            raise Unsupported('shift of a mathematical integer')
        return self._bin(o, z3.LShR)
    def __rpow__(self, o):
        if o == 2: return self.__rlshift__(1)
        raise Unsupported('%r ** symbolic' % (o,))
    def __pow__(self, n):
        if isinstance(n, int) and n >= 0:
            r = SInt(self.lift(1))
            for _ in range(n): r = r * self
            return r
        raise Unsupported('symbolic power')
    def _cmp(self, o, f):
        if isinstance(o, (float, Alg)): return f(self.__alg__(), Alg.of(o))
        b = self.lift(o)
        if b is None: return NotImplemented
        return SBool(z3.simplify(f(self.e, b)))
    def __eq__(self, o):
        b = self.lift(o)
        if b is None:
            if isinstance(o, (float, Alg, complex)): return self.__alg__() == o
            return NotImplemented
        return SBool(z3.simplify(self.e == b))
    def __ne__(self, o):
        b = self.lift(o)
        if b is None:
            if isinstance(o, (float, Alg, complex)): return self.__alg__() != o
            return NotImplemented
        return SBool(z3.simplify(self.e != b))
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __bool__(self): return cur().decide(self.e != self.lift(0))
    def __hash__(self): raise Unsupported('hash of a symbolic int')
    def __index__(self):
        # explicit calls (x.__index__()) get the symbolic value back; a use where
        # CPython itself needs a machine int raises TypeError, reported as unsupported
        return self
    def __int__(self): return concrete(self)
    def __copy__(self): return self
    def __deepcopy__(self, m): return self
    def __format__(self, spec):
        if spec not in ('', 'd'): raise Unsupported('format spec')
        return token(self)
    def __str__(self): return token(self)
    def __repr__(self): return 'SInt(%s)' % self.e
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    def conjugate(self): return self
    def bit_length(self): raise Unsupported('bit_length')

def p2of(o):
    """the exponent of a machine integer known to be a power of two"""
    if isinstance(o, SInt): return o.p2 if o.isbv else None
    if isinstance(o, int) and o > 0 and not o & (o - 1): return z3.BitVecVal(o.bit_length() - 1, BVW)
def concrete(x):
    raise Unsupported('a machine int is needed for the symbolic %r' % x)

def pyfloordiv(a, b):
    # Python floor division from SMT-LIB (Euclidean) division
    q = a / b
    return z3.If(b > 0, q, z3.If(a % b == 0, q, q - 1))

_pow2 = z3.Function('pow2', z3.IntSort(), z3.IntSort())
def pow2(e):
    t = _pow2(e)
    c = CUR
    if c is not None:
        seen = c.extra.setdefault('pow2', {})
        k = e.get_id()
        if k not in seen:
            seen[k] = e
            c.assume(z3.Implies(e >= 0, t >= 1))
            c.assume(z3.Implies(e >= 1, t >= 2))
            c.assume(z3.Implies(e >= 0, t > e))
            c.assume(z3.Implies(e == 0, t == 1))
            for k2, e2 in list(seen.items()):
                if k2 != k:
                    c.assume(z3.Implies(e < e2, t < _pow2(e2)))
                    c.assume(z3.Implies(e2 < e, _pow2(e2) < t))
    return t
def bitop(op, a, b):
    raise Unsupported('bit operation on a mathematical integer')

_real_of_int = {}
def int_as_real(s):
    if z3.is_int_value(s.e): return Alg.of(s.e.as_long())
    if z3.is_bv_value(s.e): return Alg.of(s.e.as_signed_long())
    return linear(z3.simplify(s.e))
def linear(e):
    k = e.decl().kind()
    if z3.is_int_value(e): return Alg.of(e.as_long())
    if k == z3.Z3_OP_UMINUS: return -linear(e.arg(0))
    if k == z3.Z3_OP_ADD: return sum((linear(x) for x in e.children()), Alg.of(0))
    if k == z3.Z3_OP_SUB:
        r = linear(e.arg(0))
        for x in e.children()[1:]: r = r - linear(x)
        return r
    if k == z3.Z3_OP_MUL:
        r = Alg.of(1)
        for x in e.children(): r = r * linear(x)
        return r
    return alg.rsym('int(%s)' % e)

def ivar(name): return SInt(z3.Int(name))
def bvar(name): return SInt(z3.BitVec(name, BVW))
