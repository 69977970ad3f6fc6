"""C17: conversions between QUBO, Ising and polynomial form.

Linear parts of the argument: the matrix is probed (engine/tensor.py), so that the contracts
hold for matrices of any size."""
from contracts.common import *
from engine import alg, tensor as T, symp as S
from engine.alg import Alg
from engine.tensor import PV, FArr, zero
from engine.opaque import Opaque, either
from engine.seqs import EndPath, Poison, SymSeq
import types, collections

W = None
def size():
    c = cur(); n = z3.Int('n'); c.assume(n >= 1); return n
def probe(n, tri=False, ty=None):
    """a square matrix of which only the entry (a, b) is not zero"""
    c = cur(); a, b = z3.Int('a'), z3.Int('b'); c.assume(z3.And(a >= 0, a < n, b >= 0, b < n))
    if tri: c.assume(a <= b)
    c.extra['specials'] = [a, b]; c.extra['ab'] = (a, b); c.extra['prefer'] = [n <= 3]
    kind = ty or ('array', list)[c.choose(2, 'matrix as array or list')]
    return FArr([(0, n), (0, n)], lambda x, y: T.entry(x, y, a, b), kind), a, b
def setup():
    c = cur(); c.extra['loop_hook'] = T.range_loop; c.extra['comp_hook'] = T.comp_hook
def module():
    global W
    loader.fresh(); loader.load('blueqat'); W = loader.load('blueqat.wq')
    W.np = shadows.Shadow(__import__('numpy'), T.numpy_over())
    return W
def expect(v, want, name):
    """the value v is want times the probed entry"""
    c = cur(); v = PV.of(v)
    if v is None: raise Unsupported('a value of another kind')
    c.prove_zero(v.k - want, name); c.prove_zero(v.c, name + ' (nothing else)')
# ---------------------------------------------------------------- energies
def ei(led):
    def path():
        c = cur(); setup(); n = size(); J, a, b = probe(n)
        s = T.atoms('s', T.spin); q = FArr([(0, n)], lambda y: s(y))
        r = W.Ei(q, J)
        if c.decide(a == b): expect(r, s(a), 'fields times spins')
        elif c.decide(a < b): expect(r, s(a) * s(b), 'couplings times both spins')
        else: expect(r, 0, 'only the upper triangle counts')
    run_explore(led, 'Ei', path)
def spin_energy(J, ep, n, a, b, name):
    """sum of J_ii s_i + sum over i < j of J_ij s_i s_j + ep, for any spins"""
    s = T.atoms('s', T.spin); f = J.frozen()
    tot = PV.of(T.ssum(lambda i: PV.of(f(i, i)) * s(i), 0, n)) + PV.of(T.ssum(lambda i: T.ssum(lambda j: PV.of(f(i, j)) * (s(i) * s(j)), i + 1, n), 0, n)) + PV.of(ep)
    return tot, s
def ising(led):
    def qi():
        c = cur(); setup(); n = size(); Q, a, b = probe(n); old = Q.frozen()
        o = W.Opt(); c.extra['heap'] = [o]; o.qubo = Q; o.ep = alg.rsym('ep of an earlier run')
        W.np.random = types.SimpleNamespace(choice=choice)
        o.qi()
        J = T.asarr(o.J)
        if J is None or J.ndim != 2: raise Unsupported('couplings of another kind')
        c.require(o.qubo is Q and not Q.layers, 'the problem is not changed')
        for (l, h) in J.dims: c.prove(h - l == n, 'couplings of the size of the problem')
        tot, s = spin_energy(J, o.ep, n, a, b, '')
        if c.decide(a == b): expect(tot, (1 + s(a)) / 2, 'the energy of every assignment is kept: diagonal')
        elif c.decide(a < b): expect(tot, (1 + s(a)) * (1 + s(b)) / 4, 'the energy of every assignment is kept: couplings')
    run_explore(led, 'Opt.qi', qi)
    def rej():
        c = cur(); setup(); n = size(); J, a, b = probe(n, tri=True)
        o = W.Opt(); o.J = J; o.qubo = None
        R = o.reJ()
        if not isinstance(R, FArr) or R.ndim != 2: raise Unsupported('couplings of another kind')
        x, y = z3.Int('x'), z3.Int('y'); c.assume(z3.And(x >= 0, x < n, y >= 0, y < n))
        v = R.peek(x, y)
        inside = c.decide(z3.Or(z3.And(x == a, y == b), z3.And(x == b, y == a)))
        expect(v, 1 if inside else 0, 'the couplings, symmetric, with the fields on the diagonal')
        c.require(o.J is J and not J.layers, 'the couplings are not changed')
    run_explore(led, 'Opt.reJ', rej)
def choice(vals, size=None, *a, **k):
    if a or k or not isinstance(vals, (list, tuple)): raise Unsupported('choice')
    if len(set(vals)) == 1: return FArr([(0, T.ze(size))], lambda y: vals[0])
    if set(vals) == {-1, 1}:
        c = cur(); s = T.atoms(c.fresh('spins'), T.spin)
        return FArr([(0, T.ze(size))], lambda y: s(y))
    raise Unsupported('choice')
# ---------------------------------------------------------------- Pauli expression
class Bits:
    """sum of coefficients times products of the bits of a QUBO (commuting projectors)"""
    vx_static = True
    def __init__(self, t): self.t = t
    @staticmethod
    def of(x):
        if isinstance(x, Bits): return x
        v = PV.of(x)
        return None if v is None else Bits([((), v)])
    def __add__(self, o):
        o = Bits.of(o)
        if o is None: return NotImplemented
        out = list(self.t)
        for k, v in o.t:
            for n, (k2, v2) in enumerate(out):
                if k is k2 or same(k, k2): out[n] = (k2, v2 + v); break
            else: out.append((k, v))
        return Bits(out)
    __radd__ = __add__
    def __neg__(self): return self * -1
    def __sub__(self, o):
        o = Bits.of(o)
        return NotImplemented if o is None else self + (-o)
    def __mul__(self, o):
        o = Bits.of(o)
        if o is None: return NotImplemented
        out = Bits([])
        for k, v in self.t:
            for k2, v2 in o.t:
                ks = list(k)
                for i in k2:
                    if not any(cur().decide(i == j) for j in ks): ks.append(i)
                out = out + Bits([(tuple(ks), mulpv(v, v2))])
        return out
    __rmul__ = __mul__
    def __truediv__(self, o): return self * (1 / Alg.of(o))
    def vx_zero(self): return all(v.zero() for k, v in self.t)
    def simplify(self): return self
    def to_expr(self): return self
    def __getattr__(self, n):
        if n.startswith('vx_') or n.startswith('__') or n in ('dtype', 'shape'): raise AttributeError(n)
        raise Unsupported('expression.%s' % n)
    __hash__ = None
def mulpv(a, b):
    if zero(a.k) and not getattr(a, 'dep', False): return b * a.c
    if zero(b.k): return a * b.c
    raise Unsupported('a product of matrix entries')
def same(k, k2):
    c = cur()
    if len(k) != len(k2): return False
    return all(any(c.decide(i == j) for j in k2) for i in k)
class HInt(SInt):
    """a number whose hash says nothing about it"""
    def __hash__(self): return 0
def hash0(x): return 0
def pauli(led):
    pm = loader.load('blueqat.pauli')
    def bit(n):
        c = cur()
        return Bits([((T.ze(n),), PV(0, 1))])
    def path():
        c = cur(); setup(); n = size(); Q, a, b = probe(n)
        old = pm.qubo_bit; pm.qubo_bit = bit
        try: h = W.pauli(Q)
        finally: pm.qubo_bit = old
        h = Bits.of(h)
        if h is None: raise Unsupported('an expression of another kind')
        c.require(not Q.layers, 'the problem is not changed')
        key = (a,) if c.decide(a == b) else (a, b)
        got = PV(0)
        for k, v in h.t:
            if same(k, key): got = got + v
            else: expect(v, 0, 'nothing but the products of bits of the problem')
        expect(got, 1, 'every entry times the product of its bits')
    run_explore(led, 'pauli', path)
    def wrong():
        c = cur(); setup(); n = size(); m = z3.Int('m'); c.assume(z3.And(m >= 1, m != n))
        Q = FArr([(0, n), (0, m)], lambda x, y: PV(0)); pm.qubo_bit
        try: W.pauli(Q)
        except (AssertionError, ValueError, IndexError): c.require(True, 'a problem which is not square is refused'); return
        c.require(False, 'a problem which is not square is refused')
    run_explore(led, 'pauli(not square)', wrong)
    def qbit():
        c = cur(); psem = __import__('contracts.psem', fromlist=['x'])
        n = HInt(z3.Int('n')); c.assume(n.e >= 0)
        old = pm.__dict__.get('hash'); pm.hash = hash0
        try: r = pm.qubo_bit(n)
        finally:
            if old is None: del pm.hash
            else: pm.hash = old
        terms = list(r.terms)
        tot = {}
        for t in terms:
            ops = list(t.ops)
            if len(ops) > 1 or ops and ops[0].op != 'Z': c.require(False, '(1 - Z) / 2', repr(terms)); return
            if ops: c.prove(T.ze(ops[0].n) == n.e, 'on the qubit of the bit')
            tot[len(ops)] = tot.get(len(ops), 0) + Alg.of(t.coeff)
        c.prove_zero(Alg.of(tot.get(0, 0)) - Alg.of(1) / 2, '(1 - Z) / 2: identity'); c.prove_zero(Alg.of(tot.get(1, 0)) + Alg.of(1) / 2, '(1 - Z) / 2: Z')
    run_explore(led, 'qubo_bit', qbit)
# ---------------------------------------------------------------- adding
def add(led):
    def path():
        c = cur(); setup(); n = size(); k = c.choose(3, 'sizes')
        f, g = T.atoms('P', alg.rsym), T.atoms('Q', alg.rsym)
        ty = ('array', list)[c.choose(2, 'old matrix as array or list')]; ty2 = ('array', list)[c.choose(2, 'new matrix as array or list')]
        o = W.Opt(); M = alg.rsym('M')
        new = FArr([(0, n), (0, n)], g, ty2)
        if k == 1: o.qubo = []
        else: o.qubo = FArr([(0, n), (0, n)], f, ty)
        old = o.qubo
        r = o.add(new, M) if k != 2 else o.add(new)
        c.require(r is o, 'the problem itself is returned')
        R = T.asarr(o.qubo)
        if R is None or R.ndim != 2: raise Unsupported('a matrix of another kind')
        x, y = z3.Int('x'), z3.Int('y'); c.assume(z3.And(x >= 0, x < n, y >= 0, y < n))
        for (l, h) in R.dims: c.prove(h - l == n, 'a matrix of the same size')
        c.prove_zero(Alg.of(R.peek(x, y)) - (f(x, y) if k != 1 else 0) - (M if k != 2 else 1) * g(x, y), 'every entry grows by the weight times the entry added')
        c.require(not new.layers and (k == 1 or not old.layers), 'the matrices given are not changed')
    run_explore(led, 'Opt.add', path)
    def text():
        c = cur(); setup(); o = W.Opt(); o.qubo = []; X, Y = Opaque('expanded'), Opaque('m'); n = size(); g = T.atoms('Q', alg.rsym); M = FArr([(0, n), (0, n)], g); w = alg.rsym('M'); seen = []
        def ex(q):
            if q == 'text': seen.append('e'); return X
            if q is X: return X
            raise Unsupported('expand of something else')
        def tm(q):
            if q is not X and q != 'text': raise Unsupported('matrix of something else')
            return M
        o.expand_qubo, o.qubo_to_matrix = ex, tm
        o.add('text', w)
        R = T.asarr(o.qubo); x, y = z3.Int('x'), z3.Int('y'); c.assume(z3.And(x >= 0, x < n, y >= 0, y < n))
        if R is None: raise Unsupported('matrix')
        c.prove_zero(Alg.of(R.peek(x, y)) - w * g(x, y), 'a polynomial given as text adds the weight times its matrix')
    run_explore(led, 'Opt.add(text)', text)
# ---------------------------------------------------------------- polynomials
class Args:
    """the terms of a sum, of unknown number"""
    vx_static = True
    def __init__(self, mk): self.mk = mk
    def vx_loop(self, ident, lv, rb): return self.mk(ident, lv, rb)
    def vx_seq(self, ty): return self
    def _bad(self, *a): raise Unsupported('the terms of a sum')
    __iter__ = __len__ = __getitem__ = __eq__ = _bad
    __hash__ = None
class with_sympy:
    def __enter__(self): shadows.EXTRA_MODULES['sympy'] = S.SympyS()
    def __exit__(self, *a): shadows.EXTRA_MODULES.pop('sympy', None)
def nbody(led):
    def path():
        c = cur(); c.extra['U'] = 0; tot = alg.csym('the value of the polynomial'); box = {}
        def table():
            m = S.Mapping(); c.extra.setdefault('maps', []).append(m); return m
        c.extra['dict_hook'] = table
        c.extra['wloop_hook'] = lambda ident, names: S.InvLoop(ident, names)
        def arg():
            c = cur(); k = c.choose(3, 'number, symbol or product'); A = alg.rsym('coefficient')
            if k == 0: r = S.NumS(A)
            elif k == 1: r = S.Sym()
            else:
                r = S.MulS(alg.rsym('product')); n = r.free_symbols.slen(); c.assume(n.e >= 1)
            box['arg'] = r; return r
        e = S.AddS(tot); e.args = Args(lambda ident, lv, rb: S.InvLoop(ident, rb, lv, arg, lambda lp: box['arg'].v, tot))
        with with_sympy(): r = W.nbody_separation(e, S.Supply())
        if not (isinstance(r, tuple) and len(r) == 3): raise Unsupported('a result of another kind')
        new, cons, mp = r
        new, cons = S.SP.of(new), S.SP.of(cons)
        if new is None or cons is None: raise Unsupported('a result of another kind')
        if not S.cons_zero(new.v - tot): raise Unsupported('the polynomial without its terms')
        c.require(True, 'the terms keep their value where the added variables are the products they stand for, and are of second order')
        pen = [s for s in cons.v.syms() if S.errs().get(s) == 'pen']
        if len(pen) != 1 or not cons.v.subs(pen[0], Alg.of(0)).is_zero() or not (cons.v.subs(pen[0], Alg.of(1)) - 1).is_zero(): raise Unsupported('the penalty is something else')
        c.require(True, 'the penalty is the sum of the penalties of the added variables, each zero where the variable is its product and positive elsewhere')
        if mp not in c.extra.get('maps', ()): raise Unsupported('a table of another kind')
        c.require(True, 'the table gives each added variable under its two factors')
    run_explore(led, 'nbody_separation', path)
class AllSyms:
    """the symbols of a polynomial: indices below N, the last one among them"""
    vx_static = True
    def __init__(self, N): self.N = N
    def vx_comp(self, kind, f, cond, star):
        if cond is not None or star: raise Unsupported('comprehension')
        c = cur(); t = ivar(c.fresh('t')); c.assume(t.e >= 0); c.assume(t.e < self.N)
        r = f(S.Sym(t))
        if not isinstance(r, SInt): raise Unsupported('something else of a symbol')
        d = z3.simplify(r.e - t.e)
        if not z3.is_int_value(d): raise Unsupported('something else of a symbol')
        return Indices(self.N, d.as_long())
    def slen(self):
        c = cur(); m = ivar(c.fresh('m')); c.assume(z3.And(m.e >= 1, m.e <= self.N)); return m
    def _bad(self, *a): raise Unsupported('all symbols')
    __iter__ = __len__ = __eq__ = _bad
    __hash__ = None
class Indices:
    vx_static = True
    def __init__(self, N, d): self.N, self.d = N, d
    def vx_seq(self, ty): return self
    def vx_minmax(self, name, k):
        if k or name != 'max': raise Unsupported('max with options')
        return SInt(z3.simplify(self.N - 1 + self.d))
    def _bad(self, *a): raise Unsupported('indices')
    __iter__ = __len__ = __eq__ = _bad
    __hash__ = None
class MatLoop:
    """a loop over the terms: each adds its coefficient to its own cell of the matrix"""
    rebind = True
    def __init__(self, ident, rebound, lv, coef): self.ident, self.rebound, self.lv, self.coef = ident, rebound, set(lv), coef; self.env = {}; self.entered = False
    def head(self, loc):
        c = cur()
        if self.entered: return self.end(loc)
        self.entered = True
        if c.depth: raise Unsupported('a loop inside a condition')
        self.st = c.store.setdefault(('mat', self.ident, tuple(c.trace[:c.pos])), [])
        mode = c.choose(2, 'loop %s' % self.ident)
        for r in self.rebound: self.env[r] = Poison(r)
        self.keep = {k: v for k, v in loc.items() if k not in self.rebound and k not in self.lv}
        self.tens = list(c.extra.get('tensors', ()))
        if mode == 0:
            arg, self.cell, self.val = self.term()
            self.prev = []
            for t in self.tens:
                def blank(t=t):
                    y = [z3.Int(c.fresh('y')) for _ in range(t.ndim)]; cur().assume(z3.And(*[z3.And(v >= lo, v < hi) for v, (lo, hi) in zip(y, t.dims)]))
                    return zero(t.peek(*y))
                if not all(c.cases(blank)): raise Unsupported('a table which is not zero at first')
                f = T.atoms(c.fresh('state'), alg.rsym); cell = self.cell
                def old(*y, f=f, cell=cell):
                    if cell is not None and cur().decide(z3.And(*[a == b for a, b in zip(y, cell)])): return 0
                    return f(*y)
                t.layers.append(old); self.prev.append(old)
            self.nl = [len(t.layers) for t in self.tens]
            self.item = arg; return True
        for k, t in enumerate(self.tens):
            if not all(d[k] for d in self.st): continue
            if t.ndim != 2: raise Unsupported('a table of another kind')
            base = t.frozen(); coef = self.coef
            t.layers.append(lambda x, y, base=base: Alg.of(base(x, y)) + coef(x, y))
        return False
    def term(self):
        c = cur(); N = self.N; k = c.choose(6, 'form of a term'); A = alg.rsym('coefficient')
        def idx(nm):
            i = ivar(nm); c.assume(z3.And(i.e >= 0, i.e < N)); return i
        if k == 0: return S.NumS(A), None, None
        i = idx('i'); s = S.Sym(i)
        if k == 1: return s, (i.e, i.e), Alg.of(1)
        if k == 2: return S.MulS(A * s.v, S.FSet((s,)), (A, s)), (i.e, i.e), A
        if k == 3: return S.MulS(A * s.v, S.FSet((s,)), (A, S.Power(s))), (i.e, i.e), A
        j = idx('j'); c.assume(i.e < j.e); t = S.Sym(j); o = (s, t) if c.choose(2, 'order of the factors') else (t, s)
        if k == 4: return S.MulS(s.v * t.v, S.FSet((s, t)), o), (i.e, j.e), Alg.of(1)
        return S.MulS(A * s.v * t.v, S.FSet((s, t)), (A,) + o), (i.e, j.e), A
    def end(self, loc):
        c = cur()
        bad = [k for k, v in self.keep.items() if loc.get(k) is not v and not k.startswith('_vx_')]
        if bad: raise Unsupported('other variables change: %s' % bad)
        out = {}
        for k, t in enumerate(self.tens):
            if len(t.layers) == self.nl[k] and self.cell is None: out[k] = True; continue
            y = [z3.Int(c.fresh('y')) for _ in range(t.ndim)]
            def go():
                c = cur(); c.assume(z3.And(*[z3.And(v >= lo, v < hi) for v, (lo, hi) in zip(y, t.dims)]))
                d = PV.of(t.peek(*y)) - PV.of(self.prev[k](*y))
                if self.cell is not None and t.ndim == 2 and c.decide(z3.And(*[a == b for a, b in zip(y, self.cell)])): d = d - self.val
                return zero(d)
            ok = all(c.cases(go))
            if not ok and len(t.layers) != self.nl[k]: raise Unsupported('a term writes something else')
            out[k] = ok
        self.st.append(out)
        raise EndPath()
def poly(led):
    def path():
        c = cur(); setup(); N = z3.Int('N'); c.assume(N >= 1);
        f = T.atoms('p', alg.rsym)
        def coef(x, y): return f(x, y) if cur().decide(x <= y) else Alg.of(0)
        def loop(ident, lv, rb):
            l = MatLoop(ident, rb, lv, coef); l.N = N; return l
        e = S.AddS(alg.csym('value')); e._fs = AllSyms(N); e.args = Args(loop)
        with with_sympy(): r = W.qn_to_qubo(e)
        R = T.asarr(r)
        if R is None or R.ndim != 2: raise Unsupported('a matrix of another kind')
        x, y = z3.Int('x'), z3.Int('y'); c.assume(z3.And(x >= 0, x < N, y >= 0, y < N))
        for l, h in R.dims: c.prove(h - l == N, 'a row and a column for each variable up to the last')
        c.prove_zero(Alg.of(R.peek(x, y)) - coef(x, y), 'the matrix has the coefficient of every term')
    run_explore(led, 'qn_to_qubo', path)
class ISyms(AllSyms):
    """the symbols of a polynomial, in increasing or decreasing order of index"""
    def __init__(self, N): self.N = N; self.present = z3.Function('present', z3.IntSort(), z3.BoolSort()); self.backwards = None
    def vx_loop(self, ident, lv, rb):
        if self.backwards is None: self.backwards = cur().choose(2, 'order of the symbols') == 1
        l = T.SpLoop(shadows.SymRange(0, SInt(self.N)), ident, lv, rb); l.present = self.present; l.backwards = self.backwards; l.wrap = S.ISym
        return l
class Quad(S.SP):
    """a polynomial without powers of which only one term is not zero"""
    def __init__(self, N, a, b): S.SP.__init__(self, alg.csym('value')); self._fs = ISyms(N); self.a, self.b = a, b
    def coeff(self, x, *k):
        if k: raise Unsupported('coeff')
        a, b = self.a, self.b
        if isinstance(x, S.IProd):
            i, j = T.ze(x.a.idx), T.ze(x.b.idx)
            if a is None or b is None: return PV(0)
            return PV(1) if cur().decide(z3.Or(z3.And(i == a, j == b), z3.And(i == b, j == a))) else PV(0)
        if isinstance(x, S.ISym):
            i = T.ze(x.idx)
            if a is None: return S.Lin(PV(0))
            if b is None: return S.Lin(PV(1) if cur().decide(i == a) else PV(0))
            if cur().decide(i == a): return S.Lin(PV(0), [(b, PV(1))])
            if cur().decide(i == b): return S.Lin(PV(0), [(a, PV(1))])
            return S.Lin(PV(0))
        raise Unsupported('coeff of something else')
def text(led):
    def ex():
        c = cur(); c.extra['U'] = 0; c.extra['loop_hook'] = S.inv_range
        v = alg.csym('the value of the polynomial'); o = W.Opt()
        with with_sympy(): r = o.expand_qubo(S.SP(v))
        r = S.SP.of(r)
        if r is None: raise Unsupported('a result of another kind')
        if not S.cons_zero(r.v - v): raise Unsupported('another value')
        c.require(True, 'powers of variables become the variables: the value on 0/1 is kept')
    run_explore(led, 'Opt.expand_qubo', ex)
    def ox():
        c = cur(); c.extra['U'] = 0; c.extra['loop_hook'] = S.inv_range
        v = alg.csym('the value of the polynomial')
        with with_sympy(): r = W.optx(S.SP(v))
        r = S.SP.of(r)
        if r is None: raise Unsupported('a result of another kind')
        if not S.cons_zero(r.v - v): raise Unsupported('another value')
        c.require(True, 'squares of variables become the variables: the value on 0/1 is kept')
    run_explore(led, 'optx', ox)
    def tm():
        c = cur(); setup(); N = z3.Int('N'); c.assume(N >= 1); k = c.choose(3, 'which term')
        a, b = z3.Int('a'), z3.Int('b'); c.extra['specials'] = [a, b][:2 - k]
        if k == 0: c.assume(z3.And(a >= 0, a < b, b < N)); q = Quad(N, a, b)
        elif k == 1: c.assume(z3.And(a >= 0, a < N)); q = Quad(N, a, None)
        else: q = Quad(N, None, None)
        for t in c.extra['specials']: c.assume(q._fs.present(t))
        o = W.Opt(); src = Opaque('polynomial')
        def expand(x):
            if x is src or x is q: return q
            raise Unsupported('expand of something else')
        o.expand_qubo = expand
        with with_sympy(): r = o.qubo_to_matrix(src)
        R = T.asarr(r)
        if R is None or R.ndim != 2: raise Unsupported('a matrix of another kind')
        for l, h in R.dims: c.prove(h - l == N, 'a row and a column for each variable up to the last')
        x, y = z3.Int('x'), z3.Int('y'); c.assume(z3.And(x >= 0, x < N, y >= 0, y < N))
        here = c.decide(z3.And(x == a, y == b)) if k == 0 else c.decide(z3.And(x == a, y == a)) if k == 1 else False
        expect(R.peek(x, y), 1 if here else 0, 'the matrix has the coefficient of every term')
    run_explore(led, 'Opt.qubo_to_matrix', tm)
def run(led, tier='quick'):
    module(); text(led)
    ei(led); ising(led); pauli(led); add(led); nbody(led); poly(led)
    for n, t in [('pauli', 'any square matrix'), ('optx', 'any polynomial'), ('nbody_separation', 'any polynomial without powers'), ('qn_to_qubo', 'any quadratic polynomial without powers'), ('Ei', 'any matrix and spins'), ('Opt.reJ', 'any upper triangular couplings'), ('Opt.qi', 'any matrix (upper triangle)'),
        ('Opt.qubo_to_matrix', 'any quadratic polynomial'), ('Opt.expand_qubo', 'any polynomial'), ('Opt.add', 'any matrices and weights')]: led.functions['blueqat.wq.' + n] = t
    led.functions['blueqat.pauli.qubo_bit'] = 'any index'
    led.need = 150
ASSUMPTIONS = ['a quantity linear in the matrix is determined by its values where one entry is one and the others zero; that it is linear is what the stand-ins check (no product of two entries)',
 'sympy: the arguments of a sum are numbers, symbols and products with the coefficient first, no two of one monomial; expand, + - * ** keep values; subs(p, q) keeps the value where p and q have the same one; coeff, re and subs by 0 on a quadratic polynomial without powers; expand_qubo removes all powers (bounded check)',
 'the symbols of a polynomial for the matrix are q and a different index each; the supplementary variables given are new',
 'the matrix of qubo_bit(n) is diagonal with 0 and 1 (C12, C11): a product of bits is the product of the values on a basis state',
 'Opt.qi and reJ use the upper triangle of the matrix only (the documented form); loops over the symbols of a polynomial meet them in increasing or decreasing order of index']
EXPLANATION = ''
