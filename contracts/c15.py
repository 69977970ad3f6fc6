"""C15: energies and samplers.

Sums over sequences of unknown length: a passage of the loop at an arbitrary position gives
what it adds to each accumulator (or to which entry of a table), as a function of the item."""
from contracts.common import *
from engine import alg, iseq, opaque
from engine.alg import Alg
from engine.iseq import ISeq, zint
from engine.opaque import Opaque, either
from engine.seqs import EndPath, Poison
from contracts.c16 import Obj
import types, collections, numpy, functools

V = None
def num(v): return isinstance(v, (int, float, complex, Alg)) and not isinstance(v, bool)
def changed(loc, old):
    ch = [k for k, v in old.items() if loc.get(k) is not v and not k.startswith('_vx_')]
    if ch: raise Unsupported('other variables change: %s' % ch)
class AccLoop:
    """a loop whose passages add to accumulators; what a passage adds does not depend on them"""
    rebind = True
    def __init__(self, of, ident, rebound, lv=()): self.of, self.ident, self.rebound, self.lv = of, ident, rebound, set(lv); self.env = {}; self.entered = False
    def head(self, loc):
        c = cur()
        if self.entered: return self.end(loc)
        self.entered = True
        occ = c.extra.setdefault('loop_occ', {}); n = occ.get(self.ident, 0); occ[self.ident] = n + 1
        self.st = c.store.setdefault(('acc', self.ident, n, tuple(c.trace[:c.pos])), [])
        mode = c.choose(2, 'loop %s' % self.ident)
        self.acc = {}
        for r in self.rebound:
            self.env[r] = Poison(r)
            if r in loc and num(loc[r]):
                self.acc[r] = (Alg.of(loc[r]), alg.csym('acc[%s]' % r)); self.env[r] = self.acc[r][1]
        self.keep = {k: v for k, v in loc.items() if k not in self.rebound and k not in self.lv}
        self.of.enter(self)
        if mode == 0:
            self.item = self.of.element(self)
            return True
        if not self.st and not self.of.may_be_empty: raise core.Infeasible()
        for r, (e0, s) in self.acc.items():
            t = self.of.total(self, [(k, d[r]) for k, d in self.st], r)
            self.env[r] = e0 + t
        self.of.leave(self, self.st)
        return False
    def end(self, loc):
        c = cur()
        changed(loc, self.keep)
        syms = set()
        for e0, s in self.acc.values(): syms |= set(s.syms())
        d = {}
        for r, (e0, s) in self.acc.items():
            x = Alg.of(loc[r]) if num(loc[r]) else None
            if x is None: raise Unsupported('accumulator %s' % r)
            x = x - s
            if set(x.syms()) & syms: raise Unsupported('what is added depends on the sum')
            d[r] = x
        self.st.append((self.of.done(self), d))
        raise EndPath()
class Of:
    may_be_empty = True
    def enter(self, lp): pass
    def leave(self, lp, st): pass
    def done(self, lp): return None
# ---------------------------------------------------------------- measured tables
class Bits:
    """the bits of an entry: of unknown number"""
    vx_static = True
    def __init__(self, tab): self.tab = tab
    def vx_sum(self, start=0):
        if start != 0: raise Unsupported('sum of bits')
        return Ones(self)
    def count(self, x):
        if x != 1: raise Unsupported('count')
        return Ones(self)
    def vx_isinstance(self, t): return t in (tuple, object)
    def _bad(self, *a): raise Unsupported('the bits of an entry')
    __iter__ = __len__ = __getitem__ = __eq__ = __hash__ = _bad
class Ones:
    """how many bits are one"""
    vx_static = True
    _op_priority = 1e9
    def __init__(self, b): self.b = b
    def odd(self):
        r = either(('odd',), 'an odd number of ones'); cur().extra['odd'] = r; return r
    def __mod__(self, k):
        if k != 2: raise Unsupported('number of ones modulo %r' % k)
        return 1 if self.odd() else 0
    def __and__(self, k):
        if k != 1: raise Unsupported('bits of the number of ones')
        return 1 if self.odd() else 0
    __rand__ = __and__
    def __rpow__(self, b):
        if b not in (-1, -1.0): raise Unsupported('power')
        return b ** (1 if self.odd() else 2)
    def _bad(self, *a): raise Unsupported('the number of ones')
    __bool__ = __eq__ = __lt__ = __gt__ = __add__ = __mul__ = __index__ = _bad
    __hash__ = None
class Measured:
    """what a sampler gives: a table of bits and their probabilities"""
    vx_static = True
    def __init__(self): self.even, self.odd = alg.rsym('P(even)'), alg.rsym('P(odd)')
    def items(self): return MItems(self)
    def __getattr__(self, n):
        if n.startswith('vx_') or n.startswith('__'): raise AttributeError(n)
        raise Unsupported('table.%s' % n)
    def _bad(self, *a): raise Unsupported('entries of the table')
    __iter__ = __len__ = __getitem__ = _bad
class MItems(Of):
    vx_static = True
    def __init__(self, tab): self.tab = tab
    def vx_loop(self, ident, lv, rb): return AccLoop(self, ident, set(rb), lv)
    def element(self, lp):
        lp.p = alg.rsym('prob'); return (Bits(self.tab), lp.p)
    def done(self, lp): return (cur().extra.get('odd'), lp.p)
    def coef(self, d, p):
        """d = k * p with k free of p"""
        (sid,) = p.syms()
        k = d.subs(sid, Alg.of(1))
        if not (d - k * p).is_zero(): raise Unsupported('what is added is not a multiple of the probability')
        return k
    def total(self, lp, st, r):
        vals = {True: None, False: None}
        for (odd, p), d in st:
            k = self.coef(d, p)
            for o in ((True, False) if odd is None else (odd,)):
                if vals[o] is not None and not (vals[o] - k).is_zero(): raise Unsupported('entries of several kinds')
                vals[o] = k
        return sum((v * (self.tab.odd if o else self.tab.even) for o, v in vals.items() if v is not None), Alg.of(0))
    def vx_comp(self, kind, f, cond, star):
        if cond is not None or kind not in ('gen', 'list'): raise Unsupported('comprehension over the table')
        return MVals(self, f, star)
    def __iter__(self): raise Unsupported('entries of the table')
class MVals:
    vx_static = True
    def __init__(self, of, f, star): self.of, self.f, self.star = of, f, star
    def vx_sum(self, start=0):
        c = cur(); tot = Alg.of(start)
        def one():
            c = cur(); c.extra.pop('odd', None)
            p = alg.rsym('prob'); e = (Bits(self.of.tab), p)
            v = Alg.of(self.f(*e) if self.star else self.f(e))
            return ((c.extra.get('odd'), p), v)
        return tot + self.of.total(None, c.cases(one), None)
    def __iter__(self): raise Unsupported('entries of the table')
# ---------------------------------------------------------------- Hamiltonian
class PauliOp:
    vx_static = True
    def __init__(self, i):
        self.op = 'XYZ'[cur().choose(3, 'operator')]; self.n = SInt(z3.Int('n[%s]' % i)); cur().assume(self.n.e >= 0)
    def __getattr__(self, n):
        if n.startswith('vx_') or n.startswith('__'): raise AttributeError(n)
        raise Unsupported('operator.%s' % n)
class OpLoop:
    """for op in term.ops: gates are appended to the copy, on the operator's qubit, which
    turn Z into the operator"""
    rebind = True
    def __init__(self, sq, ident, rebound, lv=()): self.sq, self.ident, self.rebound, self.lv = sq, ident, rebound, set(lv); self.env = {}; self.entered = False
    def head(self, loc):
        c = cur()
        if self.entered: return self.end(loc)
        self.entered = True
        if not c.extra.get('ops') is self.sq: raise Unsupported('a loop over something else')
        for r in self.rebound:
            self.env[r] = Poison(r)
        self.loc0 = {k: v for k, v in loc.items() if k not in self.rebound and k not in self.lv}
        self.snap = [(x, len(x.log)) for x in c.extra['circs']]
        if c.choose(2, 'loop %s' % self.ident) == 0:
            self.op = self.item = PauliOp('m'); return True
        st = c.store.get(('rot', self.ident))
        if st is None: return False
        (k,) = st
        c.extra['circs'][k].log.append(('rotated', self.sq))
        return False
    def end(self, loc):
        c = cur()
        changed(loc, self.loc0)
        if len(c.extra['circs']) != len(self.snap): raise Unsupported('circuits made in the loop')
        new = [(k, x.log[n:]) for k, (x, n) in enumerate(self.snap) if x.log[n:]]
        if len(new) > 1: raise Unsupported('gates on several circuits')
        gates = new[0][1] if new else []
        m = gs.eye(2)
        for g in gates:
            if not isinstance(g, iseq.Gate): raise Unsupported('a loop in the loop')
            if len(g.targets) != 1: raise Unsupported('gates on several qubits')
            if g.targets[0] is not self.op.n and not c.implied(zint(g.targets[0]) == self.op.n.e):
                c.require(False, 'the gates are on the qubit of the operator', repr(g)); return self.fin(new)
            m = gs.mul(gs.GATES[g.name][2](*g.params), m)
        z = gs.mul(gs.dag(m), gs.mul(gs.mat_z(), m))
        want = {'X': gs.mat_x, 'Y': gs.mat_y, 'Z': gs.mat_z}[self.op.op]()
        c.require(gs.mat_eq(z, want, c.norm), 'measuring Z after the gates measures %s' % self.op.op, repr(gates))
        self.fin(new)
    def fin(self, new):
        c = cur()
        if new: c.store.setdefault(('rot', self.ident), set()).add(new[0][0])
        raise EndPath()
def op_hook(it, ident, lv, rb):
    if isinstance(it, ISeq): return OpLoop(it, ident, set(rb), lv)
class TermEl:
    vx_static = True
    def __init__(self, simple=False):
        # simple: every qubit is named once (C11: simplifying keeps the operator)
        c = cur(); K = z3.Int('simple K' if simple else 'K'); c.assume(K >= 0); self.simple = simple
        self.coeff = alg.csym('coeff') if c.extra.get('complex') else alg.rsym('coeff')
        self.ops = ISeq(K, lambda i: PauliOp(i), 'the operators of the term')
        c.extra['ops'] = self.ops
    def simplify(self):
        if self.simple: return self
        r = cur().extra['term'] = TermEl(True); return r
    def n_iter(self): return NIter(self.ops)
    def __getattr__(self, n):
        if n.startswith('vx_') or n.startswith('__'): raise AttributeError(n)
        raise Unsupported('term.%s' % n)
class NIter:
    """the qubits of the operators of a term"""
    vx_static = True
    def __init__(self, ops): self.ops = ops
    def vx_seq(self, ty): return self
    def vx_iter(self): return self
    def _bad(self, *a): raise Unsupported('qubits of a term')
    __iter__ = __len__ = __getitem__ = __bool__ = _bad
class Ham(Of):
    """a Hamiltonian: any number of terms"""
    vx_static = True
    simple = False
    def simplify(self):
        if not cur().extra.get('circs'): raise Unsupported('a simplified Hamiltonian')
        r = Ham(); r.simple = True; return r
    def __init__(self): self.mx = z3.Int('max_n'); cur().assume(self.mx >= -1); self.mat = []
    def max_n(self): return SInt(self.mx)
    @property
    def n_qubits(self): return SInt(z3.simplify(self.mx + 1))
    def to_matrix(self, n=-1, *a, **k):
        if a or set(k) - {'sparse'}: raise Unsupported('to_matrix in another way')
        self.mat.append((n, k)); return Obj('sparse matrix', args=(n, k))
    @property
    def terms(self): return self
    def vx_iter(self): return self
    def vx_seq(self, ty): return self
    def vx_loop(self, ident, lv, rb): return AccLoop(self, ident, set(rb), lv)
    def element(self, lp):
        lp.frame = [(x, list(x.log)) for x in cur().extra['circs']]
        lp.term = TermEl(self.simple); cur().extra['term'] = lp.term; return lp.term
    def done(self, lp):
        c = cur()
        if any(x.log != l for x, l in lp.frame): raise Unsupported('a term changes a circuit that later terms use')
        return c.extra['term'], c.extra.get('measured')
    def total(self, lp, st, r):
        c = cur()
        for (term, mt), d in st:
            if mt is None: raise Unsupported('a term which is not measured')
            # judged by the totals: the passage adds coeff * (P(even) - P(odd))
            c.prove_zero(d - term.coeff * (mt.even - mt.odd), 'a term adds its coefficient times the expectation of its parity')
        c.extra['sum'] = c.extra.get('sum', 0) + 1
        return SUM()
    def __getattr__(self, n):
        if n.startswith('vx_') or n.startswith('__'): raise AttributeError(n)
        raise Unsupported('hamiltonian.%s' % n)
    def _bad(self, *a): raise Unsupported('terms of the Hamiltonian')
    __iter__ = __len__ = _bad
def SUM():
    s = cur().extra.get('SUM')
    if s is None: s = cur().extra['SUM'] = alg.csym('sum over the terms')
    return s
class Circ(iseq.Rec):
    def __init__(self, log=()):
        iseq.Rec.__init__(self, gs.GATES); object.__setattr__(self, 'log', list(log)); cur().extra['circs'].append(self)
    @property
    def n_qubits(self): raise Unsupported('register')
    def copy(self, *a, **k):
        if a or k: raise Unsupported('copy with options')
        return Circ(self.log)
    def __copy__(self): return self.copy()
def energy(led):
    def path():
        c = cur(); c.extra['circs'] = []; c.extra["iseq_loop"] = OpLoop; c.extra["loop_hook"] = op_hook
        h = Ham(); orig = Circ(['prepared']); calls = []
        def sampler(*a):
            if len(a) != 2: raise Unsupported('sampler called in another way')
            q, m = a
            if not isinstance(q, Circ): raise Unsupported('sampler of something else')
            c = cur()
            if not isinstance(m, NIter): raise Unsupported('other qubits are measured')
            c.require(m.ops is c.extra['ops'], 'the qubits of the term are measured')
            c.require(q.log[:1] == ['prepared'], 'the circuit of the ansatz is measured')
            rest = q.log[1:]
            if c.extra['term'] is None: raise Unsupported('no term')
            if not c.extra['term'].simple: raise Unsupported('a term that may name a qubit repeatedly is measured')
            if rest != [('rotated', c.extra['ops'])]:
                # on the path the loop over the operators has to be the only change
                c.require(False, 'every operator of the term is turned into Z', repr(rest)); 
            mt = c.extra['measured'] = Measured(); return mt
        a = V.AnsatzBase.__new__(V.AnsatzBase); a.hamiltonian = h
        r = a.get_energy(orig, sampler)
        c.require(orig.log == ['prepared'], 'the circuit passed in is not changed')
        r = Alg.of(r)
        if r is None: raise Unsupported('energy')
        if not c.extra.get('sum'): raise Unsupported('no sum over the terms')
        c.prove_zero(r - SUM().real, 'the energy is the sum over the terms')
    run_explore(led, 'AnsatzBase.get_energy', path)
# ---------------------------------------------------------------- sparse
class Vec:
    """mat . vec, conjugated or not"""
    vx_static = True
    def __init__(self, v, m=None, conj=False, sh=None): self.v, self.m, self.cj = v, m, conj
    def conj(self): return Vec(self.v, self.m, not self.cj)
    conjugate = conj
    def dot(self, o): return prod(self, o)
    __matmul__ = dot
    def __getattr__(self, n):
        if n.startswith('vx_') or n.startswith('__'): raise AttributeError(n)
        raise Unsupported('vector.%s' % n)
class Mat:
    vx_static = True
    def dot(self, o):
        if not isinstance(o, Vec) or o.m is not None: raise Unsupported('product with the matrix')
        if o.cj: raise Unsupported('product with the conjugate')
        return Vec(o.v, self)
    __matmul__ = __mul__ = dot
    def __getattr__(self, n):
        if n.startswith('vx_') or n.startswith('__'): raise AttributeError(n)
        raise Unsupported('matrix.%s' % n)
class Val:
    vx_static = True
    def __init__(self, re, im, part=None): self.re, self.im = re, im
    @property
    def real(self): return ('real', self)
    def __getattr__(self, n):
        if n.startswith('vx_') or n.startswith('__'): raise AttributeError(n)
        raise Unsupported('value.%s' % n)
def prod(a, b):
    if not (isinstance(a, Vec) and isinstance(b, Vec)): raise Unsupported('product of vectors')
    return Val(a, b)
def vdot(a, b): return prod(a.conj(), b)
def sparse(led):
    def exp():
        c = cur(); v, M = Vec('v'), Mat()
        old = V.np; V.np = types.SimpleNamespace(vdot=vdot, dot=prod, inner=prod, conj=lambda x: x.conj(), conjugate=lambda x: x.conj(), real=lambda x: x.real)
        try: r = V.sparse_expectation(M, v)
        finally: V.np = old
        if not (isinstance(r, tuple) and len(r) == 2 and r[0] == 'real' and isinstance(r[1], Val)): raise Unsupported('expectation in another way')
        x, y = r[1].re, r[1].im
        ok = (x.v, y.v) == ('v', 'v') and x.cj != y.cj and (x.m is M) != (y.m is M) and not (x.m and x.m is not M)
        # <v|Mv> or its conjugate <Mv|v>: the same real part
        c.require(ok, 'the real part of <v|M v>', repr((x.cj, x.m, y.cj, y.m)))
    run_explore(led, 'sparse_expectation', exp)
    def gsp():
        c = cur(); a = V.AnsatzBase.__new__(V.AnsatzBase); a.sparse = Opaque('sparse matrix'); st = Opaque('state'); res = Opaque('energy'); seen = []; ran = []
        def run(*aa, **k):
            if aa or set(k) - {'returns'} or k.get('returns', 'statevector') != 'statevector': raise Unsupported('circuit run in another way')
            ran.append(1); return st
        old = V.sparse_expectation; V.sparse_expectation = lambda m, v: (seen.append((m, v)), res)[1]
        try: r = a.get_energy_sparse(Obj('circuit', run=run))
        finally: V.sparse_expectation = old
        if not seen: raise Unsupported('energy in another way')
        c.require(r is res and len(seen) == 1 and seen[0][0] is a.sparse and seen[0][1] is st and ran == [1], 'the expectation of the stored matrix in the state of the circuit')
    run_explore(led, 'AnsatzBase.get_energy_sparse', gsp)
    def mk():
        c = cur(); h = Ham(); a = V.AnsatzBase(h, 3)
        c.prove(zint(a.n_qubits) == h.mx + 1, 'a register of the size of the Hamiltonian')
        c.require(a.hamiltonian is h and a.n_params == 3 and a.sparse is None, 'the ansatz keeps what it is given')
        k = c.choose(3, 'options')
        if k == 2:
            M = Opaque('matrix'); got = []
            a.make_sparse(make_method=lambda x: (got.append(x), M)[1])
            c.require(a.sparse is M and got == [h] and not h.mat, 'the matrix the given method makes'); return
        a.make_sparse(*([] if k == 0 else ['coo']))
        c.require(len(h.mat) == 1 and isinstance(a.sparse, Obj) and a.sparse.args == h.mat[0], 'the matrix of the Hamiltonian')
        n, kw = h.mat[0]
        if n == -1 if isinstance(n, int) else False: c.require(True, 'of the size of the register')
        else: c.prove(zint(n) == h.mx + 1, 'of the size of the register')
        c.require(kw == {'sparse': 'csc' if k == 0 else 'coo'}, 'in the format asked for', repr(kw))
    run_explore(led, 'AnsatzBase.make_sparse', mk)
def objective(led):
    def path():
        c = cur(); calls = []
        P, Q, C, E, S = Opaque('parameters'), Opaque('other parameters'), Opaque('circuit'), Opaque('energy'), Opaque('sparse energy')
        class A(V.AnsatzBase):
            def get_circuit(self, p):
                q = Obj('circuit', p=p, make_cache=lambda *a, **k: None); calls.append(('circuit', p, q)); return q
            def get_energy(self, q, s): calls.append(('energy', q, s)); return E
            def get_energy_sparse(self, q): calls.append(('sparse', q)); return S
            def make_sparse(self, *a, **k):
                if a or k: raise Unsupported('make_sparse with options')
                calls.append(('make',)); self.sparse = 'made'
        a = A.__new__(A); a.sparse = None; a.hamiltonian = Opaque('hamiltonian')
        given = bool(c.choose(2, 'sampler')); had = bool(c.choose(2, 'sparse matrix there'))
        smp = (lambda *x: None) if given else None
        if had: a.sparse = 'own'
        f = a.get_objective(smp) if given else a.get_objective()
        for p in (P, Q):
            n0 = len(calls); r = f(p); new = calls[n0:]
            cs = [x for x in new if x[0] == 'circuit']
            c.require(len(cs) == 1 and cs[0][1] is p, 'the circuit is the one for the parameters')
            if len(cs) != 1: return
            q = cs[0][2]
            if given: c.require(r is E and [x for x in new if x[0] == 'energy'] == [('energy', q, smp)], 'the energy of this circuit by the sampler')
            else:
                c.require(r is S and [x for x in new if x[0] == 'sparse'] == [('sparse', q)], 'the energy of this circuit by the matrix')
                c.require(a.sparse == ('own' if had else 'made'), 'a matrix is made when there is none')
                c.require(calls.count(('make',)) == (0 if had else 1), 'once')
    run_explore(led, 'AnsatzBase.get_objective', path)
# ---------------------------------------------------------------- tables keyed by measured bits
NQ = 60
class MSeq:
    """the qubits asked for: any number, in any order"""
    vx_static = True
    def __init__(self, K, name='meas'): self.K = K; self.vx_name = name
    def vx_seq(self, ty): return self
    def vx_iter(self): return self
    def vx_isinstance(self, t): return t in (tuple, object)
    def __bool__(self): return not either(('nomeas',), 'no qubit is asked for')
    def generic(self):
        c = cur(); m = z3.BitVec('m', core.BVW); c.assume(z3.And(m >= 0, m < c.extra['n'].e)); return SInt(m)
    def vx_comp(self, kind, f, cond, star):
        if cond is not None or star or kind not in ('gen', 'list'): raise Unsupported('comprehension over the qubits')
        return MMap(self, f)
    def vx_reduce(self, f, init):
        """reduce over the qubits: the union of their bits"""
        c = cur(); acc = z3.BitVec('accmask', core.BVW); m = self.generic()
        if not isinstance(init, int) or init != 0: raise Unsupported('reduce')
        r = f(SInt(acc), m)
        if not isinstance(r, SInt) or not c.implied(r.e == acc | (z3.BitVecVal(1, core.BVW) << m.e)): raise Unsupported('reduce with another function')
        return Mask(self)
    def _bad(self, *a): raise Unsupported('the qubits asked for')
    __iter__ = __len__ = __getitem__ = __add__ = _bad
class MMap:
    """f(m) for each qubit asked for, in order"""
    vx_static = True
    def __init__(self, of, f, ty=None): self.of, self.f, self.ty = of, f, ty
    def vx_seq(self, ty): return MMap(self.of, self.f, ty)
    def vx_sum(self, start=0):
        # sum of 1 << m over distinct qubits
        c = cur(); m = self.of.generic(); v = self.f(m)
        if start == 0 and isinstance(v, SInt) and v.isbv and c.implied(v.e == z3.BitVecVal(1, core.BVW) << m.e): return Mask(self.of)
        raise Unsupported('sum')
    def __iter__(self): raise Unsupported('the qubits asked for')
    def __hash__(self): raise Unsupported('hash')
class Mask:
    """the bits asked for"""
    vx_static = True
    def __init__(self, of): self.of = of
    def bv_binop(self, op, o, swapped=False):
        if op == 'and' and isinstance(o, SInt): return Masked(self.of, o)
        raise Unsupported('mask')
    def __and__(self, o): return self.bv_binop('and', o)
    __rand__ = __and__
class Masked:
    """the bits asked for of an index"""
    vx_static = True
    def __init__(self, of, i): self.of, self.i = of, i
    def __hash__(self): raise Unsupported('hash')
    # its bit at a qubit asked for is the bit of the index
    def bv_binop(self, op, o, swapped=False):
        if op == 'and' and isinstance(o, SInt): return MaskedBit(self, o.e)
        raise Unsupported('masked index')
    def __and__(self, o):
        return self.bv_binop('and', o)
    __rand__ = __and__
    def __rshift__(self, o):
        if isinstance(o, SInt): return Shifted(self, o)
        raise Unsupported('masked index')
def asked(e):
    """e is an expression over the generic qubit asked for"""
    c = cur(); m = z3.BitVec('m', core.BVW); return m
class Shifted:
    vx_static = True
    def __init__(self, k, m): self.k, self.m = k, m
    def __and__(self, o):
        if o != 1 or not cur().implied(self.m.e == asked(0)): raise Unsupported('masked index')
        return SInt(z3.LShR(self.k.i.e, self.m.e) & 1)
    __rand__ = __and__
    def __mod__(self, o):
        if o != 2: raise Unsupported('masked index')
        return self & 1
class MaskedBit:
    """masked & 2^m for the generic qubit"""
    vx_static = True
    def __init__(self, k, e): 
        c = cur(); m = asked(0)
        if not c.implied(e == z3.BitVecVal(1, core.BVW) << m): raise Unsupported('masked index')
        self.v = SInt(k.i.e & e)
    def __bool__(self): return bool(self.v)
    def __ne__(self, o): return self.v != o
    def __eq__(self, o): return self.v == o
    def __gt__(self, o): return self.v > o
    def __rshift__(self, o): return self.v >> o
    __hash__ = None
class GTab:
    """a table filled by a loop: to which entry a passage adds, and what"""
    vx_static = True
    def __init__(self, default, own=True):
        self.default = default; self.cases = None; self.open = None; cur().extra.setdefault('tabs', []).append(self)
    def keys(self):
        if self.cases is None and self.open is None: return ()
        raise Unsupported('keys of a table')
    def _key(self, k):
        if self.open is None: raise Unsupported('a table outside its loop')
        if self.open['key'] is not None and self.open['key'] is not k: 
            raise Unsupported('several entries in one passage')
        self.open['key'] = k
    def __getitem__(self, k):
        if not self.default: raise Unsupported('an entry which may be missing')
        self._key(k); return self.open['cur']
    def get(self, k, d=None):
        if d != 0: raise Unsupported('default')
        self._key(k); return self.open['cur']
    def __setitem__(self, k, v):
        self._key(k)
        if not num(v): raise Unsupported('entry')
        self.open['cur'] = Alg.of(v)
    def items(self): return TItems(self)
    def _bad(self, *a): raise Unsupported('entries of a table')
    __iter__ = __len__ = __contains__ = _bad
    def __bool__(self): return self._bad()
class GroupLoop:
    """a loop over an unknown number of items each of which adds to one entry of a table"""
    rebind = True
    def __init__(self, of, ident, rebound, lv=()): self.of, self.ident, self.rebound, self.lv = of, ident, rebound, set(lv); self.env = {}; self.entered = False
    def head(self, loc):
        c = cur()
        if self.entered: return self.end(loc)
        self.entered = True
        for r in self.rebound: self.env[r] = Poison(r)
        self.st = c.store.setdefault(('group', self.ident, tuple(c.trace[:c.pos])), [])
        self.tabs = c.extra.get('tabs', [])
        self.keep = {k: v for k, v in loc.items() if k not in self.rebound and k not in self.lv}
        if c.choose(2, 'loop %s' % self.ident) == 0:
            for j, t in enumerate(self.tabs):
                t.base = alg.rsym('entry'); t.open = {'key': None, 'cur': t.base}
            self.item = self.of.element()
            return True
        used = {j for ks, kn in self.st for j in ks}
        for j in used:
            if self.tabs[j].cases is not None: raise Unsupported('a table filled by several loops')
            self.tabs[j].cases = [ks.get(j, (None, Alg.of(0))) + (kn,) for ks, kn in self.st]
        return False
    def end(self, loc):
        c = cur(); changed(loc, self.keep); ks = {}
        if len(c.extra.get('tabs', [])) != len(self.tabs): raise Unsupported('a table made in the loop')
        for j, t in enumerate(self.tabs):
            if t.open['key'] is None: continue
            d = t.open['cur'] - t.base
            if set(d.syms()) & set(t.base.syms()): raise Unsupported('what is added depends on the entry')
            ks[j] = (t.open['key'], d)
        # a passage which adds nothing: what it knows of the item
        self.st.append((ks, self.of.knows(c, 0)))
        raise EndPath()
class TItems:
    vx_static = True
    def __init__(self, t): self.t = t
    def vx_comp(self, kind, f, cond, star):
        if kind != 'dict' or cond is not None: raise Unsupported('comprehension over the table')
        c = cur(); t = self.t
        if t.cases is None: raise Unsupported('a table before its loop')
        out = []
        for k, d, kn in t.cases:
            v = alg.rsym('value')
            r = f(k, v) if star else f((k, v))
            if not (isinstance(r, tuple) and len(r) == 2): raise Unsupported('entries')
            y = Alg.of(r[1]); (sid,) = v.syms()
            a = y.subs(sid, Alg.of(1))
            if not (y - a * v).is_zero(): raise Unsupported('values are not multiples')
            out.append((k, r[0], d * a, kn))
        return Result(out)
    def _bad(self, *a): raise Unsupported('entries of a table')
    __iter__ = __len__ = _bad
class Result:
    """the table given back: [(the key the loop used, the key, what an item adds, what is known)]"""
    vx_static = True
    def __init__(self, cases): self.cases = cases
    def __getattr__(self, n):
        if n.startswith('vx_') or n.startswith('__'): raise AttributeError(n)
        raise Unsupported('table.%s' % n)
class State:
    """a state vector"""
    vx_static = True
    def __init__(self, n): self.n = n; self.dom = Dom(n.e); self.amp = atoms('psi')
    def slen(self): return SInt(z3.BitVecVal(1, core.BVW) << self.n.e, p2=self.n.e)
    def vx_enumerate(self, start=0):
        if start != 0: raise Unsupported('enumerate')
        return EnumState(self)
    def __getitem__(self, i):
        if not isinstance(i, SInt) or not cur().implied(self.dom.inside(i.e)): raise Unsupported('amplitudes')
        return self.amp(i.e)
    def _bad(self, *a): raise Unsupported('amplitudes')
    __iter__ = __len__ = _bad
class EnumState:
    vx_static = True
    def __init__(self, st, idx=False): self.st = st; self.idx = idx
    def vx_loop(self, ident, lv, rb): return GroupLoop(self, ident, set(rb), lv)
    def element(self):
        c = cur(); i = z3.BitVec('i', core.BVW); c.assume(self.st.dom.inside(i)); self.i = SInt(i); self.q = self.st.amp(i)
        return self.i if self.idx else (self.i, self.q)
    def knows(self, c, n0): return (self.i, self.q, c.norm(self.q * self.q.conjugate()).is_zero())
    def __iter__(self): raise Unsupported('amplitudes')
def reduce_(f, xs, *init):
    h = getattr(xs, 'vx_reduce', None)
    if h is None:
        return functools.reduce(f, xs, *init)
    if len(init) != 1: raise Unsupported('reduce')
    return h(f, init[0])
def expect(led):
    def hook(it, ident, lv, rb):
        if isinstance(it, shadows.SymRange):
            c = cur()
            if it.step == 1 and c.implied(SInt(z3.BitVec('i', core.BVW)).lift(it.start) == 0) and isinstance(it.stop, SInt) and it.stop.p2 is not None: return GroupLoop(EnumState(c.extra['state'], True), ident, set(rb), lv)
    def path():
        c = cur(); n = bvar('n'); c.assume(z3.And(n.e >= 0, n.e <= 31)); c.extra['n'] = n; c.extra['prefer'] = [n.e <= 3]
        st = c.extra['state'] = State(n); c.extra['loop_hook'] = hook; c.extra['dict_hook'] = lambda: GTab(False)
        m = MSeq(None)
        V.defaultdict = lambda f=None: GTab(f in (float, int) or getattr(f, 'vx_real', None) in (float, int)); V.Counter = lambda: GTab(True)
        V.reduce = reduce_
        r = V.expect(st, m)
        if not isinstance(r, (Result, GTab)): raise Unsupported('the table is made in another way')
        cs = r.cases if isinstance(r, Result) else [(k, k, d, kn) for k, d, kn in r.cases]
        if not cs: raise Unsupported('no loop over the amplitudes')
        for k0, k, d, (i, q, zero) in cs:
            p = q * q.conjugate()
            if k0 is None:
                c.require(zero and d.is_zero(), 'an amplitude which is left out is zero'); continue
            c.prove_zero(d - (Alg.of(0) if zero else p), 'an amplitude adds its probability')
            judge_key(c, k, m, lambda mm: z3.LShR(i.e, mm) & 1)
            if k0 is not k and not (isinstance(k0, Masked) and c.implied(k0.i.e == i.e)): raise Unsupported('entries grouped by something else')
    run_explore(led, 'expect', path)
    def lemma():
        """indices with the same bits at the qubits asked for share a masked index: the mask is
        the union of the bits of the qubits (each of its bits is the bit of one of them)"""
        c = cur(); i, j, mask, b = (z3.BitVec(x, 64) for x in ('i1', 'i2', 'mask', 'b'))
        bit = lambda x, k: (z3.LShR(x, k) & 1) == 1
        # at every bit b: either b is not in the mask, or it is a qubit asked for, where they agree
        c.assume(z3.And(b >= 0, b < 64, z3.Implies(bit(mask, b), bit(i, b) == bit(j, b))))
        c.prove(bit(i & mask, b) == bit(j & mask, b), 'equal bits give equal keys')
        c2 = z3.BitVec('m', 64)
        c.assume(z3.And(c2 >= 0, c2 < 64, bit(mask, c2)))
        c.prove(bit(i & mask, c2) == bit(i, c2), 'the key holds the bit of each qubit asked for')
    run_explore(led, 'lemma: masked indices', lemma)
def judge_key(c, k, m, bit, conc=None):
    """k is the tuple of the bits asked for, in order"""
    if not isinstance(k, MMap): raise Unsupported('keys of another kind')
    if not isinstance(k.of, MSeq): raise Unsupported('keys over other qubits')
    c.require(k.ty is tuple, 'the keys are tuples')
    g = m.generic()
    for v in c.cases(lambda: keyval(k.f(g), bit(g.e))):
        c.require(v[0], 'the bits are those of the qubits asked for, in order', v[1])
def keyval(v, want):
    c = cur()
    if isinstance(v, SBool): e = z3.If(v.e, z3.BitVecVal(1, core.BVW), z3.BitVecVal(0, core.BVW))
    elif isinstance(v, bool): return False, 'a bool'
    elif isinstance(v, SInt): e = v.e
    elif isinstance(v, int): e = z3.BitVecVal(v, core.BVW)
    elif isinstance(v, BitVal): e = v.e
    else: raise Unsupported('bit %r' % type(v))
    ok = c.status(e == want)
    if ok is None: return False, '%s is not always %s' % (e, want)
    return ok, '%s' % e
# ---------------------------------------------------------------- samplers
class BitVal: pass
class CStr:
    """a key of the counts: one character for each qubit, the first for qubit 0"""
    vx_static = True
    def __init__(self, word, hexa=None, rev=False, ty=str, ints=False): self.word, self.rev, self.ty, self.ints, self.hexa = word, rev, ty, ints, hexa
    def vx_isinstance(self, t): return t in (self.ty, object)
    def vx_seq(self, ty): return CStr(self.word, self.hexa, self.rev, ty, self.ints)
    def startswith(self, s):
        if s != '0x' or self.hexa is None: raise Unsupported('startswith')
        return self.hexa
    def vx_comp(self, kind, f, cond, star):
        if cond is not None or star: raise Unsupported('bits of a key')
        if self.hexa is True: raise Unsupported('digits of a hexadecimal key')
        r = [f(x) for x in ('01' if not self.ints else (0, 1))]
        if r != [0, 1] or not all(type(x) is int for x in r): raise Unsupported('bits of a key')
        return CStr(self.word, self.hexa, self.rev, list, True)
    def vx_reversed(self): return CStr(self.word, self.hexa, not self.rev, list if self.ty is not str else str, self.ints)
    def __getitem__(self, i):
        if self.hexa is True: raise Unsupported('digits of a hexadecimal key')
        if isinstance(i, slice):
            if i == slice(None, None, -1): return self.vx_reversed()
            raise Unsupported('part of a key')
        # the character of qubit i: at position i from the start, or from the end
        c = cur(); n = c.extra['n'].e
        e = bvof(i)
        last = c.extra['littleend']   # the key lists the last qubit first
        lastfirst = last != self.rev
        lim = z3.And(e >= 0, e < n)
        if c.implied(lim):
            pos = n - 1 - e if lastfirst else e
        elif c.implied(z3.And(e < 0, e >= -n)):
            pos = -e - 1 if lastfirst else n + e
        else: raise Unsupported('part of a key')
        if not self.ints: raise Unsupported('characters as bits')
        return SInt(z3.LShR(self.word, pos) & 1)
    def vx_int(self, base=10):
        if self.hexa and base in (16, 0): return HexVal(self.word)
        raise Unsupported('number of a key')
    def _bad(self, *a): raise Unsupported('key')
    __iter__ = __len__ = __eq__ = __hash__ = __add__ = _bad
class HexVal(SInt):
    """the number a hexadecimal key stands for: bit m is that of qubit m"""
    def __init__(self, w): SInt.__init__(self, w)
    def __format__(self, spec): raise Unsupported('format')
class Padded: pass
class BinText:
    """binary digits without leading zeros, after `pad` zeros"""
    vx_static = True
    def __init__(self, w, pad=0): self.w, self.pad = w, pad
    def __radd__(self, o):
        if isinstance(o, str) and set(o) <= {'0'}: return BinText(self.w, self.pad + len(o))
        raise Unsupported('text')
    def vx_isinstance(self, t): return t in (str, object)
    def __getitem__(self, i):
        if i == slice(None, None, -1): return RevText(self)
        raise Unsupported('text')
    def vx_reversed(self): return RevText(self)
    def zfill(self, k): raise Unsupported('zfill')
    def _bad(self, *a): raise Unsupported('text')
    __iter__ = __len__ = _bad
class RevText:
    vx_static = True
    def __init__(self, t, ints=False): self.t = t; self.ints = ints
    def vx_comp(self, kind, f, cond, star):
        if cond is not None or [f(x) for x in '01'] != [0, 1]: raise Unsupported('bits')
        return RevText(self.t, True)
    def vx_seq(self, ty): return self
    def __getitem__(self, i):
        c = cur(); e = bvof(i)
        # at least pad + 1 digits: bits beyond are zeros
        if not self.ints or not c.implied(z3.And(e >= 0, e < self.t.pad + 1)): raise Unsupported('bits')
        return SInt(z3.LShR(self.t.w, e) & 1)
    def _bad(self, *a): raise Unsupported('bits')
    __iter__ = __len__ = _bad
def bvof(i):
    if isinstance(i, SInt) and i.isbv: return i.e
    if isinstance(i, int): return z3.BitVecVal(i, core.BVW)
    raise Unsupported('position')
def fmt(x, spec=''):
    if isinstance(x, HexVal):
        if spec != 'b': raise Unsupported('format')
        return BinText(x.e)
    return format(x, spec)
def s_bin(x):
    if isinstance(x, SInt): raise Unsupported('bin')
    return bin(x)
class Counts:
    """the counts of a run"""
    vx_static = True
    def __init__(self, hexa=None): self.hexa = hexa
    def items(self): return CItems(self)
    def __getattr__(self, n):
        if n.startswith('vx_') or n.startswith('__'): raise AttributeError(n)
        raise Unsupported('counts.%s' % n)
class CItems:
    vx_static = True
    def __init__(self, t): self.t = t
    def vx_loop(self, ident, lv, rb): return GroupLoop(self, ident, set(rb), lv)
    def element(self):
        self.v = alg.rsym('count'); self.k = CStr(z3.BitVec('w', core.BVW), self.t.hexa)
        return (self.k, self.v)
    def knows(self, c, n0): return (self.k, self.v)
    def __iter__(self): raise Unsupported('counts')
class SCirc:
    """the circuit sampled"""
    vx_static = True
    def __init__(self, st, owner=None): self.st, self.log = st, []
    def copy(self, *a, **k):
        if a or k: raise Unsupported('copy with options')
        r = SCirc(self.st); r.log = list(self.log); return r
    def __copy__(self): return self.copy()
    @property
    def n_qubits(self): return cur().extra['n']
    @property
    def measure(self): return SM(self)
    m = measure
    def run(self, *a, **k): return self.st['run'](self, a, k)
    def run_with_ibmq(self, *a, **k): return self.st['run'](self, a, dict(k, backend='ibmq'))
    def __getattr__(self, n):
        if n.startswith('vx_') or n.startswith('__'): raise AttributeError(n)
        raise Unsupported('circuit.%s' % n)
class SM:
    vx_static = True
    def __init__(self, c): self.c = c
    def __getitem__(self, t): self.c.log.append(('measure', t)); return self.c
def sampling(led, name, make, runopts, hexa, little, extra):
    """a sampler made by `make`, run with `runopts`, for keys in the given form"""
    def path():
        c = cur(); n = bvar('n'); c.assume(z3.And(n.e >= 1, n.e <= 50)); c.extra['n'] = n; c.extra['littleend'] = little
        V.defaultdict = lambda f=None: GTab(True); V.Counter = lambda: GTab(True)
        V.format = fmt; V.bin = s_bin
        shots = ivar('shots'); c.assume(shots.e >= 1); sh = Alg.of(shots.__alg__())
        c.add_nonzero(sh) if hasattr(c, 'add_nonzero') else None
        seen = []
        def run(circ, a, k):
            if a: raise Unsupported('run with positional options')
            seen.append((circ, k)); return Counts(hexa) if hexa is None or k.get('backend') != 'ibmq' else Obj('result', get_counts=lambda *a: Counts(hexa))
        orig = SCirc({'run': run}); m = MSeq(None)
        f = make(shots); c.extra['dict_hook'] = lambda: GTab(False)
        r = f(orig, m)
        if isinstance(r, dict):
            # nothing asked for
            c.require(c.extra.get('nomeas', None) is not False and r == {(): 1.0}, 'an empty question has the empty answer with certainty', repr(r)); return
        c.require(orig.log == [], 'the circuit passed in is not changed')
        if not isinstance(r, (Result, GTab)): raise Unsupported('the table is made in another way')
        c.require(len(seen) == 1, 'one run')
        circ, k = seen[0]
        c.require(circ.log == [('measure', m)], 'the qubits asked for are measured', repr(circ.log))
        want = dict(runopts)
        c.require(all(k.get(x) is v or k.get(x) == v for x, v in want.items()) and set(k) == set(want) | {'shots'}, 'the run options', repr(k))
        c.require(k.get('shots') is shots or extra and k.get('shots') == extra, 'as many shots as asked for')
        cs = r.cases if isinstance(r, Result) else None
        if not cs: raise Unsupported('the counts are not divided')
        for k0, kk, d, (key, v) in cs:
            if k0 is None: c.require(False, 'a count is left out'); continue
            if kk is not k0: raise Unsupported('keys changed afterwards')
            c.prove_zero(d * Alg.of(k['shots'] if isinstance(k['shots'], int) else k['shots'].__alg__()) - v, 'a count adds its part of the shots')
            w = key.word; nn = n.e
            bit = (lambda mm: z3.LShR(w, mm) & 1)
            judge_key(c, kk, m, bit)
    run_explore(led, name, path)
def nonsampling(led):
    def path():
        c = cur(); st, res, m = Opaque('state'), Opaque('table'), MSeq(None); seen = []
        c.extra['n'] = bvar('n')
        def run(circ, a, k):
            if a or set(k) - {'returns'} or k.get('returns', 'statevector') != 'statevector': raise Unsupported('run with other options')
            return st
        orig = SCirc({'run': run})
        old = V.expect; V.expect = lambda s, mm: (seen.append((s, mm)), res)[1]
        try: r = V.non_sampling_sampler(orig, m)
        finally: V.expect = old
        if len(seen) != 1: raise Unsupported('probabilities in another way')
        c.require(r is res and seen[0][0] is st and seen[0][1] is m and orig.log == [], 'the probabilities of the qubits asked for in the state of the circuit')
    run_explore(led, 'non_sampling_sampler', path)
class EItems:
    """the entries of a table: (bits, probability) pairs"""
    vx_static = True; vx_run = True
    def __init__(self): pass
    def vx_zip(self, args):
        if len(args) != 1 or args[0] is not self: raise Unsupported('zip')
        return (Part('bits'), Part('probs'))
class ETab:
    vx_static = True
    def items(self): return [EItems()]
    def keys(self): return Part('bits')
    def values(self): return Part('probs')
    def vx_iter(self): return Part('bits')
    def vx_seq(self, ty): return Part('bits')
    def __getattr__(self, n):
        if n.startswith('vx_') or n.startswith('__'): raise AttributeError(n)
        raise Unsupported('table.%s' % n)
class Part:
    """one value for each entry, in the order of the table"""
    vx_static = True
    def __init__(self, what, k=None): self.what, self.k = what, Alg.of(1) if k is None else k
    def vx_seq(self, ty): return self
    def __truediv__(self, o): return Part(self.what, self.k / Alg.of(o.__alg__() if isinstance(o, SInt) else o))
    def __mul__(self, o): return Part(self.what, self.k * Alg.of(o))
    def vx_zip(self, a):
        if len(a) == 2 and all(isinstance(x, Part) for x in a): return Pairs(*a)
        raise Unsupported('zip')
    def sum(self):   # the probabilities of a normalised state add up to one
        if self.what != 'probs': raise Unsupported('sum')
        return self.k
    def vx_sum(self, start=0): return self.sum() + start
    def _bad(self, *a): raise Unsupported('entries')
    __iter__ = __len__ = __getitem__ = _bad
def s_sum(x, *a): return x.vx_sum(*a) if isinstance(x, Part) else sum(x, *a)
class Pairs:
    vx_static = True
    def __init__(self, a, b): self.a, self.b = a, b
    def __iter__(self): raise Unsupported('entries')
    def vx_comp(self, kind, f, cond, star):
        if kind != 'dict' or cond is not None: raise Unsupported('entries')
        b, v = Opaque('bits'), alg.rsym('v'); r = f(b, v) if star else f((b, v)); (sid,) = v.syms()
        if r[0] is not b: raise Unsupported('entries')
        k = Alg.of(r[1]).subs(sid, Alg.of(1))
        if not (Alg.of(r[1]) - k * v).is_zero(): raise Unsupported('entries')
        return Pairs(self.a, Part(self.b.what, self.b.k * k))
def s_dict(*a, **k):
    if len(a) == 1 and isinstance(a[0], Pairs) and not k: return a[0]
    return dict(*a, **k)
def statesampler(led):
    def path():
        c = cur(); st, m = Opaque('state'), MSeq(None); seen = []; drawn = []; n = bvar('n'); c.extra['n'] = n
        def run(circ, a, k):
            if a or set(k) - {'returns'} or k.get('returns', 'statevector') != 'statevector': raise Unsupported('run with other options')
            return st
        def multinomial(N, p, *a, **k):
            if a or k: raise Unsupported('multinomial')
            drawn.append((N, p)); return Part('draws')
        orig = SCirc({'run': run}); shots = ivar('shots'); c.assume(shots.e >= 1)
        old = V.expect, V.np; V.expect = lambda s, mm: (seen.append((s, mm)), ETab())[1]
        V.np = types.SimpleNamespace(random=types.SimpleNamespace(multinomial=multinomial), array=lambda x, *a: x, asarray=lambda x, *a: x, sum=s_sum); V.dict = s_dict; V.sum = s_sum
        try: r = V.get_state_vector_sampler(shots)(orig, m)
        finally: V.expect, V.np = old; del V.dict, V.sum
        if len(seen) != 1 or not drawn: raise Unsupported('samples in another way')
        c.require(seen[0][0] is st and seen[0][1] is m and orig.log == [], 'the probabilities of the qubits asked for in the state of the circuit')
        if not isinstance(r, Pairs): raise Unsupported('samples in another way')
        c.require(len(drawn) == 1 and drawn[0][0] is shots, 'as many draws as asked for')
        c.require(isinstance(drawn[0][1], Part) and drawn[0][1].what == 'probs' and (drawn[0][1].k - 1).is_zero(), 'drawn with the probabilities')
        c.require(r.a.what == 'bits' and r.b.what == 'draws', 'each entry with its draws')
        c.prove_zero(r.b.k * shots.__alg__() - 1, 'divided by the number of draws')
    run_explore(led, 'get_state_vector_sampler', path)

def run(led, tier='quick'):
    global V
    loader.fresh(); loader.load('blueqat'); V = loader.load('blueqat.vqe')
    energy(led); sparse(led); objective(led); nonsampling(led); statesampler(led)
    expect(led)
    B = Opaque('backend'); opt = Opaque('option')
    sampling(led, 'get_measurement_sampler', lambda s: V.get_measurement_sampler(s), {'returns': 'shots'}, None, False, None)
    sampling(led, 'get_measurement_sampler(run_options)', lambda s: V.get_measurement_sampler(s, {'backend': opt}), {'returns': 'shots', 'backend': opt}, None, False, None)
    sys.modules.setdefault('qiskit', types.ModuleType('qiskit'))
    for hx in (False, True):
        w = ' [%s keys]' % ('hexadecimal' if hx else 'binary')
        sampling(led, 'get_qiskit_sampler' + w, lambda s: V.get_qiskit_sampler(B, shots=s), {'returns': 'qiskit_result', 'qiskit_backend': B, 'backend': 'ibmq'}, hx, True, None)
        sampling(led, 'get_qiskit_sampler(default shots)' + w, lambda s: V.get_qiskit_sampler(B), {'returns': 'qiskit_result', 'qiskit_backend': B, 'backend': 'ibmq'}, hx, True, 1024)
    for n in ('get_energy', 'get_energy_sparse', 'make_sparse', 'get_objective', '__init__'): led.functions['blueqat.vqe.AnsatzBase.' + n] = 'any Hamiltonian, circuit and sampler'
    for n in ('expect', 'non_sampling_sampler', 'get_measurement_sampler', 'get_state_vector_sampler', 'get_qiskit_sampler', 'sparse_expectation'): led.functions['blueqat.vqe.' + n] = 'any state or counts, qubits asked for in any number and order'
    led.need = 60
ASSUMPTIONS = ['a sampler gives a table of bit tuples and probabilities (its contract, proved for the samplers here); copy, measure and run of circuits (C05, C06, C08); qiskit gives counts with the last qubit first, or hexadecimal numbers',
 'the terms are in normal form: at most one operator for each qubit (C11); gates on different qubits commute, so the operators of a term can be turned into Z one by one',
 'numbers are exact (floats as reals); numpy\'s multinomial draws with the given probabilities, which add up to one; vdot conjugates its first argument',
 'reduce over the qubits with acc | (1 << m) is the union of their bits (induction)']
EXPLANATION = ''
