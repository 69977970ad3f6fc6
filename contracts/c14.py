"""C14: the time evolution circuit of a Pauli term is its matrix exponential."""
from contracts import psem
from contracts.psem import *
from engine import iseq
from engine.iseq import ISeq, LoopSeg, Gate

nq = z3.Function('nq', z3.IntSort(), z3.IntSort())
class OpEl:
    """the operator at a position of the operators of a term"""
    vx_static = True
    def __init__(self, i, ident): self.i = i; self.ident = ident
    @property
    def op(self):
        c = cur(); tab = c.extra.setdefault('kinds', {})
        for k, (e, v) in tab.items():
            if e.eq(self.i) or c.implied(e == self.i): return v
        v = 'XYZI'[c.choose(4 if self.ident else 3, 'operator')]
        c.extra['kinds'] = dict(tab, **{str(self.i): (self.i, v)})
        return v
    @property
    def n(self): return SInt(nq(self.i))
    @property
    def is_identity(self): return self.op == 'I'
    def vx_isinstance(self, t):
        ts = t if isinstance(t, tuple) else (t,)
        P = psem.P
        return any(x in (P._PauliImpl, object) or x in (P._X, P._Y, P._Z, P._I) and x.__name__[-1] == self.op for x in ts)
    def _bad(self, *a, **k): raise Unsupported('the code looks into an operator')
    __eq__ = __ne__ = __iter__ = __getitem__ = __mul__ = __rmul__ = __repr__ = __str__ = _bad
    __hash__ = None
MATS = dict(X=gs.mat_x, Y=gs.mat_y, Z=gs.mat_z, I=gs.mat_i)

def position(t):
    if isinstance(t, SInt) and z3.is_app(t.e) and t.e.decl().eq(nq): return t.e.arg(0)
    raise Unsupported('a target which is not a qubit of the term')
def gmat(g): return gs.GATES[g.name][2](*g.params)
def product(gates):
    m = gs.eye(2)
    for g in gates:
        if len(g.targets) != 1: raise Unsupported('gates of a passage')
        m = gs.mul(gmat(g), m)
    return m

class Basis:
    """on every qubit of the term, gates which depend on its operator; mats: kind -> matrix"""
    def __init__(self, seg, L, ident=False):
        c = cur(); self.mats = {}
        kinds = 'XYZI' if ident else 'XYZ'
        idx = None
        for ks, gates in seg.cases:
            vals = {v for _, v in ks.values()}; poss = [e for e, _ in ks.values()] + [position(t) for g in gates if isinstance(g, Gate) for t in g.targets]
            if any(not isinstance(g, Gate) for g in gates) or len(ks) > 1: raise Unsupported('gates of a passage')
            for p in poss:
                if idx is None: idx = p
                elif not c.implied(z3.Implies(z3.And(seg.m >= 0, seg.m < seg.N), p == idx)): raise Unsupported('a passage with several qubits')
            for k in (vals or kinds): self.mats[k] = product(gates)
        if idx is None: idx = seg.m
        rng = z3.And(seg.m >= 0, seg.m < seg.N)
        if not (c.implied(z3.Implies(rng, idx == seg.m)) or c.implied(z3.Implies(rng, idx == L - 1 - seg.m))): raise Unsupported('the order of the qubits')
        self.full = c.implied(seg.N == L)
        if any(k not in self.mats for k in kinds): raise Unsupported('a kind of operator is not covered')
    @staticmethod
    def fits(seg): return all(all(isinstance(g, Gate) and len(g.targets) == 1 for g in gates) for _, gates in seg.cases)
class Ladder:
    def __init__(self, seg):
        if len(seg.cases) != 1 or seg.cases[0][0]: raise Unsupported('entangling gates which depend on the operators')
        gates = seg.cases[0][1]
        if len(gates) != 1 or gates[0].name not in ('cx',): raise Unsupported('entangling gates')
        self.N, self.m = seg.N, seg.m
        self.p, self.r = [position(t) for t in gates[0].targets]
    def at(self, m): return z3.substitute(self.p, (self.m, m)), z3.substitute(self.r, (self.m, m))
    def inverse_of(self, o):
        c = cur(); m = z3.Int('mm')
        if not c.implied(self.N == o.N): return False
        p, r = self.at(m); rng = z3.And(m >= 0, m < self.N)
        p1, r1 = o.at(self.N - 1 - m)
        if c.implied(z3.Implies(rng, z3.And(p == p1, r == r1))): return True
        # controls onto one common target commute
        p2, r2 = o.at(m); m2 = z3.Int('mm2'); p3, r3 = self.at(m2)
        return c.implied(z3.Implies(rng, z3.And(p == p2, r == r2))) and c.implied(z3.Implies(z3.And(rng, m2 >= 0, m2 < self.N), z3.And(r == r3, p != r3)))
    def back(self, z, L):
        """the string of Z's conjugated by the ladder: exact, or Unsupported"""
        c = cur(); j, s = z3.Ints('j s'); N = self.N
        m = z3.Int('mm')
        # the controls in terms of the position: p(m) = a m + b
        p0, p1 = self.at(z3.IntVal(0))[0], self.at(z3.IntVal(1))[0]
        pm = self.at(m)[0]
        inv = None
        for a in (1, -1):
            if c.implied(z3.Implies(z3.And(m >= 0, m < N), pm == p0 + a * m)): inv = lambda x, a=a: (x - p0) if a == 1 else (p0 - x)
        cands = [lambda s, j: z(j)]
        if inv is not None: cands.append(lambda s, j: z3.Or(z(j), z3.And(inv(j) >= N - s, inv(j) < N)))
        for J in cands:
            rng = z3.And(s >= 0, s < N, j >= 0, j < L)
            p, r = self.at(N - 1 - s)
            if not c.implied(z3.Implies(z3.And(j >= 0, j < L), J(z3.IntVal(0), j) == z(j))): continue
            step = J(s + 1, j) == z3.If(j == p, z3.Xor(J(s, p), J(s, r)), J(s, j))
            if c.implied(z3.Implies(rng, step)):
                return lambda x: J(N, x)
        raise Unsupported('no invariant of the ladder found')

def setup(ident=False):
    c = cur(); hooks(c)
    c.extra.pop('list_hook', None); c.extra.pop('dict_hook', None)
    rec = iseq.setup(c, gs.GATES)
    L = z3.Int('L'); c.assume(L >= 0)
    ops = ISeq(L, lambda i: OpEl(i, ident), 'the operators of a term')
    return c, rec, L, ops

def evolution(led, T):
    def refusal():
        c, rec, L, ops = setup()
        cc = alg.csym('c')
        simp = T(ops, cc)
        T.simplify = lambda s: simp
        real = lambda: c.norm(cc - cc.conjugate()).is_zero()
        try:
            f = term('a').get_time_evolution()
            if not real(): f(rec, alg.rsym('t'))
        except ValueError:
            c.require(not real(), 'only a coefficient which is not real is refused'); return
        c.require(real(), 'a coefficient which is not real is refused')
    def path():
        c, rec, L, ops = setup()
        cc = alg.rsym('c'); t = alg.rsym('t')
        simp = T(ops, cc)
        T.simplify = lambda s: simp
        term_ = term('a')
        f = term_.get_time_evolution()
        f(rec, t)
        log = rec.log
        if c.implied(L == 0):
            eff = [g for g in log if isinstance(g, Gate) or not c.implied(g.N == 0)]
            if eff: raise Unsupported('gates for a term without operators')
            c.require(True, 'a multiple of the identity is only a phase'); return
        if not c.implied(L >= 1): raise Unsupported('the cases with and without operators are not kept apart')
        mids = [i for i, g in enumerate(log) if isinstance(g, Gate) and any(p.syms() for p in g.params)]
        if len(mids) != 1: raise Unsupported('rotations: %d' % len(mids))
        mid = mids[0]; g = log[mid]
        if len(g.targets) != 1: raise Unsupported('rotation on several qubits')
        q = position(g.targets[0])
        M = gmat(g)
        if M[0][1].t or M[1][0].t: raise Unsupported('rotation about another axis')
        nz = c.norm
        def single(s): 
            if isinstance(s, Gate): raise Unsupported('a gate outside the loops')
            return Basis(s, L) if Basis.fits(s) else Ladder(s)
        pre, post = [single(s) for s in log[:mid]], [single(s) for s in log[mid + 1:]]
        bs, gs_ = [s for s in pre if isinstance(s, Basis)], [s for s in post if isinstance(s, Basis)]
        if any(not b.full for b in bs + gs_): raise Unsupported('a change of basis on some qubits only')
        # a single operator: everything is known
        if c.implied(z3.Implies(L == 1, z3.And(*([s.N == 0 for s in pre + post if isinstance(s, Ladder)] + [z3.BoolVal(True)])))):
            for k in 'XYZ':
                m = gs.eye(2)
                for b in bs: m = gs.mul(b.mats[k], m)
                m = gs.mul(M, m)
                for b in gs_: m = gs.mul(b.mats[k], m)
                want = gs.madd(gs.scale(alg.cos(cc * t), gs.eye(2)), gs.scale(gs.I * alg.sin(cc * t), MATS[k]()))
                c.require(gs.phase_equal(m, want, c.norm), 'exp(i c t %s) for a single operator' % k)
        else: raise Unsupported('ladders on one operator')
        # any number: pre-part and post-part are inverse
        if len(pre) != len(post): raise Unsupported('what follows the rotation does not undo what precedes it')
        for a, b in zip(pre, reversed(post)):
            if type(a) is not type(b): raise Unsupported('what follows the rotation does not undo what precedes it')
            if isinstance(a, Basis): ok = all(gs.phase_equal(gs.mul(b.mats[k], a.mats[k]), gs.eye(2), c.norm) for k in 'XYZ')
            else: ok = b.inverse_of(a)
            if not ok: raise Unsupported('what follows the rotation does not undo what precedes it')
        c.require(True, 'what follows the rotation undoes what precedes it')
        # the rotation axis, seen before the pre-part, is the string of the term
        if len(bs) != 1 or not isinstance(pre[0], Basis): raise Unsupported('order of the changes of basis')
        z = lambda j: j == q
        for s in reversed(pre[1:]): z = s.back(z, L)
        j = z3.Int('j'); c.assume(z3.And(j >= 0, j < L))
        c.prove(z3.And(q >= 0, q < L), 'the rotation is on a qubit of the term')
        c.prove(z(j), 'the ladder spreads the rotation over all qubits of the term')
        for k in 'XYZ':
            F = bs[0].mats[k]
            c.require(gs.mat_eq(gs.mul(gs.dag(F), gs.mul(gs.mat_z(), F)), MATS[k](), c.norm), 'the change of basis takes Z to %s' % k)
    orig = T.simplify
    try:
        run_explore(led, 'get_time_evolution', path)
        run_explore(led, 'get_time_evolution (complex coefficient)', refusal)
    finally: T.simplify = orig
def append(led, T):
    def path(simplify):
        def go():
            c, rec, L, ops = setup(not simplify)
            cc = alg.csym('c')
            t = T(ops, cc)
            if simplify:
                T.simplify = lambda s: t
                term_ = term('a')
            else: term_ = t
            if simplify == 'default': term_.append_to_circuit(rec)
            else: term_.append_to_circuit(rec, bool(simplify))
            if len(rec.log) != 1 or not isinstance(rec.log[0], LoopSeg): raise Unsupported('operators are appended in another way')
            b = Basis(rec.log[0], L, not simplify)
            c.require(b.full, 'every operator is applied')
            for k in ('XYZ' if simplify else 'XYZI'): c.require(gs.phase_equal(b.mats[k], MATS[k](), c.norm), 'the operator %s is applied' % k)
        return go
    orig = T.simplify
    try:
        for s in ('default', True, False): run_explore(led, 'append_to_circuit(simplify=%s)' % s, path(s))
    finally: T.simplify = orig

def run(led, tier='quick'):
    Pm = load_pauli(); T = Pm.Term
    evolution(led, T)
    append(led, T)
    led.functions['blueqat.pauli.Term.get_time_evolution'] = 'any number of operators on any qubits'
    led.functions['blueqat.pauli.Term.append_to_circuit'] = 'any number of operators on any qubits'
    led.need = 15
ASSUMPTIONS = ['contract of Term.simplify as proved for C11: distinct qubits, X, Y or Z on each, same matrix',
 'contract of the circuit: circuit.g(params)[targets] appends the gate g (C01, C04, C08)',
 'numbers are exact (floats as reals)',
 'lemma: a gate A, a diagonal rotation about Z on qubit q and the inverse of A are the rotation about A^-1 Z_q A; cx takes Z on its target to Z on both and leaves Z on its control; gates on different qubits commute']
EXPLANATION = ''
