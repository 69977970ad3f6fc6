"""C10: the symbolic unitary of a circuit.

Matrices of a register of unknown size are formal operators: sums of products of tensor
products (a factor for each qubit), of folds (one 2x2 matrix applied to each target of a list
of unknown length) and of the matrix before the gate.  The 2x2 matrices are the real sympy ones."""
from contracts.common import *
from engine import alg, opaque
from engine.alg import Alg
from engine.opaque import Opaque, GList, raw
from engine.seqs import EndPath, Poison
from engine.shadows import SymRange
from contracts.c22 import member_of, bv
import types, numpy, functools, sympy as sp

SB = None
ALG = {}          # sympy symbol -> Alg
def conv(e):
    """a sympy number or expression as an exact algebraic one"""
    if isinstance(e, (int, SInt)) : return Alg.of(e)
    if not isinstance(e, sp.Basic): raise Unsupported('matrix entry %r' % type(e))
    if e is sp.pi: return alg.PI
    if e is sp.I: return alg.I
    if isinstance(e, sp.Rational): return Alg.of(gs.Q(int(e.p), int(e.q)))
    if isinstance(e, sp.Float): raise Unsupported('a rounded number in a symbolic matrix')
    if isinstance(e, sp.Symbol):
        if e not in ALG: raise Unsupported('the symbol %s is left in the matrix' % e)
        return ALG[e]
    if isinstance(e, sp.Add): return sum((conv(a) for a in e.args), Alg.of(0))
    if isinstance(e, sp.Mul):
        r = Alg.of(1)
        for a in e.args: r = r * conv(a)
        return r
    if isinstance(e, sp.exp): return alg.exp(conv(e.args[0]))
    if isinstance(e, sp.cos): return alg.cos(conv(e.args[0]))
    if isinstance(e, sp.sin): return alg.sin(conv(e.args[0]))
    if isinstance(e, sp.Pow):
        b, x = e.args
        if x.is_Integer: return conv(b) ** int(x) if x > 0 else Alg.of(1) / conv(b) ** int(-x)
        if x.is_Rational and x.q == 2 and b.is_Rational and b > 0:
            s = alg.sqrt(conv(b)); k = int(x.p)
            return s ** k if k > 0 else Alg.of(1) / s ** (-k)
    raise Unsupported('matrix entry %s' % e)
def isleft(e):
    """a symbol of the backend's own tables, not substituted"""
    return isinstance(e, sp.Basic) and any(s not in ALG for s in e.free_symbols)
def mat2(m):
    if not isinstance(m, sp.MatrixBase): raise Unsupported('factor %r' % type(m))
    if m.shape != (2, 2): raise Unsupported('factor of another size')
    return [[conv(m[i, j]) for j in range(2)] for i in range(2)]
# ---------------------------------------------------------------- target lists
class Tl:
    """the list of targets of an operation"""
    vx_static = True
    def __init__(self, seq): self.seq = seq
    def vx_seq(self, ty): return self
    def count(self, i):
        if not isinstance(i, SInt): raise Unsupported('count')
        return Count(self.seq, i)
    def vx_iter(self): return self.seq
    def vx_loop(self, ident, lv, rb): return TLoop(self.seq, ident, set(rb))
    def vx_comp(self, kind, f, cond, star): return comp(self.seq, kind, f, cond, star)
    def _bad(self, *a): raise Unsupported('the code looks into a list of targets of unknown length')
    __iter__ = __len__ = __contains__ = __getitem__ = __bool__ = __eq__ = _bad
    __hash__ = None
class TSeq(SymSeq):
    def count(self, i): return Tl(self).count(i)
class Count:
    vx_static = True
    _op_priority = 1e9
    def __init__(self, seq, i): self.seq, self.i = seq, i
    def __rpow__(self, m): return PowC(m, self.seq, self.i)
    def _bad(self, *a): raise Unsupported('how often a qubit is listed')
    __bool__ = __eq__ = __gt__ = __lt__ = __ge__ = __le__ = __mod__ = __index__ = __int__ = __add__ = __mul__ = _bad
    __hash__ = None
class PowC:
    """m to the number of times qubit i is listed"""
    vx_static = True
    def __init__(self, m, seq, i): self.m, self.seq, self.i = m, seq, i
# ---------------------------------------------------------------- factors for each qubit
class KSeg(opaque.Seg):
    """one factor for each index of a range: alts(j) gives the cases [(condition, factor, qubit)] at index j"""
    def __init__(self, rng, alts, rev=False):
        Opaque.__init__(self, 'factors')
        for k, v in (('rng', rng), ('alts', alts), ('rev', rev)): object.__setattr__(self, k, v)
    def turned(self): return KSeg(self.rng, self.alts, not self.rev)
class Facs:
    """a list of factors, one for each qubit"""
    vx_static = True
    def __init__(self, seg): self.seg = seg
    def vx_seq(self, ty): return self
    def vx_reversed(self): return Facs(self.seg.turned())
    def __getitem__(self, i):
        if isinstance(i, slice) and i == slice(None, None, -1): return self.vx_reversed()
        raise Unsupported('a factor')
    def _bad(self, *a): raise Unsupported('factors')
    __iter__ = __len__ = _bad
def facs(x):
    if isinstance(x, Facs): return x.seg
    if isinstance(x, opaque.GSeq): r = x.items
    elif isinstance(x, GList): r = raw(x)
    else: return None
    if len(r) == 1 and isinstance(r[0], KSeg): return r[0]
    return None
def covers(rng):
    c = cur(); n = bv(c.extra['n'])
    if isinstance(rng.step, int) and rng.step == 1: return c.implied(z3.And(bv(rng.start) == 0, bv(rng.stop) == n))
    if isinstance(rng.step, int) and rng.step == -1: return c.implied(z3.And(bv(rng.start) == n - 1, bv(rng.stop) == -1))
    return False
def reduce_(f, xs, *init):
    seg = facs(xs)
    if seg is None: return functools.reduce(f, xs, *init)
    if f is not tensor or (init and not (isinstance(init[0], sp.MatrixBase) and init[0] == sp.eye(1))): raise Unsupported('reduce')
    return kron(seg)
def tensor(*a):
    if len(a) == 1 and isinstance(a[0], KSeg): return kron(a[0])
    if all(isinstance(x, sp.MatrixBase) for x in a):
        from sympy.physics.quantum import TensorProduct
        return TensorProduct(*a)
    raise Unsupported('tensor product')
def kron(seg):
    c = cur()
    if not covers(seg.rng): raise Unsupported('factors for another range')
    # the last factor is the least significant; it has to be qubit 0's
    down = seg.rev if seg.rng.step == 1 else not seg.rev
    c.require(down, 'qubit 0 is the last factor of the tensor product')
    return Op([[seg]])
class Op:
    """a sum of products"""
    vx_static = True
    _op_priority = 1e9
    def __init__(self, prods): self.prods = prods
    def __mul__(self, o):
        if isinstance(o, Op): return Op([p + q for p in self.prods for q in o.prods])
        if isinstance(o, (int, sp.Expr)) and o == 1: return self
        raise Unsupported('product of a matrix and %r' % type(o))
    def __rmul__(self, o):
        if isinstance(o, (int, sp.Expr)) and o == 1: return self
        raise Unsupported('product of %r and a matrix' % type(o))
    __matmul__ = __mul__
    def __add__(self, o):
        if isinstance(o, int) and o == 0: return self
        if not isinstance(o, Op): raise Unsupported('sum of matrices')
        return Op(self.prods + o.prods)
    __radd__ = __add__
    def __getattr__(self, n):
        if n.startswith('vx_') or n.startswith('__') or n.startswith('_'): raise AttributeError(n)
        raise Unsupported('matrix.%s' % n)
class Fold:
    """m applied to each target of the list, in order"""
    def __init__(self, seq, m): self.seq, self.m = seq, m
def at_qubit(seg, j):
    """the 2x2 matrix of the factor at qubit j"""
    c = cur(); r = []
    for p, v in seg.alts(j):
        if c.implied(z3.Not(p)): continue
        if not c.implied(p): raise Unsupported('the factor depends on something else')
        r.append(v)
    if len(r) != 1: raise Unsupported('one factor for each qubit')
    if isinstance(r[0], PowC): raise Unsupported('a fold among single qubits')
    return mat2(r[0])
def local(seg, qs):
    """the matrix on the qubits qs, the others being left alone"""
    c = cur()
    j = z3.BitVec(c.fresh('q'), core.BVW)
    others = z3.And(j >= 0, j < bv(c.extra['n']), *[j != q for q in qs])
    c.solver.push(); n0 = len(c.pc)
    try:
        c.pc.append(others); c.solver.add(others)
        if not c.implied(z3.BoolVal(False)):
            for p, v in seg.alts(j):
                if c.implied(z3.Not(p)): continue
                if isinstance(v, PowC): raise Unsupported('a fold among single qubits')
                if not gs.mat_eq(mat2(v), gs.eye(2)):
                    c.require(False, 'the other qubits are left alone', repr(v)); raise core.Infeasible()
    finally:
        c.solver.pop(); del c.pc[n0:]
    out = [[Alg.of(1)]]
    for q in qs: out = gs.kron(out, at_qubit(seg, q))
    return out
def foldof(seg, seq):
    """the seg is a fold over the given targets: its matrix"""
    c = cur(); j = z3.BitVec(c.fresh('q'), core.BVW); ms = []
    for p, v in seg.alts(j):
        if not isinstance(v, PowC) or not c.implied(z3.And(p, bv(v.i) == j)) or v.seq.name != seq.name: return None
        ms.append(mat2(v.m))
    return ms[0] if len(ms) == 1 else None
START = 'start'
def judge(op, qs, want, name):
    """op is the wanted matrix on the qubits qs times the matrix before"""
    c = cur()
    if not isinstance(op, Op): raise Unsupported('the matrix of the circuit is something else')
    tot = None
    for p in op.prods:
        k = [i for i, x in enumerate(p) if x is START]
        if len(k) != 1: raise Unsupported('the earlier matrix is used %d times' % len(k))
        if p[k[0] + 1:]:
            c.require(False, 'the gate acts after the earlier ones'); return
        m = gs.eye(2 ** len(qs))
        for x in p[:-1]:
            if not isinstance(x, KSeg): raise Unsupported('a fold among single qubits')
            m = gs.mul(m, local(x, qs))
        tot = m if tot is None else gs.madd(tot, m)
    c.require(gs.phase_equal(tot, want, c.norm), name, repr([[x.pretty()[:40] for x in r] for r in tot])[:300])
def comp(it, kind, f, cond, star):
    if isinstance(it, SymRange) and cond is None and not star:
        def alts(j):
            c = cur()
            def one():
                n0 = len(c.pc); v = f(SInt(j))
                return z3.And(True, *c.pc[n0:]), v
            return c.cases(one)
        return Facs(KSeg(it, alts))
    if isinstance(it, seqs.SymSeq) and cond is None and not star:
        e = it.elem('probe')
        if f(e) is e: return Tl(it)
    raise Unsupported('comprehension over %s' % getattr(it, 'name', '?'))
class KLoop:
    """for idx in range(n): one factor is appended"""
    rebind = True
    def __init__(self, seq, ident, rebound): self.seq, self.ident, self.rebound = seq, ident, rebound; self.env = {}; self.entered = False
    def head(self, loc):
        c = cur()
        if self.entered: return self.end(loc)
        self.entered = True
        occ = c.extra.setdefault('loop_occ', {}); n = occ.get(self.ident, 0); occ[self.ident] = n + 1
        for r in self.rebound: self.env[r] = Poison(r)
        st = self.st = c.store.setdefault(('k', self.ident, n, tuple(c.trace[:c.pos])), [])
        self.ls = {k: v for k, v in loc.items() if type(v) is GList}; self.l0 = {k: len(raw(v)) for k, v in self.ls.items()}
        mode = c.choose(2, 'loop %s' % self.ident)
        if mode == 0:
            j = z3.BitVec('idx%d' % n, core.BVW); c.assume(self.seq.contains(j)); self.j = j; self.item = SInt(j); self.n0 = len(c.pc)
            return True
        ks = {k for k, _, _, _ in st}
        if len(ks) != 1: raise Unsupported('a loop which fills no list, or several')
        g = self.ls[ks.pop()]
        if raw(g): raise Unsupported('earlier factors')
        def alts(q):
            r = []
            for _, j, p, v in st:
                if isinstance(v, PowC): v = PowC(v.m, v.seq, SInt(z3.substitute(bv(v.i), (j, q))))
                r.append((z3.substitute(p, (j, q)), v))
            return r
        g.append(KSeg(self.seq, alts))
        return False
    def end(self, loc):
        c = cur()
        if any(loc.get(k) is not v for k, v in self.ls.items()): raise Unsupported('a list made anew')
        ch = [(k, raw(v)[self.l0[k]:]) for k, v in self.ls.items() if len(raw(v)) != self.l0[k]]
        if len(ch) != 1 or len(ch[0][1]) != 1: raise Unsupported('other than one factor for each qubit')
        self.st.append((ch[0][0], self.j, z3.And(True, *c.pc[self.n0:]), ch[0][1][0]))
        raise EndPath()
class TLoop:
    """for target(s) in the targets of the operation: each passage multiplies the matrix of
    the circuit by the gate on these qubits"""
    rebind = True
    def __init__(self, seq, ident, rebound): self.seq, self.ident, self.rebound = seq, ident, rebound; self.env = {}; self.entered = False
    def head(self, loc):
        c = cur()
        if self.entered: return self.end(loc)
        self.entered = True
        T, want = c.extra['op']
        if self.seq.src is not T.src: raise Unsupported('a loop over other targets')
        for r in self.rebound: self.env[r] = Poison(r)
        self.ctx = c.extra['ctx']; self.loc0 = {k: v for k, v in loc.items() if k not in self.rebound}
        mode = c.choose(2, 'loop %s' % self.ident)
        m0 = self.ctx.matrix_of_circuit
        if mode == 0:
            self.ctx.matrix_of_circuit = Op([[START]])
            self.item = self.seq.elem('k'); return True
        if self.seq.reversed_ : raise Unsupported('targets in another order')
        if not isinstance(m0, Op): raise Unsupported('matrix')
        self.ctx.matrix_of_circuit = Op([[Fold(T, want)]]) * m0
        return False
    def end(self, loc):
        c = cur()
        e = self.item; qs = [bv(x) for x in (e if isinstance(e, tuple) else (e,))]
        if any(loc.get(k) is not v for k, v in self.loc0.items()): raise Unsupported('other variables change')
        judge(self.ctx.matrix_of_circuit, qs, c.extra['op'][1], 'the matrix is multiplied by the gate on these qubits')
        raise EndPath()
class DLoop:
    """for i in range(2**n): every passage leaves everything as it was or stops the loop"""
    rebind = False
    def __init__(self, seq, ident): self.seq, self.ident = seq, ident; self.env = {}; self.entered = False
    def head(self, loc):
        c = cur()
        if self.entered: raise EndPath()
        self.entered = True
        if c.choose(2, 'loop %s' % self.ident) == 1: return False
        i = z3.BitVec('i', core.BVW); c.assume(self.seq.contains(i)); self.item = SInt(i)
        return True
def hook(it, ident, lv, rb):
    c = cur()
    if isinstance(it, SymRange):
        if c.extra.get('diag'): return DLoop(it, ident)
        return KLoop(it, ident, set(rb))
    if isinstance(it, seqs.SymSeq): return TLoop(it, ident, set(rb))
def eye_(k):
    if isinstance(k, SInt): return Ident(k)
    return sp.eye(k)
class Ident:
    vx_static = True
    def __init__(self, k): self.k = k
    def __getattr__(self, n):
        if n.startswith('vx_') or n.startswith('__'): raise AttributeError(n)
        raise Unsupported('matrix.%s' % n)
def start(n):
    c = cur()
    for k, v in (('n', n), ('loop_hook', hook), ('comp_hook', comp), ('list_hook', lambda: GList([]))): c.extra[k] = v
SYMS = None
def cases_of(npar):
    """what the user gives as parameters: fresh symbols, symbols with the names the backend uses"""
    th, ph, la = sp.symbols('theta phi lambd')
    a, b, d = sp.symbols('a b c', real=True)
    S = {0: [()], 1: [(a,), (th,), (ph,), (la,)], 2: [(a, b), (th, ph), (ph, la), (la, ph), (la, th), (ph, th)],
         3: [(a, b, d), (th, ph, la), (la, ph, th), (ph, la, th), (la, th, ph), (ph, th, la), (th, la, ph)]}
    return S[npar]
def action(led, g):
    nq, npar, mat = gs.GATES[g]
    cls = getattr(sys.modules['blueqat.gate'], gs.CLASSES[g])
    def path():
        c = cur(); n, dom = register(); start(n)
        backend = backend_()
        ps = cases_of(npar); ps = ps[c.choose(len(ps), 'parameters')]
        ALG.clear()
        for i, s in enumerate(ps): ALG[s] = alg.rsym('p%d' % i)
        want = mat(*[ALG[s] for s in ps])
        T = single_seq(n) if nq == 1 else pair_seq(n)
        if nq == 1: T.__class__ = TSeq
        ctx = SB._SympyBackendContext(n, False); c.extra['ctx'] = ctx
        ctx.matrix_of_circuit = Op([[START]])
        c.extra['op'] = (T, want)
        act = backend._get_action(cls(Targets(T, nq), *ps)); kept = Kept(backend)
        if act is None: c.require(False, 'the action exists'); return
        out = act(cls(Targets(T, nq), *ps), ctx)
        kept.check(); m = out.matrix_of_circuit
        c.require(out.n_qubits is n and out.ignore_global is False, 'frame: only the matrix changes')
        if not isinstance(m, Op): raise Unsupported('matrix')
        if len(m.prods) == 1 and len(m.prods[0]) == 2 and m.prods[0][1] is START:
            f = m.prods[0][0]
            if isinstance(f, Fold): c.require(f.m is want and f.seq is T, 'the gate on every target'); return
            fm = foldof(f, T)
            if fm is not None:
                c.require(gs.phase_equal(fm, want, c.norm), 'the gate, as often as listed, on every target', repr([[x.pretty()[:40] for x in r] for r in fm])); return
        if len(m.prods) == 1 and len(m.prods[0]) == 2 and m.prods[0][0] is START:
            fm = foldof(m.prods[0][1], T) if isinstance(m.prods[0][1], KSeg) else None
            if fm is not None: c.require(False, 'the gate acts after the earlier ones'); return
        raise Unsupported('the gate is applied in another way')
    run_explore(led, 'SympyBackend.gate_%s' % g, path)
def backend_():
    be = SB.SympyBackend()
    for k, v in (('eye', eye_), ('reduce', reduce_), ('TensorProduct', tensor)): setattr(SB, k, v)
    return be
def ignored(led, g):
    cls = getattr(sys.modules['blueqat.gate'], gs.CLASSES[g])
    def path():
        c = cur(); n, dom = register(); start(n)
        backend = backend_(); seen = []
        W = types.SimpleNamespace(warn=lambda *a, **k: seen.append(a), **{})
        old = SB.warnings; SB.warnings = W
        try:
            ctx = SB._SympyBackendContext(n, False); m = ctx.matrix_of_circuit = Op([[START]]); c.extra['ctx'] = ctx
            c.extra['op'] = (single_seq(n), None)
            op = cls(Targets(single_seq(n), 1))
            act = backend._get_action(op)
            if act is None: c.require(False, 'the operation is accepted'); return
            out = act(op, ctx)
        finally: SB.warnings = old
        c.require(len(seen) >= 1, 'a warning is given')
        c.require(out.matrix_of_circuit is m and out.n_qubits is n and out.ignore_global is False, 'the operation is ignored')
    run_explore(led, 'SympyBackend.gate_%s' % g, path)
def pre(led):
    def path():
        c = cur(); n, dom = register(); start(n)
        be = backend_(); gates = Opaque('operations'); k = c.choose(3, 'ignore_global')
        v = [None, True, False][k]
        gg, ctx = be._preprocess_run(gates, n, (), {} if v is None else {'ignore_global': v})
        c.require(gg is gates, 'the operations are handed on')
        m = ctx.matrix_of_circuit
        if not isinstance(m, Ident): raise Unsupported('the first matrix')
        c.prove(bv(m.k) == z3.BitVecVal(1, core.BVW) << bv(n), 'the first matrix is the identity of 2^n rows')
        c.require(bool(ctx.ignore_global) == bool(v), 'the option is kept, off by default')
        c.require(ctx.n_qubits is n, 'the size of the register')
    run_explore(led, 'SympyBackend._preprocess_run', path)
class Sym:
    """the matrix of a circuit: unknown entries"""
    vx_static = True
    _op_priority = 1e9
    def __init__(self): self.d = {}; self.facs = Alg.of(1)
    def __getitem__(self, ij):
        if not (isinstance(ij, tuple) and len(ij) == 2 and all(isinstance(x, SInt) for x in ij)): raise Unsupported('entry of the matrix')
        k = tuple(z3.simplify(x.e).sexpr() for x in ij)
        if k not in self.d: self.d[k] = alg.csym('m%s' % (k,))
        return self.d[k]
    def __mul__(self, o):
        o = Alg.of(o)
        if o is None: raise Unsupported('product with the matrix')
        return Scaled(self, o)
    __rmul__ = __mul__
    def __truediv__(self, o): return Scaled(self, Alg.of(1) / Alg.of(o))
    @property
    def shape(self): raise Unsupported('shape')
    def __getattr__(self, n):
        if n == 'dtype' or n.startswith('vx_') or n.startswith('__'): raise AttributeError(n)
        raise Unsupported('matrix.%s' % n)
class Scaled:
    def __init__(self, m, f): self.m, self.f = m, f
    def __mul__(self, o): return Scaled(self.m, self.f * Alg.of(o))
    __rmul__ = __mul__
    def __truediv__(self, o): return Scaled(self.m, self.f / Alg.of(o))
def post(led):
    def path():
        c = cur(); n, dom = register(); start(n); c.extra['diag'] = True
        be = backend_()
        ig = bool(c.choose(2, 'ignore_global'))
        ctx = SB._SympyBackendContext(n, ig); m = ctx.matrix_of_circuit = Sym()
        r = be._postprocess_run(ctx)
        if isinstance(r, Scaled):
            c.require(r.m is m, 'the matrix of the circuit')
            if not ig: c.prove_zero(r.f - 1, 'the matrix is given as it is'); return
            c.prove_zero(r.f * r.f.conjugate() - 1, 'dropping the global phase multiplies by a number of modulus one')
            if len(m.d) != 1: raise Unsupported('the phase is taken from several entries')
            (d,) = m.d.values()
            c.prove_zero(r.f * d - alg.aabs(d), 'the entry the phase is taken from becomes its modulus')
            return
        c.require(r is m, 'the matrix of the circuit is returned')
    run_explore(led, 'SympyBackend._postprocess_run', path)
def angle(led):
    def path():
        c = cur(); be = backend_()
        old = SB.sympy, SB.pi
        try:
            k = c.choose(3, 'angle')
            if k == 0:
                a = alg.rsym('angle'); d = alg.rsym('denominator'); asked = []
                if c.alg_zero(d): return
                num = types.SimpleNamespace(as_numer_denom=lambda: (asked[-1] * d, d))
                def nsimplify(x, *aa, **kk):
                    if Alg.of(x) is None: raise Unsupported('nsimplify')
                    if aa or kk: raise Unsupported('nsimplify with options')
                    asked.append(Alg.of(x)); return num
                SB.sympy = types.SimpleNamespace(nsimplify=nsimplify); SB.pi = alg.PI
                r = SB._angle_simplify(a)
                if Alg.of(r) is None: raise Unsupported('angle')
                c.prove_zero(Alg.of(r) - a, 'a number stays the same number'); return
            x = [sp.Symbol('theta'), sp.Symbol('a') / 3 + 1][k - 1]
            c.require(SB._angle_simplify(x) == x, 'an expression is kept')
        finally: SB.sympy, SB.pi = old
    run_explore(led, '_angle_simplify', path)
def to_unitary(led):
    def path():
        c = cur(); M = Opaque('matrix'); seen = []
        circ = sys.modules['blueqat.circuit'].Circuit.__new__(sys.modules['blueqat.circuit'].Circuit)
        circ.run = lambda *a, **k: (seen.append((a, dict(k))), M)[1]
        circ.run_with_sympy_unitary = lambda *a, **k: (seen.append((a, dict(k, backend='sympy_unitary'))), M)[1]
        kw = [{}, {'ignore_global': True}, {'ignore_global': False}][c.choose(3, 'options')]
        r = circ.to_unitary(**kw)
        c.require(r is M and len(seen) == 1, 'the matrix the backend gives')
        c.require(seen[0] == ((), dict(kw, backend='sympy_unitary')), 'by the symbolic backend, with the options given', repr(seen))
    run_explore(led, 'Circuit.to_unitary', path)
    led.functions['blueqat.circuit.Circuit.to_unitary'] = 'any circuit'
def gates():
    return sorted(g for g in gs.GATES if hasattr(SB.SympyBackend, 'gate_' + g))
def run(led, tier='quick'):
    global SB
    load_repo(); loader.load('blueqat.backends.sympy_backend'); SB = sys.modules['blueqat.backends.sympy_backend']; SB.SympyBackend()   # binds sympy's names once
    for g in gates():
        if gs.GATES[g][0] == 3:
            led.add('SympyBackend.gate_%s' % g, 'unknown', 'engine', detail='no contract for a gate of three qubits'); continue
        action(led, g); led.functions['blueqat.backends.sympy_backend.SympyBackend.gate_' + g] = 'n <= 31, any target list, any parameters'
    for g in ('measure', 'reset'): ignored(led, g); led.functions['blueqat.backends.sympy_backend.SympyBackend.gate_' + g] = 'any targets'
    pre(led); post(led); to_unitary(led); angle(led)
    for n in ('_preprocess_run', '_postprocess_run'): led.functions['blueqat.backends.sympy_backend.SympyBackend.' + n] = 'any register'
    led.functions['blueqat.backends.sympy_backend._angle_simplify'] = 'any number or expression'
    led.need = 40
ASSUMPTIONS = ['sympy: matrix products and powers, tensor products, substitution (simultaneous where asked for) and the value of nsimplify are taken as the operations they name; substituting into a matrix and then giving the symbols values is the same as substituting the values',
 'the factors M^count(q) of all qubits q are the product of M over the listed targets (induction on the list; matrices on different qubits commute)',
 '`!= 0` of sympy decides whether an entry is zero (it does not always: known finding phase-from-hidden-zero)',
 'other gates are decomposed into these (C02) by the dispatcher (C23)']
