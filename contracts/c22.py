"""C22: the matrix of a circuit, column by column."""
from contracts.common import *
from engine import opaque
from engine.opaque import Opaque, GList, raw
from engine.seqs import EndPath, Poison
from engine.shadows import SymRange
import types, numpy

NQ = 60
def bv(e): return e.e if isinstance(e, SInt) else z3.BitVecVal(e, core.BVW)
def member_of(seq, f, cond):
    """the set of values f(k) for the k of the range with cond(k), as a predicate (z3) on j"""
    def at(j):
        """condition that position j of the range is selected"""
        c = cur()
        def one():
            n0 = len(c.pc); k = SInt(j)
            c.assume(seq.contains(j))
            n1 = len(c.pc)
            v = f(k)
            t = True if cond is None else bool(cond(k))
            return (z3.And(True, *c.pc[n1:]), t, v)
        cs = c.cases(one)
        return z3.Or(False, *[p for p, t, v in cs if t]), [(p, v) for p, t, v in cs if t]
    return at
class BitSet:
    """the qubits selected from a range"""
    vx_static = True; vx_run = True
    def __init__(self, seq, f, cond, ty): self.seq, self.f, self.cond, self.ty = seq, f, cond, ty; self.at = member_of(seq, f, cond)
    def vx_seq(self, ty): return BitSet(self.seq, self.f, self.cond, ty)
    vx_list = None
    def vx_isinstance(self, t): return t in (self.ty, object)
    def holds(self, j):
        """whether j is a member (z3 Bool); j is within the register"""
        c = cur(); x, vs = self.at(j)
        if not c.implied(self.seq.contains(j)):
            if not c.implied(z3.Not(self.seq.contains(j))): x = z3.And(self.seq.contains(j), x)
        if all(c.implied(z3.Implies(z3.And(self.seq.contains(j), p), bv(v) == j)) for p, v in vs): return x
        # the range read backwards
        n = bv(c.extra['n'])
        k = n - 1 - j; x, vs = self.at(k)
        if all(c.implied(z3.Implies(z3.And(self.seq.contains(k), p), bv(v) == j)) for p, v in vs): return x
        raise Unsupported('qubits given by another rule')
    def __bool__(self):
        c = cur()
        r = opaque.either(('nonempty', id(self)), 'a qubit is selected')
        if not r: c.extra['emptysets'] = c.extra.get('emptysets', []) + [self]
        return r
    def empty(self): return not self
    def slen(self): raise Unsupported('number of selected qubits')
    def __iter__(self): raise Unsupported('iteration over the selected qubits')
    def vx_loop(self, ident, lv, rb): return FlipLoop(self.seq, ident, rb, self)
    def vx_comp(self, kind, f, cond, star):
        if cond is not None or star: raise Unsupported('selection from the selected qubits')
        g = self.f
        return BitSet(self.seq, lambda k: f(g(k)), self.cond, list if kind == 'list' else None)
class SetSeg(opaque.Seg):
    """the selected qubits as part of a list"""
    def __init__(self, holds): Opaque.__init__(self, 'selected qubits'); object.__setattr__(self, 'holds', holds)
    def turned(self): return self
    def empty(self):
        r = not opaque.either(('nonempty', id(self)), 'a qubit is selected')
        if r: c = cur(); c.extra['emptysets'] = c.extra.get('emptysets', []) + [self]
        return r
class Given(Opaque):
    """the circuit given: any register, any operations"""
    def __init__(self, n): Opaque.__init__(self, 'circ'); object.__setattr__(self, 'n', n)
    @property
    def n_qubits(self): return self.n
    def copy(self, *a, **k):
        if a or k: raise Unsupported('copy with options')
        return Circ([self])
    def __copy__(self): return self.copy()
    def __add__(self, o): return Circ([self]) + o
    def __iadd__(self, o): raise Unsupported('the given circuit is extended')
    def __deepcopy__(self, m): return self.copy()
    __hash__ = object.__hash__
class Flip:
    """X on the qubits with holds(j)"""
    def __init__(self, holds): self.holds = holds
class Circ:
    vx_static = True
    def __init__(self, parts=()): self.parts = list(parts); cur().extra['circs'].append(self)
    @property
    def x(self): return XB(self)
    def copy(self, *a, **k):
        if a or k: raise Unsupported('copy with options')
        return Circ(self.parts)
    def __iadd__(self, o):
        self.parts.extend(parts(o)); return self
    def __add__(self, o): return Circ(self.parts + parts(o))
    def run(self, *a, **k):
        return Column(list(self.parts), a, k)
    def __getattr__(self, n):
        if n.startswith('vx_') or n.startswith('__'): raise AttributeError(n)
        raise Unsupported('circuit.%s' % n)
def parts(o):
    if isinstance(o, Given): return [o]
    if isinstance(o, Circ): return list(o.parts)
    raise Unsupported('something else is appended to the circuit')
class XB:
    vx_static = True
    def __init__(self, c): self.c = c
    def __getitem__(self, t):
        if isinstance(t, BitSet):
            if t.ty is not tuple: raise Unsupported('targets which are not a tuple')
            self.c.parts.append(Flip(t.holds))
        else:
            for q in (raw(t) if isinstance(t, tuple) else (t,)):
                if isinstance(q, (BitSet, SetSeg)): self.c.parts.append(Flip(q.holds)); continue
                if not isinstance(q, SInt): raise Unsupported('fixed target')
                self.c.parts.append(Flip(lambda j, q=q: j == bv(q)))
        return self.c
class Column:
    vx_static = True
    def __init__(self, parts, a, k): self.parts, self.a, self.k = parts, a, k
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported('state.%s' % n)
def good(col, i):
    """col is the state obtained from basis state i"""
    c = cur(); n = bv(c.extra['n']); circ = c.extra['circ']
    if not isinstance(col, Column): raise Unsupported('a column is something else')
    k = [p for p, x in enumerate(col.parts) if x is circ]
    c.require(len(k) == 1, 'the circuit is run once for each column')
    if len(k) != 1: return
    fl = col.parts[:k[0]]
    c.require(not col.parts[k[0] + 1:], 'nothing follows the circuit')
    j = z3.BitVec('j', core.BVW)
    c.solver.push(); np = len(c.pc)
    try:
        c.assume(z3.And(j >= 0, j < n))
        for s in c.extra.get('emptysets', []): c.assume(z3.Not(s.holds(j)))
        v = z3.BoolVal(False)
        for x in fl: v = z3.Xor(v, x.holds(j))
        c.prove(v == (z3.Extract(0, 0, z3.LShR(i, j)) == 1), 'the column starts in its basis state: qubit j is 1 when bit j is')
    finally:
        c.solver.pop(); del c.pc[np:]
    a, kw = c.extra['opts']
    c.require(col.a == a, 'the run options given are used')
    want = dict(returns='statevector', ignore_global=False); want.update(kw)
    c.require(set(col.k) == set(want) and all(col.k[x] is want[x] or col.k[x] == want[x] for x in want), 'the run options given are used, the state vector with its phase by default', repr(col.k))
class Cols:
    """the columns 0, 1, ... 2^n - 1"""
    vx_static = True; vx_run = True
    def __init__(self, kind): self.kind = kind
class Matrix:
    vx_static = True
    def __init__(self, rows): self.rows = rows       # True: the states are the rows
    @property
    def T(self): return Matrix(not self.rows)
    def transpose(self): return self.T
    def copy(self): return self
    def __getattr__(self, n):
        if n.startswith('__') or n.startswith('vx_'): raise AttributeError(n)
        raise Unsupported('matrix.%s' % n)
def whole(seq):
    """the range is 0 .. 2^n - 1 in order"""
    c = cur(); n = bv(c.extra['n'])
    if seq.step != 1: raise Unsupported('columns in another order')
    c.prove(z3.And(bv(seq.start) == 0, bv(seq.stop) == z3.BitVecVal(1, core.BVW) << n), 'a column for each basis state')
class ColLoop:
    """for i in range(..): body appends column i to one list"""
    rebind = True
    def __init__(self, seq, ident, rebound): self.seq, self.ident, self.rebound = seq, ident, rebound; self.env = {}; self.entered = False
    def lists(self, loc): return {k: v for k, v in loc.items() if type(v) is GList}
    def head(self, loc):
        c = cur()
        if self.entered: return self.end(loc)
        self.entered = True
        for r in self.rebound: self.env[r] = Poison(r)
        self.ls = self.lists(loc); self.l0 = {k: len(raw(v)) for k, v in self.ls.items()}
        for k in self.ls:
            if k in self.rebound: raise Unsupported('a list made anew in the loop')
        key = ('cols', self.ident); st = c.store.setdefault(key, set()); self.st = st
        mode = c.choose(2, 'loop %s' % self.ident)
        # the bodies are explored first
        self.nc = len(c.extra['circs']); self.snap = [(x, list(x.parts)) for x in c.extra['circs']]
        if mode == 0:
            i = z3.BitVec('i', core.BVW); c.assume(self.seq.contains(i)); self.i = i; self.item = SInt(i)
            return True
        whole(self.seq)
        if len(st) != 1: raise Unsupported('the loop fills no list, or several')
        self.ls[next(iter(st))].append(Cols('good'))
        return False
    def end(self, loc):
        c = cur()
        if any(x.parts != p for x, p in self.snap): raise Unsupported('a circuit made before the loop is changed by it')
        new = {k: raw(v)[self.l0[k]:] for k, v in self.ls.items()}
        if any(loc.get(k) is not v for k, v in self.ls.items()): raise Unsupported('a list made anew in the loop')
        ch = [k for k, x in new.items() if x]
        if len(ch) != 1 or len(new[ch[0]]) != 1: raise Unsupported('other than one column for each number')
        if self.l0[ch[0]] != 0: raise Unsupported('columns before the first')
        self.st.add(ch[0])
        good(new[ch[0]][0], self.i)
        raise EndPath()
class FlipLoop:
    """for k in range(..): the body applies X to qubits of one circuit, or collects them;
    what happens at k depends on k alone and concerns qubit k alone"""
    rebind = True
    def __init__(self, seq, ident, rebound, sel=None): self.seq, self.ident, self.rebound, self.sel = seq, ident, rebound, sel; self.env = {}; self.entered = False
    def head(self, loc):
        c = cur()
        if self.entered: return self.end(loc)
        self.entered = True
        for r in self.rebound: self.env[r] = Poison(r)
        self.key = ('flips', self.ident, tuple(c.trace[:c.pos])); self.st = c.store.setdefault(self.key, [])
        self.ls = {k: v for k, v in loc.items() if type(v) is GList}; self.l0 = {k: len(raw(v)) for k, v in self.ls.items()}
        cs = c.extra['circs']; self.cs = list(cs); self.p0 = [len(x.parts) for x in cs]
        mode = c.choose(2, 'loop %s' % self.ident)
        if mode == 0:
            k = z3.BitVec('k', core.BVW); c.assume(self.seq.contains(k)); self.k = k
            self.n0 = len(c.pc)
            self.item = SInt(k)
            if self.sel is not None:
                if self.sel.cond is not None and not bool(self.sel.cond(self.item)): raise EndPath()
                self.item = self.sel.f(self.item)
            return True
        for what in {w for w, _, _ in self.st}:
            ev = [(p, q) for w, p, q in self.st if w == what]
            def holds(j, ev=ev):
                k = z3.BitVec('k', core.BVW)
                c = cur(); r = []
                n = bv(c.extra['n'])
                for p, q in ev:
                    for kk in (j, n - 1 - j):
                        if c.implied(z3.substitute(q, (k, kk)) == j):
                            r.append(z3.And(self.seq.contains(kk), z3.substitute(p, (k, kk)))); break
                    else: raise Unsupported('qubits given by another rule')
                return z3.Or(*r)
            if what[0] == 'circ': self.cs[what[1]].parts.append(Flip(holds))
            else:
                g = self.ls[what[1]]
                if raw(g): raise Unsupported('a list with earlier items')
                g.append(SetSeg(holds))
        return False
    def end(self, loc):
        c = cur()
        p = z3.And(True, *c.pc[self.n0:])
        if any(loc.get(k) is not v for k, v in self.ls.items()): raise Unsupported('a list made anew in the loop')
        if len(c.extra['circs']) != len(self.cs): raise Unsupported('a circuit for each qubit')
        for a, (x, n0) in enumerate(zip(self.cs, self.p0)):
            new = x.parts[n0:]
            if not new: continue
            if len(new) != 1 or not isinstance(new[0], Flip): raise Unsupported('other gates than X')
            # the qubit flipped
            for q in (self.k, bv(c.extra['n']) - 1 - self.k):
                y = z3.BitVec('y', core.BVW)
                if c.implied(z3.ForAll([y], new[0].holds(y) == (y == q))): break
            else: raise Unsupported('the qubit flipped')
            self.st.append((('circ', a), p, q))
        for k, v in self.ls.items():
            new = raw(v)[self.l0[k]:]
            if not new: continue
            if len(new) != 1 or not isinstance(new[0], SInt): raise Unsupported('other than qubits collected')
            self.st.append((('list', k), p, bv(new[0])))
        raise EndPath()
def hook(it, ident, lv, rb):
    if isinstance(it, SymRange):
        c = cur(); n = c.extra['n']
        if c.implied(bv(it.stop) - bv(it.start) == bv(n)) or it.step != 1: return FlipLoop(it, ident, set(rb))
        return ColLoop(it, ident, set(rb))
def np_array(x, *a, **k):
    if a or set(k) - {'dtype', 'order', 'copy'}: raise Unsupported('array options')
    if isinstance(x, list) and type(x) is GList:
        r = raw(x)
        if len(r) == 1 and isinstance(r[0], Cols): return Matrix(True)
        if not any(getattr(e, 'vx_run', False) for e in r): return numpy.array([list(y) if isinstance(y, list) else y for y in r], *a, **k)
        raise Unsupported('rows of another kind')
    if isinstance(x, (seqs.SymSeq,)):
        c = cur()
        src = x.src if isinstance(x, SymRange) else getattr(x, 'vx_range', None)
        if src is None: raise Unsupported('rows of another kind')
        whole(src)
        i = z3.BitVec('i', core.BVW); c.assume(src.contains(i))
        good(x.vx_at(SInt(i)), i)
        return Matrix(True)
    return numpy.array(x, *a, **k)
def filt(it, kind, f, cond, star):
    if isinstance(it, SymRange) and not star:
        c = cur()
        # the qubits of the register, selected; or one value for each number
        if cond is not None or c.implied(bv(it.stop) - bv(it.start) == bv(c.extra['n'])): return BitSet(it, f, cond, list if kind == 'list' else None)
        if cond is None and kind in ('list', 'gen'):
            s = seqs.SymSeq('columns', None); s.vx_range = it; s.vx_at = f; return s
    raise Unsupported('comprehension over %s' % type(it).__name__)

def run(led, tier='quick'):
    loader.fresh(); loader.load('blueqat'); um = loader.load('blueqat.experimental.utils')
    um.Circuit = lambda n=0, *a: Circ()
    um.np = types.SimpleNamespace(array=np_array, asarray=np_array, transpose=lambda m: m.T, stack=stack, column_stack=lambda x: stack(x, 1), vstack=lambda x: stack(x, 0))
    OPTS = [((), {}), ((), {'returns': 'statevector'}), ((), {'ignore_global': True}), ((), {'ignore_global': False, 'backend': 'B'}), ((), {'shots': 1, 'returns': 'R'}), (('S',), {}), ((), {'initial': 'V'})]
    def path():
        c = cur()
        n = bvar('n'); c.assume(z3.And(n.e >= 0, n.e <= NQ)); c.extra['prefer'] = [n.e <= 3]
        for k, v in (('n', n), ('circs', []), ('loop_hook', hook), ('comp_hook', filt), ('list_hook', lambda: GList([]))): c.extra[k] = v
        circ = c.extra['circ'] = Given(n)
        a, kw = OPTS[c.choose(len(OPTS), 'options')]
        kw = {k: Opaque(v) if len(str(v)) == 1 else v for k, v in kw.items()}; a = tuple(map(Opaque, a))
        c.extra['opts'] = (a, dict(kw))
        U = um.circuit_to_unitary(circ, *a, **kw)
        if isinstance(U, Matrix):
            c.require(not U.rows, 'the states are the columns'); return
        if isinstance(U, numpy.ndarray):
            if not c.implied(n.e == 0): raise Unsupported('a fixed matrix')
            c.require(U.shape == (1, 1) and U[0, 0] == 1, 'the matrix of an empty register is 1', repr(U)); return
        raise Unsupported('the matrix is made in another way')
    run_explore(led, 'circuit_to_unitary', path)
    led.functions['blueqat.experimental.utils.circuit_to_unitary'] = 'any circuit and register up to %d qubits' % NQ
    led.need = 40
def stack(x, axis=0):
    m = np_array(x)
    if not isinstance(m, Matrix) or axis not in (0, 1, -1): raise Unsupported('stack')
    return m if axis == 0 else m.T
ASSUMPTIONS = ['contracts of circuits: X on a tuple of qubits flips each (C01), + and += append the operations and keep the larger register (C08), run gives the state vector with qubit 0 as least significant bit (C01, C06)',
 'np.array of a list of vectors has them as rows, .T transposes']
