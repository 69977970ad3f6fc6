"""C21: bit tuples and global phase removal."""
from contracts.common import *
from engine import seqs
from engine.opaque import Opaque, either
import collections

class BitStr(Opaque):
    """a bit string of any length"""
    def __init__(self, name): Opaque.__init__(self, name)
    def vx_isinstance(self, t): return t in (str, object, BitStr)
    def vx_comp(self, kind, f, cond, star):
        if cond is not None or star: raise Unsupported('a selection of the bits')
        vals = [f(ch) for ch in '01']
        return MapBits(self, list if kind == 'list' else None, vals, False)
    def vx_seq(self, ty): return MapBits(self, ty, ['0', '1'], False)
    def vx_reversed(self): return MapBits(self, None, ['0', '1'], True)
    def __iter__(self): raise Unsupported('iteration over a string of any length')
    __hash__ = object.__hash__
class MapBits:
    """f(b) for each bit b of a string, in order"""
    vx_static = True
    def __init__(self, of, ty, vals, rev): self.of, self.ty, self.vals, self.rev = of, ty, vals, rev
    def vx_isinstance(self, t): return t in (self.ty, object)
    def vx_seq(self, ty): return MapBits(self.of, ty, self.vals, self.rev)
    def vx_reversed(self): return MapBits(self.of, None, self.vals, not self.rev)
    def vx_comp(self, kind, f, cond, star):
        if cond is not None or star: raise Unsupported('a selection of the bits')
        return MapBits(self.of, list if kind == 'list' else None, [f(v) for v in self.vals], self.rev)
    def __getitem__(self, i):
        if isinstance(i, slice) and i == slice(None, None, -1): return MapBits(self.of, self.ty, self.vals, not self.rev)
        raise Unsupported('one of the bits')
    def __iter__(self): raise Unsupported('iteration over bits')
    def good(self, of):
        return self.of is of and self.ty is tuple and not self.rev and self.vals == [0, 1] and all(type(v) is int for v in self.vals)
    def __repr__(self): return '%s of (%r for 0, %r for 1) over %s%s' % (self.ty, self.vals[0], self.vals[1], 'reversed ' if self.rev else '', self.of.vx_name)
class Entries:
    vx_static = True
    def __init__(self, t): self.t = t
    def __iter__(self): raise Unsupported('entries of a table of any size')
    def vx_comp(self, kind, f, cond, star):
        if cond is not None: raise Unsupported('a selection of the entries')
        e = (self.t.k, self.t.v)
        r = f(*e) if star else f(e)
        if not (isinstance(r, tuple) and len(r) == 2): raise Unsupported('entries of another shape')
        return Table(r)
class Table:
    """a table with one entry for each entry of another"""
    vx_static = True
    def __init__(self, r, ty=dict): self.r = r; self.ty = ty
    def items(self): return self
    def vx_isinstance(self, t): return t in (dict, object, self.ty)
class In(Opaque):
    """a table of any size keyed by bit strings"""
    def __init__(self, ty):
        Opaque.__init__(self, 'table')
        for k, v in (('k', BitStr('key')), ('v', Opaque('value')), ('ty', ty)): object.__setattr__(self, k, v)
    def vx_isinstance(self, t): return t in (dict, object, self.ty)
    def items(self): return Entries(self)
def counter(*a):
    if len(a) == 1 and isinstance(a[0], Table): return Table(a[0].r, collections.Counter)
    return collections.Counter(*a)

class PhaseLoop:
    """for q in vector: every passage through the body leaves the vector as it was, so the
    generic passage sees an arbitrary element of it, all earlier ones having been passed"""
    rebind = False
    def __init__(self, arr, ident, rebound): self.arr = arr; self.env = {}; self.state = 0
    def head(self, loc):
        c = cur()
        if self.state == 0:
            self.state = 1; self.v = self.arr.version
            if c.choose(2, 'no element stops the loop') == 1:
                c.extra['stopped'] = False; return False
            i = z3.BitVec('i', BVW); c.assume(self.arr.dom.inside(i))
            self.item = self.arr.f(i); c.extra['at'] = (i, self.item); c.extra['stopped'] = True
            return True
        c.extra['passed'] = self.item
        c.require(self.arr.version == self.v, 'an amplitude passed over leaves the vector as it was')
        # what the path knows about the amplitude passed over: it is small
        small(c, self.item)
        raise core.Infeasible()

def bounds(c, q):
    """what the path knows of r = |q|, as constraints on a real r >= 0"""
    r = z3.Real('r'); cs = [r >= 0]; a = abs(q)
    (sid,) = [s for s in a.syms() if alg.TABLE[s].sq is not None]
    for d, neg in c.extra.get('signs', []):
        co = {}
        for (pm, em, rr), k in d.t.items():
            if em or rr or any(s != sid for s, _ in pm): break
            co[sum(j for _, j in pm)] = k
        else:
            e = sum(z3.RealVal(str(k)) * (r if j == 1 else 1) for j, k in co.items() if j in (0, 1))
            if all(j in (0, 1) for j in co): cs.append(e < 0 if neg else e >= 0)
    # q == 0 or not
    for k, v in c.known.items():
        if k[0] == 'z' and k[1] in (q.key(), (-q).key(), (q * q.conjugate()).key(), a.key(), (-a).key()): cs.append(r == 0 if v else r > 0)
    return r, cs
def holds(c, q, f):
    r, cs = bounds(c, q)
    s = z3.Solver()
    for x in cs: s.add(x)
    s.add(z3.Not(f(r)))
    return s.check() == z3.unsat
TOL = '1e-6'
def small(c, q):
    n = c.norm(q)
    c.require(n.is_zero() or holds(c, q, lambda r: r <= z3.RealVal(TOL)), 'an amplitude passed over is zero (at most 1e-6)')

def run(led, tier='quick'):
    load_repo()
    um = loader.load('blueqat.utils')
    um.Counter = shadows.mk(collections.Counter, counter)
    if hasattr(um, 'collections'): um.collections = shadows.Shadow(collections, dict(Counter=um.Counter))
    def strs():
        c = cur(); s = BitStr('bits')
        r = um.to_inttuple(s)
        if not isinstance(r, MapBits): raise Unsupported('the tuple is made in another way')
        c.require(r.good(s), 'one int for each bit, in order, in a tuple', repr(r))
    run_explore(led, 'to_inttuple(str)', strs)
    for ty in (dict, collections.Counter, collections.OrderedDict):
        def tables():
            c = cur(); t = In(ty)
            r = um.to_inttuple(t)
            if not isinstance(r, Table): raise Unsupported('the table is made in another way')
            if not isinstance(r.r[0], MapBits): raise Unsupported('keys made in another way')
            c.require(r.r[0].good(t.k), 'every key becomes its tuple of bits', repr(r.r[0]))
            c.require(r.r[1] is t.v, 'every value is kept')
            c.require(r.ty is collections.Counter if ty is collections.Counter else True, 'a Counter gives a Counter')
        run_explore(led, 'to_inttuple(%s)' % ty.__name__, tables)
    def bad():
        c = cur()
        x = [5, None, ['01'], ('0',), 3.5, b'01', '0a', {'0x': 1}, '\u0661x'][c.choose(9, 'argument')]
        try: um.to_inttuple(x)
        except (ValueError, TypeError): c.require(True, 'anything else is refused'); return
        c.require(False, 'anything else is refused', repr(x))
    run_explore(led, 'to_inttuple(other)', bad)
    old = SymArr.__dict__.get('vx_loop')
    SymArr.vx_loop = lambda self, ident, lv, rb: PhaseLoop(self, ident, rb)
    def phase():
        c = cur()
        n, dom = register()
        psi = atoms('psi')
        v = SymArr(dom, psi)
        r = um.ignore_global_phase(v)
        c.require(r is v, 'the vector itself is returned')
        x = dom.generic()
        if not c.extra.get('stopped'):
            if c.extra.get('stopped') is None: raise Unsupported('no loop over the vector')
            c.prove_zero(v.f(x) - psi(x), 'a vector of zeros is kept'); return
        i, q = c.extra['at']
        if c.norm(q).is_zero(): c.require(False, 'the amplitude the loop stops at is not zero'); return
        c.require(holds(c, q, lambda r: r > 0), 'the amplitude the loop stops at is not zero')
        a = abs(q)
        c.prove_zero(v.f(i) - a, 'the first non-zero amplitude becomes its modulus')
        f = v.f(i) / q
        c.prove_zero(f * f.conjugate() - 1, 'the factor has modulus one')
        c.prove_zero(v.f(x) * q - psi(x) * v.f(i), 'every amplitude is multiplied by the same factor')
    run_explore(led, 'ignore_global_phase', phase)
    def lemma():
        """vectors equal up to a phase become equal"""
        c = cur()
        q, p = alg.csym('q'), alg.csym('p'); th = alg.rsym('theta')
        f = lambda a, b: b * (alg.aabs(a) / a)
        w = alg.exp_i(th)
        c.prove_zero(f(q, p) - f(w * q, w * p), 'the result does not depend on the phase of the vector')
    run_explore(led, 'lemma: equal up to phase', lemma)
    if old is None: del SymArr.vx_loop
    led.functions['blueqat.utils.to_inttuple'] = 'bit strings and tables of any size'
    led.functions['blueqat.utils.ignore_global_phase'] = 'any vector of 2**n entries, n <= 31'
    led.need = 15
ASSUMPTIONS = ['int() of the characters 0 and 1 is 0 and 1; comprehensions and tuple() keep order.',
               'A modulus of at most 1e-7 (the code\'s tolerance; anything up to 1e-6 is admitted) counts as zero.']
