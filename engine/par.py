"""The rule for parallel loops (numba's prange).

The body runs once with a generic iteration i on arrays of arbitrary content.  Each cell
it touches is an address expression a(i).  With `inv`, a function of addresses found from
the qubits in them (remove those bits), the rule shows inv(a(i)) == i for every address:
then no two iterations touch one cell, so their order does not matter, and the content
after the loop at x is what iteration inv(x) leaves there if that iteration writes x, and
the old content otherwise.  A number added to in every iteration is a reduction."""
import z3
from . import alg, core, arrays, seqs
from .alg import Alg, Unsupported
from .core import SInt, SBool, cur, BVW
from .arrays import SymArr, bv, BoolVec

class ParRange:
    vx_static = True
    def __init__(self, n): self.n = n
    def __iter__(self): raise Unsupported('a parallel range outside a loop')
    def vx_loop(self, ident, loopvars, rebound): return ParLoop(self.n, ident, rebound)
def prange(*a):
    if len(a) != 1: raise Unsupported('prange with a start or step')
    if not isinstance(a[0], SInt): return range(a[0])
    return ParRange(a[0])

def compress(x, qs):
    """x without the bits at the positions qs"""
    rem = list(qs)
    while rem:
        q, rem = rem[0], rem[1:]
        low = (bv(1) << q) - bv(1)
        x = (x & low) | (z3.LShR(x, bv(1)) & ~low)
        rem = [z3.If(z3.UGT(r, q), r - bv(1), r) for r in rem]
    return x

class ParLoop:
    rebind = True
    def __init__(self, n, ident, rebound): self.n = n; self.ident = ident; self.rebound = rebound; self.env = {}; self.state = 0
    def head(self, loc):
        c = cur()
        if self.state == 0:
            self.state = 1
            if c.extra.get('par') is not None: raise Unsupported('nested parallel loops')
            i = core.bvar(c.fresh('i')); c.assume(z3.ULT(i.e, self.n.e))
            self.i = self.item = i
            self.arrs = {}; self.scal = {}
            for nm in self.rebound:
                if nm not in loc: continue
                v = loc[nm]
                if isinstance(v, (int, float, complex, Alg)) and not isinstance(v, bool):
                    s = alg.rsym(c.fresh('acc.' + nm)); self.scal[nm] = (v, s); self.env[nm] = s
                else: self.env[nm] = seqs.Poison(nm)
            self.heap0 = heap(loc, self.rebound)
            self.npc = len(c.pc); self.nf = (len(c.facts0), len(c.extra.get('signs', [])), len(c.known))
            c.extra['par'] = self
            return True
        c.extra['par'] = None
        if heap(loc, self.rebound) != self.heap0: raise Unsupported('a parallel loop changes something other than arrays and reductions')
        if (len(c.facts0), len(c.extra.get('signs', [])), len(c.known)) != self.nf: raise Unsupported('iterations take different paths')
        added = c.pc[self.npc:]
        if added:
            s = z3.Solver(); s.set('timeout', 20000)
            for b in c.base + c.pc[:self.npc]: s.add(b)
            if s.check(z3.Not(z3.And(added))) != z3.unsat: raise Unsupported('iterations take different paths')
        self.finish(loc)
        return False
    # -- cell accesses, called by SymArr
    def touch(self, arr, e, write):
        t = self.arrs.get(id(arr))
        if t is None:
            nm = cur().fresh('par')
            t = self.arrs[id(arr)] = {'arr': arr, 'old': arr.f, 'nm': nm, 'addr': [], 'version': arr.version}
            arr.f = arrays.atoms(nm)
        for a in t['addr']:
            if cur().implied(a[0] == e):
                a[1] = a[1] or write; break
        else: t['addr'].append([e, write])
        if write: t['version'] += 1
    def finish(self, loc):
        c = cur(); i = self.i.e; N = self.n.e
        self.env = {}
        for t in self.arrs.values():
            arr, old = t['arr'], t['old']
            if arr.version != t['version']: raise Unsupported('an array is changed as a whole in a parallel loop')
            reads = [(idx, s) for idx, s in c.extra.get('atoms', {}).get(t['nm'], [])]
            wr = [a for a, w in t['addr'] if w]
            qs = []
            for a, _ in t['addr']:
                names = {x.get_id() for x in seqs.consts(a)}
                for q in c.extra.get('qubits', []):
                    if q.get_id() in names and not any(q.eq(p) for p in qs): qs.append(q)
            inv = lambda x, qs=tuple(qs): compress(x, qs)
            t['inv'] = inv; t['reads'] = reads
            if wr:
                for a, _ in t['addr']: self.injective(a, inv, t)
                vals = [(a, arr.f(a)) for a in wr]
                for _, v in vals:
                    if any(str(i) in alg.TABLE[s].name for s in v.syms()): raise Unsupported('a value depends on the iteration number')
                arr.set(self.content(old, vals, reads, inv))
            else: arr.f = old
        for nm, (v0, s) in self.scal.items():
            v = loc.get(nm)
            if v is s: self.env[nm] = v0; continue
            if not isinstance(v, Alg): self.env[nm] = seqs.Poison(nm); continue
            d = v - s
            (sid,) = s.syms()
            if sid in d.syms(): self.env[nm] = seqs.Poison(nm); continue
            self.env[nm] = Alg.of(v0) + self.reduction(d)
        for nm in self.rebound:
            if nm not in self.scal: self.env[nm] = seqs.Poison(nm)
    def injective(self, a, inv, t):
        c = cur(); i = self.i.e
        what = 'parallel iterations of %s touch different amplitudes' % self.ident.split(':')[0]
        if c.check(inv(a) != i) == z3.unsat: c._ob(what, 'proved', 'z3', '', None, 0.0); return
        j = z3.BitVec(c.fresh('j'), BVW)
        for b, wb in t['addr']:
            for b2, w2 in t['addr']:
                if not (wb or w2): continue
                e2 = z3.substitute(b2, (i, j))
                conds = (z3.ULT(j, self.n.e), j != i, b == e2)
                if c.check(*conds) == z3.sat:
                    c._ob(what, 'refuted', 'z3', 'two iterations touch one amplitude', c.model_with(z3.And(*conds)), 0.0)
                    raise core.Infeasible()
        raise Unsupported('no inverse known for the addresses of a parallel loop')
    def content(self, old, vals, reads, inv):
        i, N = self.i.e, self.n.e
        def f(x):
            c = cur()
            k = z3.simplify(inv(x))
            for a, v in vals:
                if c.decide(z3.And(z3.ULT(k, N), x == z3.substitute(a, (i, k)))):
                    for idx, s in reads:
                        (sid,) = s.syms()
                        val = old(z3.simplify(z3.substitute(idx, (i, k))))
                        v = subst(v, sid, val)
                    return v
            return old(x)
        return f
    def reduction(self, d):
        """sum over i of |array[a(i)]|^2"""
        c = cur(); i, N = self.i.e, self.n.e
        for t in self.arrs.values():
            for idx, s in t['reads']:
                if (d - s * s.conjugate()).is_zero():
                    inv = t['inv']
                    self.injective(idx, inv, dict(t, addr=[[idx, True]]))
                    dom = t['arr'].dom
                    m = BoolVec(dom, lambda x: z3.And(z3.ULT(inv(x), N), x == z3.substitute(idx, (i, inv(x)))))
                    return arrays.sum_register(m, t['old'])
        raise Unsupported('a reduction other than a sum of squared moduli')

def subst(v, sid, val):
    if sid not in v.syms(): cj = alg.TABLE[sid].conj
    v2 = v.subs(sid, val)
    cj = alg.TABLE[sid].conj
    if cj is not None and cj != sid: v2 = v2.subs(cj, val.conjugate())
    return v2
def heap(loc, rebound):
    h = seqs.heap_of({k: v for k, v in loc.items() if k not in rebound})
    return {p: v for p, v in h[1].items() if v[0] != 'arr'}

class UInts(list):
    """an unsigned integer array of known length"""
    def sort(self):
        v = list(self)
        for i in range(1, len(v)):
            j = i
            while j > 0 and bool(v[j - 1] > v[j]): v[j - 1], v[j] = v[j], v[j - 1]; j -= 1
        self[:] = v
    def copy(self): return UInts(self)
    def __getitem__(self, k):
        r = list.__getitem__(self, k)
        return UInts(r) if isinstance(k, slice) else r
    def astype(self, *a): return UInts(self)
    size = property(len); shape = property(lambda s: (len(s),))
