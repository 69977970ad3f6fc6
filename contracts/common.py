import sys, os, importlib, types, functools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from engine import alg, core, seqs, arrays, loader, shadows
from engine.alg import Alg, Unsupported
from engine.core import SInt, SBool, Ledger, Explorer, Infeasible, cur, BVW, bvar, ivar
from engine.seqs import SymSeq, FoldSeg
from engine.arrays import Dom, SymArr, BoolVec, IdxVec, SelVec, atoms, bv
from contracts import gatespec as gs

class Targets:
    """an opaque, arbitrary target specification of a gate; what it denotes is what the
    contract of target resolution (property C04) says it denotes"""
    vx_static = True
    def __init__(self, seq, kind): self.seq = seq; self.kind = kind
    def __repr__(self): return 'Targets(%s)' % self.seq.name
    def __copy__(self): return self
    def __deepcopy__(self, m): return self

def load_repo():
    """the modules of the code under verification, freshly loaded, with the callee
    contracts of target resolution available for opaque targets"""
    loader.fresh()
    bq = loader.load('blueqat')
    gate = loader.load('blueqat.gate')
    stub(gate, 'slicing', slicing_contract)
    stub(gate, 'qubit_pairs', pairs_contract)
    return bq

def stub(mod, name, make):
    orig = getattr(mod, name, None)
    if orig is None: return
    new = make(orig)
    new.vx_orig = orig
    for m in list(sys.modules.values()):
        if m is not None and getattr(m, '__name__', '').split('.')[0] == 'blueqat':
            for k, v in list(vars(m).items()):
                if v is orig: setattr(m, k, new)

def slicing_contract(orig):
    def slicing(args, length):
        if isinstance(args, Targets):
            if args.kind != 1: raise Unsupported('pair targets resolved as a single list')
            return args.seq
        if isinstance(args, SInt):
            # a single valid non-negative index denotes itself
            c = cur()
            if c.implied(z3.And(args.e >= 0, args.e < SInt(args.e).lift(length))): return iter([args])
            raise Unsupported('single target not known to be in range')
        if isinstance(args, tuple) and any(isinstance(a, SInt) for a in args):
            return iter([x for a in args for x in slicing(a, length)])
        return orig(args, length)
    return slicing
def pairs_contract(orig):
    def qubit_pairs(args, length):
        if isinstance(args, Targets):
            if args.kind != 2: raise Unsupported('single targets resolved as pairs')
            return args.seq
        if isinstance(args, tuple) and len(args) == 2 and all(isinstance(a, (SInt, int)) for a in args) and any(isinstance(a, SInt) for a in args):
            c, t = args
            if isinstance(c, SInt) and not isinstance(t, SInt): t = SInt(c.lift(t))
            if isinstance(t, SInt) and not isinstance(c, SInt): c = SInt(t.lift(c))
            for x in (c, t):
                if not cur().implied(z3.And(x.e >= 0, x.e < x.lift(length))): raise Unsupported('pair not known to be in range')
            if c == t: raise ValueError('Control qubit and target qubit are must be different.')
            return iter([(c, t)])
        return orig(args, length)
    return qubit_pairs

NMAX = 31
def register():
    """a register of n qubits, 0 <= n <= 31"""
    c = cur()
    n = bvar('n')
    c.assume(z3.And(n.e >= 0, n.e <= NMAX))
    c.extra['qubits'] = []
    c.extra['prefer'] = [n.e <= 5]
    return n, Dom(n.e)
def qubit(n, name):
    c = cur()
    q = bvar(c.fresh(name)) if False else bvar(name)
    c.assume(z3.And(q.e >= 0, q.e < n.e))
    if not any(q.e.eq(x) for x in c.extra['qubits']): c.extra['qubits'].append(q.e)
    return q
def single_seq(n, name='T'):
    def el(tag): return qubit(n, '%s.%s' % (name, tag))
    return SymSeq(name, el)
def pair_seq(n, name='P'):
    def el(tag):
        a = qubit(n, '%s.%s.c' % (name, tag)); b = qubit(n, '%s.%s.t' % (name, tag))
        cur().assume(a.e != b.e)
        return (a, b)
    return SymSeq(name, el)

def apply_content(m, qs, F):
    """content function of the state after matrix m acts on the qubits qs (z3 terms)"""
    k = len(qs)
    def f(x):
        c = cur()
        row = 0
        for q in qs:
            b = c.decide((z3.LShR(x, q) & bv(1)) == bv(1))
            row = row * 2 + (1 if b else 0)
        tot = Alg.of(0)
        for col in range(2 ** k):
            if not m[row][col].t: continue
            y = x
            for p, q in enumerate(qs):
                rb = (row >> (k - 1 - p)) & 1; cb = (col >> (k - 1 - p)) & 1
                if rb < cb: y = y + (bv(1) << q)
                elif rb > cb: y = y - (bv(1) << q)
            tot = tot + m[row][col] * F(z3.simplify(y))
        return tot
    return f

class GateLoop:
    """loop law: one iteration applies matrix m to the element's qubits"""
    def __init__(self, m, dom, start, state0=None):
        self.m = m; self.dom = dom; self.start = start
    def enter(self, lp, loc): pass
    def is_state(self, lp, arr):
        return arr.f is self.start or arrays.same_content(arr.f, self.start, self.dom)
    def step(self, F, item, lp):
        qs = [q.e for q in (item if isinstance(item, tuple) else (item,))]
        return apply_content(self.m, qs, F)

def shape(v):
    if isinstance(v, dict): return tuple((id(k), id(x)) for k, x in list(v.items()))
    if isinstance(v, (list, tuple)): return tuple(map(id, v))
    if isinstance(v, (set, frozenset)): return frozenset(map(id, v))
    if isinstance(v, functools._lru_cache_wrapper): return v.cache_info().currsize
def ours(v):
    """put there by a contract"""
    f = getattr(v, '__func__', v) if isinstance(v, (classmethod, staticmethod, types.MethodType)) else v
    m = f.__module__ if isinstance(f, (type, types.FunctionType)) else type(f).__module__
    return (m or '').split('.')[0] in ('contracts', 'engine', 'types')
def world():
    """what the modules and classes under verification keep between calls: names, containers and
    their contents, attributes of classes and functions, mutable defaults"""
    out = {}
    def put(k, v, fns=True):
        out[k] = (id(v), shape(v), ours(v))
        f = v.__func__ if isinstance(v, (classmethod, staticmethod)) else v
        if isinstance(f, types.FunctionType) and not ours(v):
            if f.__dict__: out[k + ('attributes',)] = shape(f.__dict__)
            for i, d in enumerate((f.__defaults__ or ()) + tuple((f.__kwdefaults__ or {}).values())):
                if isinstance(d, (dict, list, set)): out[k + ('default %d' % i,)] = shape(d)
            for i, cell in enumerate(f.__closure__ or ()):
                try: d = cell.cell_contents
                except ValueError: continue
                if isinstance(d, (dict, list, set)): out[k + ('closure %d' % i,)] = shape(d)
    for mn, m in list(sys.modules.items()):
        if mn.split('.')[0] != 'blueqat' or m is None: continue
        for k, v in list(vars(m).items()):
            if k.startswith('__'): continue
            put((mn, k), v)
            if isinstance(v, type) and v.__module__ == mn:
                for a, b in list(vars(v).items()):
                    if a not in ('__dict__', '__weakref__', '__doc__', '__abstractmethods__', '_abc_impl', '__slotnames__'): put((mn, k, a), b)
            elif type(v).__module__ == mn and hasattr(v, '__dict__'): out[mn, k, 'instance'] = shape(vars(v))
    return out
class Kept:
    """what an object holds, to see that a call keeps nothing in it for later calls"""
    def __init__(self, *objs): self.objs = objs; self.was = [self.look(o) for o in objs]
    @staticmethod
    def look(o): return {k: (v, dict(v) if type(v) is dict else list(v) if type(v) in (list, set) else None) for k, v in vars(o).items()}
    def check(self):
        for o, a in zip(self.objs, self.was):
            b = self.look(o)
            bad = [k for k in set(a) | set(b) if k not in a or k not in b or a[k][0] is not b[k][0] or not self.like(a[k][1], b[k][1])]
            if bad: raise Unsupported('%s: what the call keeps in %s is judged by the cross-check' % (type(o).__name__, ', '.join(sorted(bad))))
    @staticmethod
    def like(p, q):
        if type(p) is not type(q): return False
        if isinstance(p, dict): return list(p) == list(q) and all(p[k] is q[k] for k in p)
        if isinstance(p, list): return len(p) == len(q) and all(x is y for x, y in zip(p, q))
        return True
def run_explore(led, name, fn, writes=(), **kw):
    """explore; anything outside the verifier's reach becomes an open obligation.  What is kept between
    calls is left alone (but for what `writes` names), so that the contract holds after any history"""
    w0 = world()
    if not explore_(led, name, fn, **kw): return False
    w1 = world()
    seen = {k[0] for k in w0}
    def mine(k): return any(x is not None and len(x) == 3 and x[2] is True for x in (w0.get(k), w1.get(k)))
    diff = sorted({'.'.join(map(str, k)) for k in set(w0) | set(w1) if w0.get(k) != w1.get(k) and k[0] in seen and not mine(k) and '.'.join(k[:2]) not in sys.modules} - set(writes))
    diff = [d for d in diff if not any(d.startswith(w + '.') for w in writes)]
    if os.environ.get('VX_WORLD') and diff: print('WORLD', name, diff)
    n = name + ': frame: nothing kept by modules or classes is written'
    if diff: led.add(n, 'unknown', 'engine', detail='writes ' + ', '.join(diff)[:300])
    else: led.add(n, 'proved', 'engine')
    return True
def explore_(led, name, fn, **kw):
    ex = Explorer(led, name, **kw)
    try:
        ex.explore(fn)
    except Unsupported as e:
        led.add(name + ': all paths', 'unknown', 'engine', detail='Unsupported: %s' % e, path=' ; '.join(map(core.told, getattr(ex, 'desc', [])))[:600])
        return False
    except RecursionError as e:
        led.add(name + ': all paths', 'unknown', 'engine', detail='recursion')
        return False
    except (TypeError, AttributeError, NotImplementedError, z3.Z3Exception, ValueError, IndexError, KeyError, AssertionError, ZeroDivisionError, OverflowError) as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = '; '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[-3:])
        led.add(name + ': all paths', 'unknown', 'engine', detail='%s: %s (%s)' % (type(e).__name__, e, where), path=' ; '.join(map(core.told, ex.desc))[:600])
        return False
    return True
