"""What Pauli operators, terms and expressions mean, for contracts over blueqat.pauli."""
from contracts.common import *
from engine import sums, pool
from engine.sums import Op, Run, Tot, Base, STuple, SList, SSeq, GVec, SumLoop
from engine.opaque import Seg, GTuple, GList, GSeq, raw, either, Opaque, has_run
import collections, itertools, functools

P = None
def load_pauli():
    global P
    loader.fresh()
    old = dict(shadows.EXTRA_MODULES)
    shadows.EXTRA_MODULES['collections'] = shadows.Shadow(collections, dict(defaultdict=s_defaultdict))
    shadows.EXTRA_MODULES['itertools'] = shadows.Shadow(itertools, dict(product=s_product, combinations=s_combinations, chain=s_chain))
    try: bq = loader.load('blueqat'); P = loader.load('blueqat.pauli')
    finally:
        shadows.EXTRA_MODULES.clear(); shadows.EXTRA_MODULES.update(old)
    return P

def s_defaultdict(f=None, *a, **k):
    c = core.CUR
    h = c.extra.get('defaultdict_hook') if c is not None else None
    if h is not None and not a and not k: 
        r = h(f)
        if r is not None: return r
    return collections.defaultdict(real(f), *a, **k)
def real(f): return getattr(f, 'vx_real', f)
def s_product(*its, **k):
    ps = [i.vx_iter() if hasattr(i, 'vx_iter') else i for i in its]
    if not any(isinstance(p, SSeq) for p in ps): return itertools.product(*its, **k)
    if k: raise Unsupported('product with repeat')
    out = [()]; 
    for p in ps:
        ch = p.parts if isinstance(p, SSeq) else list(p)
        out = [o + (x,) for o in out for x in ch]
    return SSeq([pairs(o) for o in out])
def pairs(o):
    if not any(isinstance(x, Run) for x in o): return o
    def mk(tag):
        vals, binds = [], []
        for i, x in enumerate(o):
            if isinstance(x, Run):
                e, b = x.base.mk('%s.%d' % (tag, i))
                for kind, f, star in x.fns:
                    if kind == 'if': raise Unsupported('product of a selection')
                    e = f(*e) if star else f(e)
                vals.append(e); binds += b
            else: vals.append(x)
        return tuple(vals), binds
    return Run(Base('product', mk), den)
def s_combinations(it, n):
    if hasattr(it, 'vx_combinations'): return it.vx_combinations(n)
    shadows.norun(it)
    return itertools.combinations(it, n)
def s_chain(*its):
    ps = [i.vx_iter() if hasattr(i, 'vx_iter') else i for i in its]
    if not any(isinstance(p, SSeq) for p in ps): return itertools.chain(*its)
    return SSeq([x for p in ps for x in (p.parts if isinstance(p, SSeq) else list(p))])

# ---------------------------------------------------------------- operators
def nrep(n):
    """a name for a qubit number, the same one for numbers the path makes equal"""
    if not isinstance(n, SInt): return str(int(n))
    c = cur(); tab = c.extra.setdefault('nreps', [])
    for e in tab:
        if e.eq(n.e) or c.implied(e == n.e): return str(e)
    tab.append(n.e); c.extra.setdefault('nexpr', {})[str(n.e)] = n.e
    return str(n.e)
def letter(op):
    return ('P', type(op).__name__[-1], nrep(op.n))
class WordSeg(Seg):
    """a run of Pauli operators with the given product"""
    def __init__(self, name, op, canon=False):
        Seg.__init__(self, name)
        object.__setattr__(self, 'den', op); object.__setattr__(self, 'canon', canon)
class WTuple(GTuple):
    vx_static = True
    vx_of = None
    def slen(self): return wlen(self)
    def __add__(self, o): return WTuple(raw(self) + raw(o))
    def __radd__(self, o): return WTuple(raw(o) + raw(self))
    def vx_seq(self, ty):
        if ty is tuple: return self
        raise Unsupported('a list of operators')
    def __mul__(self, n):
        if isinstance(n, SInt):
            d = den_ops(self)
            return WTuple([WordSeg('power', powop(d, n))])
        if isinstance(n, int): return WTuple(raw(self) * n)
        return NotImplemented
    __rmul__ = __mul__
    def __eq__(self, o):
        if not isinstance(o, tuple): return False
        return sem.same_key(self, o)
    def __ne__(self, o): return not self.__eq__(o)
    def __hash__(self): raise Unsupported('hash of operators')
def wlen(t): raise Unsupported('number of operators')
def expo(n):
    cur().extra.setdefault('exps', {})[str(n.e)] = n.e
    return str(n.e)
def powop(d, n):
    cur().extra.setdefault('powbase', {})[repr(d)] = d
    return Op.letter(('pow', repr(d), expo(n)))
def den_ops(ops):
    d = Op.of(1)
    for x in raw(ops):
        if isinstance(x, WordSeg): d = d * x.den
        elif isinstance(x, P._PauliImpl): d = d * den(x)
        else: raise Unsupported('operators: %r' % (x,))
    return d
def den(x):
    if isinstance(x, (int, float, complex, Alg)): return Op.of(x)
    if isinstance(x, P.Term): return Op.of(x.coeff) * den_ops(x.ops)
    if isinstance(x, P.Expr): return den_terms(x.terms)
    if isinstance(x, P._PauliImpl): return Op.of(1) if x.is_identity else Op.letter(letter(x))
    raise Unsupported('meaning of %r' % type(x))
def den_terms(t):
    d = Op()
    for y in (t.parts if isinstance(t, SSeq) else raw(t)): d = d + (y.total() if sums.has(y) else den(y))
    return d

# ---------------------------------------------------------------- equations between operators
def apply_eqs(op):
    eqs = dict(cur().extra.get('eqs', []))
    if not eqs: return op
    for _ in range(20):
        out = Op(); hit = False
        for w, co in op.t.items():
            p = Op.of(co)
            for l in w:
                if l in eqs: p = p * eqs[l]; hit = True
                else: p = p * Op.letter(l)
            out = out + p
        op = out
        if not hit: return op
    raise Unsupported('equations between operators')
def record_eq(a, b):
    """the path makes two operators equal: one letter becomes what the equation says"""
    c = cur()
    d = apply_eqs(Op.of(a) - Op.of(b)).norm(c.facts0)
    if d.zero(): return
    best = None
    for w, co in d.t.items():
        if len(w) != 1 or w[0][0] in ('P', 'D', 'pow') or any(w[0] in v for v in d.t if v != w): continue
        co = c.norm(co)
        if co.is_const(): best = (w, co); break
        if len(co.t) == 1 and all(em == () and all(k < 0 or c.sym_nonzero(s) for s, k in pm) for pm, em, r in co.t) and best is None: best = (w, co)
    if best is None:
        if len(d.t) == 1 and () in d.t and c.norm(d.t[()]).is_const(): raise Infeasible()
        c.extra['equalkeys'] = True; return
    w, co = best
    rest = Op({v: x for v, x in d.t.items() if v != w})
    c.extra.setdefault('eqs', []).append((w[0], Op.of(-co.inv()) * rest))
def eq_terms(x, y):
    """tuples of terms, at least one with a run"""
    def ident(ps): return repr([(p.base.name, [k for k, _, _ in p.fns]) if isinstance(p, Run) else ('tot', repr(p.total())) if isinstance(p, Tot) else (sem.key_id(p.ops), Alg.of(p.coeff).key()) for p in ps])
    i, j = ident(x), ident(y)
    if i == j and not any(isinstance(p, Run) and p.fns or isinstance(p, Tot) for p in x + y): return True
    r = either(('terms',) + tuple(sorted([i, j])), 'two tuples of terms are equal')
    if r: record_eq(den_terms(STuple(x)), den_terms(STuple(y)))
    return r
sums.EQ_HOOK[0] = eq_terms

class Sem:
    """keys of tables are tuples of operators"""
    def den(self, x): return den(x)
    def den_key(self, k): return den_ops(k)
    def key_id(self, k): return repr([(x.vx_name, opkey(x.den)) if isinstance(x, WordSeg) else (type(x).__name__, nrep(x.n) if not x.is_identity else '') for x in raw(k)])
    def same_key(self, a, b):
        if a is b: return True
        x, y = raw(a), raw(b)
        if len(x) == len(y) and all(p is q for p, q in zip(x, y)): return True
        if not any(isinstance(p, WordSeg) for p in x + y):
            if len(x) != len(y): return False
            for p, q in zip(x, y):
                if type(p) is not type(q): return False
                if not p.is_identity and not (p.n == q.n): return False
            return True
        if len(x) == len(y) == 1 and x[0].__class__ is y[0].__class__ is WordSeg and x[0].den.t.keys() == y[0].den.t.keys() and (x[0].den - y[0].den).zero(): return True
        r = either(('samekey',) + tuple(sorted([self.key_id(a), self.key_id(b)])), 'two keys are equal')
        if r: record_eq(den_ops(a), den_ops(b))
        return r
    def canon(self, k):
        items = raw(k)
        if len(items) == 0: return True
        if len(items) == 1: return items[0].canon if isinstance(items[0], WordSeg) else not items[0].is_identity
        return False
    def generic_key(self, l, canon): return WTuple([WordSeg('key', Op.letter(l), canon)])
sem = Sem()

# ---------------------------------------------------------------- generic values
def number(name='z'): return alg.csym(name)
def qubit_no(name):
    n = ivar(name); c = cur()
    c.assume(n.e >= 0); return n
def pauli(name):
    """any single operator"""
    c = cur()
    k = c.choose(4, name)
    if k == 3: return P.I
    return [P._X, P._Y, P._Z][k](qubit_no('n_' + name))
def term(name, zero=False):
    return P.Term(WTuple([WordSeg('ops of ' + name, Op.letter(('w', name)))]), alg.csym(name + '.c'))
def terms_base(name):
    S = Op.letter(('S', name))
    def mk(tag):
        c = alg.csym('%s.c[%s]' % (name, tag)); l = ('w', name, tag)
        t = P.Term(WTuple([WordSeg('ops of a term of ' + name, Op.letter(l))]), c)
        (sid,) = c.syms()
        return t, [(sid, l, S)]
    return Base(name, mk)
def expr(name):
    """an expression with any number of any terms"""
    return P.Expr(STuple([Run(terms_base(name), den)]))
def operand(kind, name):
    return {'Pauli': pauli, 'Term': term, 'Expr': expr, 'number': number}[kind](name)

def canonical_word(w):
    """operators on different qubits commute: letters on known different qubits are sorted"""
    c = cur(); ex = c.extra.get('nexpr', {})
    def differ(a, b):
        if a == b: return False
        ea = ex.get(a, None); eb = ex.get(b, None)
        ea = z3.IntVal(int(a)) if ea is None else ea; eb = z3.IntVal(int(b)) if eb is None else eb
        return c.implied(ea != eb)
    def rep(l):
        if l[0] != 'P' or l[2] not in ex: return l
        for a in sorted(ex):
            if a == l[2]: return l
            if c.implied(ex[a] == ex[l[2]]): return ('P', l[1], a)
        return l
    w = list(sums.reduce_word(tuple(rep(l) for l in w)))
    for i in range(len(w)):
        for j in range(len(w) - 1):
            a, b = w[j], w[j + 1]
            if a[0] == b[0] == 'P' and a[2] > b[2] and differ(a[2], b[2]): w[j], w[j + 1] = b, a
    w = list(sums.reduce_word(tuple(w)))
    # powers
    exps = c.extra.get('exps', {})
    out = []
    for l in w:
        base, e = (l[1], exps[l[2]]) if l[0] == 'pow' else (repr(Op.letter(l)), z3.IntVal(1))
        if out and out[-1][0] == base and ('pow' in (l[0], out[-1][2][0]) or l[0] == 'S'): out[-1] = (base, z3.simplify(out[-1][1] + e), ('pow', base, ''))
        else: out.append((base, e, l))
    res = []
    for base, e, l in out:
        if l[0] != 'pow': res.append(l); continue
        if c.implied(e == 0): continue
        b = c.extra.get('powbase', {}).get(base)
        if b is not None and c.implied(e == 1) and len(b.t) == 1 and (list(b.t.values())[0] - 1).is_zero():
            res += list(list(b.t)[0]); continue
        s = SInt(z3.simplify(e)); nm = None
        for key, x in list(exps.items()):
            if c.implied(x == s.e): nm = min(nm, key) if nm else key
        exps[nm or str(s.e)] = s.e if nm is None else exps[nm]
        res.append(('pow', base, nm or str(s.e)))
    return tuple(res)
def prove_op(a, b, name):
    c = cur()
    d = apply_eqs(Op.of(a) - Op.of(b))
    out = {}
    for w, co in d.t.items():
        w = canonical_word(w); out[w] = out.get(w, Alg.of(0)) + co
    bad = {w: c.norm(x) for w, x in out.items()}
    bad = {w: x for w, x in bad.items() if not x.is_zero()}
    if not bad: c.require(True, name); return True
    if any(l[0] == 'D' for w in bad for l in w) or c.extra.get('equalkeys'):
        c._ob(name, 'unknown', 'op', 'does not follow; difference ' + repr(Op(bad))[:400], None, 0.0); return False
    ok = True
    for w, x in bad.items(): ok = c.prove_zero(x, name, 'operator ' + '.'.join(map(str, w))) and ok
    return ok

def hooks(c):
    c.extra['dict_hook'] = lambda: GVec(sem)
    c.extra['defaultdict_hook'] = lambda f: GVec(sem, (lambda: 0.0) if real(f) in (float, int, complex) else None) if real(f) in (float, int, complex) else None
    c.extra['list_hook'] = SList
# contract of Term.join_ops, used by its callers
def join_contract(orig):
    def join_ops(a, b):
        if has_run2(a) or has_run2(b): return WTuple([WordSeg('joined', den_ops(a) * den_ops(b))])
        return orig(a, b)
    return join_ops
def has_run2(t): return isinstance(t, tuple) and any(isinstance(x, WordSeg) for x in raw(t))
# contract of Term.simplify
def term_simplify_contract(orig):
    def simplify(self):
        if not has_run2(self.ops) and not any(isinstance(getattr(x, 'n', None), SInt) for x in raw(self.ops)): return orig(self)
        c = cur(); d = apply_eqs(den_ops(self.ops)).norm(c.facts0)
        if len(d.t) != 1: raise Unsupported('simplify: ' + repr(d))
        (w, sc), = d.t.items()
        # the product is sc * w, and w is a phase times its canonical form
        single = len(w) <= 1 and all(l[0] == 'P' for l in w)
        ph = Alg.of(1) if single else alg.csym('phase(%r)' % (w,))
        if not single: c.known['z', ph.key()] = False
        ops = WTuple([WordSeg('simplified', Op({w: ph.inv()}), True)]) if w else ()
        return P.Term(ops, Alg.of(self.coeff) * sc * ph)
    return simplify
# contract of Expr.simplify: the canonical form of what the expression means
def opkey(d): return repr(sorted((repr(w), a.key()) for w, a in d.t.items()))
def canon_base(D):
    key = opkey(D)
    def mk(tag):
        co = alg.csym('canon[%s].c[%s]' % (key, tag)); l = ('k', key, tag)
        t = P.Term(WTuple([WordSeg('key', Op.letter(l), True)]), co)
        (sid,) = co.syms()
        return t, [(sid, l, D)]
    b = Base('canonical terms of ' + key, mk); b.D = D
    return b
def expr_simplify_contract(orig):
    def simplify(self):
        D = apply_eqs(den_terms(self.terms)).norm(cur().facts0)
        return P.Expr(STuple([Run(canon_base(D), den)]) if D.t else ())
    return simplify
def coeffs_contract(orig):
    def coeffs(self): return SSeq(raw(self.terms)).vx_comp('gen', lambda t: t.coeff, None, False)
    return coeffs
def patch(cls, name, make, static=False):
    orig = cls.__dict__.get(name)
    if orig is None: return
    f = make(orig.__func__ if isinstance(orig, staticmethod) else orig)
    setattr(cls, name, staticmethod(f) if static else f)
