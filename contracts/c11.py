"""C11: the algebra of Pauli operators, terms and expressions."""
from contracts import psem
from contracts.psem import *

KINDS = ['Pauli', 'Term', 'Expr', 'number']
def run(led, tier='quick'):
    Pm = load_pauli()
    T, E = Pm.Term, Pm.Expr
    jobs = []
    orig_join = T.__dict__['join_ops'] if 'join_ops' in T.__dict__ else None
    orig_simp = T.__dict__['simplify']
    patch(T, 'join_ops', join_contract, True)
    patch(T, 'simplify', term_simplify_contract)
    import operator
    def binary(ka, kb, op, f):
        def path():
            c = cur(); hooks(c)
            a, b = operand(ka, 'a'), operand(kb, 'b')
            try: r = f(a, b)
            except TypeError as e:
                if 'unsupported operand' in str(e): c.require(False, 'the operation is defined', str(e)); return
                raise
            A, B = den(a), den(b)
            prove_op(den(r), f(A, B), 'the result means %s of the meanings' % op)
        run_explore(led, '%s %s %s' % (ka, op, kb), path)
    for ka in KINDS:
        for kb in KINDS:
            if ka == kb == 'number': continue
            for op, f in (('+', operator.add), ('-', operator.sub), ('*', operator.mul)): binary(ka, kb, op, f)
    for ka in KINDS[:3]:
        def same(ka=ka):
            c = cur(); hooks(c); a = operand(ka, 'a')
            for op, f in (('+', operator.add), ('-', operator.sub), ('*', operator.mul)):
                prove_op(den(f(a, a)), f(den(a), den(a)), 'a %s a' % op)
        run_explore(led, '%s with itself' % ka, same)
        def neg(ka=ka):
            c = cur(); hooks(c); a = operand(ka, 'a')
            prove_op(den(-a), -den(a), 'negation')
        run_explore(led, '-%s' % ka, neg)
        def div(ka=ka):
            c = cur(); hooks(c); a = operand(ka, 'a'); z = number('z')
            try: r = a / z
            except ZeroDivisionError: c.require(c.norm(z).is_zero(), 'only division by zero is refused'); return
            c.require(not c.norm(z).is_zero(), 'division by zero is refused')
            prove_op(den(r) * Op.of(z), den(a), 'division by a number undoes the multiplication')
        run_explore(led, '%s / number' % ka, div)
        def conv(ka=ka):
            c = cur(); hooks(c); a = operand(ka, 'a')
            e = Pm.to_expr(a)
            c.require(isinstance(e, E), 'to_expr gives an expression')
            prove_op(den(e), den(a), 'to_expr keeps the meaning')
            if ka != 'Expr':
                t = Pm.to_term(a)
                c.require(isinstance(t, T), 'to_term gives a term')
                prove_op(den(t), den(a), 'to_term keeps the meaning')
        run_explore(led, 'to_term, to_expr (%s)' % ka, conv)
    for ka in ('Term', 'Expr'):
        def power(ka=ka):
            c = cur(); hooks(c)
            c.extra['loop_hook'] = pow_loop
            a = operand(ka, 'a'); n = ivar('n')
            try: r = a ** n
            except ValueError:
                c.prove(n.e < 0, 'only negative powers are refused'); return
            c.prove(n.e >= 0, 'negative powers are refused')
            w = den(a)
            if ka == 'Term': want = Op.of(alg.csym('pow(%s,%s)' % (a.coeff.key(), n.e))) * powop(den_ops(a.ops), n)
            else: want = powop(w, n)
            # the power 0 is the identity
            if c.implied(n.e == 0): want = Op.of(1)
            prove_op(den(r), want, 'the n-fold product')
        run_explore(led, '%s ** n' % ka, power)
    for ka in KINDS[:3]:
        def zero(ka=ka):
            c = cur(); hooks(c); a = operand(ka, 'a')
            for z in (0, 0.0, 0j):
                prove_op(den(a * z), Op(), 'times zero'); prove_op(den(z * a), Op(), 'zero times')
                prove_op(den(a + z), den(a), 'plus zero'); prove_op(den(z - a), -den(a), 'zero minus')
        run_explore(led, '%s and zero' % ka, zero)
    def ctors():
        c = cur(); hooks(c)
        z = number('z'); p = pauli('p'); e = expr('a')
        prove_op(den(E.from_number(z)), den(z), 'from_number')
        prove_op(den(E.zero()), Op(), 'zero')
        prove_op(den(T.from_pauli(p, z)), Op.of(z) * den(p), 'from_pauli')
        g = GVec(sem)
        for ops, co in [(k.ops, k.coeff) for k in (term('x'), )]: g[ops] = co
        prove_op(den(E.from_terms_dict(g)), g.D, 'from_terms_dict')
        prove_op(den(E.from_terms_iter(SSeq(raw(e.terms)))), den(e), 'from_terms_iter')
    run_explore(led, 'constructors', ctors)
    def esimp():
        c = cur(); hooks(c)
        a = expr('a')
        r = a.simplify()
        c.require(isinstance(r, E), 'simplify gives an expression')
        prove_op(den(r), den(a), 'simplify keeps the matrix')
        ps = raw(r.terms)
        if len(ps) != 1 or not isinstance(ps[0], Run) or ps[0].base.name not in ('keys', 'items'): raise Unsupported('simplified form is made in another way')
        b = ps[0].base
        c.require(b.sorted, 'terms are in an order which depends only on their operators')
        c.require(b.canon, 'every term is simplified')
        def go():
            v, binds = ps[0].evaluate('t')
            if v is sums.DROP: return
            c.require(getattr(v.ops, 'vx_of', None) is not None and v.ops.vx_of[0] is b.vec, 'one term per tuple of operators')
            z = c.norm(Alg.of(v.coeff)); 
            c.require(c.known.get(('z', z.key())) is False or c.known.get(('z', (-z).key())) is False, 'no zero terms')
        c.cases(go)
    run_explore(led, 'Expr.simplify', esimp)
    # join_ops and Term.simplify themselves
    if orig_join is not None:
        T.join_ops = orig_join
        run_explore(led, 'Term.join_ops', lambda: joins(T))
        patch(T, 'join_ops', join_contract, True)
    T.simplify = orig_simp
    simplify_term(led, T)
    for k in ('_PauliImpl.__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __truediv__ __neg__ to_term to_expr', 'Term.__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __truediv__ __neg__ __pow__ simplify join_ops from_pauli from_paulipair to_expr',
              'Expr.__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __truediv__ __neg__ __pow__ simplify terms_to_dict from_terms_dict from_terms_iter from_number from_term zero'):
        cl, ns = k.split('.')
        for n in ns.split(): led.functions['blueqat.pauli.%s.%s' % (cl, n)] = 'operands with any number of terms and operators'
    led.need = 150

# ---------------------------------------------------------------- powers
class PowLoop:
    """for _ in range(L) with an accumulator E: every passage must multiply E by the same R,
    whatever E is; then E ends as E0 R^L"""
    rebind = True
    def __init__(self, it, ident, rebound): self.it = it; self.ident = ident; self.rebound = rebound; self.env = {}; self.entered = False
    def head(self, loc):
        c = cur()
        if self.entered: return self.end(loc)
        self.entered = True
        self.L = self.it.slen()
        self.acc = [nm for nm in sorted(self.rebound) if isinstance(loc.get(nm), psem.P.Expr)]
        if len(self.acc) != 1: raise Unsupported('loop with accumulators %s' % self.acc)
        nm, = self.acc
        self.E0 = den(loc[nm])
        for r in self.rebound:
            if r != nm: self.env[r] = seqs.Poison(r)
        self.key = ('powloop', self.ident, tuple(c.trace[:c.pos]))
        st = c.store.setdefault(self.key, [])
        if c.pos >= len(c.trace):
            c.trace.append(0); c.deferred.append(c.trace[:c.pos] + [1])
        mode = c.trace[c.pos]; c.pos += 1
        c.desc.append('loop %s %s' % (self.ident, ['body', 'exit'][mode]))
        if mode == 0:
            self.v = psem.P.Expr(STuple([Run(terms_base('acc'), den)]))
            self.env[nm] = self.v; self.item = self.it.elem('k')
            return True
        if not st or any(s is None for s in st): raise Unsupported('the accumulator is not just multiplied')
        side, R = st[0]
        if any(s != side or not (x - R).zero() for s, x in st): raise Unsupported('the accumulator is not multiplied by the same value')
        n = self.L if isinstance(self.L, SInt) else None
        if n is None and self.L == 0: E = self.E0
        else:
            w = powop(R, n)
            E = self.E0 * w if side == 'R' else w * self.E0
        self.env[nm] = psem.P.Expr(STuple([Tot('power', E)]))
        return False
    def end(self, loc):
        c = cur(); nm, = self.acc
        V = ('S', 'acc'); d = den(loc[nm]); st = c.store[self.key]
        R, side = Op(), None
        for w, co in d.t.items():
            if w.count(V) != 1: R = None; break
            if w[0] == V and side in (None, 'R'): side = 'R'; R = R + Op({w[1:]: co})
            elif w[-1] == V and side in (None, 'L'): side = 'L'; R = R + Op({w[:-1]: co})
            else: R = None; break
        st.append(None if R is None else (side, R))
        raise core.Infeasible()
def pow_loop(it, ident, lv, rb):
    if isinstance(it, shadows.SymRange): return PowLoop(it, ident, set(rb))

# ---------------------------------------------------------------- join_ops
class El(Opaque):
    """the operator at position i of a tuple"""
    def __init__(self, src, i): Opaque.__init__(self, 'op of %s' % src.nm); object.__setattr__(self, 'src', src); object.__setattr__(self, 'i', i)
    def __eq__(self, o):
        if not isinstance(o, El): return NotImplemented
        c = cur()
        r = either(('eqop',) + tuple(sorted([(self.src.nm, str(self.i)), (o.src.nm, str(o.i))])), 'operators are equal')
        if r: c.extra.setdefault('eqops', []).append((self, o))
        return r
    def __ne__(self, o): return not self.__eq__(o)
    __hash__ = None
class Word(GTuple):
    """a tuple of operators of any length, or a slice of one"""
    vx_static = True
    def __new__(cls, nm, n, lo, hi):
        s = tuple.__new__(cls, [Seg('ops')]); s.nm, s.n, s.lo, s.hi = nm, n, lo, hi
        return s
    def slen(self): return SInt(z3.simplify(self.hi - self.lo))
    def __bool__(self): return bool(self.slen() > 0)
    def at(self, i, what):
        """index i of Python as a position in [0, len]"""
        c = cur(); L = self.slen()
        if i is None: return None
        e = SInt(L.lift(i)).e
        return e
    def __getitem__(self, i):
        c = cur(); L = self.slen().e
        if isinstance(i, slice):
            if i.step is not None: raise Unsupported('stepped slice')
            def pos(v, d):
                if v is None: return d
                e = SInt(SInt(L).lift(v)).e
                e = z3.If(e < 0, z3.If(e + L < 0, z3.IntVal(0), e + L), z3.If(e > L, L, e))
                return z3.simplify(e)
            a, b = pos(i.start, z3.IntVal(0)), pos(i.stop, L)
            b = z3.If(b < a, a, b)
            return Word(self.nm, self.n, z3.simplify(self.lo + a), z3.simplify(self.lo + b))
        e = SInt(SInt(L).lift(i)).e
        if not c.decide(z3.And(e < L, e >= -L)):
            if c.extra.get('probe'): raise Infeasible()
            raise IndexError('tuple index out of range')
        e = z3.If(e < 0, e + L, e)
        return El(self, z3.simplify(self.lo + e))
    def __add__(self, o):
        if isinstance(o, Word): return Cat([self, o])
        raise Unsupported('adding %r' % type(o))
class Cat(GTuple):
    vx_static = True
    def __new__(cls, ps): s = tuple.__new__(cls, [Seg('ops')]); s.ps = ps; return s
    def __bool__(self): raise Unsupported('looking into the joined operators')
def joins(T):
    c = cur()
    n1, n2 = ivar('n1'), ivar('n2'); c.assume(z3.And(n1.e >= 0, n2.e >= 0))
    a = Word('a', n1.e, z3.IntVal(0), n1.e); b = Word('b', n2.e, z3.IntVal(0), n2.e)
    c.extra['while_hook'] = lambda ident: True
    c.extra['while_head'] = head_inv
    c.extra['while_end'] = end_inv
    # ghost invariant of the loop, over how much has been cancelled: the last q operators of a
    # times the first q of b are the identity.  k counts the iterations.
    r = T.join_ops(a, b)
    if c.extra.get('probe'): raise Infeasible()
    it = c.extra.get('iters')
    if not it: raise Unsupported('join_ops works in another way')
    k = it[-1].k.e
    ps = r.ps if isinstance(r, Cat) else [r] if isinstance(r, Word) else None
    if ps is None or [p.nm for p in ps] not in (['a', 'b'],): raise Unsupported('joined operators')
    p, q = ps
    c.prove(z3.And(p.lo == 0, q.hi == n2.e), 'the front of the left and the back of the right are kept')
    ln = SInt(n1.e - p.hi)
    c.prove(z3.And(n1.e - p.hi == k, q.lo == k), 'what is dropped are the cancelled ends')
    c.prove(z3.And(k >= 0, k <= n1.e, k <= n2.e), 'no more than there is')
def head_inv(lp):
    """iteration k has cancelled k operators from each side"""
    lp.j0 = cur().extra.get('eqops', [])[:]
    cur().assume(lp.k.e >= 0)
    n1, n2 = z3.Int('n1'), z3.Int('n2')
    cur().assume(z3.And(lp.k.e <= n1, lp.k.e <= n2))
def end_inv(lp, loc):
    """a passage which goes on has found a[n1-1-k] == b[k]: then the cancelled part of the left
    a[n1-1-k:], times b[:k+1], is the identity again"""
    c = cur(); k = lp.k.e; n1, n2 = z3.Int('n1'), z3.Int('n2')
    c.prove(z3.And(k + 1 <= n1, k + 1 <= n2), 'a passage stays within both tuples')
    ok = False
    for x, y in c.extra.get('eqops', []):
        if x.src.nm == 'b': x, y = y, x
        if x.src.nm == 'a' and y.src.nm == 'b' and c.implied(z3.And(x.i == n1 - 1 - k, y.i == k)): ok = True
    c.require(ok, 'a passage cancels equal neighbours only')

# ---------------------------------------------------------------- Term.simplify
MAT = None
class OpsTuple(WTuple):
    """the operators of a term, any number of them"""
    def __new__(cls):
        s = tuple.__new__(cls, [WordSeg('operators', Op.letter(('W',)))]); return s
    def vx_loop(self, ident, lv, rb): return OpsLoop(ident, set(rb))
    def vx_comp(self, *a): raise Unsupported('comprehension over the operators')
    def vx_iter(self): return self
class Groups:
    """a table of lists: the operators on each qubit, in order"""
    vx_static = True
    def __init__(self): self.log = []; self.full = False
    def __getitem__(self, n):
        if self.full:
            g = cur().extra.get('group')
            if g is None or not isinstance(n, SInt) or not g.n.e.eq(n.e): raise Unsupported('operators of another qubit')
            return g
        return Appender(self, n)
    def setdefault(self, n, d):
        if self.full or not isinstance(d, list) or raw(d): raise Unsupported('table of operators')
        return Appender(self, n)
    def keys(self): return Keys(self, False, False)
    def items(self): return Keys(self, True, False)
    def vx_sorted(self, kw): return Keys(self, False, False).vx_sorted(kw)
    def vx_loop(self, *a): return Keys(self, False, False).vx_loop(*a)
    def _bad(self, *a, **k): raise Unsupported('the code looks into the table of operators')
    __iter__ = __len__ = __bool__ = __contains__ = values = get = pop = __setitem__ = __delitem__ = vx_comp = _bad
class Appender:
    vx_static = True
    def __init__(self, g, n): self.g, self.n = g, n
    def append(self, ch): self.g.log.append((self.n, ch))
    def __iadd__(self, l): self.g.log += [(self.n, x) for x in l]; return self
    def _bad(self, *a, **k): raise Unsupported('the code looks into the operators of a qubit')
    __iter__ = __len__ = __bool__ = __getitem__ = pop = insert = extend = _bad
class Keys:
    vx_static = True
    def __init__(self, g, pairs, order): self.g, self.pairs, self.order = g, pairs, order
    def vx_sorted(self, kw):
        if kw: raise Unsupported('sorted with a key')
        return Keys(self.g, self.pairs, True)
    def vx_seq(self, ty): return self
    def vx_iter(self): return self
    def __iter__(self): raise Unsupported('iteration over the qubits')
    def vx_loop(self, ident, lv, rb):
        if not self.g.full: raise Unsupported('the table is read while it is made')
        return QubitLoop(self, ident, set(rb))
class OpsLoop:
    """for op in ops: every passage puts this operator at the end of its qubit's list, and
    passes over identities; then the table holds, per qubit, the operators in order"""
    rebind = True
    def __init__(self, ident, rb): self.ident, self.rebound, self.env, self.entered = ident, rb, {}, False
    def head(self, loc):
        c = cur()
        if self.entered:
            op = self.item
            want = [] if op.is_identity else [(op.n, op.op)]
            got = [(n, ch) for n, ch in self.g.log]
            if len(got) != len(want) or any(a[1] != b[1] or not (a[0] is b[0] or c.implied(a[0].e == b[0].e)) for a, b in zip(got, want)):
                raise Unsupported('a passage does not record this operator: %r' % got)
            c.require(True, 'an operator goes to the end of its qubit')
            raise core.Infeasible()
        self.entered = True
        gs = {id(v): v for k, v in loc.items() if isinstance(v, Groups)}
        if len(gs) != 1: raise Unsupported('tables of operators')
        self.g, = gs.values()
        if self.g.log or self.g.full: raise Unsupported('table of operators')
        for r in self.rebound: self.env[r] = seqs.Poison(r)
        if c.pos >= len(c.trace):
            c.trace.append(0); c.deferred.append(c.trace[:c.pos] + [1])
        mode = c.trace[c.pos]; c.pos += 1
        c.desc.append('loop %s %s' % (self.ident, ['body', 'exit'][mode]))
        if mode == 0: self.item = pauli('op'); return True
        self.g.full = True
        return False
class Group:
    """the operators on qubit n, in order, at least one of them"""
    vx_static = True
    def __init__(self, n, lo=0):
        self.n = n; self.lo = lo
    def __bool__(self):
        if self.lo: raise Unsupported('number of operators')
        return True
    def first(self):
        c = cur(); k = ('first', str(self.n.e))
        if k not in c.extra: c.extra[k] = 'XYZ'[c.choose(3, 'first operator')]
        return c.extra[k]
    def __getitem__(self, i):
        if i == 0 and not self.lo: return self.first()
        if isinstance(i, slice) and i.start in (0, 1, None) and i.stop is None and i.step in (None, 1): return Group(self.n, self.lo + (i.start or 0))
        raise Unsupported('operators of a qubit')
    def vx_loop(self, ident, lv, rb):
        if self.lo > 1: raise Unsupported('operators of a qubit')
        return GroupLoop(self, ident, set(rb))
    def vx_iter(self): return self
    def _bad(self, *a, **k): raise Unsupported('the code looks into the operators of a qubit')
    __iter__ = __len__ = __next__ = _bad
PHASES = [Alg.of(1), Alg.of(-1), alg.I, -alg.I]
class GroupLoop:
    """the product of the operators on one qubit: a number k (one of 1, -1, i, -i) and a
    letter op with k*op the product so far"""
    rebind = True
    def __init__(self, g, ident, rb): self.g, self.ident, self.rebound, self.env, self.entered = g, ident, rb, {}, False
    def head(self, loc):
        c = cur()
        if self.entered: return self.end(loc)
        self.entered = True
        ks = [r for r in sorted(self.rebound) if isinstance(loc.get(r), (int, float, complex, Alg)) and not isinstance(loc.get(r), bool)]
        os_ = [r for r in sorted(self.rebound) if isinstance(loc.get(r), str) and loc.get(r) in 'IXYZ']
        first = MAT[self.g.first()] if self.g.lo else MAT['I']
        prs = [(k, o) for k in ks for o in os_ if same_m(scale(Alg.of(loc[k]), MAT[loc[o]]), first)]
        if len(prs) != 1: raise Unsupported('accumulators of the product on a qubit')
        self.k, self.o = prs[0]
        if c.pos >= len(c.trace):
            c.trace.append(0); c.deferred.append(c.trace[:c.pos] + [1])
        mode = c.trace[c.pos]; c.pos += 1
        c.desc.append('loop %s %s' % (self.ident, ['body', 'exit'][mode]))
        for r in self.rebound: self.env[r] = seqs.Poison(r)
        self.kv = PHASES[c.choose(4, 'k')]; self.ov = 'IXYZ'[c.choose(4, 'op')]
        self.env[self.k], self.env[self.o] = self.kv, self.ov
        if mode == 0:
            self.item = 'XYZ'[c.choose(3, 'next')]
            return True
        n = self.g.n
        c.extra['product'] = Op.of(self.kv) * (Op.of(1) if self.ov == 'I' else Op.letter(('P', self.ov, nrep(n))))
        return False
    def end(self, loc):
        c = cur()
        k, o = loc.get(self.k), loc.get(self.o)
        if not isinstance(o, str) or o not in MAT or Alg.of(k) is None: raise Unsupported('product on a qubit')
        k = Alg.of(k)
        a = scale(k, MAT[o]); b = mm(scale(self.kv, MAT[self.ov]), MAT[self.item])
        ok = same_m(a, b)
        c.require(ok, 'a passage multiplies by the operator', '%s*%s by %s gives %s*%s' % (self.kv.pretty(), self.ov, self.item, k.pretty(), o))
        if not any((k - p).is_zero() for p in PHASES) and ok: raise Unsupported('product on a qubit')
        raise core.Infeasible()
def scale(k, m): return [[k * x for x in r] for r in m]
def mm(a, b): return [[sum((a[i][l] * b[l][j] for l in range(2)), Alg.of(0)) for j in range(2)] for i in range(2)]
def same_m(a, b): return all((x - y).is_zero() for r, s in zip(a, b) for x, y in zip(r, s))
class QubitLoop:
    """over the qubits: a number C and a list of operators L with C*L the product over the
    qubits so far; every passage appends at most one operator, on its qubit"""
    rebind = True
    def __init__(self, keys, ident, rb): self.keys, self.ident, self.rebound, self.env, self.entered = keys, ident, rb, {}, False
    def head(self, loc):
        c = cur()
        if self.entered: return self.end(loc)
        self.entered = True
        nums = [r for r in sorted(self.rebound) if isinstance(loc.get(r), (int, float, complex, Alg)) and not isinstance(loc.get(r), bool)]
        lists = {id(v): (k, v) for k, v in loc.items() if isinstance(v, SList)}
        if len(nums) != 1 or len(lists) != 1: raise Unsupported('accumulators over the qubits')
        self.c, = nums; (_, self.l), = lists.values()
        if raw(self.l): raise Unsupported('accumulators over the qubits')
        self.c0 = Alg.of(loc[self.c])
        if c.pos >= len(c.trace):
            c.trace.append(0); c.deferred.append(c.trace[:c.pos] + [1])
        mode = c.trace[c.pos]; c.pos += 1
        c.desc.append('loop %s %s' % (self.ident, ['body', 'exit'][mode]))
        for r in self.rebound: self.env[r] = seqs.Poison(r)
        if mode == 0:
            self.C = alg.csym('C'); self.H = WordSeg('head', Op.letter(('H',)))
            self.env[self.c] = self.C; list.append(self.l, self.H)
            n = qubit_no('n'); g = Group(n); c.extra['group'] = g
            self.item = (n, g) if self.keys.pairs else n
            return True
        ph = alg.csym('phase')
        self.env[self.c] = self.c0 * ph
        list.append(self.l, WordSeg('simplified', Op.of(ph.inv()) * Op.letter(('W',)), self.keys.order))
        return False
    def end(self, loc):
        c = cur()
        p = c.extra.get('product')
        if p is None: raise Unsupported('a qubit is passed over')
        items = raw(self.l)
        if not items or items[0] is not self.H or not all(isinstance(x, psem.P._PauliImpl) for x in items[1:]): raise Unsupported('operators collected in another way')
        C = Alg.of(loc.get(self.c))
        prove_op(Op.of(C) * den_ops(items), Op.of(self.C) * Op.letter(('H',)) * p, 'a passage multiplies by the product of its qubit')
        new = items[1:]
        c.require(len(new) <= 1 and not any(x.is_identity for x in new), 'at most one operator is added')
        for x in new: c.prove(x.n.e == c.extra['group'].n.e, 'on this qubit')
        raise core.Infeasible()
def simplify_term(led, T):
    global MAT
    MAT = {k: [[gs.Alg.of(complex(x)) for x in r] for r in m] for k, m in psem.P._matrix.items()}
    spec = {'I': [[1, 0], [0, 1]], 'X': [[0, 1], [1, 0]], 'Y': [[0, -1j], [1j, 0]], 'Z': [[1, 0], [0, -1]]}
    def table():
        c = cur()
        for k in 'IXYZ':
            c.require(k in MAT and same_m(MAT[k], [[Alg.of(complex(x)) for x in r] for r in spec[k]]), 'the matrix of %s' % k)
    run_explore(led, 'matrices', table)
    def simp():
        c = cur(); c.extra['list_hook'] = SList
        c.extra['dict_hook'] = Groups
        c.extra['defaultdict_hook'] = lambda f: Groups() if real(f) in (list, SList) else None
        t = T(OpsTuple(), alg.csym('c'))
        r = t.simplify()
        c.require(isinstance(r, T), 'simplify gives a term')
        prove_op(den(r), den(t), 'simplify keeps the matrix')
        its = raw(r.ops)
        if len(its) != 1 or not isinstance(its[0], WordSeg): raise Unsupported('simplified operators')
        c.require(its[0].canon, 'qubits in increasing order')
        c.require(type(r.ops) in (tuple, WTuple, STuple, OpsTuple), 'operators are held in a tuple')
    run_explore(led, 'Term.simplify', simp)
ASSUMPTIONS = ['numbers are exact (floats as reals); comparisons with 0 as written',
 'ghost lemma: operators on different qubits commute, so a product may be grouped by qubit']
EXPLANATION = ''
