"""C13: equality, hashing and commutation of Pauli operators agree with the operators."""
from contracts import psem
from contracts.psem import *

KINDS = ['Pauli', 'Term', 'Expr']
EPS = 0.00000001
def run(led, tier='quick'):
    Pm = load_pauli()
    T, E = Pm.Term, Pm.Expr
    patch(T, 'join_ops', join_contract, True)
    patch(T, 'simplify', term_simplify_contract)
    patch(E, 'simplify', expr_simplify_contract)
    coeffs_itself(led, E)
    patch(E, 'coeffs', coeffs_contract)
    for ka in KINDS:
        for kb in KINDS: equality(led, ka, kb)
    for ka in KINDS:
        def itself(ka=ka):
            c = cur(); hooks(c)
            a = operand(ka, 'a')
            c.require(bool(a == a) and not bool(a != a), 'anything equals itself')
        run_explore(led, '%s == itself' % ka, itself)
        def other(ka=ka):
            c = cur(); hooks(c); a = operand(ka, 'a')
            for o in (object(), None, 'X', 1, 0, 2.5, 1j, [], {}, int):
                r = tuple(bool(v) for v in (a == o, o == a, a != o, o != a))
                c.require(r == (False, False, True, True), 'comparison with a %s is unequal' % type(o).__name__, repr(r))
        run_explore(led, '%s and other things' % ka, other)
    def hashes():
        c = cur(); hooks(c); a, b = pauli('a'), pauli('b')
        # the index may be an integer of another type
        if not b.is_identity and c.choose(2, 'integer types'): b = type(b)(OtherInt(b.n.e))
        ha, hb = a.__hash__(), b.__hash__()
        if bool(a == b): same_hash(c, ha, hb)
    if Pm._PauliImpl.__hash__ is not None: run_explore(led, 'hash of operators', hashes)
    def unhashable():
        for k in (T, E):
            if k.__hash__ is not None: raise Unsupported('terms have a hash')
        cur().require(True, 'terms and expressions have no hash')
    run_explore(led, 'hash of terms', unhashable)
    for ka in KINDS:
        for kb in KINDS: commutation(led, Pm, ka, kb)
    def allpairs():
        c = cur(); hooks(c)
        asked = []
        def is_comm(a, b, *r, **k):
            if r or k: raise Unsupported('another tolerance')
            v = either(('comm',) + tuple(sorted([repr(den(a)), repr(den(b))])), 'the pair commutes')
            return v
        c.extra['pairs_hook'] = lambda pv, kind: judge(pv, kind)
        old = Pm.is_commutable; Pm.is_commutable = is_comm
        T.is_commutable_with = lambda s, o: is_comm(s, o)
        def judge(pv, kind):
            c = cur(); r = raw(pv.pairs.seq)[0]; good = []
            def go():
                e1, _ = r.evaluate('first'); e2, _ = r.evaluate('second')
                v = bool(pv.f(e1, e2) if pv.star else pv.f((e1, e2)))
                ab = is_comm(e1, e2)
                good.append(v == (ab if kind == 'all' else not ab))
            c.cases(go)
            c.require(bool(good) and all(good), 'every pair is asked whether it commutes')
            c.extra['asked'] = True
            res = either(('every pair commutes',), 'every pair commutes')
            return res if kind == 'all' else not res
        try:
            a = expr('a')
            r = a.is_all_terms_commutable()
        finally: Pm.is_commutable = old; T.is_commutable_with = owith
        if not c.extra.get('asked'): raise Unsupported('the pairs are looked at in another way')
        c.require(bool(r) == either(('every pair commutes',), ''), 'yes exactly when all pairs commute')
    owith = T.is_commutable_with
    run_explore(led, 'is_all_terms_commutable', allpairs)
    for n in ('_PauliImpl.__eq__ __ne__ __hash__', 'Term.__eq__ __ne__ commutator is_commutable_with', 'Expr.__eq__ __ne__ commutator is_commutable_with is_all_terms_commutable coeffs'):
        cl, ns = n.split('.')
        for x in ns.split(): led.functions['blueqat.pauli.%s.%s' % (cl, x)] = 'operands with any number of terms and operators'
    for n in ('commutator', 'is_commutable'): led.functions['blueqat.pauli.' + n] = 'operands with any number of terms and operators'
    led.need = 100

class OtherInt(SInt):
    """an integer of another type (numpy.int64, bool)"""
def same_hash(c, a, b):
    def flat(h): return h.parts if isinstance(h, shadows.HashVal) else h
    def cmp(x, y):
        if isinstance(x, tuple) and isinstance(y, tuple): return len(x) == len(y) and all([cmp(p, q) for p, q in zip(x, y)])
        if isinstance(x, SInt) and isinstance(y, SInt): return c.implied(x.e == y.e)
        if isinstance(x, (SInt, tuple)) or isinstance(y, (SInt, tuple)): return False
        return x == y
    c.require(cmp(flat(a), flat(b)), 'equal operators have equal hashes', '%r %r' % (a, b))

def equality(led, ka, kb):
    def path():
        c = cur(); hooks(c)
        a, b = operand(ka, 'a'), operand(kb, 'b')
        r = bool(a == b)
        if r: prove_op(den(a), den(b), 'equal ones have the same matrix')
        c.require(bool(b == a) == r, 'in either order')
        c.require(bool(a != b) == (not r) and bool(b != a) == (not r), '!= is the negation')
    run_explore(led, '%s == %s' % (ka, kb), path)

def commutation(led, Pm, ka, kb):
    def comm():
        c = cur(); hooks(c)
        a, b = operand(ka, 'a'), operand(kb, 'b')
        A, B = den(a), den(b)
        fs = [lambda: Pm.commutator(a, b)]
        if ka != 'Pauli': fs.append(lambda: a.commutator(b))
        for f in fs:
            r = f()
            c.require(isinstance(r, Pm.Expr), 'the commutator is an expression')
            prove_op(den(r), A * B - B * A, 'the commutator is AB - BA')
            if not all(isinstance(x, Run) and not x.fns and hasattr(x.base, 'D') for x in raw(r.terms)) or len(raw(r.terms)) > 1: raise Unsupported('the commutator is not simplified')
            c.require(True, 'the commutator is simplified')
    run_explore(led, 'commutator(%s, %s)' % (ka, kb), comm)
    def test(method):
        def path():
            c = cur(); hooks(c)
            # any commutator, in its canonical form
            Cm = Op.letter(('C', 'ab'))
            asked = []
            def stub(x, y):
                asked.append((x, y))
                return Pm.Expr(STuple([Run(canon_base(Cm), den)]))
            old = Pm.commutator; Pm.commutator = stub
            try:
                a, b = operand(ka, 'a'), operand(kb, 'b')
                r = a.is_commutable_with(b) if method else Pm.is_commutable(a, b)
            finally: Pm.commutator = old
            if len(asked) != 1: raise Unsupported('commutation is tested in another way')
            c.require((asked[0][0] is a and asked[0][1] is b) or (asked[0][0] is b and asked[0][1] is a), 'the commutator of the two')
            r = bool(r)
            s = c.extra.get('sums', [])
            if len(s) != 1: raise Unsupported('the size of the commutator is measured in another way')
            z, run_, v, tag = s[0]
            e, binds = run_.base.mk(tag)
            co = e.coeff
            if not (c.norm(v) - co * co.conjugate()).is_zero(): raise Unsupported('the size of the commutator is measured in another way')
            want = c.known.get(('lt', (z - Alg.of(EPS)).key()))
            if want is None: raise Unsupported('the size is compared in another way')
            c.require(r == want, 'yes exactly when the squared size of the commutator is below the tolerance')
        run_explore(led, '%s(%s, %s)' % ('is_commutable_with' if method else 'is_commutable', ka, kb), path)
    test(False)
    if ka != 'Pauli': test(True)

def coeffs_itself(led, E):
    def path():
        c = cur(); hooks(c); c.extra['gen_ok'] = True
        a = expr('a')
        g = a.coeffs()
        if isinstance(g, (SSeq, SList, STuple)):
            ps = psem.sums.parts_of(g)
            if len(ps) != 1 or not isinstance(ps[0], Run) or ps[0].base.name != 'a': raise Unsupported('coeffs')
            v, binds = ps[0].evaluate('k')
            prove_op(den(v), Op.of(alg.csym('a.c[k]')), 'the coefficient of each term'); return
        ys = []; end = False
        try:
            for y in g: ys.append(y)
            end = True
        except seqs.EndPath: pass
        if end: c.require(ys == [], 'nothing else')
        else:
            tag = [l for l in cur().extra.get('loop_occ', {})]
            e = ys[0] if len(ys) == 1 else None
            c.require(len(ys) == 1 and any((Alg.of(e) - alg.csym('a.c[%s/0]' % t)).is_zero() for t in tag), 'the coefficient of each term', repr(ys))
    run_explore(led, 'Expr.coeffs', path)
ASSUMPTIONS = ['numbers are exact (floats as reals); the commutation test is exact up to the documented tolerance on the squared size of the commutator',
 'contract of Term.simplify, Expr.simplify and Term.join_ops as proved for C11',
 'products of Pauli operators on different subsets are linearly independent: a simplified expression is zero exactly when all its coefficients are']
EXPLANATION = ''
