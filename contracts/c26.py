"""C26: the texts of Pauli expressions and circuits, read as Python, denote the same thing; terms
from characters.

A text is a string with placeholders for the values put into it (and for joined runs of unknown
length); it is read with Python's own parser, each placeholder standing for a value's text."""
from contracts.common import *
from engine import opaque, alg, core
from engine.opaque import Opaque, OName, Seg, GTuple, MapSeg, Text, either
from engine.alg import Alg
import ast, re

class Wrong(Exception):
    """the text reads as something else"""
class Num(Opaque):
    """a number; its text is an operand as it stands (a complex one is in brackets)"""
    def __init__(self, name, kind=None):
        Opaque.__init__(self, name); c = cur()
        if kind is None: kind = KINDS[c.choose(len(KINDS), 'number')]
        object.__setattr__(self, 'kind', kind)
        object.__setattr__(self, 'val', Alg.of(VALUE[kind]) if kind in VALUE else alg.csym(c.fresh('c')) if kind == 'complex' else alg.rsym(c.fresh('c')))
    def vx_isinstance(self, t):
        ts = t if isinstance(t, tuple) else (t,)
        import numbers
        own = {'complex': (complex, numbers.Number, numbers.Complex), 'index': (int, numbers.Number, numbers.Integral, numbers.Real)}.get(self.kind)
        if own is None: own = (int, float, numbers.Number, numbers.Complex, numbers.Real) if either(('int', id(self)), 'an int') else (float, numbers.Number, numbers.Complex, numbers.Real)
        return object in ts or Num in ts or any(x in own for x in ts)
    def __eq__(self, o):
        if self is o: return True
        if isinstance(o, (int, float, complex)):
            if self.kind in VALUE: return VALUE[self.kind] == o
            if self.kind == 'negative' and (isinstance(o, complex) or o >= 0) or self.kind == 'positive' and (isinstance(o, complex) or o <= 0): return False
            if o in VALUE.values(): return False
        return Opaque.__eq__(self, o)
    __hash__ = None
    def __neg__(self): raise Unsupported('arithmetic')
    def __lt__(self, o):
        if isinstance(o, (int, float)) and o == 0 and self.kind != 'complex': return self.kind in ('negative', 'minus one')
        raise Unsupported('comparison')
    def __gt__(self, o):
        if isinstance(o, (int, float)) and o == 0 and self.kind != 'complex': return self.kind in ('positive', 'one')
        raise Unsupported('comparison')
    def _text(self): return ('-' if self.kind in ('negative', 'minus one') else '') + core.token(self)
    def __str__(self): return '(' + core.token(self) + ')' if self.kind == 'complex' else self._text()
    __repr__ = __str__
    def __format__(self, spec):
        if spec not in ('', 'r', 's'): raise Wrong('a number written as %r' % spec)
        return str(self)
KINDS = ['zero', 'minus one', 'one', 'negative', 'positive', 'complex']
VALUE = {'zero': 0, 'minus one': -1, 'one': 1}
class TInt(SInt):
    def __repr__(self): return core.token(self)
def tint(name): return TInt(ivar(name).e)
# ---------------------------------------------------------------- reading
def text_add(t, o):
    if isinstance(o, (str, Text)): return core.token(t) + (o if isinstance(o, str) else core.token(o))
    raise Unsupported('text')
def text_radd(t, o):
    if isinstance(o, str): return o + core.token(t)
    raise Unsupported('text')
def read(s):
    """the syntax tree of a text, with placeholders as names, and what they stand for"""
    c = cur()
    if isinstance(s, Text): s = core.token(s)
    if not isinstance(s, str): raise Unsupported('the text is made in another way')
    names = {}
    tk = getattr(s, 'tokens', None) or c.tokens
    def name(m): names['_t%d' % len(names)] = tk[m[0]]; return '_t%d' % (len(names) - 1)
    src = re.sub('\u27e6\\d+\u27e7', name, str.__str__(s))
    if '\ue000' in src: src = re.sub('\ue000(\\d+)\ue001', lambda m: '_n' + m[1], src)
    for k, v in names.items():
        if re.search(r'[\w.]%s|%s[\w.(\[]' % (k, k), src) and not isinstance(v, (Text, OName)) and not getattr(type(v), 'glue', False) and not re.search(r'[^\w.]%s\[' % k, ' ' + src): raise Wrong('the text of a value runs into other text: %s' % src)
    try: tree = ast.parse(src.strip(), mode='eval').body
    except SyntaxError: raise Wrong('cannot be read: %s' % src)
    return tree, names
def join_tok(pre, sep, its):
    s = seqs.TokStr(pre + sep.join(str.__str__(i) for i in its)); s.tokens = dict(cur().tokens)
    for i in its: s.tokens.update(getattr(i, 'tokens', {}))
    return s
def run_items(t, sep):
    """the items of a joined run: [(of what, its element, text)]"""
    if not isinstance(t, Text): raise Wrong('a value in place of a list')
    if t.sep.strip() != sep: raise Wrong('joined by %r' % t.sep)
    out = []
    for x in t.items:
        if isinstance(x, MapSeg): out.append(('each', x, x.item))
        elif isinstance(x, seqs.FoldSeg):
            for _, el, its, _ in x.alternatives:
                out.append(('alt', el, list(its)))
            out.append(('end', x, None))
        elif isinstance(x, str): out.append(('one', None, x))
        else: raise Unsupported('a list made in another way')
    return out
# ---------------------------------------------------------------- Pauli terms
def load():
    loader.fresh(); bq = loader.load('blueqat'); P = sys.modules['blueqat.pauli']
    Text.__add__, Text.__radd__ = text_add, text_radd
    return P
def pauli_op(P):
    def mk(tag):
        c = cur(); n = tint(c.fresh('n')); c.assume(n.e >= 0)
        return (P.X, P.Y, P.Z)[c.choose(3, 'operator')](n)
    return mk
def letters(tree, names, what):
    """the operator an atom of a product names"""
    if isinstance(tree, ast.Name) and tree.id == 'I': return ('I', None)
    if isinstance(tree, ast.Subscript) and isinstance(tree.value, ast.Name) and tree.value.id in 'XYZ': arg = tree.slice
    elif isinstance(tree, ast.Call) and isinstance(tree.func, ast.Name) and tree.func.id in ('X', 'Y', 'Z') and len(tree.args) == 1 and not tree.keywords: return letters(ast.Subscript(tree.func, tree.args[0]), names, what)
    else: return None
    if isinstance(arg, ast.Name) and isinstance(names.get(arg.id), SInt): return (tree.value.id, names[arg.id])
    if isinstance(arg, ast.Constant) and type(arg.value) is int: return (tree.value.id, arg.value)
    raise Wrong('an operator on %s' % ast.dump(arg))
def same_op(op, l): return l is not None and type(op).__name__[1:] == l[0] and (l[0] == 'I' or isinstance(l[1], SInt) and cur().implied(l[1].e == op.n.e) or isinstance(l[1], int) and l[1] == op.n)
def product(tree, names):
    """(coefficient, [operators and runs of operators]) of a product"""
    if isinstance(tree, ast.BinOp) and isinstance(tree.op, ast.Mult):
        (a, x), (b, y) = product(tree.left, names), product(tree.right, names); return a * b, x + y
    if isinstance(tree, ast.UnaryOp) and isinstance(tree.op, (ast.USub, ast.UAdd)):
        a, x = product(tree.operand, names); return (-a if isinstance(tree.op, ast.USub) else a), x
    if isinstance(tree, ast.Constant) and type(tree.value) in (int, float): return Alg.of(tree.value), []
    if isinstance(tree, ast.Name) and tree.id in names:
        v = names[tree.id]
        if isinstance(v, Num): return (-v.val if v.kind in ('negative', 'minus one') else v.val), []
        if isinstance(v, Text): return Alg.of(1), [('run', v)]
        raise Unsupported('a value in a product')
    l = letters(tree, names, None)
    if l is not None: return Alg.of(1), [l] if l[0] != 'I' else []
    raise Wrong('not a product of operators: %s' % ast.dump(tree))
def sameops(got, ops):
    """do the operators read denote those of the term"""
    if isinstance(ops, GTuple) or not any(k[0] == 'run' for k in got):
        want = opaque.raw(ops)
        k = 0
        for g in got:
            if g[0] == 'run':
                for how, x, s in run_items(g[1], '*'):
                    if how != 'each': raise Unsupported('operators')
                    if k >= len(want) or not isinstance(want[k], Seg) or x.of.seq.src is not want[k].seq.src or x.of.rev: return False
                    k += 1
                    tree, names = read(s); c, o = product(tree, names)
                    if not (c - 1).is_zero() or len(o) != 1 or not same_op(x.el, o[0]): return False
            else:
                if k >= len(want) or isinstance(want[k], Seg) or not same_op(want[k], g): return False
                k += 1
        return all(isinstance(w, Seg) and either(('empty', id(w.seq.src)), '%s is empty' % w.vx_name) for w in want[k:])
    return False
def term(P, how):
    c = cur()
    if how == 'run':
        s = Seg('operators', pauli_op(P)); ops = GTuple([s])
    else: ops = tuple(pauli_op(P)(str(k)) for k in range(how))
    return P.Term(ops, Num('coefficient'))
def judge(t, tree, names, sign=1):
    """does a text of a product denote the term"""
    v, o = product(tree, names); c = t.coeff.val
    if not (Alg.of(v) * sign - c).is_zero(): return False
    return c.is_zero() or sameops(o, t.ops)
def reads(c, what, f, *a):
    try: ok = f(*a)
    except Wrong as e: c.require(False, what, str(e)); return
    c.require(ok, what)
def term_repr(led):
    P = load()
    def path(how):
        def go():
            c = cur(); t = term(P, how)
            try: s = type(t).__repr__(t)
            except Wrong as e: c.require(False, 'the text of a term denotes it', str(e)); return
            reads(c, 'the text of a term denotes it', lambda: judge(t, *read(s)))
        run_explore(led, 'Term.__repr__ (%s operators)' % ('any' if how == 'run' else how), go)
    for how in ('run', 0, 1, 2): path(how)
    def ops():
        c = cur(); k = c.choose(4, 'operator')
        o = P.I if k == 3 else (P.X, P.Y, P.Z)[k](tint('n'))
        if k < 3: c.assume(o.n.e >= 0)
        s = repr(o)
        def f():
            tree, names = read(s); return same_op(o, letters(tree, names, None)) if k < 3 else isinstance(tree, ast.Name) and tree.id == 'I'
        reads(c, 'the text of an operator denotes it', f)
    run_explore(led, 'operators: __repr__', ops)
def sym_term(P):
    def mk(tag):
        c = cur(); s = Seg('operators of %s' % tag, pauli_op(P)); o = GTuple([s])
        t = tuple.__new__(T1(P), (o, Num('coefficient of %s' % tag))); return t
    return mk
def T1(P):
    if not hasattr(P, 'vx_t1'):
        class SymTerm(P.Term):
            """a term with its text by contract: a product which denotes it, with a sign first or not"""
            __slots__ = ()
            def __repr__(self):
                c = cur(); k = ('text', id(self))
                if k in c.extra: return c.extra[k][0]
                if self.coeff.kind == 'zero': s = '0*I'
                else:
                    b = Opaque('text of a term')
                    s = ('-' if self.coeff.kind in ('negative', 'minus one') else '(' if self.coeff.kind == 'complex' and either(('bracket', id(self)), 'in brackets') else '-' if self.coeff.kind == 'complex' and either(('minus', id(self)), 'with a sign') else '')
                    object.__setattr__(b, 'of', self); object.__setattr__(b, 'neg', s == '-'); s = s + core.token(b) + (')' if s == '(' else '')
                c.extra[k] = (s, self); return s
            __str__ = __repr__
            def __format__(self, spec): return repr(self)
        P.vx_t1 = SymTerm
    return P.vx_t1
def summands(tree, names, sign=1):
    if isinstance(tree, ast.BinOp) and isinstance(tree.op, (ast.Add, ast.Sub)):
        return summands(tree.left, names, sign) + summands(tree.right, names, sign if isinstance(tree.op, ast.Add) else -sign)
    if isinstance(tree, ast.UnaryOp) and isinstance(tree.op, (ast.USub, ast.UAdd)): return summands(tree.operand, names, -sign if isinstance(tree.op, ast.USub) else sign)
    if isinstance(tree, ast.Name) and isinstance(names.get(tree.id), Text): return [(sign, names[tree.id])]
    if isinstance(tree, ast.Name) and hasattr(names.get(tree.id), 'of'): b = names[tree.id]; return [(sign, b)]
    if isinstance(tree, ast.Constant) or isinstance(tree, ast.BinOp) and isinstance(tree.op, ast.Mult) and product(tree, names)[1] == []:
        v, o = product(tree, names)
        if o == [] and Alg.of(v).is_zero(): return []
    if isinstance(tree, ast.Name) and tree.id == 'I': return [(sign, 'I')]
    raise Wrong('not a sum of terms: %s' % ast.dump(tree)[:200])
def expr_repr(led):
    P = load()
    def path(k, rest):
        def go():
            c = cur(); mk = sym_term(P); first = [mk('first' if not i else str(i)) for i in range(k)]
            seg = Seg('terms', mk); terms = GTuple(first + [seg]) if rest else tuple(first)
            e = tuple.__new__(P.Expr, (terms,)); c.extra['terms'] = terms
            try: s = P.Expr.__repr__(e)
            except Wrong as x: c.require(False, 'the text of an expression denotes it', str(x)); return
            def value(sums):
                got = []
                for sg, b in sums:
                    if isinstance(b, (Text, str)): raise Unsupported('a part of the sum')
                    got.append((sg * (-1 if b.neg else 1), b.of))
                return got
            def f():
                want = list(first)
                # the text: one string, or strings and a run joined by blanks
                if isinstance(s, Text):
                    if s.sep.strip(): raise Wrong('terms joined by %r' % s.sep)
                    items = list(s.items)
                else: items = [s]
                strs = []; seen = False
                sep = s.sep if isinstance(s, Text) else ''
                for x in items:
                    if isinstance(x, str):
                        if seen: raise Unsupported('text after the run')
                        strs.append(x)
                    elif isinstance(x, (seqs.FoldSeg, MapSeg)):
                        if seen: raise Unsupported('several runs')
                        seen = True
                        if isinstance(x, MapSeg): src, turned, alts = x.of.seq.src, x.of.rev, [(x.el, [x.item])]
                        else: src, turned, alts = x.seq.src, x.seq.reversed_, [(el, its) for _, el, its, _ in x.alternatives]
                        if not rest or src is not seg.seq.src: return False
                        for el, its in alts:
                            if not all(isinstance(i, str) for i in its): raise Unsupported('items')
                            txt = sep.join(its)
                            if not txt and el.coeff.kind == 'zero': continue
                            tree, names = read(join_tok('_v ', sep, its))
                            ss = summands_after(tree, names)
                            got = value(ss)
                            if el.coeff.kind == 'zero' and not got: continue
                            if len(got) != 1 or got[0][1] is not el or got[0][0] != 1: return False
                    else: raise Unsupported('a part of the text')
                tree, names = read(sep.join(strs)) if strs else (None, None)
                if tree is None: return not want
                got = value(summands(tree, names))
                want = [t for t in want if t.coeff.kind != 'zero']; got = [(a, t) for a, t in got if t.coeff.kind != 'zero']
                if len(got) != len(want) or any(a != 1 for a, t in got) or {id(t) for a, t in got} != {id(t) for t in want}: return False
                return seen or not rest or either(('empty', id(seg.seq.src)), 'terms is empty')
            reads(c, 'the text of an expression denotes it', f)
        run_explore(led, 'Expr.__repr__ (%d terms%s)' % (k, ' or more' if rest else ''), go)
    path(0, False); path(1, True); path(2, False)
def summands_after(tree, names):
    """what is added to the value before"""
    out = []
    while isinstance(tree, ast.BinOp) and isinstance(tree.op, (ast.Add, ast.Sub)):
        out = summands(tree.right, names, 1 if isinstance(tree.op, ast.Add) else -1) + out; tree = tree.left
    if not (isinstance(tree, ast.Name) and tree.id == '_v'): raise Wrong('a term is joined to the one before')
    return out
# ---------------------------------------------------------------- terms from characters
class Chars:
    """a string of which every character is one of some classes"""
    vx_static = True
    def __init__(self, rev=False, bad=None, empty=None): self.rev, self.bad, self.empty = rev, bad, empty
    def vx_isinstance(self, t): return t in (str, object)
    def vx_reversed(self): return Chars(not self.rev, self.bad)
    def vx_enumerate(self, start):
        if start != 0: raise Wrong('counted from %r' % (start,))
        return Pairs(self)
    def __getitem__(self, i):
        if isinstance(i, slice) and i == slice(None, None, -1): return Chars(not self.rev, self.bad)
        raise Unsupported('characters')
    def _no(self, *a, **k): raise Unsupported('the characters of a string')
    __iter__ = __len__ = __bool__ = __eq__ = upper = _no
    __hash__ = None
class Pairs:
    vx_static = True
    def __init__(self, chars): self.chars = chars
    def vx_isinstance(self, t): return False
    def vx_comp(self, kind, f, cond, star):
        if kind not in ('list', 'gen') or not star: raise Unsupported('comprehension')
        c = cur(); n = ivar(c.fresh('at')); c.assume(n.e >= 0); got = {}
        if self.chars.bad:
            # the first character which is another one is met at some place
            if cond is None or cond(n, self.chars.bad): f(n, self.chars.bad)
            raise Missed
        for ch in 'XYZIxyzi':
            got[ch] = f(n, ch) if cond is None or cond(n, ch) else None
        return Paulis(self.chars, n, got)
    def _no(self, *a, **k): raise Unsupported('numbered characters')
    __iter__ = __len__ = _no
class Missed(Exception): pass
class Paulis:
    """the operators made of the characters"""
    vx_static = True
    def __init__(self, chars, n, got): self.chars, self.n, self.got = chars, n, got; self.count = ivar(cur().fresh('count')); cur().assume(self.count.e >= 0)
    def slen(self): return self.count
    def __bool__(self): return bool(self.count.e > 0) if not z3.is_expr(self.count.e) else cur().decide(self.count.e > 0)
    def __getitem__(self, i):
        if i in (0, -1) and cur().implied(self.count.e == 1): return Only(self)
        raise Unsupported('one of the operators')
    def vx_seq(self, t): return self
    def vx_isinstance(self, t): return t in (list, object)
    def _no(self, *a, **k): raise Unsupported('the operators')
    __iter__ = __len__ = __eq__ = _no
    __hash__ = None
class Only(Opaque):
    def __init__(self, of): Opaque.__init__(self, 'the operator'); object.__setattr__(self, 'of', of)
    def __rmul__(self, o):
        if isinstance(o, (int, float)) and o == 1: return Prod(self.of)
        if isinstance(o, (int, float)): raise Wrong('a coefficient %r' % o)
        raise Unsupported('product')
    def __mul__(self, o): return self.__rmul__(o)
    def to_term(self): return Prod(self.of)
class Prod(Opaque):
    def __init__(self, of): Opaque.__init__(self, 'the product'); object.__setattr__(self, 'of', of)
    def __rmul__(self, o):
        if isinstance(o, (int, float)) and o == 1: return self
        raise Unsupported('product')
    __mul__ = __rmul__
def chars(led):
    P = load()
    def reduce_(f, l, *init):
        import functools
        if not isinstance(l, Paulis): return functools.reduce(f, l, *init)
        log = []
        class A(Opaque):
            def __mul__(self, o): log.append((self, o)); return r
        r, a, b = A('ab'), A('a'), A('b')
        if f(a, b) is not r or len(log) != 1 or not (log[0][0] is a and log[0][1] is b or log[0][0] is b and log[0][1] is a): raise Unsupported('reduce')
        if init and not (isinstance(init[0], P.Term) and init[0].ops == () and init[0].coeff == 1): raise Unsupported('first value')
        if not init and not l: raise TypeError('reduce() of empty iterable with no initial value')
        return Prod(l) if init or not cur().implied(l.count.e == 1) else Only(l)
    def check(c, r, rev):
        if isinstance(r, P.Term):
            c.require(r.ops == () and r.coeff == 1, 'no characters but I: the identity'); return True
        if isinstance(r, Only): c.require(False, 'a term is made'); return
        if not isinstance(r, Prod): raise Unsupported('another result')
        l = r.of
        c.require(l.chars.rev == rev, 'characters counted from the %s' % ('last' if rev else 'first'))
        for ch, o in l.got.items():
            if ch in 'Ii': c.require(o is None or o is P.I or o == P.I, 'I is the identity')
            else: c.require(o is not None and type(o).__name__ == '_' + ch.upper() and isinstance(o.n, SInt) and c.implied(o.n.e == l.n.e), 'the character\'s operator on its qubit', '%s: %r' % (ch, o))
    def go(f, rev):
        def path():
            c = cur(); bad = c.choose(2, 'another character') == 1
            s = Chars(False, OtherChar() if bad else None)
            g = sys.modules['blueqat.pauli']; g.reduce = reduce_
            try: r = f(g)(s)
            except ValueError: c.require(bad, 'refused only for another character'); return
            except Missed: c.require(False, 'another character is refused'); return
            except Wrong as e: c.require(False, 'characters counted from zero with coefficient one', str(e)); return
            except KeyError:
                if not bad: raise
                c.require(False, 'another character raises ValueError'); return
            c.require(not bad, 'another character is refused')
            k = check(c, r, rev)
            if k is True and c.extra.get('paulis') is not None: c.prove(c.extra['paulis'].count.e == 0, 'the identity only if there is no other character')
        return path
    orig = Paulis.__init__
    def init(self, *a): orig(self, *a); cur().extra['paulis'] = self
    Paulis.__init__ = init
    run_explore(led, 'Term.from_chars', go(lambda g: g.Term.from_chars, False))
    run_explore(led, 'term_from_chars', go(lambda g: g.term_from_chars, True))
    def one():
        c = cur(); ch = 'XYZIxyzi'[c.choose(8, 'character')]; n = ivar('n'); c.assume(n.e >= 0)
        p = P.pauli_from_char(ch, n)
        c.require(type(p).__name__ == '_' + ch.upper() and (ch in 'Ii' or isinstance(p.n, SInt) and c.implied(p.n.e == n.e)), 'the character\'s operator on the qubit', '%s: %r' % (ch, type(p).__name__))
        if ch not in 'Ii':
            d = P.pauli_from_char(ch); c.require(d.n == 0, 'qubit 0 by default')
    run_explore(led, 'pauli_from_char', one)
    def other():
        c = cur()
        try: P.pauli_from_char(OtherChar(), ivar('n'))
        except ValueError: c.require(True, 'another character is refused'); return
        c.require(False, 'another character is refused')
    run_explore(led, 'pauli_from_char (another character)', other)
class OtherChar(str):
    """a character which is none of the letters"""
    vx_static = True
    def __new__(cls): return str.__new__(cls, '?')
    def upper(self): return self
    def lower(self): return self
    def __contains__(self, x): raise Unsupported('characters')
# ---------------------------------------------------------------- circuits
def index(tree, names, want):
    """does an index read as the target"""
    def num(t, w):
        if t is None or isinstance(t, ast.Constant) and t.value is None: return w is None
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.UAdd): return num(t.operand, w)
        if isinstance(t, ast.Name) and isinstance(names.get(t.id), SInt): return isinstance(w, SInt) and cur().implied(names[t.id].e == w.e)
        if isinstance(t, ast.Constant) and type(t.value) is int: return isinstance(w, (SInt, int)) and cur().implied(SInt.of(w).e == t.value if isinstance(w, SInt) else z3.BoolVal(w == t.value))
        raise Wrong('an index %s' % ast.dump(t)[:100])
    if isinstance(tree, ast.Call) and isinstance(tree.func, ast.Name) and tree.func.id == 'slice':
        a = tree.args; a = [None, a[0], None] if len(a) == 1 else (list(a) + [None] * 3)[:3]; tree = ast.Slice(*a)
    if isinstance(tree, ast.Slice): return isinstance(want, slice) and num(tree.lower, want.start) and num(tree.upper, want.stop) and num(tree.step, want.step)
    return not isinstance(want, slice) and num(tree, want)
def target(tag):
    """an index or a slice with or without each of its parts"""
    c = cur(); k = c.choose(9, 'target')
    if k == 8: return tint(c.fresh('t'))
    return slice(*[tint(c.fresh('t')) if k >> b & 1 else None for b in range(3)])
def gates(led):
    load(); G = sys.modules['blueqat.gate']; C = sys.modules['blueqat.circuit']
    def table():
        c = cur(); seen = 0
        for n, cls in C.GATE_SET.items():
            seen += 1; c.require(C.GATE_SET.get(cls.lowername) is cls, 'the name a gate is written with is its own', '%s: %s' % (n, cls.lowername))
        if not seen: raise Unsupported('gates')
    run_explore(led, 'names of gates', table)
    def text(params, targets):
        def path():
            c = cur()
            ps = GTuple([Seg('parameters', lambda tag: Num('parameter', ('negative', 'positive')[cur().choose(2, 'sign')]))]) if params == 'run' else tuple(Num('p%d' % k, ('negative', 'positive')[c.choose(2, 'sign')]) for k in range(params))
            if targets == 'single': tg = target('t')
            elif targets == 'run': tg = GTuple([Seg('targets', target)])
            else: tg = tuple(target('t%d' % k) for k in range(targets))
            class Other(G.Gate):
                lowername = OName('gate')
                def __init__(self): self.targets, self.params, self.kwargs = tg, ps, {}
            g = Other()
            try: s = G.Gate.__str__(g)
            except Wrong as e: c.require(False, 'the text of an operation denotes it', str(e)); return
            def number(t, names):
                sg = 1
                while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.USub): sg, t = -sg, t.operand
                if isinstance(t, ast.Name) and isinstance(names.get(t.id), Num): v = names[t.id]; return v if (sg < 0) == (v.kind == 'negative') else None
                return None
            def f():
                tree, names = read(s)
                if not isinstance(tree, ast.Subscript): raise Wrong('no targets')
                head = tree.value; args = []
                if isinstance(head, ast.Call):
                    if head.keywords: raise Unsupported('keywords')
                    args, head = head.args, head.func
                    called = True
                else: called = False
                if not (isinstance(head, ast.Name) and head.id == '_n' + str(Other.lowername.key)): return False
                # parameters
                want = opaque.raw(ps)
                if not called and want and not (isinstance(want[0], Seg) and want[0].empty()): return False
                if called:
                    if want and isinstance(want[0], Seg):
                        if len(args) == 0 and want[0].empty(): pass
                        elif len(args) != 1 or not isinstance(args[0], ast.Name): return False
                        else:
                            for how, x, it in run_items(names.get(args[0].id), ','):
                                if how != 'each': raise Unsupported('parameters')
                                if x.of.seq.src is not want[0].seq.src or x.of.rev: return False
                                t2, n2 = read(it)
                                if number(t2, n2) is not x.el: return False
                    elif len(args) != len(want) or any(number(a, names) is not w for a, w in zip(args, want)): return False
                # targets
                sl = tree.slice
                if targets == 'single': return index(sl, names, tg)
                if targets == 'run':
                    seg = opaque.raw(tg)[0]
                    if isinstance(sl, ast.Tuple) and len(sl.elts) == 1: sl = sl.elts[0]
                    if not isinstance(sl, ast.Name): return False
                    for how, x, it in run_items(names.get(sl.id), ','):
                        if how != 'each': raise Unsupported('targets')
                        if x.of.seq.src is not seg.seq.src or x.of.rev: return False
                        t2, n2 = read('_v[' + it + ']')
                        if not index(t2.slice, n2, x.el): return False
                    return True
                el = sl.elts if isinstance(sl, ast.Tuple) else [sl]
                return len(el) == len(tg) and all(index(a, names, w) for a, w in zip(el, tg))
            reads(c, 'the text of an operation denotes it', f)
        run_explore(led, 'Gate.__str__ (%s parameters, %s targets)' % (params, targets), path)
    for p, t in (('run', 'single'), (0, 'run'), (0, 'single'), (1, 'single'), (3, 'single'), (1, 2), (0, 1)): text(p, t)
    def circuit(mod, cls, k):
        def path():
            c = cur(); n = tint('n'); c.assume(n.e >= 0)
            class Op(Opaque): glue = True
            mk = lambda tag: Op('op %s' % tag)
            M = loader.load(mod); K = getattr(M, cls)
            ops = [mk(str(i)) for i in range(k)] if k else [Seg('operations', mk)]
            if cls == 'Circuit':
                o = K(); o.n_qubits = n; o.ops = opaque.GList(ops) if not k else ops
            else: o = K(n, GTuple(ops) if not k else tuple(ops))
            s = K.__repr__(o)
            def f():
                x = s
                if isinstance(x, Text): raise Unsupported('the whole text joined')
                tree, names = read(x); chain = []
                while isinstance(tree, ast.Attribute): chain.append(tree.attr); tree = tree.value
                if not (isinstance(tree, ast.Call) and isinstance(tree.func, ast.Name) and tree.func.id == cls and len(tree.args) == 1 and not tree.keywords): raise Wrong('not made by %s(n)' % cls)
                a = tree.args[0]
                if not (isinstance(a, ast.Name) and isinstance(names.get(a.id), SInt) and c.implied(names[a.id].e == n.e)): return False
                chain = [names.get(x) for x in reversed(chain)]
                if k: return len(chain) == k and all(x is y for x, y in zip(chain, ops))
                if len(chain) != 1: return False
                for how, x, it in run_items(chain[0], '.'):
                    if how != 'each': raise Unsupported('operations')
                    if x.of.seq.src is not ops[0].seq.src or x.of.rev: return False
                    t2, n2 = read(it)
                    if not (isinstance(t2, ast.Name) and n2.get(t2.id) is x.el): return False
                return True
            reads(c, 'the text of a circuit denotes it', f)
        run_explore(led, '%s.__repr__ (%s operations)' % (cls, k or 'any'), path)
    for k in (0, 1, 2): circuit('blueqat.circuit', 'Circuit', k); circuit('blueqat.experimental.operations', 'Ops', k)
def run(led, tier='quick'):
    term_repr(led); expr_repr(led); chars(led); gates(led)
    for n, t in [('pauli._PauliImpl.__repr__', 'any qubit'), ('pauli.Term.__repr__', 'any operators and coefficient'), ('pauli.Expr.__repr__', 'any terms'), ('pauli.Term.from_chars', 'any string'), ('pauli.term_from_chars', 'any string'), ('pauli.pauli_from_char', 'any character'),
        ('gate.Gate.__str__', 'any parameters and targets'), ('gate.Gate._str_args', 'any parameters'), ('gate.Gate._str_targets', 'any targets'), ('circuit.Circuit.__repr__', 'any operations'), ('experimental.operations.Ops.__repr__', 'any operations')]: led.functions['blueqat.' + n] = t
    led.need = 100
ASSUMPTIONS = ['str and repr of finite int, float and complex numbers are Python literals of the same value (complex ones in brackets, or purely imaginary)', 'the value of a text is built by the products, sums and gate calls it names (C08, C11); parameters are numbers',
 'targets are integers, slices or non-empty tuples of them; options given to operations and names of classes are not part of the text', 'a circuit without operations is not covered']
EXPLANATION = ''
