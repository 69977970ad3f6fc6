"""C04: targets are resolved like Python indexing and size the register."""
from contracts.common import *
from engine import seqs
from engine.opaque import Opaque, either
from engine.seqs import EndPath

class SymSlice:
    """slice(start, stop, step) with each part None or an arbitrary integer, step not 0"""
    vx_static = True
    def __init__(self, name):
        self.name = name
        def part(p): return None if either((name, p, 'none'), '%s.%s is None' % (name, p)) else ivar('%s.%s' % (name, p))
        self.start, self.stop, self.step = part('start'), part('stop'), part('step')
        if self.step is not None: cur().assume(self.step.e != 0)
    def vx_isinstance(self, t):
        return t in (slice, object)
    def __index__(self): raise AttributeError('__index__')
    def indices(self, length):
        """the language reference's definition of slicing a sequence of that length"""
        L = length.e if isinstance(length, SInt) else z3.IntVal(length)
        step = z3.IntVal(1) if self.step is None else self.step.e
        lower = z3.If(step < 0, z3.IntVal(-1), z3.IntVal(0)); upper = z3.If(step < 0, L - 1, L)
        def clip(v): return z3.If(v < 0, z3.If(v + L < lower, lower, v + L), z3.If(v > upper, upper, v))
        start = z3.If(step < 0, upper, lower) if self.start is None else clip(self.start.e)
        stop = z3.If(step < 0, lower, upper) if self.stop is None else clip(self.stop.e)
        return SInt(z3.simplify(start)), SInt(z3.simplify(stop)), 1 if self.step is None else SInt(step)
    def __getattr__(self, n): raise AttributeError(n)
    def __eq__(self, o): raise Unsupported('comparison of slices')
    __hash__ = None
SymSlice.__name__ = 'slice'

class Sub:
    """the qubits slicing_singlevalue gives for one argument, by its contract"""
    vx_static = True
    def __init__(self, arg, length): self.arg = arg; self.length = length
    def vx_yieldfrom(self): return [Run(self)]
    def __iter__(self): return iter([Run(self)])
class Run:
    vx_static = True
    def __init__(self, sub): self.sub = sub

def drain(gen):
    """what a generator yields, and whether it came to its end"""
    ys = []
    cur().extra['gen_ok'] = True
    try:
        for y in gen: ys.append(y)
    except EndPath: return ys, False
    return ys, True

def register_n():
    n = ivar('n'); cur().assume(n.e >= 0); return n

def single(led):
    gate = sys.modules['blueqat.gate']
    def by_slice():
        c = cur(); n = register_n()
        c.extra['while_hook'] = lambda ident: True
        s = SymSlice('s')
        start, stop, step = s.indices(n)
        ys, end = drain(gate.slicing_singlevalue(s, n))
        if c.extra.get('probe'): raise Infeasible()
        its = c.extra.get('iters', [])
        st = step.e if isinstance(step, SInt) else z3.IntVal(step)
        def before(k): return z3.If(st > 0, start.e + k * st < stop.e, start.e + k * st > stop.e)
        if its:
            k = its[-1].k.e
            if len(its) != 1: raise Unsupported('several loops')
            if end:
                if its[0].done:
                    c.require(ys == [], 'nothing follows the last qubit'); c.prove(z3.Not(before(k)), 'the sequence ends exactly where the slice ends')
                else: raise Unsupported('the loop is left early')
            else:
                if len(ys) != 1 or not isinstance(ys[0], SInt): raise Unsupported('not one qubit per iteration')
                c.prove(before(k), 'only qubits of the slice are given'); c.prove(ys[0].e == start.e + k * st, 'the k-th qubit is start + k*step')
        elif c.extra.get('symloops'):
            # built on range(): its k-th element must be the slice's, and it must be as long
            lps = c.extra['symloops']
            if end: c.require(ys == [], 'nothing follows the last qubit'); return
            sq = lps[-1].seq
            if len(lps) != 1 or not isinstance(sq, shadows.SymRange) or sq.bv: raise Unsupported('not one range')
            if len(ys) != 1 or ys[0] is not lps[0].item: raise Unsupported('not one qubit per iteration')
            k = z3.Int('k!any'); c.assume(k >= 0)
            c.prove(sq.before(sq.nth(k)) == before(k), 'the sequence ends exactly where the slice ends')
            c.prove(z3.Implies(before(k), sq.nth(k) == start.e + k * st), 'the k-th qubit is start + k*step')
        else:
            c.require(end and ys == [], 'an empty slice gives nothing'); c.prove(z3.Not(before(z3.IntVal(0))), 'only an empty slice gives nothing')
    run_explore(led, 'slicing_singlevalue(slice)', by_slice)
    def by_int():
        c = cur(); n = register_n()
        i = ivar('i'); c.assume(z3.And(i.e >= -n.e, i.e < n.e))
        ys, end = drain(gate.slicing_singlevalue(i, n))
        c.require(end and len(ys) == 1, 'one qubit')
        if len(ys) == 1: c.prove(SInt(ys[0].e).e == z3.If(i.e < 0, i.e + n.e, i.e), 'the qubit Python indexing gives')
    run_explore(led, 'slicing_singlevalue(int)', by_int)
    def refused():
        c = cur()
        bad = ['x', 1.5, None, [0], {}, object(), 1j]
        b = bad[c.choose(len(bad), 'argument')]
        try: list(gate.slicing_singlevalue(b, 3))
        except (TypeError, AttributeError): c.require(True, 'anything else is refused'); return
        c.require(False, 'anything else is refused', repr(b))
    run_explore(led, 'slicing_singlevalue(other)', refused)

def arg(tag):
    """an arbitrary element of a tuple of targets"""
    if either(('isslice', tag), 'arg.%s is a slice' % tag): return SymSlice('arg.%s' % tag)
    return ivar('arg.%s' % tag)

def slicing(led):
    gate = sys.modules['blueqat.gate']
    def sub(orig): return lambda a, length: Sub(a, length)
    orig = gate.slicing_singlevalue
    def path(single):
        def go():
            c = cur(); n = register_n()
            if single:
                a = arg('a')
                ys, end = drain(gate.slicing(a, n))
                c.require(end and len(ys) == 1 and isinstance(ys[0], Run) and ys[0].sub.arg is a and ys[0].sub.length is n, 'exactly the qubits of the argument')
                return
            memo = {}
            sq = SymSeq('args', lambda tag: memo.setdefault(tag, None) or memo.__setitem__(tag, arg(tag)) or memo[tag]); sq.pytype = tuple
            ys, end = drain(gate.slicing(sq, n))
            if end: c.require(ys == [], 'nothing but the qubits of the arguments')
            else: c.require(len(ys) == 1 and isinstance(ys[0], Run) and ys[0].sub.arg is memo.get('k') and ys[0].sub.length is n, 'the qubits of each argument, in order')
        return go
    def conc(k):
        def go():
            c = cur(); n = register_n()
            args = tuple(arg(str(i)) for i in range(k))
            ys, end = drain(gate.slicing(args, n))
            c.require(end and len(ys) == k and all(isinstance(y, Run) and y.sub.arg is a and y.sub.length is n for y, a in zip(ys, args)), 'the qubits of each argument, in order')
        return go
    stub(gate, 'slicing_singlevalue', sub)
    try:
        run_explore(led, 'slicing(one argument)', path(True))
        run_explore(led, 'slicing(tuple)', path(False))
        for k in (0, 1, 2): run_explore(led, 'slicing(tuple of %d)' % k, conc(k))
    finally: gate.slicing_singlevalue = orig

def pairs(led):
    gate = sys.modules['blueqat.gate']
    orig = gate.slicing
    class Half(Opaque): pass
    def mk(o):
        def slicing(a, length):
            if not isinstance(a, Half): raise Unsupported('resolving something else')
            cur().extra.setdefault('asked', []).append(length)
            return a.seq
        return slicing
    def half(nm, n):
        h = Half(nm)
        s = SymSeq(nm, lambda tag: (cur().assume(z3.And(z3.Int('%s.%s' % (nm, tag)) >= 0, z3.Int('%s.%s' % (nm, tag)) < n.e)), ivar('%s.%s' % (nm, tag)))[1])
        object.__setattr__(h, 'seq', s); return h
    def path():
        c = cur(); n = register_n()
        a, b = half('control', n), half('target', n)
        try: out = gate.qubit_pairs((a, b), n)
        except EndPath: 
            x, y = a.seq.elem('k'), b.seq.elem('k')
            c.prove(x.e != y.e, 'a pair of equal qubits does not pass'); raise
        except ValueError:
            la, lb = a.seq.slen(), b.seq.slen()
            wit = [z3.And(a.seq.elem(t).e == b.seq.elem(t).e) for t in ('k', 'witness')]
            c.prove(z3.Or(la.e != lb.e, *wit), 'refused only for unequal counts or a pair of equal qubits'); return
        la, lb = a.seq.slen(), b.seq.slen()
        c.prove(la.e == lb.e, 'unequal counts are refused')
        if 'foralls' in c.extra:
            seqs.instantiate('g'); c.prove(a.seq.elem('g').e != b.seq.elem('g').e, 'a pair of equal qubits does not pass')
        elif not any(isinstance(t, str) and t.startswith('loop') for t in c.desc): c.require(False, 'a pair of equal qubits does not pass', 'no check of the pairs')
        if not isinstance(out, SymSeq): raise Unsupported('result of another kind')
        e = out.elem('g')
        c.require(isinstance(e, tuple) and len(e) == 2 and not out.reversed_ and c.implied(z3.And(e[0].e == a.seq.elem('g').e, e[1].e == b.seq.elem('g').e)), 'the k-th control is paired with the k-th target')
        c.prove(out.slen().e == la.e, 'every control and target is used')
        c.require(all(x is n for x in c.extra['asked']), 'both are resolved for the size of the register')
    def conc(k, m):
        def go():
            c = cur(); n = register_n()
            xs = [ivar('c%d' % i) for i in range(k)]; ys = [ivar('t%d' % i) for i in range(m)]
            a, b = Half('control'), Half('target')
            object.__setattr__(a, 'seq', iter(xs)); object.__setattr__(b, 'seq', iter(ys))
            try: out = list(gate.qubit_pairs((a, b), n))
            except ValueError:
                c.prove(z3.BoolVal(True) if k != m else z3.Or(*[x.e == y.e for x, y in zip(xs, ys)]) if k else z3.BoolVal(False), 'refused only for unequal counts or a pair of equal qubits'); return
            c.require(k == m, 'unequal counts are refused')
            if k == m:
                c.prove(z3.And(*[x.e != y.e for x, y in zip(xs, ys)]), 'a pair of equal qubits does not pass')
                c.require(len(out) == k and all(p[0] is x and p[1] is y for p, x, y in zip(out, xs, ys)), 'the k-th control is paired with the k-th target')
        return go
    stub(gate, 'slicing', mk)
    try:
        run_explore(led, 'qubit_pairs', path)
        for k, m in ((0, 0), (1, 1), (2, 2), (1, 0), (0, 1), (1, 2), (3, 2)): run_explore(led, 'qubit_pairs[%d, %d]' % (k, m), conc(k, m))
        def shape():
            c = cur(); n = register_n()
            h = [half('h%d' % i, n) for i in range(3)]
            bad = [h[0], (), (h[0],), tuple(h), 3, None, [h[0], h[1]]]
            b = bad[c.choose(len(bad), 'argument')]
            try: gate.qubit_pairs(b, n)
            except (ValueError, TypeError): c.require(True, 'anything but a pair is refused'); return
            c.require(False, 'anything but a pair is refused', repr(b))
        run_explore(led, 'qubit_pairs(other)', shape)
    finally:
        for m in list(sys.modules.values()):
            if m is not None and getattr(m, '__name__', '').split('.')[0] == 'blueqat':
                for k, v in list(vars(m).items()):
                    if getattr(v, 'vx_orig', None) is orig: setattr(m, k, orig)

def spec_max(a):
    """largest index the argument names"""
    if isinstance(a, SymSlice):
        s = z3.IntVal(-1) if a.start is None else a.start.e
        e = z3.IntVal(-1) if a.stop is None else a.stop.e - 1
        return z3.If(s >= e, s, e)
    return a.e
def clamp(e): return z3.If(e < -1, z3.IntVal(-1), e)     # what is below -1 does not matter to the register
def ze(v): return v.e if isinstance(v, SInt) else z3.IntVal(v)
def sizes(led):
    gate = sys.modules['blueqat.gate']
    def one():
        c = cur(); a = arg('a')
        m = gate.get_maximum_index(a)
        c.prove(clamp(ze(m)) == clamp(spec_max(a)), 'largest index named')
    run_explore(led, 'get_maximum_index(one argument)', one)
    def many():
        c = cur(); memo = {}
        def el(tag):
            if tag not in memo: memo[tag] = arg(tag)
            return memo[tag]
        sq = SymSeq('args', el); sq.pytype = tuple
        m = gate.get_maximum_index(sq)
        if c.implied(sq.slen().e == 0): c.prove(clamp(ze(m)) == -1, 'no argument names nothing'); return
        if 'foralls' not in c.extra or 'extremum' not in memo: raise Unsupported('not a maximum over the arguments')
        c.prove(clamp(ze(m)) == clamp(spec_max(memo['extremum'])), 'the largest index is that of one of the arguments')
        g = el('g')
        seqs.instantiate('g')
        c.prove(clamp(ze(m)) >= clamp(spec_max(g)), 'no argument names a larger index')
    run_explore(led, 'get_maximum_index(tuple)', many)
    def conc(k):
        def go():
            c = cur(); args = tuple(arg(str(i)) for i in range(k))
            m = gate.get_maximum_index(args)
            e = z3.IntVal(-1)
            for a in args: e = z3.If(spec_max(a) > e, spec_max(a), e)
            c.prove(clamp(ze(m)) == e, 'largest index named')
        return go
    for k in (0, 1, 2): run_explore(led, 'get_maximum_index(tuple of %d)' % k, conc(k))
    def bad():
        c = cur()
        bads = ['x', 1.5, None, [0], (0, 'x'), (1.5,), {}, (None,)]
        b = bads[c.choose(len(bads), 'argument')]
        try: gate.get_maximum_index(b)
        except (TypeError, AttributeError, ValueError): c.require(True, 'anything else is refused'); return
        c.require(False, 'anything else is refused', repr(b))
    run_explore(led, 'get_maximum_index(other)', bad)
    orig = gate.get_maximum_index
    class G(Opaque):
        def __init__(self, tag): Opaque.__init__(self, 'gate.' + tag); object.__setattr__(self, 'targets', Opaque('targets.' + tag)); object.__setattr__(self, 'tag', tag)
    def mk(o):
        def get_maximum_index(t):
            v = ivar('max.' + t.vx_name); cur().assume(v.e >= -1); return v
        return get_maximum_index
    gate.get_maximum_index = mk(orig)
    try:
        def find():
            c = cur(); memo = {}
            def el(tag): return memo.setdefault(tag, G(tag))
            sq = SymSeq('gates', el); sq.pytype = list
            r = gate.find_n_qubits(sq)
            if c.implied(sq.slen().e == 0): c.prove(ze(r) == 0, 'no gate needs no qubit'); return
            if 'foralls' not in c.extra or 'extremum' not in memo: raise Unsupported('not a maximum over the gates')
            c.prove(ze(r) == z3.Int('max.targets.extremum') + 1, 'one more than the largest index')
            el('g'); seqs.instantiate('g'); c.assume(z3.Int('max.targets.g') >= -1)
            c.prove(ze(r) >= z3.Int('max.targets.g') + 1, 'every gate fits')
        run_explore(led, 'find_n_qubits', find)
    finally: gate.get_maximum_index = orig

def iters(led):
    """the gates resolve their own targets for the register given"""
    gate = sys.modules['blueqat.gate']
    calls = []
    so, po = gate.slicing, gate.qubit_pairs
    res = Opaque('resolved')
    gate.slicing = lambda a, length: (calls.append(('s', a, length)), res)[1]
    gate.qubit_pairs = lambda a, length: (calls.append(('p', a, length)), res)[1]
    try:
        def one():
            c = cur(); del calls[:]
            t, n = Opaque('targets'), Opaque('n')
            r = gate.XGate(t).target_iter(n)
            c.require(r is res and len(calls) == 1 and calls[0][0] == 's' and calls[0][1] is t and calls[0][2] is n, 'resolves its own targets')
        run_explore(led, 'OneQubitGate.target_iter', one)
        def two():
            c = cur(); del calls[:]
            t, n = Opaque('targets'), Opaque('n')
            r = gate.CXGate(t).control_target_iter(n)
            c.require(r is res and len(calls) == 1 and calls[0][0] == 'p' and calls[0][1] is t and calls[0][2] is n, 'pairs its own targets')
        run_explore(led, 'TwoQubitGate.control_target_iter', two)
    finally: gate.slicing, gate.qubit_pairs = so, po

def run(led, tier='quick'):
    loader.fresh(); loader.load('blueqat')
    gate = loader.load('blueqat.gate')
    single(led); slicing(led); pairs(led); sizes(led); iters(led)
    grow(led)
    for f, w in (('slicing_singlevalue', 'any integer in range, any slice, any register size'), ('slicing', 'any tuple of arguments'), ('qubit_pairs', 'any two argument lists'), ('get_maximum_index', 'any argument, any tuple'),
                 ('find_n_qubits', 'any list of gates'), ('OneQubitGate.target_iter', 'any'), ('TwoQubitGate.control_target_iter', 'any')):
        led.functions['blueqat.gate.' + f] = w
    led.functions['blueqat.circuit._GateWrapper.__getitem__'] = 'register size'
    led.need = 60
def grow(led):
    gate = sys.modules['blueqat.gate']; cm = sys.modules['blueqat.circuit']
    def path():
        c = cur(); n = register_n()
        k = cm.Circuit(n)
        a = arg('a')
        class Cl:
            vx_static = True
            def __init__(self, t): self.t = t
        cm._GateWrapper(k, 'g', Cl)[a]
        m = spec_max(a) + 1
        c.prove(ze(k.n_qubits) == z3.If(m > n.e, m, n.e), 'the smallest size, not below the present one, which holds the argument')
    run_explore(led, 'Circuit: size of the register', path)
ASSUMPTIONS = ['slice.indices and range behave as the language reference defines (the definition is given to the solver as a formula).', 'Valid means: integers in -n..n-1; a tuple inside a tuple is not valid.']
