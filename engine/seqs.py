"""Symbolic sequences and the loop rule.

A `for` loop over a sequence of unknown length is cut at its head: the engine explores
the abstract states the head can be in (which arrays the loop variables name, and
whether each array's content is the ghost fold of the elements seen so far, is
unchanged since entry, or is arbitrary), executing the real body once from each with a
generic element, until no new state appears; the code after the loop runs from every
state reached.  This is an inductive invariant found by exploration; the only thing the
contract supplies is the step law of the ghost fold.
"""
import z3, types
from .alg import Alg, Unsupported
from . import alg, core
from .core import SInt, SBool, Infeasible, cur

class Poison:
    """a local left over from an earlier iteration; any use makes the proof undecided"""
    def __init__(self, nm): object.__setattr__(self, 'nm', nm)
    def _bad(self, *a, **k): raise Unsupported('use of %s left over from an earlier iteration' % object.__getattribute__(self, 'nm'))
    __getattr__ = __setattr__ = __call__ = __getitem__ = __setitem__ = __iter__ = __len__ = __bool__ = _bad
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __and__ = __rand__ = __or__ = __ror__ = _bad
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __truediv__ = __rtruediv__ = __invert__ = __neg__ = _bad
    __imul__ = __iadd__ = __isub__ = __iand__ = __ior__ = _bad
    __hash__ = None

class EndPath(Infeasible):
    pass

class SymSeq:
    """A sequence of symbolic length.  elem(tag) makes a generic element; `tag`
    distinguishes the generic elements a proof needs."""
    is_symseq = True
    len_of = None
    def __init__(self, name, elem, length=None, reversed_=False, spec=None, src=None):
        self.name = name; self.elem = elem; self.length = length
        self.reversed_ = reversed_; self.spec = spec; self.src = self if src is None else src
    def __iter__(self): raise Unsupported('iteration over the symbolic sequence %s outside an instrumented loop' % self.name)
    def __len__(self): raise Unsupported('len of symbolic sequence')
    def slen(self):
        if self.length is None and self.len_of is not None: return self.len_of.slen()
        if self.length is None: self.length = core.ivar('len_' + self.name); cur().assume(self.length.e >= 0)
        return self.length
    def __bool__(self):
        return bool(self.slen() > 0)
    def rev(self):
        s = SymSeq(self.name, self.elem, self.length, not self.reversed_, self.spec, self.src); s.len_of = self
        return s
    def mapped(self, f, name=None):
        s = SymSeq(name or self.name + '.map', lambda tag: f(self.elem(tag)), self.length, self.reversed_, self.spec, self.src); s.len_of = self
        return s
    def __getitem__(self, i):
        if isinstance(i, slice) and i.start is None and i.stop is None:
            if i.step == -1: return self.rev()
            if i.step in (None, 1): return self
        raise Unsupported('indexing symbolic sequence')
    def __repr__(self): return 'SymSeq(%s)' % self.name

class SymRepeat:
    """[v] * n"""
    def __init__(self, item, n): self.item = item; self.n = n
    def __iter__(self): raise Unsupported('iteration over [v]*n')

class FoldSeg:
    """A run of list items: chunk(e) for each element e of seq, in order."""
    vx_run = True
    def __init__(self, seq, elem, items): self.seq = seq; self.elem = elem; self.items = items
    def __repr__(self): return 'FoldSeg(%s: %r)' % (self.seq.name, getattr(self, 'alternatives', None))
class HeadSeg:
    vx_run = True
    """items collected by the iterations before the current one"""
    def __init__(self, lp): self.lp = lp

class ConcreteLoop:
    rebind = False
    def __init__(self, it): self.it = iter(it)
    def head(self, loc):
        try: self.item = next(self.it)
        except StopIteration: return False
        return True

class PlainWhile:
    env = {}
    done = False
    def head(self, loc): pass
    def exit(self): self.done = True

class WhileLoop:
    """A `while` loop with symbolic test.  Probing the body once from an arbitrary state
    finds what each iteration adds to every number it assigns; a number v always changed by
    the same loop-invariant d is v0 + k*d at the head of iteration k, anything else is
    arbitrary there.  Then the body and the exit run from the head of an arbitrary
    iteration k (found in self.k)."""
    def __init__(self, ident, names): self.ident = ident; self.names = names; self.env = {}; self.entered = False; self.done = False
    def head(self, loc):
        c = cur()
        self.env = {}
        if not self.entered:
            self.entered = True
            occ = c.extra.setdefault('loop_occ', {})
            n = occ.get(self.ident, 0); occ[self.ident] = n + 1
            self.key = ('while', self.ident, n, tuple(c.trace[:c.pos]))
            new = self.key not in c.store
            tab = self.tab = c.store.setdefault(self.key, {})
            if c.pos >= len(c.trace):
                c.trace.append(0); c.deferred.append(c.trace[:c.pos] + [1])
            self.real = c.trace[c.pos] == 1; c.pos += 1
            c.desc.append('while %s %s' % (self.ident, 'iteration k' if self.real else 'probe'))
            vals = {}
            for nm in self.names:
                if nm not in loc: continue
                v = loc[nm]
                if isinstance(v, bool) or not isinstance(v, (int, float, Alg, SInt)): raise Unsupported('%s is changed in a while loop' % nm)
                vals[nm] = v
            self.vals = vals
            self.heap0 = heap_of(loc)
            if not self.real:
                c.extra['probe'] = True
                for nm, v in vals.items(): self.env[nm] = self._fresh(nm, v)
                for nm in self.names:
                    if nm not in vals: self.env[nm] = Poison(nm)
                self.start = dict(self.env)
                return
            c.extra['abstract'] = True
            self.k = core.ivar(c.fresh('k')); c.assume(self.k.e >= 0)
            c.extra.setdefault('iters', []).append(self)
            for nm, v in vals.items():
                d = tab.get(nm)
                if d is None or d == 'any': self.env[nm] = self._fresh(nm, v) if d == 'any' else v
                elif isinstance(d, SInt): self.env[nm] = (SInt(d.lift(v)) if isinstance(v, int) else v) + d * self.k
                else: self.env[nm] = Alg.of(v) + d * Alg.of(self.k)
            for nm in self.names:
                if nm not in vals: self.env[nm] = Poison(nm)
            self.at_head = dict(self.env)
            h = c.extra.get('while_head')
            if h: h(self)
            return
        if heap_of({k: v for k, v in loc.items() if k in self.heap0[0]}) != self.heap0: raise Unsupported('a while loop changes something other than numbers')
        if not self.real:
            for nm in self.vals:
                a, b = self.start[nm], loc.get(nm)
                if b is a: continue
                d = None
                if isinstance(a, SInt) and isinstance(b, (int, SInt)):
                    e = z3.simplify(SInt(a.lift(b)).e - a.e)
                    if not any(x.eq(s.e) for s in self.start.values() if isinstance(s, SInt) for x in consts(e)): d = SInt(e)
                elif isinstance(a, Alg) and isinstance(b, (int, float, Alg)):
                    e = Alg.of(b) - a
                    if not any(s.syms() & e.syms() for s in self.start.values() if isinstance(s, Alg)): d = e
                old = self.tab.get(nm)
                if d is None or (old is not None and (old == 'any' or not same_scalar(old, d))): self.tab[nm] = 'any'
                elif old is None: self.tab[nm] = d
            # a variable left alone on this path but changed on another is not linear
            for nm in self.vals:
                if loc.get(nm) is self.start[nm]: self.tab.setdefault(('kept', nm), True)
                if self.tab.get(('kept', nm)) and nm in self.tab: self.tab[nm] = 'any'
            raise EndPath()
        h = cur().extra.get('while_end')
        if h: h(self, loc)
        raise EndPath()
    def _fresh(self, nm, v):
        n = cur().fresh('while.' + nm)
        if isinstance(v, SInt) and v.isbv: return core.bvar(n)
        if isinstance(v, (SInt, int)): return core.ivar(n)
        return alg.rsym(n)
    def exit(self):
        self.done = True
        if not self.real: raise EndPath()

def heap_of(loc):
    """what the mutable things reachable from the local variables hold"""
    from .arrays import SymArr
    out = {}; seen = set()
    def visit(path, v, depth):
        if isinstance(v, PLAIN) or isinstance(v, (SInt, Alg, SBool, Poison)) or getattr(v, 'vx_static', False): return
        if id(v) in seen or depth > 6: return
        seen.add(id(v))
        if isinstance(v, SymArr): out[path] = ('arr', id(v), v.version)
        elif isinstance(v, list):
            out[path] = ('list', id(v), tuple(id(x) for x in _raw(v)))
            for i, x in enumerate(_raw(v)[:50]): visit(path + ('#%d' % i,), x, depth + 1)
        elif isinstance(v, tuple) and type(v) is tuple:
            for i, x in enumerate(v): visit(path + ('#%d' % i,), x, depth + 1)
        elif isinstance(v, dict): out[path] = ('dict', id(v), tuple((id(k), id(x)) for k, x in v.items()))
        elif tracked(v):
            out[path] = ('obj', id(v), tuple(sorted((k, id(x)) for k, x in vars(v).items())))
            for k in sorted(vars(v)): visit(path + (k,), vars(v)[k], depth + 1)
    names = set()
    for k in sorted(loc):
        if k.startswith('_vx_'): continue
        names.add(k); visit((k,), loc[k], 0)
    return (names, {p: v for p, v in out.items()})

def consts(e):
    out = []; seen = set()
    def go(x):
        if x.get_id() in seen: return
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x)
        for y in x.children(): go(y)
    go(e)
    return out

# quantifiers and extrema over sequences of unknown length: a witness where there is one,
# a recorded universal fact where there is none
def instantiate(tag, src=None):
    """assume the recorded universal facts for the element with this tag"""
    for s, fact in list(cur().extra.get('foralls', [])):
        if src is None or s.src is src or s is src: fact(tag)
def seq_any(it):
    c = cur()
    if c.choose(2, 'some element of %s' % it.name) == 0:
        c.assume(it.slen().e >= 1)
        if not bool(it.elem('witness')): raise Infeasible()
        return True
    def fact(tag):
        if bool(it.elem(tag)): raise Infeasible()
    c.extra.setdefault('foralls', []).append((it, fact))
    return False
def seq_all(it):
    c = cur()
    if c.choose(2, 'every element of %s' % it.name) == 1:
        c.assume(it.slen().e >= 1)
        if bool(it.elem('witness')): raise Infeasible()
        return False
    def fact(tag):
        if not bool(it.elem(tag)): raise Infeasible()
    c.extra.setdefault('foralls', []).append((it, fact))
    return True
def seq_minmax(name, it, k):
    if set(k) - {'default'}: raise Unsupported('%s with key' % name)
    c = cur()
    n = it.slen()
    if not (n > 0):
        if 'default' in k: return k['default']
        raise ValueError('%s() arg is an empty sequence' % name)
    m = it.elem('extremum')
    def fact(tag):
        x = it.elem(tag)
        if not ((x <= m) if name == 'max' else (x >= m)): raise Infeasible()
    c.extra.setdefault('foralls', []).append((it, fact))
    return m

PLAIN = (int, float, complex, str, bytes, bool, type(None), type, types.FunctionType,
         types.BuiltinFunctionType, types.MethodType, types.ModuleType, types.MethodWrapperType, range)

def tracked(v):
    m = type(v).__module__ or ''
    return hasattr(v, '__dict__') and (m.split('.')[0] == 'blueqat' or getattr(type(v), 'vx_tracked', False))

class SymLoop:
    """One symbolic-length loop on one path."""
    rebind = True
    def __init__(self, seq, ident):
        self.seq = seq; self.ident = ident
        self.entered = False; self.F = None
        self.env = {}
    # -- abstract states
    def head(self, loc):
        c = cur()
        if not self.entered:
            self.entered = True
            c.extra['abstract'] = True
            c.extra.setdefault('symloops', []).append(self)
            self.spec = c.extra.get('loop_spec', lambda lp: None)(self)
            occ = c.extra.setdefault('loop_occ', {})
            k = occ.get(self.ident, 0); occ[self.ident] = k + 1
            self.key = ('loop', self.ident, k, tuple(c.trace[:c.pos]))
            self.pos0 = c.pos
            table = c.store.setdefault(self.key, [])
            self.table = table
            self.entry = Snapshot(loc, self)
            if self.spec: self.spec.enter(self, loc)
            d0 = self.entry.describe(self, initial=True)
            if not table:
                table.append(d0)
                if c.pos >= len(c.trace):
                    c.deferred.append(c.trace[:c.pos] + [1])
            code = self._code(c)
            self.state = code // 2
            desc = table[self.state]
            self.has_fold = any(d[1] == 'arr' and d[3] == 'F' for d in desc)
            mode = 'exit' if code % 2 else 'body'
            c.desc.append('loop %s state %d %s' % (self.ident, self.state, mode))
            self.entry.concretize(self, desc, mode, loc)
            if mode == 'exit':
                return False
            self.item = self.spec.element(self) if self.spec and hasattr(self.spec, 'element') else self.seq.elem('k')
            self.elem_used = self.item
            return True
        # end of the body
        snap = Snapshot(loc, self)
        desc = snap.describe(self, initial=False, before=self.entry)
        if self.spec and hasattr(self.spec, 'body_done'): self.spec.body_done(self, snap)
        if desc not in self.table:
            if len(self.table) > 12: raise Unsupported('loop state does not stabilise: ' + self.ident)
            self.table.append(desc)
            j = len(self.table) - 1
            c.deferred.append(c.trace[:self.pos0] + [2 * j + 1])
            c.worklist.append(c.trace[:self.pos0] + [2 * j])
        raise EndPath()
    def _code(self, c):
        if c.pos < len(c.trace): code = c.trace[c.pos]
        else: code = 0; c.trace.append(0)
        c.pos += 1
        return code

class Snapshot:
    """The part of the heap reachable from the local variables at a loop head."""
    def __init__(self, loc, lp):
        self.slots = []      # (path, value)
        self.objs = {}
        self.loc = dict(loc)
        seen = set()
        def visit(path, v, depth):
            if isinstance(v, SymLoop) or isinstance(v, ConcreteLoop) or isinstance(v, PLAIN): return
            if isinstance(v, Poison):
                self.slots.append((path, v)); return
            if getattr(v, 'vx_static', False): return
            self.slots.append((path, v))
            if id(v) in seen: return
            seen.add(id(v))
            if depth > 6: return
            if isinstance(v, list):
                return
            if isinstance(v, tuple):
                for i, x in enumerate(tuple.__getitem__(v, slice(None))): visit(path + ('#%d' % i,), x, depth + 1)
                return
            if tracked(v):
                self.objs[path] = v
                for k in sorted(vars(v)): visit(path + (k,), vars(v)[k], depth + 1)
        for k in sorted(loc):
            if k.startswith('_vx_'): continue
            visit((k,), loc[k], 0)
        # plain values held in local variables and tracked objects
        self.plain = []
        for k in sorted(loc):
            if not k.startswith('_vx_') and isinstance(loc[k], (int, float, complex, str, bool, type(None))):
                self.plain.append(((k,), loc[k]))
        for p, o in self.objs.items():
            for k in sorted(vars(o)):
                v = vars(o)[k]
                if isinstance(v, (int, float, complex, str, bool, type(None))): self.plain.append((p + (k,), v))
    def describe(self, lp, initial, before=None):
        from .arrays import SymArr
        num = {}; out = []
        itemids = set()
        if not initial:
            it = lp.item
            for x in (it if isinstance(it, tuple) else (it,)): itemids.add(id(x))
        entryvals = dict(lp.entry.slots)
        for path, v in self.slots:
            if path[0] in lp.loopvars: continue
            if isinstance(v, SymArr):
                if id(v) not in num:
                    num[id(v)] = (len(num), v.classify(lp, initial))
                out.append((path, 'arr') + num[id(v)])
            elif isinstance(v, list):
                if id(v) not in num: num[id(v)] = (len(num), self._list_tag(lp, path, v, initial))
                out.append((path, 'list') + num[id(v)])
            elif isinstance(v, (SInt, Alg, SBool)):
                if initial: tag = 'entry'
                else:
                    e = entryvals.get(path)
                    tag = 'entry' if e is not None and same_scalar(e, v) else 'any'
                if tag == 'any': tag = 'any-' + type(v).__name__
                out.append((path, 'num', tag))
            elif isinstance(v, Poison):
                out.append((path, 'obj', 'new'))
            elif hasattr(v, 'vx_classify'):
                if id(v) not in num: num[id(v)] = (len(num), v.vx_classify(lp, initial))
                out.append((path, 'ghost') + num[id(v)])
            elif isinstance(v, tuple):
                out.append((path, 'tuple', tuple.__len__(v)))
            else:
                # identity of everything else must not change
                out.append((path, 'obj', 'entry' if entryvals.get(path) is v or initial else 'new'))
        for path, v in self.plain:
            if path[0] in lp.loopvars: continue
            out.append((path, 'plain', repr(v)))
        return tuple(out)
    def _list_tag(self, lp, path, v, initial):
        if initial:
            lp.entry_lists = getattr(lp, 'entry_lists', {})
            lp.entry_lists[path] = (v, _raw(v))
            return 'entry'
        old = lp.head_lists.get(id(v))
        if old is None: return 'new'
        head = old
        vv = _raw(v)
        if len(vv) >= len(head) and all(a is b for a, b in zip(head, vv)):
            new = vv[len(head):]
            st = cur().store.setdefault(('chunk',) + lp.key, {})
            st.setdefault(path, []).append((lp.state, lp.elem_used, [tok(x) for x in new], list(cur().pc)))
            return 'fold' if new else lp.head_tags[id(v)]
        return 'any'
    def concretize(self, lp, desc, mode, loc):
        """put the heap and the locals in the described state"""
        from .arrays import SymArr
        c = cur()
        arrs = {}
        lp.head_lists = {}; lp.head_tags = {}
        lp.env = {}
        entryvals = dict(self.slots)
        newvals = {}
        # which entry object each array of the state reuses
        pick = {}; used = {}
        for d in desc:
            if d[1] != 'arr': continue
            path, j = d[0], d[2]
            if len(path) == 1 and path[0] not in lp.rebound and path in entryvals:
                o = entryvals[path]
                if pick.get(j, o) is not o or used.get(id(o), j) != j: raise Unsupported('aliasing of a loop-invariant local')
                pick[j] = o; used[id(o)] = j
        for d in desc:
            if d[1] != 'arr': continue
            path, j, tag = d[0], d[2], d[3]
            o = entryvals.get(path)
            if j in pick or o is None: continue
            if id(o) in used:
                if tag == 'entry': raise Unsupported('entry array reused')
                continue
            pick[j] = o; used[id(o)] = j
        for d in desc:
            path, kind = d[0], d[1]
            if kind == 'arr':
                j, tag = d[2], d[3]
                if j not in arrs:
                    arrs[j] = SymArr.concretize(lp, j, tag, mode, pick.get(j))
                newvals[path] = arrs[j]
            elif kind == 'list':
                j, tag = d[2], d[3]
                v = entryvals.get(path)
                if v is None: raise Unsupported('a list made inside the loop is live at its head')
                if ('l', j) not in arrs:
                    arrs['l', j] = v
                    ent = lp.entry_lists[path][1]
                    if tag not in ('entry', 'fold'): raise Unsupported('list rewritten inside a symbolic loop')
                    if mode == 'body':
                        if tag == 'fold': list.__setitem__(v, slice(None), ent + [HeadSeg(lp)])
                    else:
                        st = c.store.get(('chunk',) + lp.key, {}).get(path, [])
                        if any(items for _, _, items, _ in st):
                            seg = FoldSeg(lp.seq, None, None)
                            seg.alternatives = list(st)
                            list.__setitem__(v, slice(None), ent + [seg])
                newvals[path] = arrs['l', j]
                lp.head_lists[id(v)] = _raw(v); lp.head_tags[id(v)] = tag
            elif kind == 'num':
                tag = d[2]
                if tag == 'entry': newvals[path] = entryvals.get(path)
                else:
                    nm = c.fresh('havoc.' + '.'.join(path))
                    if tag == 'any-SInt':
                        e = entryvals.get(path)
                        newvals[path] = core.bvar(nm) if isinstance(e, SInt) and e.isbv else core.ivar(nm)
                    elif tag == 'any-Alg': newvals[path] = alg.csym(nm)
                    else: newvals[path] = SBool(z3.Bool(nm))
            elif kind == 'ghost':
                j, tag = d[2], d[3]
                v = entryvals.get(path)
                if v is None: raise Unsupported('ghost object made in loop')
                if ('g', j) not in arrs: arrs['g', j] = v.vx_concretize(lp, tag, mode)
                newvals[path] = arrs['g', j]
            elif kind == 'obj':
                if d[2] == 'new':
                    if len(path) == 1: newvals[path] = Poison('.'.join(path))
                    elif path[-1].startswith('#') or (len(path) > 1 and isinstance(newvals.get(path[:1]), Poison)): pass
                    else: raise Unsupported('object %s is replaced inside a symbolic loop' % '.'.join(path))
            elif kind == 'plain':
                ent = dict(self.plain).get(path, _NO)
                if ent is _NO or repr(ent) != d[2]:
                    import ast
                    try: newvals[path] = ast.literal_eval(d[2])
                    except Exception: raise Unsupported('plain value ' + d[2])
        objs = dict(self.objs)
        for path, v in newvals.items():
            if len(path) == 1: lp.env[path[0]] = v
            elif path[-1].startswith('#'):
                if entryvals.get(path) is not v and not isinstance(v, list): raise Unsupported('tuple content changes in loop')
            else:
                o = objs.get(path[:-1])
                if o is not None: object.__setattr__(o, path[-1], v) if False else vars(o).__setitem__(path[-1], v)
        # variables named at the head in this state but not at entry stay as they are

class TokStr(str):
    """text with the symbolic values its placeholders stand for"""
def tok(x):
    if type(x) is str and '\u27e6' in x:
        x = TokStr(x); x.tokens = dict(cur().tokens)
    return x
def _raw(l): return list.__getitem__(l, slice(None))
_NO = object()
def same_scalar(a, b):
    if a is b: return True
    if type(a) is not type(b): return False
    if isinstance(a, Alg): return (a - b).is_zero()
    if isinstance(a, SInt): return a.isbv == b.isbv and cur().implied(a.e == b.e)
    if isinstance(a, SBool): return cur().implied(a.e == b.e)
    return False
