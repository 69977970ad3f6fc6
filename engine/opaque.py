"""Opaque values: things the code under verification may only pass around.

Whatever else it does with one (arithmetic, length, iteration, attributes) is outside the
verifier's reach and leaves the obligation undecided; comparing two of them or testing
the truth of one forks, since either answer is possible."""
import z3
from .alg import Alg, Unsupported
from . import core, seqs
from .core import SInt, SBool, cur

def either(key, label):
    """an undetermined yes/no answer, the same one every time it is asked on this path"""
    c = cur()
    tab = c.extra.setdefault('either', {})
    if key not in tab: tab[key] = (c.choose(2, label) == 0, )
    return tab[key][0]

class Opaque:
    vx_static = True
    def __init__(self, name): object.__setattr__(self, 'vx_name', name)
    def _bad(self, *a, **k): raise Unsupported('the code looks into the opaque value %s' % object.__getattribute__(self, 'vx_name'))
    __call__ = __getitem__ = __setitem__ = __iter__ = __len__ = __contains__ = _bad
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __and__ = __rand__ = __or__ = __ror__ = _bad
    __lt__ = __le__ = __gt__ = __ge__ = __truediv__ = __rtruediv__ = __invert__ = __neg__ = __hash__ = _bad
    __int__ = __float__ = __index__ = __next__ = __enter__ = __exit__ = __delitem__ = _bad
    __iadd__ = __isub__ = __imul__ = __copy__ = __deepcopy__ = __reduce__ = __reduce_ex__ = _bad
    def __getattr__(self, n):
        if n.startswith('vx_') or (n.startswith('__') and n.endswith('__')): raise AttributeError(n)
        self._bad()
    def __setattr__(self, n, v): self._bad()
    def __bool__(self): return either(('truth', id(self)), '%s is true' % self.vx_name)
    def __eq__(self, o):
        if self is o: return True
        return either(('eq',) + tuple(sorted((id(self), id(o)))), '%s == %r' % (self.vx_name, o))
    def __ne__(self, o): return not self.__eq__(o)
    def __repr__(self): return '<%s>' % self.vx_name
    def __str__(self): return core.token(self)
    def __format__(self, spec): return core.token(self)

class OName(str):
    """an arbitrary name (a string): may be put into larger names; comparing it with
    another string forks"""
    vx_static = True
    n = 0
    def __new__(cls, label, key=None, pre='', base=None):
        if key is None:
            OName.n += 1; key = OName.n
        s = str.__new__(cls, pre + '\ue000%s\ue001' % key)
        s.label = label; s.pre = pre; s.base = base; s.key = pre + str(key)
        return s
    @property
    def mark(self): return str.__str__(self)
    def _bad(self, *a, **k): raise Unsupported('the code looks into the arbitrary name %s' % self.label)
    endswith = __len__ = __iter__ = __contains__ = __lt__ = __gt__ = __le__ = __ge__ = _bad
    find = split = lower = upper = strip = replace = index = count = join = partition = removesuffix = isalpha = encode = isidentifier = isdigit = _bad
    __hash__ = _bad
    __mul__ = __rmul__ = __mod__ = _bad
    def __eq__(self, o):
        if self is o: return True
        if not isinstance(o, str): return False
        return either(('name', self.key, o.key if isinstance(o, OName) else str.__str__(o)), '%s == %r' % (self.label, str.__str__(o)))
    def __ne__(self, o): return not self.__eq__(o)
    def __radd__(self, o):
        if type(o) is not str: self._bad()
        b = self.base if self.base is not None else self
        return OName('%r + %s' % (o, self.label), b.key, o + self.pre, b)
    def startswith(self, p, *a):
        if a or type(p) is not str: self._bad()
        if self.pre.startswith(p): return True
        if self.pre and not p.startswith(self.pre): return False
        return either(('startswith', self.key, p), '%s starts with %r' % (self.label, p))
    def __getitem__(self, i):
        if isinstance(i, slice) and i.stop is None and i.step in (None, 1) and self.base is not None and i.start == len(self.pre): return self.base
        self._bad()
    def removeprefix(self, p):
        if self.base is not None and p == self.pre: return self.base
        self._bad()
    def __add__(self, o): return str.__add__(str.__str__(self), str.__str__(o))
    def __str__(self): return str.__str__(self)
    def __format__(self, spec): return str.__str__(self)
    def __bool__(self): return True
    def __copy__(self): return self
    def __deepcopy__(self, m): return self

# ---------------------------------------------------------------- lists of unknown content
class Seg(Opaque):
    """an unknown run of list items"""
    vx_run = True
    def __init__(self, name, elem=None):
        Opaque.__init__(self, name)
        object.__setattr__(self, 'seq', seqs.SymSeq(name, elem or (lambda tag: Opaque('%s[%s]' % (name, tag)))))
        object.__setattr__(self, 'rev', False)
    def empty(self): return either(('empty', id(self.seq.src)), '%s is empty' % self.vx_name)

def raw(l):
    """the items (and runs of items) of a list or tuple, without asking it to iterate"""
    if isinstance(l, list): return list.__getitem__(l, slice(None)) if type(l) is not list else l[:]
    if isinstance(l, tuple): return [tuple.__getitem__(l, i) for i in range(tuple.__len__(l))]
    raise Unsupported('items of %r' % type(l))
def has_run(l): return any(isinstance(x, (Seg, seqs.FoldSeg, seqs.HeadSeg)) for x in raw(l))

def _mk(base):
    class G(base):
        vx_glist = True
        def _bad(self, *a, **k): raise Unsupported('the code looks into a list of unknown length')
        def __iter__(self):
            # reached only from native consumers (list.extend, display unpacking, ...), which
            # move items; a loop or comprehension of the code goes through vx_loop / vx_comp
            return iter(raw(self))
        def __len__(self):
            if has_run(self): raise TypeError('list of unknown length')   # native consumers then just iterate; len() is shadowed
            return base.__len__(self)
        def __bool__(self):
            items = raw(self)
            if any(not isinstance(x, (Seg, seqs.FoldSeg, seqs.HeadSeg)) for x in items): return True
            for x in items:
                if not isinstance(x, Seg): self._bad()
                if not x.empty(): return True
            return False
        def __getitem__(self, i):
            if isinstance(i, slice) and i.start is None and i.stop is None:
                if i.step in (None, 1): return type(self)(raw(self))
                if i.step == -1: return type(self)(rev_items(self))
            if has_run(self):
                lead = 0
                for x in raw(self):
                    if getattr(x, 'vx_run', False) or isinstance(x, (seqs.FoldSeg, seqs.HeadSeg)): break
                    lead += 1
                if type(i) is int and 0 <= i < lead: return raw(self)[i]
                if isinstance(i, slice) and i.stop is None and i.step in (None, 1) and type(i.start) is int and 0 <= i.start <= lead: return type(self)(raw(self)[i.start:])
            if has_run(self): self._bad()
            return base.__getitem__(self, i)
        def __add__(self, o):
            if not isinstance(o, base): return NotImplemented
            return type(self)(raw(self) + raw(o))
        def __radd__(self, o):
            if not isinstance(o, base): return NotImplemented
            return type(self)(raw(o) + raw(self))
        if base is list: del __radd__
        def copy(self): return type(self)(raw(self))
        def __copy__(self): return self.copy() if base is list else self
        def __deepcopy__(self, memo): raise Unsupported('deep copy of operations')
        def __contains__(self, x): self._bad()
        def __eq__(self, o):
            if type(o) is base and not o: return not bool(self)
            self._bad()
        def __ne__(self, o): return not self.__eq__(o)
        __lt__ = __le__ = __gt__ = __ge__ = __mul__ = __rmul__ = index = count = _bad
        __hash__ = _bad
        def __reversed__(self): return self.vx_reversed()
        def vx_reversed(self):
            if has_run(self): return GSeq(rev_items(self), self)
            return reversed(raw(self))
        def vx_seq(self, ty):
            return (GList if ty is list else GTuple)(raw(self))
        def vx_loop(self, ident, loopvars, rebound): return GSeq(raw(self), self).vx_loop(ident, loopvars, rebound)
        def vx_comp(self, kind, f, cond, star): return GSeq(raw(self), self).vx_comp(kind, f, cond, star)
        def __repr__(self): return '%s%r' % (type(self).__name__, raw(self))
    return G

class GList(_mk(list)):
    def __iadd__(self, o):
        self.extend(o); return self
    def extend(self, o):
        if isinstance(o, GSeq): list.extend(self, o.items); return
        if not isinstance(o, (list, tuple)): 
            if isinstance(o, seqs.SymSeq): raise Unsupported('extend with a symbolic sequence')
            o = list(o)
        list.extend(self, raw(o))
    def clear(self): list.clear(self)
    def __setitem__(self, i, v):
        if isinstance(i, slice) and i == slice(None): list.__setitem__(self, i, raw(v)); return
        if has_run(self): self._bad()
        list.__setitem__(self, i, v)
    def insert(self, i, v):
        if has_run(self) and i != 0: self._bad()
        list.insert(self, i, v)
    def pop(self, *a):
        items = raw(self)
        if not a and items and not isinstance(items[-1], (Seg, seqs.FoldSeg, seqs.HeadSeg)): return list.pop(self)
        if has_run(self): self._bad()
        return list.pop(self, *a)
    def remove(self, x): self._bad()
    def sort(self, *a, **k): self._bad()
    def reverse(self): list.__setitem__(self, slice(None), rev_items(self))
    def __delitem__(self, i):
        if isinstance(i, slice) and i == slice(None): list.clear(self); return
        self._bad()
class GTuple(_mk(tuple)):
    def __new__(cls, items=()):
        return tuple.__new__(cls, items)

def rev_items(l):
    out = []
    for x in reversed(raw(l) if not isinstance(l, GSeq) else l.items):
        if hasattr(type(x), 'turned'): out.append(x.turned())
        elif isinstance(x, Seg):
            r = Seg.__new__(Seg); Opaque.__init__(r, x.vx_name)
            object.__setattr__(r, 'seq', x.seq.rev()); object.__setattr__(r, 'rev', not x.rev)
            out.append(r)
        elif isinstance(x, (seqs.FoldSeg, seqs.HeadSeg)): raise Unsupported('reversing a list built by a loop')
        else: out.append(x)
    return out

class GSeq:
    """an iterator over items and runs"""
    vx_static = True
    def __init__(self, items, src): self.items = list(items); self.src = src
    def __iter__(self): raise Unsupported('iteration over a list of unknown length')
    def vx_seq(self, ty): return (GList if ty is list else GTuple)(self.items)
    def vx_loop(self, ident, loopvars, rebound):
        if not any(isinstance(x, (Seg, seqs.FoldSeg, seqs.HeadSeg)) for x in self.items): return seqs.ConcreteLoop(self.items)
        if len(self.items) == 1 and isinstance(self.items[0], Seg):
            lp = seqs.SymLoop(self.items[0].seq, ident); lp.loopvars = set(loopvars); lp.rebound = set(rebound); return lp
        raise Unsupported('a loop over several runs of items')
    def vx_comp(self, kind, f, cond, star):
        if kind not in ('list', 'gen') or cond is not None: raise Unsupported('comprehension over a list of unknown length')
        out = []
        for x in self.items:
            if isinstance(x, Seg):
                el = x.seq.elem('k')
                out.append(MapSeg(x, el, f(*el) if star else f(el)))
            elif isinstance(x, (seqs.FoldSeg, seqs.HeadSeg, MapSeg)): raise Unsupported('comprehension over a list built by a loop')
            else: out.append(f(*x) if star else f(x))
        return GList(out) if kind == 'list' else GSeq(out, None)
class MapSeg(Seg):
    """f(e) for each element e of a run"""
    def __init__(self, seg, el, item):
        Seg.__init__(self, 'map of ' + seg.vx_name)
        for k, v in (('of', seg), ('el', el), ('item', item), ('rev', seg.rev)): object.__setattr__(self, k, v)
    def empty(self): return self.of.empty()

class Text(Opaque):
    """sep.join(items), some of the items being runs of unknown length"""
    def __init__(self, sep, items):
        Opaque.__init__(self, 'text')
        object.__setattr__(self, 'sep', sep); object.__setattr__(self, 'items', list(items))
    def vx_isinstance(self, t): return t in (str, object, Text)

def content(l):
    """normal form of a list's items: runs known to be empty dropped, runs rebuilt item by
    item recognised"""
    out = []
    for x in (l.items if isinstance(l, GSeq) else raw(l)):
        if isinstance(x, MapSeg):
            if x.item is x.el: out.append(('run', id(x.of.seq.src), x.of.rev))
            else: out.append(('map', x))
        elif isinstance(x, Seg):
            t = cur().extra.get('either', {}).get(('empty', id(x.seq.src)))
            if t is not None and t[0]: continue
            out.append(('run', id(x.seq.src), x.seq.reversed_))
        elif isinstance(x, seqs.FoldSeg):
            if all(len(items) == 1 and items[0] is el for _, el, items, _ in x.alternatives): out.append(('run', id(x.seq.src), x.seq.reversed_))
            else: out.append(('fold', x))
        elif isinstance(x, seqs.HeadSeg): out.append(('head', x))
        else: out.append(('item', x))
    return out
def same_items(a, b):
    a, b = content(a), content(b)
    if len(a) != len(b): return False
    return all(x[0] == y[0] and (x[1] is y[1] if x[0] != 'run' else x[1:] == y[1:]) for x, y in zip(a, b))

class GDict:
    """a table (a dict) of unknown content, keyed by names; remembers what is stored and
    removed.  A table's answer for a name it has not been asked about may be anything."""
    vx_static = True
    def __init__(self, name, value=None):
        self.name = name; self.log = []; self.value = value or (lambda k: Opaque('%s[%s]' % (self.name, k)))
        self.memo = {}
    def k(self, key):
        if isinstance(key, OName): return key.key
        if isinstance(key, str): return key
        if isinstance(key, Opaque): raise Unsupported('an opaque key')
        return ('other', repr(key))
    def state(self, key):
        """(present, value) for a key"""
        k = self.k(key)
        for op, kk, v in reversed(self.log):
            if kk == k: return (op == 'set', v)
            if op == 'clear': return (False, None)
        if either(('in', id(self), k), '%s is in %s' % (key if not isinstance(key, OName) else key.label, self.name)):
            if k not in self.memo: self.memo[k] = self.value(k)
            return (True, self.memo[k])
        return (False, None)
    def __contains__(self, key): return self.state(key)[0]
    def __getitem__(self, key):
        p, v = self.state(key)
        if not p: raise KeyError(key)
        return v
    def get(self, key, d=None):
        p, v = self.state(key)
        return v if p else d
    def __setitem__(self, key, v): self.log.append(('set', self.k(key), v))
    def __delitem__(self, key):
        if not self.state(key)[0]: raise KeyError(key)
        self.log.append(('del', self.k(key), None))
    def pop(self, key, *d):
        p, v = self.state(key)
        if not p:
            if d: return d[0]
            raise KeyError(key)
        self.log.append(('del', self.k(key), None)); return v
    def setdefault(self, key, d=None):
        p, v = self.state(key)
        if p: return v
        self[key] = d; return d
    def update(self, *a, **k):
        if len(a) == 1 and type(a[0]) is dict and not k:
            for x, y in a[0].items(): self[x] = y
            return
        self._bad()
    def _bad(self, *a, **k): raise Unsupported('the code looks into the table %s' % self.name)
    __iter__ = __len__ = __bool__ = keys = values = items = copy = clear = popitem = __eq__ = __or__ = __ror__ = _bad
    __hash__ = None
    def __ior__(self, o): self.update(o); return self
