"""Loads /repo/blueqat for symbolic execution.

Each run parses the current source and rewrites it mechanically before compiling:
  * `for x in E: B else: C` inside a function runs under the loop rule (seqs.py);
  * comprehensions and generator expressions with one `for` go through `_vx_rt.comp`;
  * `while C: B` becomes `while True: head; if not C: break; B` with the loop rule of
    seqs.WhileLoop at the head (a no-op unless the contract asks for it);
  * `s.join(E)` goes through `_vx_rt.join` (lists with a part of unknown length);
  * an empty table `{}` or list `[]` made in a function goes through `_vx_rt.mkdict`/`mklist`;
  * the statement `yield from E` becomes `for v in E: yield v`;
  * `a is b`, `a is not b`, `not a`, `a in b`, `and`/`or` are left alone (SBool.__bool__
    forks), function annotations are dropped.
Nothing else is changed, and names such as `np`, `math`, `isinstance`, `range` resolve to
the shadows in shadows.py, which fall through to the real thing for concrete values.
"""
import ast, sys, os, importlib.abc, importlib.machinery, importlib.util, builtins, types
from . import shadows, seqs, opaque

REPO = os.environ.get('VERIF_REPO', '/repo')

class Rewriter(ast.NodeTransformer):
    def __init__(self, fname): self.fname = fname; self.n = 0; self.fn = []; self.cls = []
    def visit_FunctionDef(self, node):
        for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs: a.annotation = None
        if node.args.vararg: node.args.vararg.annotation = None
        if node.args.kwarg: node.args.kwarg.annotation = None
        node.returns = None
        self.fn.append(node)
        node.body = [self.visit(b) for b in node.body]
        node.body = _flat(node.body)
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        self.fn.pop()
        return node
    def visit_Lambda(self, node):
        return self.generic_visit(node)
    def visit_ClassDef(self, node):
        f, self.fn = self.fn, []
        self.cls.append(node.name)
        node.body = _flat([self.visit(b) for b in node.body])
        self.cls.pop()
        self.fn = f
        return node
    def visit_For(self, node):
        if not self.fn: return self.generic_visit(node)
        node.iter = self.visit(node.iter)
        node.body = _flat([self.visit(b) for b in node.body])
        node.orelse = _flat([self.visit(b) for b in node.orelse])
        self.n += 1
        v = '_vx_lp%d' % self.n
        names = sorted(stored(node.body) | nonlocals(self.fn[-1]))
        ident = '%s:%s' % ('.'.join(self.cls + [f.name for f in self.fn]), self.n)
        tgt = sorted(stored([ast.Assign(targets=[node.target], value=ast.Constant(None))]))
        rebind = [n for n in names if n not in tgt or n in stored(node.body)]
        def rb():
            if not rebind: return []
            body = []
            for n in rebind:
                body += ast.parse('if %r in %s.env: %s = %s.env[%r]' % (n, v, n, v, n)).body
            st = ast.parse('if %s.rebind: pass' % v).body[0]
            st.body = body
            return [st]
        pre = ast.parse('%s = _vx_rt.loop(None, %r, %r, %r%s)' % (v, ident, tuple(tgt), tuple(rebind), ', True' if yields(node) else '')).body[0]
        pre.value.args[0] = node.iter
        loop = ast.parse('while %s.head(locals()): pass' % v).body[0]
        loop.body = rb() + [ast.Assign(targets=[node.target], value=ast.parse('%s.item' % v).body[0].value)] + node.body
        loop.orelse = rb() + node.orelse
        for s in [pre, loop]:
            ast.copy_location(s, node); ast.fix_missing_locations(s)
        return [pre, loop]
    def visit_Call(self, node):
        node = self.generic_visit(node)
        # s.join(items) where items may be a list of unknown length
        if self.fn and isinstance(node.func, ast.Attribute) and node.func.attr == 'join' and len(node.args) == 1 and not node.keywords and not isinstance(node.args[0], ast.Starred):
            call = ast.parse('_vx_rt.join(None, None)').body[0].value
            call.args[0] = node.func.value; call.args[1] = node.args[0]
            ast.copy_location(call, node); ast.fix_missing_locations(call)
            return call
        return node
    def visit_Dict(self, node):
        # an empty table made by the code may become one of unknown content
        if self.fn and not node.keys:
            call = ast.parse('_vx_rt.mkdict()').body[0].value
            ast.copy_location(call, node); ast.fix_missing_locations(call)
            return call
        return self.generic_visit(node)
    def visit_List(self, node):
        if self.fn and not node.elts and isinstance(node.ctx, ast.Load):
            call = ast.parse('_vx_rt.mklist()').body[0].value
            ast.copy_location(call, node); ast.fix_missing_locations(call)
            return call
        return self.generic_visit(node)
    def visit_Expr(self, node):
        # `yield from E` as a statement passes the items of E on, one by one
        if self.fn and isinstance(node.value, ast.YieldFrom):
            self.n += 1
            v = '_vx_yf%d' % self.n
            f = ast.parse('for %s in _vx_rt.yieldfrom(None): yield %s' % (v, v)).body[0]
            f.iter.args[0] = node.value.value
            ast.copy_location(f, node); ast.fix_missing_locations(f)
            return self.visit_For(f)
        return self.generic_visit(node)
    def visit_While(self, node):
        if not self.fn: return self.generic_visit(node)
        node.test = self.visit(node.test)
        node.body = _flat([self.visit(b) for b in node.body])
        node.orelse = _flat([self.visit(b) for b in node.orelse])
        self.n += 1
        v = '_vx_wl%d' % self.n
        names = sorted(stored(node.body) | nonlocals(self.fn[-1]))
        ident = '%s:%s' % ('.'.join(self.cls + [f.name for f in self.fn]), self.n)
        pre = ast.parse('%s = _vx_rt.wloop(%r, %r)' % (v, ident, tuple(names))).body[0]
        head = ast.parse('%s.head(locals())' % v).body
        for nm in names: head += ast.parse('if %r in %s.env: %s = %s.env[%r]' % (nm, v, nm, v, nm)).body
        test = ast.parse('if not None:\n    %s.exit()\n    break' % v).body[0]
        test.test.operand = node.test
        loop = ast.While(test=ast.Constant(True), body=head + [test] + node.body, orelse=[])
        out = [pre, loop]
        if node.orelse:
            els = ast.parse('if %s.done: pass' % v).body[0]; els.body = node.orelse
            out.append(els)
        for s in out: ast.copy_location(s, node); ast.fix_missing_locations(s)
        return out
    def _comp(self, node, kind, elts):
        if not self.fn or len(node.generators) != 1 or node.generators[0].is_async:
            return self.generic_visit(node)
        g = node.generators[0]
        simple = isinstance(g.target, ast.Name) or (isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts))
        if not simple or any(isinstance(x, (ast.Yield, ast.Await, ast.NamedExpr)) for e in elts for x in ast.walk(e)):
            return self.generic_visit(node)
        names = [g.target.id] if isinstance(g.target, ast.Name) else [e.id for e in g.target.elts]
        it = self.visit(g.iter); elts = [self.visit(e) for e in elts]; ifs = [self.visit(i) for i in g.ifs]
        body = elts[0] if len(elts) == 1 else ast.Tuple(elts=elts, ctx=ast.Load())
        cond = ifs[0] if len(ifs) == 1 else (ast.BoolOp(op=ast.And(), values=ifs) if ifs else None)
        star = not isinstance(g.target, ast.Name)
        def lam(b):
            return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[]), body=b)
        call = ast.parse('_vx_rt.comp(%r, None, None, None, %r)' % (kind, star)).body[0].value
        call.args[1] = it; call.args[2] = lam(body)
        if cond is not None: call.args[3] = lam(cond)
        ast.copy_location(call, node); ast.fix_missing_locations(call)
        return call
    def visit_ListComp(self, node): return self._comp(node, 'list', [node.elt])
    def visit_SetComp(self, node): return self._comp(node, 'set', [node.elt])
    def visit_GeneratorExp(self, node): return self._comp(node, 'gen', [node.elt])
    def visit_DictComp(self, node): return self._comp(node, 'dict', [node.key, node.value])
    def visit_AnnAssign(self, node):
        return self.generic_visit(node)

def _flat(l):
    out = []
    for x in l:
        if isinstance(x, list): out += x
        elif x is not None: out.append(x)
    return out
def stored(body):
    out = set()
    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            if not isinstance(n, ast.Lambda): out.add(n.name)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and not n.id.startswith('_vx_'): out.add(n.id)
        for c in ast.iter_child_nodes(n): walk(c)
    for b in body: walk(b)
    return out
def yields(node):
    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): return False
        return isinstance(n, (ast.Yield, ast.YieldFrom)) or any(walk(c) for c in ast.iter_child_nodes(n))
    return any(walk(b) for b in node.body)
def nonlocals(fn):
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Nonlocal): out |= set(n.names)
    return out

class _VX:
    """runtime support for the rewritten code"""
    @staticmethod
    def loop(it, ident, loopvars, rebound=(), gen=False):
        lp = _VX.loop0(it, ident, loopvars, rebound)
        # what a generator's consumer does with a run of items is not part of the loop rule
        if gen and type(lp) is not seqs.ConcreteLoop and not seqs.core.CUR.extra.get('gen_ok'):
            raise seqs.core.Unsupported('a generator over a sequence of unknown length')
        return lp
    @staticmethod
    def loop0(it, ident, loopvars, rebound=()):
        c = seqs.core.CUR
        if c is not None:
            h = c.extra.get('loop_hook')
            if h is not None:
                r = h(it, ident, loopvars, rebound)
                if r is not None: return r
        if isinstance(it, seqs.SymSeq):
            lp = seqs.SymLoop(it, ident); lp.loopvars = set(loopvars); lp.rebound = set(rebound); return lp
        h = getattr(it, 'vx_loop', None)
        if h is not None: return h(ident, loopvars, rebound)
        # an object of the code's own with its own __iter__
        if c is not None and (type(it).__module__ or '').split('.')[0] == 'blueqat' and '__iter__' in vars(type(it)):
            it = type(it).__iter__(it)
            h = getattr(it, 'vx_loop', None)
            if h is not None: return h(ident, loopvars, rebound)
        return seqs.ConcreteLoop(it)
    @staticmethod
    def mkdict():
        c = seqs.core.CUR
        h = c.extra.get('dict_hook') if c is not None else None
        return h() if h is not None else {}
    @staticmethod
    def mklist():
        c = seqs.core.CUR
        h = c.extra.get('list_hook') if c is not None else None
        return h() if h is not None else []
    @staticmethod
    def wloop(ident, names):
        c = seqs.core.CUR
        if c is not None:
            h = c.extra.get('wloop_hook')
            r = h(ident, names) if h is not None else None
            if r is not None: return r
            h = c.extra.get('while_hook')
            if h is not None and h(ident): return seqs.WhileLoop(ident, names)
        return seqs.PlainWhile()
    @staticmethod
    def join(sep, it):
        h = getattr(it, 'vx_join', None)
        if h is not None and type(sep) is str: return h(sep)
        if type(sep) is str:
            if isinstance(it, (list, tuple)):
                items = opaque.raw(it)
                if any(getattr(x, 'vx_run', False) for x in items): return opaque.Text(sep, items)
            elif isinstance(it, opaque.GSeq): return opaque.Text(sep, it.items)
            elif isinstance(it, seqs.SymSeq): raise seqs.core.Unsupported('join of a symbolic sequence')
        return sep.join(it)
    @staticmethod
    def yieldfrom(it):
        h = getattr(it, 'vx_yieldfrom', None)
        return h() if h is not None else it
    @staticmethod
    def comp(kind, it, f, cond, star):
        c = seqs.core.CUR
        h = c.extra.get("comp_hook") if c is not None else None
        if h is not None and isinstance(it, seqs.SymSeq): return h(it, kind, f, cond, star)
        if isinstance(it, seqs.SymSeq):
            return shadows.sym_comp(kind, it, f, cond, star)
        h = getattr(it, 'vx_comp', None)
        if h is not None: return h(kind, f, cond, star)
        if kind == 'gen':
            def g(src):
                for x in src:
                    if star:
                        x = tuple(x)
                        if cond is None or cond(*x): yield f(*x)
                    elif cond is None or cond(x): yield f(x)
            # the iterable is evaluated now, as Python does
            return g(iter(it))
        out = []
        for x in it:
            a = tuple(x) if star else (x,)
            if cond is None or cond(*a): out.append(f(*a))
        if kind == 'list': return out
        if kind == 'set': return set(out)
        return dict(out)

class Loader(importlib.abc.SourceLoader):
    def __init__(self, fullname, path, post): self.name = fullname; self.path = path; self.post = post
    def get_filename(self, fullname): return self.path
    def get_data(self, path):
        with open(path, 'rb') as f: return f.read()
    def path_stats(self, path): raise OSError
    def get_code(self, fullname):
        return self.source_to_code(self.get_data(self.path), self.path)
    def source_to_code(self, data, path, **kw):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(data)
        tree = Rewriter(path).visit(tree)
        ast.fix_missing_locations(tree)
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return compile(tree, path, 'exec', dont_inherit=True)
    def exec_module(self, module):
        d = dict(vars(builtins)); d.update(shadows.BUILTINS); d['_vx_rt'] = _VX
        d['__import__'] = shadows.make_import(self.name)
        vars(module)['__builtins__'] = d
        exec(self.get_code(self.name), vars(module))
        shadows.post_import(module)

class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname.split('.')[0] != 'blueqat': return None
        p = os.path.join(REPO, *fullname.split('.'))
        if os.path.isdir(p):
            f = os.path.join(p, '__init__.py')
            return importlib.machinery.ModuleSpec(fullname, Loader(fullname, f, None), origin=f, is_package=True) if os.path.exists(f) else None
        f = p + '.py'
        if os.path.exists(f):
            sp = importlib.machinery.ModuleSpec(fullname, Loader(fullname, f, None), origin=f)
            sp.has_location = True
            return sp
        return None

def install():
    sys.dont_write_bytecode = True
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())
def load(name):
    install()
    return importlib.import_module(name)
def fresh():
    for k in [k for k in sys.modules if k.split('.')[0] == 'blueqat']: del sys.modules[k]
