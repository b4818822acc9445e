"""Loads the code under verification from source with mechanical instrumentation.

The instrumentation (all of it):
  * names of builtins resolve to engine/sbuiltins.OVERRIDES (identical on concrete values)
  * dict displays / comprehensions build SDict; `x in c` and `c[k]` (load) go through helpers that add a
    case split when the key is symbolic
  * every try statement with handlers first re-raises the engine's own control exception
  * receivers of method calls on bytes literals are wrapped
  * comprehensions and for loops take their iterable through helpers that handle lists of symbolic length;
    statements that store into attributes/items, and mutating method calls, first tell the engine (no effect otherwise)
  * while loops get a second form, used when a contract gives the loop an invariant (engine/loops.py)
  * imports of struct, ctypes, fcntl, select, time, os, io, gevent resolve to models when one is installed
Nothing is dropped or rewritten otherwise.
"""
import ast, copy, sys, os, types, importlib.abc, importlib.util, importlib.machinery, builtins, inspect
from . import sbuiltins, models_std, sbytes
from .sym import Unsupported

REPO_SRC = os.environ.get('VERIF_REPO_SRC', '/repo/src')
SITE = '/opt/venv/lib/pypy3.9/site-packages'
INSTRUMENT = ('infi.asi', 'infi.instruct')
MODELS = {'struct': models_std.struct_model}
io_model = types.ModuleType('io')
io_model.BytesIO = models_std.SBytesIO
import io as _io
io_model.StringIO = _io.StringIO
MODELS['io'] = io_model
import binascii as _ba
binascii_model = types.ModuleType('binascii')
binascii_model.__dict__.update((k, v) for k, v in vars(_ba).items() if not k.startswith('__'))
def _hexlify(b, *a):
    if isinstance(b, sbytes.SBytes):
        c = b.concrete()
        if c is None: return sbytes.SStr('hexlify', (b,))
        b = c
    return _ba.hexlify(b, *a)
binascii_model.hexlify = binascii_model.b2a_hex = _hexlify
MODELS['binascii'] = binascii_model

from . import ctypes_model
MODELS['ctypes'] = ctypes_model.LP64
def _env(name):
    """a system module as the code under test sees it: the real one, whose functions a contract may replace by its own environment"""
    import importlib
    real = importlib.import_module(name)
    m = types.ModuleType(name)
    m.__dict__.update((k, v) for k, v in vars(real).items() if k not in ('__name__', '__loader__', '__spec__'))
    MODELS[name] = m
    return m
for _n in ('fcntl', 'select', 'time', 'os'): _env(_n)
MODELS['fcntl'].ioctl = sbuiltins.no_environment('fcntl.ioctl')
for _n in ('open', 'read', 'write', 'close'): setattr(MODELS['os'], _n, sbuiltins.no_environment('os.' + _n))
for _n in ('sleep', 'time', 'monotonic'): setattr(MODELS['time'], _n, sbuiltins.no_environment('time.' + _n))
MODELS['select'].select = sbuiltins.no_environment('select.select')

class T(ast.NodeTransformer):
    def visit_Dict(self, n):
        self.generic_visit(n)
        if any(k is None for k in n.keys): return n
        return ast.copy_location(ast.Call(ast.Name('__sdict__', ast.Load()), [
            ast.List([ast.Tuple([k, v], ast.Load()) for k, v in zip(n.keys, n.values)], ast.Load())], []), n)
    def visit_DictComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name('__sdict__', ast.Load()), [
            ast.ListComp(ast.Tuple([n.key, n.value], ast.Load()), n.generators)], []), n)
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(ast.Name('__scontains__', ast.Load()), [n.left, n.comparators[0]], [])
            if isinstance(n.ops[0], ast.NotIn): c = ast.UnaryOp(ast.Not(), c)
            return ast.copy_location(c, n)
        return n
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(ast.Call(ast.Name('__smod__', ast.Load()), [n.left, n.right], []), n)
        return n
    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Call(ast.Name('__sgetitem__', ast.Load()), [n.value, _slice(n.slice)], []), n)
        return n
    def visit_Try(self, n):
        self.generic_visit(n)
        if n.handlers:
            h = ast.ExceptHandler(ast.Name('__EngineStop__', ast.Load()), None, [ast.Raise(None, None)])
            n.handlers.insert(0, ast.copy_location(h, n))
        return n
    def visit_Call(self, n):
        f = n.func
        if len(n.args) == 1 and isinstance(n.args[0], ast.GeneratorExp) and not n.keywords:
            g, fn = n.args[0], f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', None)
            if isinstance(f, ast.Name) and fn in ('any', 'all'):
                one = self._element(g)
                if one is not None:
                    return ast.copy_location(ast.Call(ast.Name('__sany__', ast.Load()), [self.visit(one), self.visit(g.generators[0].iter), ast.Constant(fn == 'any')], []), n)
            elif fn == 'join' or isinstance(f, ast.Name) and fn in ('list', 'sum'):       # consume all of it at once
                n.args[0] = ast.copy_location(ast.ListComp(g.elt, g.generators), g)
        self.generic_visit(n)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Constant) and isinstance(f.value.value, bytes):
            f.value = ast.copy_location(ast.Call(ast.Name('__sb__', ast.Load()), [f.value], []), f.value)
        if isinstance(f, ast.Attribute) and f.attr in MUTATORS:
            f.value = ast.copy_location(ast.Call(ast.Name('__smutv__', ast.Load()), [f.value], []), f.value)
        return n
    def _element(self, n):
        """a comprehension with one generator and no condition, as a function of the element"""
        if len(n.generators) != 1: return None
        g = n.generators[0]
        if g.ifs or g.is_async: return None
        fn = lambda names, body: ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg(x) for x in names], kwonlyargs=[], kw_defaults=[], defaults=[]), body)
        if isinstance(g.target, ast.Name): return fn([g.target.id], n.elt)
        if isinstance(g.target, ast.Tuple) and all(isinstance(x, ast.Name) for x in g.target.elts):
            names = [x.id for x in g.target.elts]
            if len(set(names)) != len(names): return None
            t = '_x%d' % n.lineno
            parts = ast.Call(ast.Name('__sunpack__', ast.Load()), [ast.Name(t, ast.Load()), ast.Constant(len(names))], [])
            return fn([t], ast.Call(fn(names, n.elt), [ast.Starred(parts, ast.Load())], []))
        return None
    def visit_ListComp(self, n):
        one = self._element(n)
        if one is None: return self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name('__smap__', ast.Load()), [self.visit(one), self.visit(n.generators[0].iter)], []), n)
    def visit_For(self, n):
        pure = isinstance(n.target, ast.Name) and not n.orelse and not any(
            isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.NamedExpr, ast.Delete, ast.Yield, ast.YieldFrom, ast.Await, ast.With, ast.For, ast.While, ast.FunctionDef, ast.Global))
            for b in n.body for x in ast.walk(b))
        builds = self._builds(n)
        if builds: whole, builds = copy.deepcopy(builds[0]), builds[1]
        self.generic_visit(n)
        n.iter = ast.copy_location(ast.Call(ast.Name('__sfor__', ast.Load()), [n.iter, ast.Constant(pure)], []), n.iter)
        return self._build(n, whole, builds) if builds else n
    def _builds(self, n, orig=None):
        """the lists this loop appends to, when appending is the only lasting effect of its body that its text shows"""
        if not getattr(self, '_func', None) or n.orelse or isinstance(n.iter, (ast.List, ast.Tuple, ast.Constant)): return None
        if not (isinstance(n.target, ast.Name) or isinstance(n.target, ast.Tuple) and all(isinstance(x, ast.Name) for x in n.target.elts)): return None
        nodes = [x for b in n.body for x in ast.walk(b)]
        gathers = {}
        def gathered(s):
            """X += e, X = X + e"""
            if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add): t, e = s.target, s.value
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Add) and ast.unparse(s.value.left) == ast.unparse(s.targets[0]): t, e = s.targets[0], s.value.right
            else: return None
            return (t, e) if isinstance(t, ast.Name) or isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) else None
        def normal(b):
            out = []
            for s in b:
                g = gathered(s)
                if isinstance(s, ast.If): s.body, s.orelse = normal(s.body), normal(s.orelse)
                elif g:
                    t = copy.deepcopy(g[0])
                    t.ctx = ast.Load()
                    s = ast.copy_location(ast.Expr(ast.copy_location(ast.Call(ast.copy_location(ast.Attribute(t, 'append', ast.Load()), s), [g[1]], []), s)), s)
                out.append(s)
            return out
        if any(gathered(x) for b in n.body for x in ast.walk(b)):
            m = copy.deepcopy(n)
            m.body = normal(m.body)
            r = self._builds(m, n)
            return r
        orig = orig or n
        if any(isinstance(x, (ast.AugAssign, ast.NamedExpr, ast.Delete, ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.Await, ast.With, ast.For, ast.While, ast.Try,
                              ast.FunctionDef, ast.ClassDef, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.Lambda)) for x in nodes): return None
        if any(isinstance(t, (ast.Attribute, ast.Subscript, ast.Starred)) and isinstance(t.ctx, ast.Store) for t in nodes): return None
        lists = {}
        def appends(b):
            for s in b:
                if isinstance(s, ast.If): appends(s.body), appends(s.orelse)
                elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == 'append' and len(s.value.args) == 1 and not s.value.keywords:
                    r = s.value.func.value
                    if isinstance(r, ast.Name) or isinstance(r, ast.Attribute) and isinstance(r.value, ast.Name): lists.setdefault(ast.dump(r), []).append(r)
        appends(n.body)
        if not lists: return None
        bound = set(x.id for x in nodes + list(ast.walk(n.target)) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))
        inside = lambda name: sum(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load) for x in nodes)
        for rs in lists.values():
            r = rs[0]
            if isinstance(r, ast.Name):
                if r.id in bound or inside(r.id) != len(rs): return None
                if not any(isinstance(x, ast.Name) and x.id == r.id and isinstance(x.ctx, ast.Store) for x in ast.walk(self._func[-1])): return None
            elif r.value.id in bound or sum(isinstance(x, ast.Attribute) and x.attr == r.attr for x in nodes) != len(rs): return None
        after = set(id(x) for b in orig.body for x in ast.walk(b)) | set(map(id, ast.walk(orig.iter)))
        for o in ast.walk(self._func[-1]):          # other loops over the same names bind them anew
            if isinstance(o, ast.For) and o is not orig and not any(x is orig for x in ast.walk(o)) and bound <= set(x.id for x in ast.walk(o.target) if isinstance(x, ast.Name)):
                after |= set(id(x) for b in o.body for x in ast.walk(b))
        if any(isinstance(x, ast.Name) and x.id in bound and id(x) not in after and not isinstance(x.ctx, ast.Store) for x in ast.walk(self._func[-1])): return None
        if any(isinstance(x, ast.arg) and x.arg in bound for x in ast.walk(self._func[-1])): return None
        return n, [rs[0] for rs in lists.values()]
    def _build(self, n, whole, lists):
        """if the iterable is a list of symbolic length: the body becomes a function whose appends are its result"""
        N = lambda x, c=ast.Load(): ast.Name(x, c)
        call = lambda f, *a: ast.Call(N(f), list(a), [])
        u = '_b%d_' % n.lineno
        keys = [ast.dump(r) for r in lists]
        class Collect(ast.NodeTransformer):
            def visit_Expr(self, s):
                v = s.value
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'append' and ast.dump(v.func.value) in keys:
                    s.value = ast.Call(ast.Attribute(N(u + 'r'), 'append', ast.Load()), [ast.Tuple([ast.Constant(keys.index(ast.dump(v.func.value))), v.args[0]], ast.Load())], [])
                return s
        body = [Collect().visit(b) for b in whole.body]
        self.generic_visit(m := ast.Module(body, []))
        f = ast.FunctionDef(u + 'f', ast.arguments(posonlyargs=[], args=[ast.arg(u + 'x')], kwonlyargs=[], kw_defaults=[], defaults=[]),
            [ast.Assign([N(u + 'r', ast.Store())], ast.List([], ast.Load())), ast.Assign([whole.target], N(u + 'x'))] + m.body + [ast.Return(N(u + 'r'))], [])
        def store(r):
            r = copy.deepcopy(r)
            r.ctx = ast.Store()
            return r
        load = lambda: ast.Tuple([copy.deepcopy(r) for r in lists], ast.Load())
        sym = [f, ast.Assign([N(u + 'l', ast.Store())], load()),
            ast.Assign([store(r) for r in lists], N('__spoison__')),
            ast.Assign([ast.Tuple([store(r) for r in lists], ast.Store())], call('__sbuild__', N(u + 'i'), N(u + 'f'), N(u + 'l'))),
            ast.Assign([N(u + 'l', ast.Store())], ast.Constant(None))]
        it = n.iter.args[0]
        n.iter.args[0] = N(u + 'i')
        out = [ast.Assign([N(u + 'i', ast.Store())], it), ast.If(call('__sissym__', N(u + 'i')), sym, [n])]
        for o in out:
            for x in ast.walk(o):
                if isinstance(x, (ast.expr, ast.stmt, ast.arg)) and not hasattr(x, 'lineno'): x.lineno = x.end_lineno = n.lineno; x.col_offset = x.end_col_offset = n.col_offset
        return out
    def visit_FunctionDef(self, n):
        self._scope = getattr(self, '_scope', []) + [[n.name, 0]]
        self._func = getattr(self, '_func', []) + [n]
        try: return self.generic_visit(n)
        finally: self._scope, self._func = self._scope[:-1], self._func[:-1]
    def visit_ClassDef(self, n):
        self._scope = getattr(self, '_scope', []) + [[n.name, 0]]
        try: return self.generic_visit(n)
        finally: self._scope = self._scope[:-1]
    def visit_While(self, n):
        sc = getattr(self, '_scope', [])
        site = None
        if sc:
            k = sc[-1][1]
            sc[-1][1] += 1
            site = '.'.join(x[0] for x in sc) + ('' if k == 0 else '#%d' % k)
        bad = site is None
        names = sorted(set(x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)))
        self.generic_visit(n)
        if bad: return n
        w = '_w%d_loop' % len(site) + str(n.lineno)
        N = lambda i: ast.Name(w, i)
        env = lambda: ast.Call(ast.Name('locals', ast.Load()), [], [])
        class Again(ast.NodeTransformer):
            '''continue of this very loop: the end of the iteration'''
            def visit_Continue(self, x): return ast.Expr(call('back', [env()]))
            def skip(self, x): return x
            visit_For = visit_While = visit_FunctionDef = visit_ClassDef = visit_Lambda = skip
        call = lambda m, a: ast.Call(ast.Attribute(N(ast.Load()), m, ast.Load()), a, [])
        cut = [ast.Assign([ast.Name(x, ast.Store())], call('local', [ast.Constant(x)])) for x in names]
        cut.append(ast.Expr(call('head', [env()])))
        cut.append(ast.While(ast.Constant(True), [ast.If(copy.deepcopy(n.test), [Again().visit(b) for b in copy.deepcopy(n.body)] + [ast.Expr(call('back', [env()]))], copy.deepcopy(n.orelse)), ast.Break()], []))
        pre = ast.Assign([N(ast.Store())], ast.Call(ast.Name('__wenter__', ast.Load()), [ast.Constant(site), env(), ast.Constant(tuple(names))], []))
        out = [pre, ast.If(ast.Compare(N(ast.Load()), [ast.Is()], [ast.Constant(None)]), [n], cut)]
        for o in out:
            for x in ast.walk(o):
                if isinstance(x, (ast.expr, ast.stmt)) and not hasattr(x, 'lineno'): x.lineno = x.end_lineno = n.lineno; x.col_offset = x.end_col_offset = n.col_offset
        return out
    def _mut(self, n, targets):
        """before a statement that stores into objects: tell the engine which, when it asks (in an arbitrary loop iteration)"""
        stored = [x.value for t in targets for x in ast.walk(t) if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del))]
        plain = lambda v: isinstance(v, ast.Name) or isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name)
        load = [copy.deepcopy(v) for v in stored] if all(plain(v) for v in stored) else []
        self.generic_visit(n)
        if not stored and isinstance(n, ast.AugAssign): helper, load = '__saug__', [ast.Name(n.target.id, ast.Load())]
        elif stored: helper = '__smut__'
        else: return n
        tell = ast.If(ast.Subscript(ast.Name('__PURE__', ast.Load()), ast.Constant(0), ast.Load()), [ast.Expr(ast.Call(ast.Name(helper, ast.Load()), load, []))], [])
        for x in ast.walk(tell):
            if isinstance(x, (ast.expr, ast.stmt)): ast.copy_location(x, n)
        return [tell, n]
    def _shared(self, n):
        self.generic_visit(n)
        return [n, ast.copy_location(ast.Expr(ast.Call(ast.Name('__smut__', ast.Load()), [], [])), n)]
    visit_Global = visit_Nonlocal = _shared
    def visit_Assign(self, n): return self._mut(n, n.targets)
    def visit_AugAssign(self, n): return self._mut(n, [n.target])
    def visit_Delete(self, n): return self._mut(n, n.targets)
    def visit_JoinedStr(self, n): return self.generic_visit(n)

MUTATORS = ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'add', 'update', 'sort', 'setdefault', 'popitem', 'discard', 'appendleft', 'popleft', 'write', 'put', 'get_nowait')

def _slice(s):
    if isinstance(s, ast.Slice):
        none = ast.Constant(None)
        return ast.Call(ast.Name('slice', ast.Load()), [s.lower or none, s.upper or none, s.step or none], [])
    if isinstance(s, ast.Tuple):
        return ast.Tuple([_slice(e) for e in s.elts], ast.Load())
    return s

def simport(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        top = name
        if top == 'ctypes' and ((globals or {}).get('__name__') or '').endswith('.win32'): return ctypes_model.LLP64
        if top in MODELS: return MODELS[top]
        if top.split('.')[0] == 'gevent': raise ImportError('gevent is not modelled')
    return builtins.__import__(name, globals, locals, fromlist, level)

BUILTINS = dict(vars(builtins))
BUILTINS.update(sbuiltins.OVERRIDES)
BUILTINS['__import__'] = simport

class Loader(importlib.abc.Loader):
    def __init__(self, path, is_pkg, instrument):
        self.path, self.is_pkg, self.instrument = path, is_pkg, instrument
    def create_module(self, spec): return None
    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f: src = f.read()
        if self.instrument:
            tree = ast.fix_missing_locations(T().visit(ast.parse(src, self.path)))
            code = compile(tree, self.path, 'exec', dont_inherit=True)
            module.__dict__['__builtins__'] = BUILTINS
        else:
            code = compile(src, self.path, 'exec', dont_inherit=True)
        SOURCES[module.__name__] = self.path
        hook = PATCHES_BEFORE.get(module.__name__)
        exec(code, module.__dict__)
        hook = PATCHES_AFTER.get(module.__name__)
        if hook: hook(module)

SOURCES = {}
PATCHES_BEFORE = {}
PATCHES_AFTER = {}

class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != 'infi' and not fullname.startswith('infi.'): return None
        rel = fullname.replace('.', '/')
        roots = [REPO_SRC] if fullname.startswith('infi.asi') else ([REPO_SRC, SITE] if fullname == 'infi' else [SITE])
        if fullname == 'infi':
            m = importlib.machinery.ModuleSpec('infi', None, is_package=True)
            m.submodule_search_locations = [REPO_SRC + '/infi', SITE + '/infi']
            return m
        for r in roots:
            p = os.path.join(r, rel)
            inst = any(fullname == i or fullname.startswith(i + '.') for i in INSTRUMENT)
            if os.path.isfile(p + '/__init__.py'):
                s = importlib.util.spec_from_file_location(fullname, p + '/__init__.py', loader=Loader(p + '/__init__.py', True, inst), submodule_search_locations=[p])
                return s
            if os.path.isfile(p + '.py'):
                return importlib.util.spec_from_file_location(fullname, p + '.py', loader=Loader(p + '.py', False, inst))
        return None

def install():
    sys.dont_write_bytecode = True
    if not hasattr(inspect, 'getargspec'): inspect.getargspec = inspect.getfullargspec
    st = types.ModuleType('pkg_resources')
    st.declare_namespace = lambda n: None
    sys.modules['pkg_resources'] = st
    if SITE not in sys.path: sys.path.append(SITE)
    sys.meta_path.insert(0, Finder())
    from . import instruct_contracts
    instruct_contracts.register(PATCHES_AFTER)
