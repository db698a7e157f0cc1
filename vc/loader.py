"""Loads the real modules of /repo for symbolic execution: the source text is executed unmodified,
only `import` and the builtins len/range/int/float/... are substituted."""
import builtins, sys, types, os, ast
import z3
from . import core, snp
from .core import *
from .arr import A, asarr

class Stub(types.ModuleType):
    """an external module that has no symbolic contract: any use makes the path unsupported"""
    def __init__(self, name):
        super().__init__(name); self.__path__ = []
    def __getattr__(self, n):
        if n.startswith('__') and n not in ('__all__',): raise AttributeError(n)
        if n == '__all__': return []
        return StubObj(self.__name__ + '.' + n)
class StubObj:
    def __init__(self, n): object.__setattr__(self, '_n', n)
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return StubObj(self._n + '.' + n)
    def __call__(self, *a, **k):
        # decorators and module-level configuration calls are allowed to happen
        if getattr(Loader.current, 'loading', 0): return StubObj(self._n + '()')
        raise Unsupported('call of external ' + self._n)
    def __iter__(self):
        if getattr(Loader.current, 'loading', 0): return iter(())
        raise Unsupported('use of external ' + self._n)
    def _bin(self, *o):
        if getattr(Loader.current, 'loading', 0): return self
        raise Unsupported('use of external ' + self._n)
    __add__ = __radd__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __sub__ = __rsub__ = __pow__ = __rpow__ = __neg__ = __getitem__ = _bin
    def __setitem__(self, k, v): pass
    def __setattr__(self, k, v): pass
    def __mro_entries__(self, bases): return (object,)
    def __repr__(self): return 'StubObj(%s)' % self._n

class SymRange:
    def __init__(self, a, b, step): self.a, self.b, self.step = a, b, step
    def __iter__(self):
        raise Unsupported('loop over a symbolic range')
    def slen(self): return self.b - self.a
    def __len__(self): raise Unsupported('len of symbolic range')

def s_len(x):
    if isinstance(x, (A, SymRange)): return x.slen()
    if hasattr(x, 'slen'): return x.slen()
    return builtins.len(x)
class _RangeMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, builtins.range) or isinstance(x, SymRange)
class s_range(metaclass=_RangeMeta):
    def __new__(cls, *a):
        a = [x.item() if isinstance(x, A) else x for x in a]
        if any(isinstance(x, (R, float)) for x in a): raise TypeError("'float' object cannot be interpreted as an integer")
        def cst(x):
            if isinstance(x, Z):
                c = x.const()
                return x if c is None else c
            return x
        a = [cst(x) for x in a]
        if not any(isinstance(x, Z) for x in a): return builtins.range(*[x.__index__() for x in a])
        st, sp, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        # a range whose length is forced by the path is an ordinary range
        try:
            return builtins.range(*[x.__index__() for x in a])
        except Unsupported: return SymRange(st, sp, step)

class _TupMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, builtins.tuple)
    def __subclasscheck__(cls, c): return issubclass(c, builtins.tuple)
    def __call__(cls, x=()):
        # tuple(1-d array of symbolic length): the array itself stands for the tuple of its elements
        if isinstance(x, A) and x.ndim == 1 and not isinstance(x.shape[0], builtins.int): return x
        return builtins.tuple(x)
    def __eq__(cls, o): return o is builtins.tuple or o is cls
    def __hash__(cls): return hash(builtins.tuple)
class s_tuple(metaclass=_TupMeta): pass

class _IntMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, builtins.int) or isinstance(x, (Z,))
    def __subclasscheck__(cls, c): return issubclass(c, builtins.int) or issubclass(c, Z)
    def __call__(cls, x=0, *a):
        if isinstance(x, A): x = x.item()
        if is_sym(x): return cast(x, 'i')
        return builtins.int(x, *a)
    def __eq__(cls, o): return o is builtins.int or o is cls
    def __hash__(cls): return hash(builtins.int)
class s_int(metaclass=_IntMeta): _kind = 'i'
class _FloatMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, builtins.float) or isinstance(x, R)
    def __subclasscheck__(cls, c): return issubclass(c, builtins.float) or issubclass(c, R)
    def __call__(cls, x=0.0):
        if isinstance(x, A): x = x.item()
        if is_sym(x): return cast(x, 'f')
        return builtins.float(x)
    def __eq__(cls, o): return o is builtins.float or o is cls
    def __hash__(cls): return hash(builtins.float)
class s_float(metaclass=_FloatMeta): _kind = 'f'
class _BoolMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, builtins.bool) or isinstance(x, B)
    def __call__(cls, x=False):
        if isinstance(x, B): return x
        if isinstance(x, Z): return x != 0
        return builtins.bool(x)
    def __eq__(cls, o): return o is builtins.bool or o is cls
    def __hash__(cls): return hash(builtins.bool)
class s_bool(metaclass=_BoolMeta): _kind = 'b'
class _CplxMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, builtins.complex) or isinstance(x, C)
    def __call__(cls, *a):
        return C(*(list(a) + [0])[:2]) if any(is_sym(v) for v in a) else builtins.complex(*a)
    def __eq__(cls, o): return o is builtins.complex or o is cls
    def __hash__(cls): return hash(builtins.complex)
class s_complex(metaclass=_CplxMeta): _kind = 'c'

def s_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    for u in ts:
        if isinstance(u, StubObj): continue
        if u is A or u is snp.ndarray:
            if isinstance(x, A): return True
            continue
        if u in (snp.integer,):
            if isinstance(x, Z): return False      # python-int like symbolic values
            continue
        if isinstance(u, tuple):
            if s_isinstance(x, u): return True
            continue
        if hasattr(u, '_kinds') and not isinstance(u, type): continue
        if builtins.isinstance(x, u): return True
    return False
def s_min(*a, **k):
    if len(a) == 1 and isinstance(a[0], A) and not k and a[0].ndim == 1: return snp.amin(a[0])
    return _mm(a, k, lambda x, y: x < y)
def s_max(*a, **k):
    if len(a) == 1 and isinstance(a[0], A) and not k and a[0].ndim == 1: return snp.amax(a[0])
    return _mm(a, k, lambda x, y: x > y)
def _mm(a, k, better):
    xs = list(a[0]) if len(a) == 1 else list(a)
    key = k.get('key') or (lambda v: v)
    if not xs:
        if 'default' in k: return k['default']
        raise ValueError('empty')
    r = xs[0]
    for x in xs[1:]:
        c = better(key(x), key(r))
        r = ite(c, x, r) if isinstance(c, B) and 'key' not in k else (x if c else r)
    return r
def s_sum(xs, start=0):
    r = start
    for x in xs: r = r + x
    return r
def s_abs(x): return x.__abs__()
def s_round(x, n=0):
    if isinstance(x, R):
        r = x.round_r(n or 0)
        return r.trunc_z() if not n else r
    return builtins.round(x, n) if n else builtins.round(x)
def s_any(xs):
    if isinstance(xs, A): return snp.any(xs)
    return any(xs)
def s_all(xs):
    if isinstance(xs, A): return snp.all(xs)
    return all(xs)
def s_divmod(a, b): return a // b, a % b
def s_hash(x): return builtins.hash(x)
def s_type(x, *a):
    if a: return builtins.type(x, *a)
    if isinstance(x, Z): return s_int
    if isinstance(x, R): return s_float
    if isinstance(x, B): return s_bool
    return builtins.type(x)
def s_print(*a, **k): pass

class Loader:
    current = None
    def __init__(self, root='/repo', overrides=None):
        self.root = root
        self.mods = {}
        self.loading = 0
        self.sources = {}
        self.ext = {'numpy': snp, 'np': snp}
        self.ext.update(overrides or {})
        self.stubs = {}
        bi = dict(builtins.__dict__)
        bi.update(len=s_len, range=s_range, int=s_int, float=s_float, bool=s_bool, complex=s_complex, tuple=s_tuple, isinstance=s_isinstance,
                  min=s_min, max=s_max, sum=s_sum, abs=s_abs, round=s_round, any=s_any, all=s_all, divmod=s_divmod,
                  print=s_print, __gfor__=g_for, __merge__=s_merge, __import__=self.imp, type=_TypeShim)
        self.bi = bi
        Loader.current = self
    PASS = {'warnings', 'os', 'os.path', 'sys', 'typing', 'math', 'copy', 'inspect', 'functools', 'itertools', 'time', 'abc', 'collections', 'dataclasses', 'contextlib', 'string', 're', 'json', '__future__', 'numbers', 'operator', 'pathlib', 'shutil', 'io', 'textwrap', 'importlib', 'fnmatch', 'shlex'}
    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or globals['__name__']
            parts = pkg.split('.')
            parts = parts[:len(parts) - (level - 1)]
            name = '.'.join(parts + ([name] if name else []))
        if name == 'simim' or name.startswith('simim.'):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        try: self.load(name + '.' + f)
                        except FileNotFoundError: pass
                return m
            return self.mods['simim']
        if name in self.ext or name.split('.')[0] in self.ext:
            if name in self.ext and (fromlist or '.' not in name): return self.ext[name]
            if not fromlist and name.split('.')[0] in self.ext and name.split('.')[0] != 'numpy': return self.ext[name.split('.')[0]]
            top = self.ext.get(name.split('.')[0])
            if name == 'numpy.random': return snp.random
            if name == 'numpy.typing' or name not in self.ext:
                if fromlist: return self.stub(name)
            return top
        if name in self.PASS or name.split('.')[0] in self.PASS:
            return builtins.__import__(name, globals, locals, fromlist, 0)
        if fromlist: return self.stub(name)
        self.stub(name)
        return self.stub(name.split('.')[0])
    def stub(self, name):
        if name not in self.stubs:
            self.stubs[name] = Stub(name)
        return self.stubs[name]
    def path(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(p): return os.path.join(p, '__init__.py'), True
        return p + '.py', False
    def load(self, name):
        if name in self.mods: return self.mods[name]
        if '.' in name:
            parent = self.load(name.rsplit('.', 1)[0])
            if name in self.mods: return self.mods[name]       # loaded by its package
        path, pkg = self.path(name)
        if not os.path.exists(path): raise FileNotFoundError(path)
        src = open(path).read()
        self.sources[name] = src
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rsplit('.', 1)[0]
        if pkg: m.__path__ = [os.path.dirname(path)]
        m.__builtins__ = self.bi
        self.mods[name] = m
        if '.' in name: setattr(parent, name.rsplit('.', 1)[1], m)
        if name == 'simim' : return m            # package __init__ does set-up work on the real data root; submodules only
        self.loading += 1
        try:
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                tree = self.transform(ast.parse(src, path), name)
                exec(compile(tree, path, 'exec'), m.__dict__)
        finally: self.loading -= 1
        return m
    def transform(self, tree, name): return ast.fix_missing_locations(ParallelLoops().visit(tree))

PURE = {'len', 'max', 'min', 'int', 'float', 'abs', 'sum', 'bool', 'round'}
class ParallelLoops(ast.NodeTransformer):
    """`for i in range(..): BODY` -> `for i in __gfor__(range(..), lambda: [written arrays])` when BODY consists of
    assignments (to its own local names or to X[i]) and ifs over side-effect-free expressions.  Nothing is dropped:
    the body itself is executed unchanged; __gfor__ iterates the range itself unless it is long or symbolic."""
    def visit_FunctionDef(self, fn):
        self.generic_visit(fn)
        for node in list(ast.walk(fn)):
            if isinstance(node, ast.For): self.loop(fn, node)
        return fn
    def loop(self, fn, node):
        if not (isinstance(node.target, ast.Name) and isinstance(node.iter, ast.Call) and isinstance(node.iter.func, ast.Name) and node.iter.func.id == 'range' and not node.orelse): return
        i = node.target.id; bases = {}; names = set()
        def pure(e):
            for x in ast.walk(e):
                if isinstance(x, ast.Call):
                    f = x.func
                    if isinstance(f, ast.Name) and f.id in PURE: continue
                    if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ('np', 'numpy') and f.attr not in ('put', 'copyto', 'save', 'savetxt', 'savez', 'fill_diagonal', 'place', 'putmask') and not x.keywords: continue
                    return False
                if isinstance(x, (ast.NamedExpr, ast.Lambda, ast.Yield, ast.YieldFrom, ast.Await, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)): return False
            return True
        def stmts(b):
            for t in b:
                if isinstance(t, ast.If):
                    if not pure(t.test) or not stmts(t.body) or not stmts(t.orelse): return False
                elif isinstance(t, ast.Assign) and len(t.targets) == 1 and pure(t.value):
                    g = t.targets[0]
                    if isinstance(g, ast.Name): names.add(g.id)
                    elif isinstance(g, ast.Subscript) and isinstance(g.slice, ast.Name) and g.slice.id == i and pure(g.value): bases[ast.dump(g.value)] = g.value
                    else: return False
                elif isinstance(t, ast.Pass) or isinstance(t, ast.Expr) and isinstance(t.value, ast.Constant): pass
                else: return False
            return True
        if not stmts(node.body) or not bases or i in names: return
        if names & {x.id for b in bases.values() for x in ast.walk(b) if isinstance(x, ast.Name)}: return
        # locals of the body: assigned before use in it (textually, at its top level) and used nowhere else
        inside = set(id(x) for t in node.body for x in ast.walk(t))
        def outer(x, bound):
            if id(x) in inside: return
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                bound = bound | {y.id for g in x.generators for y in ast.walk(g.target) if isinstance(y, ast.Name)}
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in names | {i} and x.id not in bound: used.add(x.id)
            for c in ast.iter_child_nodes(x): outer(c, bound)
        used = set(); outer(fn, frozenset())
        if used & names: return
        # (another loop may use the same loop variable: only loads that a range loop over it does not bind matter)
        if i in used and not all(self.rebinds(fn, node, x, i) for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == i and isinstance(x.ctx, ast.Load) and id(x) not in inside): return
        done = set()
        for t in node.body:
            loads = {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
            if (loads & names) - done: return
            if isinstance(t, ast.Assign) and isinstance(t.targets[0], ast.Name): done.add(t.targets[0].id)
        lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=ast.List(elts=list(bases.values()), ctx=ast.Load()))
        node.body = [self.merge(t) for t in node.body]
        node.iter = ast.copy_location(ast.Call(func=ast.Name(id='__gfor__', ctx=ast.Load()), args=[node.iter, lam], keywords=[]), node.iter)
        ast.fix_missing_locations(node)
    def merge(self, t):
        """if c: T = a
        else: T = b      ->  T = __merge__(c, lambda: a, lambda: b)   (a, b side-effect free)"""
        if isinstance(t, ast.If) and len(t.body) == 1 and len(t.orelse) == 1:
            a, b = self.merge(t.body[0]), self.merge(t.orelse[0])
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and len(a.targets) == len(b.targets) == 1 and ast.dump(a.targets[0]) == ast.dump(b.targets[0]):
                lam = lambda e: ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)
                return ast.copy_location(ast.Assign(targets=a.targets, value=ast.Call(func=ast.Name(id='__merge__', ctx=ast.Load()), args=[t.test, lam(a.value), lam(b.value)], keywords=[])), t)
        return t
    def rebinds(self, fn, loop, x, i):
        """the load x of name i lies in a comprehension or loop of its own that binds i"""
        for n in ast.walk(fn):
            if n is loop: continue
            if isinstance(n, ast.For) and any(isinstance(y, ast.Name) and y.id == i for y in ast.walk(n.target)) and any(y is x for t in n.body for y in ast.walk(t)): return True
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)) and any(isinstance(y, ast.Name) and y.id == i for g in n.generators for y in ast.walk(g.target)) and any(y is x for y in ast.walk(n)): return True
        return False

def s_merge(c, fa, fb):
    """both alternatives, each under its own condition, joined into one value; falls back to a case split"""
    E_ = core.E
    if isinstance(c, A): c = c.item()
    if not isinstance(c, B): return fa() if c else fb()
    t = simp(c.t)
    ct = E_.check(t, timeout=2000) != z3.unsat; cf = E_.check(z3.Not(t), timeout=2000) != z3.unsat
    if not (ct and cf): return fa() if bool(c) else fb()
    on = set(E_.facts_on)
    try:
        E_.guards.append(t)
        try:
            with E_.under(t): a = fa()
        finally: E_.guards.pop()
        E_.guards.append(z3.Not(t))
        try:
            with E_.under(z3.Not(t)): b = fb()
        finally: E_.guards.pop()
        if isinstance(a, A): a = a.item()
        if isinstance(b, A): b = b.item()
        ok = (B, Z, R, int, float, bool)
        if isinstance(a, ok) and isinstance(b, ok): return ite(c, a, b)
    except (Unsupported, ValueError, IndexError, TypeError, ZeroDivisionError): pass
    finally: E_.facts_on = on
    return fa() if bool(c) else fb()

def g_for(rng, bases):
    """proof rule for loops whose iterations write only their own element: the written arrays hold arbitrary values
    when an arbitrary iteration starts; afterwards element i is what that iteration wrote, the others are arbitrary.
    The frame condition (an iteration writes only element i) is itself checked."""
    if isinstance(rng, builtins.range) and builtins.len(rng) <= 32:
        yield from rng; return
    if isinstance(rng, builtins.range): lo, hi, step = rng.start, rng.stop, rng.step
    else: lo, hi, step = rng.a, rng.b, rng.step
    arrs = bases()
    if step != 1 or any(not isinstance(a, A) or a.imap is not None or a.ndim != 1 or a.dom[0] is not None or a.kind not in 'ifb' for a in arrs): raise Unsupported('long loop')
    E_ = core.E
    if not bool(mkZ(int_term(hi) - int_term(lo)) > 0): return
    def havoc(a):
        s = {'i': z3.IntSort(), 'f': z3.RealSort(), 'b': z3.BoolSort()}[a.kind]
        h = E_.func('havoc', z3.IntSort(), s); mk = {'i': mkZ, 'f': mkR, 'b': mkB}[a.kind]; old = a.st.fn
        return lambda k: ite(mkB(z3.And(int_term(k) >= int_term(lo), int_term(k) < int_term(hi))), mk(h(int_term(k))), old(k))
    from .arr import Fn
    pre = []
    for a in arrs:
        a.st.fn = Fn(havoc(a)); pre.append(a.st.fn)
    it = E_.fresh('arb', z3.IntSort())
    E_.assume(z3.And(it >= int_term(lo), it < int_term(hi)))
    i = mkZ(it)
    yield i
    for a, p in zip(arrs, pre):
        k = E_.fresh('k', z3.IntSort()); kz = mkZ(k); post = a.st.fn
        if E_.check(k >= 0, k < int_term(a.shape[0]), k != it, as_bool_term(post(kz) != p(kz))) != z3.unsat: raise Unsupported('iterations of a long loop are not independent')
        v = post(i); h = havoc(a)
        a.st.fn = Fn((lambda v, h: lambda k: ite(mkB(int_term(k) == it), v, h(k)))(v, h))

class _TypeMeta(type):
    def __instancecheck__(cls, x): return builtins.isinstance(x, builtins.type)
    def __call__(cls, *a, **k):
        return s_type(*a) if len(a) == 1 else builtins.type(*a, **k)
class _TypeShim(metaclass=_TypeMeta): pass
