"""Symbolic interpretation of contracts: obligations for z3/cvc5 over the real source of /repo."""
import itertools, hashlib, os, sys, time, traceback, json, types
import z3
from . import core, snp, api
from .core import *
from .arr import A, asarr, Storage, Fn, Dom
from . import arr as arrmod
from .loader import Loader

class Sym:
    sym = True
    np = snp
    def __init__(self, engine, loader):
        self.e = engine; self.ld = loader
        self.n_checks = 0; self.names = set(); self.undo = []
    # ---- inputs
    def choose(self, name, options, quick=None):
        # quick: the indices of the options explored by the quick tier (default: all of them)
        options = list(options)
        idx = list(range(len(options)))
        if quick is not None and not self.deep: idx = [q for q in quick if q < len(options)] or [0]
        i = idx[self.e.choose(len(idx)) if len(idx) > 1 else 0]
        self.shard_test(len(idx), i)
        self.e.inputs[name] = dict(kind='choice', value=i)
        return options[i]
    shard = None; _prod = 1; _ch = ()
    def shard_test(self, n, i):
        # an instance may be split over several processes by the values of its first explicit choices
        if not self.shard or self._prod is None: return
        self._prod *= n; self._ch += (i,)
        k, m = self.shard
        if self._prod >= 2 * m:
            self._prod = None
            if hashlib.md5(repr(self._ch).encode()).digest()[0] % m != k: raise Infeasible()
    def flag(self, name, quick=None): return self.choose(name, [False, True], quick)
    def int(self, name, lo=None, hi=None, chi=None):
        t = z3.Int(name)
        self.e.inputs[name] = dict(kind='int', term=t)
        if lo is not None: self.e.assume(t >= int_term(lo))
        if hi is not None: self.e.assume(t <= int_term(hi))
        return mkZ(t)
    def real(self, name, lo=None, hi=None, gt=None, lt=None, step=None, span=None, nice=None):
        t = z3.Real(name)
        self.e.inputs[name] = dict(kind='real', term=t)
        if lo is not None: self.e.assume(t >= real_term(lo))
        if hi is not None: self.e.assume(t <= real_term(hi))
        if gt is not None: self.e.assume(t > real_term(gt))
        if lt is not None: self.e.assume(t < real_term(lt))
        return R(t)
    def bool(self, name):
        t = z3.Bool(name)
        self.e.inputs[name] = dict(kind='bool', term=t)
        return B(t)
    def array(self, name, shape, kind='f', lo=None, hi=None, gt=None, step=None, span=None, nan=False, elems=None, where=None, fine=False):
        shape = [arrmod.norm_dim(s) for s in shape]
        n = max(1, len(shape))
        sort = {'f': z3.RealSort(), 'i': z3.IntSort(), 'b': z3.BoolSort()}[kind]
        f = z3.Function(name, *([z3.IntSort()] * n + [sort]))
        fn_ = z3.Function(name + '_nan', *([z3.IntSort()] * n + [z3.BoolSort()])) if nan else None
        e = self.e
        def at(*i):
            ts = [int_term(x) for x in i] or [z3.IntVal(0)]
            t = f(*ts)
            for bnd, op in ((lo, lambda t, b: t >= b), (hi, lambda t, b: t <= b), (gt, lambda t, b: t > b)):
                if bnd is not None: e.fact(op(t, real_term(bnd) if kind == 'f' else int_term(bnd)), key=(name, str(bnd), t.get_id(), op.__code__.co_code))
            if where is not None:
                v_ = R(t) if kind == 'f' else mkZ(t)
                e.fact(as_bool_term(where(*i, v_)), key=(name, 'where', t.get_id()))
            if elems is not None: e.fact(z3.Or(*[t == (real_term(x) if kind == 'f' else int_term(x)) for x in elems]), key=(name, 'elems', t.get_id()))
            if kind == 'f': return R(t, fn_(*ts) if nan else None)
            return mkZ(t) if kind == 'i' else mkB(t)
        self.e.inputs[name] = dict(kind={'f': 'real', 'i': 'int', 'b': 'bool'}[kind], shape=[s if isinstance(s, int) else s for s in shape], fn=(lambda *ts: f(*(ts or [z3.IntVal(0)]))),
                                   nan=fn_)
        return A(shape, Storage(at, kind))
    def func(self, name, nargs=1):
        f = z3.Function(name, *([z3.RealSort()] * (nargs + 1)))
        def call(*a):
            a = [asarr(x) if isinstance(x, (A, list, tuple)) else x for x in a]
            if any(isinstance(x, A) for x in a):
                return arrmod.nary(lambda *v: mkR(f(*[real_term(x) for x in v])), 'f', *a)
            return mkR(f(*[real_term(x) for x in a]))
        return call
    def distribution(self, name):
        """an arbitrary continuous distribution with finite support and strictly increasing cumulative distribution"""
        a = self.real(name + '.a', lo=0.0); w = self.real(name + '.w', gt=0.0)
        return SymRv(name, a, a + w)
    def near(self, a, b, res=0): return self.eq(a, b)
    def le(self, a, b, res=0): return a <= b
    def rng_obj(self, name): return snp.SymRng(name)
    def same_rng(self, name): return snp.SymRng(name)
    def randomness(self): return snp.SymRng.hidden
    def disturb(self): pass
    ln10 = math.log(10)
    def assume(self, c): self.e.assume(as_bool_term(c))
    def hint(self, c): pass
    # ---- obligations
    def prove(self, name, c, detail=''):
        self.n_checks += 1; self.names.add(name)
        if isinstance(c, A):
            raise Unsupported('array as goal')
        if c is NotImplemented: raise Unsupported('goal')
        self.e.prove(name, c if isinstance(c, (B, bool)) else bool(c))
    def forall(self, name, extents, fn):
        self.n_checks += 1; self.names.add(name)
        extents = [arrmod.norm_dim(x) for x in extents]
        conc = [k for k, x in enumerate(extents) if isinstance(x, int) and x <= 4]
        for combo in itertools.product(*[range(extents[k]) for k in conc]):
            ks = []; rng = []
            for k, x in enumerate(extents):
                if k in conc: ks.append(combo[conc.index(k)])
                else:
                    s = self.e.fresh('i', z3.IntSort()); ks.append(Z(s))
                    rng.append(z3.And(s >= 0, s < int_term(x)))
            with self.e.under(*rng):
                if rng and self.e.check() == z3.unsat: continue
                c = fn(*ks)
                if isinstance(c, A): c = c.item()
                self.e.prove(name, c if isinstance(c, (B, bool)) else bool(c))
    def raises(self, thunk, *exc):
        try: thunk()
        except Unsupported: raise
        except (exc or (Exception,)): return True
        return False
    def fail(self, name, detail=''): self.prove(name, False)
    def cover(self, name): pass
    # ---- values
    def at(self, a, *idx):
        if isinstance(a, (list, tuple)): return a[int(idx[0])]
        return a.get(*idx)
    def snap(self, a): return a.copy() if isinstance(a, A) else a
    def floor(self, x):
        if isinstance(x, R): return x.floor_z()
        if isinstance(x, Z): return x
        import math
        return math.floor(x)
    def ceil(self, x):
        if isinstance(x, R): return x.ceil_z()
        if isinstance(x, Z): return x
        import math
        return math.ceil(x)
    def ite(self, c, a, b):
        if not isinstance(c, B):
            v = a if c else b
            return v() if callable(v) else v
        if callable(a):
            with self.e.under(c.t): a = a()
        if callable(b):
            with self.e.under(z3.Not(c.t)): b = b()
        return ite(c, a, b)
    def And(self, *c):
        out = []
        for x in c:
            if callable(x):
                p = land(*out) if out else True
                if p is False: return False
                if p is True: x = x()
                else:
                    with self.e.under(p.t): x = x()
            out.append(x)
        return land(*out)
    def Or(self, *c):
        out = []
        for x in c:
            if callable(x):
                p = lnot(lor(*out)) if out else True
                if p is False: return True
                if p is True: x = x()
                else:
                    with self.e.under(p.t): x = x()
            out.append(x)
        return lor(*out)
    def Not(self, c): return lnot(c)
    def implies(self, a, b):
        if a is False: return True
        if a is True: return b() if callable(b) else b
        if callable(b):
            with self.e.under(a.t): b = b()
        return implies(a, b)
    def iff(self, a, b): return mkB(as_bool_term(a) == as_bool_term(b))
    def eq(self, a, b, scale=None):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return (a == b) if type(a) == type(b) else False
        if isinstance(a, A): a = a.item()
        if isinstance(b, A): b = b.item()
        if isinstance(a, C) or isinstance(b, C):
            a, b = toC(a), toC(b)
            return land(self.eq(a.re, b.re), self.eq(a.im, b.im))
        na, nb = nan_of(a), nan_of(b)
        if isinstance(a, (Z, int, B, bool)) and isinstance(b, (Z, int, B, bool)): return mkB(int_term(a) == int_term(b))
        if na is None and nb is None:
            for x in (a, b):
                if isinstance(x, float) and x in (float('inf'), -float('inf')): return (not is_sym(a)) and (not is_sym(b)) and a == b
            return mkB(real_term(a) == real_term(b))
        f = z3.BoolVal(False)
        na = f if na is None else na; nb = f if nb is None else nb
        ra = z3.RealVal(0) if isinstance(a, float) and a != a else real_term(a)
        rb = z3.RealVal(0) if isinstance(b, float) and b != b else real_term(b)
        return mkB(z3.And(na == nb, z3.Or(na, ra == rb)))
    def eq32(self, a, b): return self.eq(a, b)
    def same(self, a, b):
        if a is None or b is None: return a is b
        return self.eq(a, b)
    def isnan(self, x):
        n = nan_of(x)
        return False if n is None else mkB(n)
    def sum(self, extents, fn):
        extents = [arrmod.norm_dim(x) for x in extents]
        conc = [k for k, x in enumerate(extents) if isinstance(x, int) and x <= 4]
        tot = 0
        symb = [k for k in range(len(extents)) if k not in conc]
        for combo in itertools.product(*[range(extents[k]) for k in conc]):
            full = [None] * len(extents)
            for k, v in zip(conc, combo): full[k] = v
            if not symb: tot = tot + fn(*full); continue
            kinds = []
            def body(ks):
                f2 = list(full)
                for k, v in zip(symb, ks): f2[k] = v
                v = fn(*f2)
                if isinstance(v, C): raise Unsupported('complex spec sum')
                if isinstance(v, R) and v.nan is not None: raise Unsupported('NaN in spec sum')
                return v
            probe = {}
            def b2(ks):
                v = body(ks)
                probe['k'] = kind_of(v)
                return int_term(v) if probe['k'] in 'bi' else real_term(v)
            # find the sort first
            vs = [Z(z3.Int(BV_PREFIX + 'probe%d' % j)) for j in range(len(symb))]
            with self.e.under(*[z3.And(v.t >= 0, v.t < int_term(extents[k])) for v, k in zip(vs, symb)]): k_ = kind_of(body(vs))
            sort = z3.IntSort() if k_ in 'bi' else z3.RealSort()
            t = self.e.make_sum([int_term(extents[k]) for k in symb], lambda ks: int_term(body(ks)) if k_ in 'bi' else real_term(body(ks)), sort)
            tot = tot + (mkZ(t) if k_ in 'bi' else mkR(t))
        return tot
    def exists(self, extents, fn):
        extents = [arrmod.norm_dim(x) for x in extents]
        a = A(extents, Storage(lambda *i: fn(*i), 'b'))
        return snp.any(a)
    def contains(self, arr, v):
        """some element of the one-dimensional array equals v"""
        arr = asarr(arr); d = arr.dom[0]
        if arr.ipos is not None and len(arr.ipos.ext) == 1 and arr.ipos.guard is None and d is not None and d.same_ext(arr.ipos):
            # element k is k, for the base points k that satisfy the guard
            return land(v >= 0, v < d.ext[0], d.guard(v) if d.guard is not None else True)
        if arr.ipos is not None and len(arr.ipos.ext) == 1 and arr.ipos.guard is None and d is None: return land(v >= 0, v < arr.shape[0])
        return self.exists(arr.shape, lambda j: self.eq(arr.get(j), v))
    def all_of(self, extents, fn):
        return lnot(self.exists(extents, lambda *i: lnot(fn(*i))))
    def sqrt(self, x): return core.sqrt(x)
    def pow(self, x, y): return rpow(x, y)
    def real_of(self, x): return R(real_term(x))
    def mod(self, name): return self.ld.load(name) if name.split('.')[0] == 'simim' else self.ld.imp(name, {}, {}, ('*',))
    def arr_eq(self, name, a, b):
        a, b = asarr(a), asarr(b)
        self.shape_is(name + '.shape', a, b.shape)
        self.forall(name, b.shape, lambda *i: self.eq(a.get(*i), b.get(*i)))
    def shape_is(self, name, a, shape):
        a = asarr(a)
        if len(a.shape) != len(shape): self.prove(name, False); return
        self.prove(name, land(*[mkB(int_term(x) == int_term(y)) for x, y in zip(a.shape, shape)]) if shape else True)
    def asarray(self, x): return snp.array(x)
    def kind(self, a): return asarr(a).kind
    def tmpdir(self): return '/sym/data'
    def patch(self, obj, name, value):
        d = vars(obj); self.undo.append((obj, name, name in d, d.get(name)))
        setattr(obj, name, value)
    def restore(self):
        while self.undo:
            obj, name, had, old = self.undo.pop()
            if had: setattr(obj, name, old)
            else: delattr(obj, name)
    def string(self, name):
        # an uninterpreted token: string operations that do not look inside it treat every string alike
        self.e.inputs[name] = dict(kind='choice', value='tok%d' % self.ntok)
        self.ntok += 1
        return chr(0xe000 + self.ntok - 1)
    ntok = 0
    def answers(self, module, seq):
        seq = list(seq); shown = []
        def ask(prompt=''):
            shown.append(prompt)
            if not seq: raise RuntimeError('unexpected prompt: %s' % prompt)
            return seq.pop(0)
        module.input = ask
        return shown
    def package_root(self): return '/sym/data'
    def note_nontrivial(self): pass
    def rows(self, col):
        k = core.E.fresh('row', z3.IntSort()); seen = {}; st = [int_term(col.get(mkZ(k)))]
        while st:
            t = st.pop()
            if z3.is_const(t) and t.decl().name().startswith('arb'): seen[t.get_id()] = t
            st.extend(t.children())
        if not seen: raise Unsupported('no arbitrary row')
        return [mkZ(t) for t in seen.values()]
    def canon_grid(self, g, n, px, c, props, data=None):
        return g

class SymRv:
    """assumed contract of a frozen scipy.stats continuous distribution: the cdf is 0 up to a, 1 from b on and increasing in
    between; ppf is its inverse on [0,1] and NaN elsewhere"""
    res = 0
    def __init__(self, name, a, b):
        self.a, self.b = a, b; self.seen = []
        self.F = z3.Function(name + '_cdf', z3.RealSort(), z3.RealSort()); self.Q = z3.Function(name + '_ppf', z3.RealSort(), z3.RealSort())
    def cdf1(self, x):
        if isinstance(x, float) and x in (float('inf'), -float('inf')): return 1.0 if x > 0 else 0.0
        e = core.E; X = real_term(x); y = self.F(X); a, b = self.a.t, self.b.t; k = X.get_id()
        e.fact(z3.And(y >= 0, y <= 1, (X <= a) == (y == 0), (X >= b) == (y == 1)), key=('cdf', id(self), k))
        for o in self.seen[-12:]:
            if o.get_id() == k: continue
            g = self.F(o)
            e.fact(z3.And(z3.Implies(o < X, g <= y), z3.Implies(X < o, y <= g), z3.Implies(z3.And(o < X, o < b, X > a), g < y), z3.Implies(z3.And(X < o, X < b, o > a), y < g)), key=('cdfm', id(self), k, o.get_id()))
        if all(o.get_id() != k for o in self.seen): self.seen.append(X); core._keep.append(X)
        return R(y, nan_of(x))
    def ppf1(self, p):
        P = real_term(p); x = self.Q(P); ok = z3.And(P >= 0, P <= 1)
        y = self.cdf1(R(x)).t
        core.E.fact(z3.Implies(ok, z3.And(x >= self.a.t, x <= self.b.t, y == P)), key=('ppf', id(self), P.get_id())); core._keep.append(P)
        bad = z3.Not(ok) if nan_of(p) is None else z3.Or(nan_of(p), z3.Not(ok))
        return R(x, bad)
    def cdf(self, x): return arrmod.unop(asarr(x), self.cdf1, 'f') if isinstance(x, (A, list, tuple)) else self.cdf1(x)
    def ppf(self, p): return arrmod.unop(asarr(p), self.ppf1, 'f') if isinstance(p, (A, list, tuple)) else self.ppf1(p)

# -------------------------------------------------------------------------------------------------
class Trace:
    """records which functions of /repo are executed symbolically"""
    def __init__(self, root): self.root = root; self.fns = set()
    def __call__(self, frame, event, arg):
        if event == 'call':
            co = frame.f_code
            if co.co_filename.startswith(self.root): self.fns.add(os.path.relpath(co.co_filename, self.root) + ':' + co.co_qualname)

def run_instance(c, param, opts):
    """prove one contract instance; returns a json-able record"""
    t0 = time.time()
    sys.setrecursionlimit(20000)
    deadline = t0 + opts.get('budget', 60)
    e = Engine(timeout_ms=opts.get('timeout_ms', 10000), max_paths=opts.get('max_paths', 2000), deadline=deadline)
    ld = Loader(opts.get('repo', '/repo'), overrides=opts.get('overrides'))
    from . import stubs
    stubs.install(ld)
    tr = Trace(os.path.join(opts.get('repo', '/repo'), 'simim'))
    rec = dict(contract=c.id, param=param, shard=opts.get('shard'), obligations=[], unsupported=[], complete=0, error=None, limit=None)
    def one():
        core.E = e
        e.global_random = 0
        ld.mods.clear(); stubs.reset(ld)
        I = Sym(e, ld); I.prop = c.prop; I.deep = opts.get('deep', False); I.shard = opts.get('shard')
        first = e.stats['paths'] <= 3
        if first: sys.setprofile(tr)
        try:
            c.fn(I, **param)
            rec['complete'] += 1
            if rec['complete'] == 1:
                r = e.check(timeout=5000)
                rec['reach'] = str(r)
        except Unsupported as ex:
            rec['unsupported'].append(dict(path=e.path_id(), why=str(ex)[:200], where=where(ex)))
        except (Infeasible, PathLimit): raise
        except RecursionError as ex:
            rec['unsupported'].append(dict(path=e.path_id(), why='recursion', where=''))
        except Exception as ex:
            if e.check(timeout=5000) == z3.unsat: raise Infeasible()
            sys.setprofile(None)
            rec['obligations_exc'] = rec.get('obligations_exc', 0) + 1
            m = None
            try: m = e.concretise([])
            except Exception: pass
            e.results.append(dict(name='no-exception', status='refuted', exc=True, backend='path', path=e.path_id(), model=m, t=0.0,
                                  goal=''.join(traceback.format_exception(ex))[-1500:]))
        finally:
            sys.setprofile(None)
            I.restore()
    try:
        e.explore(one, c.id)
    except PathLimit as ex: rec['limit'] = str(ex)
    except BaseException as ex:
        rec['error'] = ''.join(traceback.format_exception(ex))[-2000:]
    rec['obligations'] = e.results
    rec['stats'] = {k: v for k, v in e.stats.items()}
    rec['functions'] = sorted(tr.fns)
    rec['wall'] = round(time.time() - t0, 2)
    return rec

def where(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    fr = [f for f in tb if '/simim/' in f.filename]
    own = tb[-1] if tb else None
    return ' / '.join(['%s:%d' % (os.path.basename(f.filename), f.lineno) for f in fr[-2:]] + (['%s:%d' % (os.path.basename(own.filename), own.lineno)] if own else []))

