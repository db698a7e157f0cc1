"""Contract registry and the concrete (CPython, real numpy, real simim) interpretation of contracts.

A contract is a function of one argument I that builds inputs satisfying the precondition, calls the
real code and states the postcondition with I.prove / I.forall.  The same text is interpreted
 * symbolically by vc/sym.py   (every obligation, all inputs; z3/cvc5 decide), and
 * concretely by class Conc    (replay of counter-models, seeded bounded search on the real code).
This module must not import z3."""
import itertools, math, os, sys, importlib, traceback, fractions

CONTRACTS = []
class Contract:
    def __init__(self, fn, prop, name, covers, params, weight, sym, note, share):
        self.fn, self.prop, self.name, self.covers = fn, prop, name, covers
        self.params, self.weight, self.sym, self.note, self.share = params, weight, sym, note, share
    @property
    def id(self): return self.prop + '.' + self.name
def contract(prop, covers=(), params=({},), weight=1, sym=True, note='', share=None, shards=1):
    """params: list of dicts, one instance (separate proof job) each; weight: share of concrete budget;
    sym: False -> bounded only (never counted as proved)"""
    def deco(fn):
        for p in (prop if isinstance(prop, (list, tuple)) else [prop]):
            CONTRACTS.append(Contract(fn, p, fn.__name__, list(covers), [dict(x) for x in params], weight, sym, note or (fn.__doc__ or ''), share)); CONTRACTS[-1].shards = shards
        return fn
    return deco

class Skip(BaseException):
    """generated input does not satisfy the precondition"""
class Failed(Exception):
    def __init__(self, name, detail): self.obl = name; self.detail = detail; super().__init__('%s: %s' % (name, detail))
class Undecided(Exception):
    """the contract cannot state its postcondition for this input"""

class Conc:
    sym = False; deep = True
    def __init__(self, rng, values=None, tmp=None):
        import numpy as np
        self.np = np
        self.rng = rng                      # random.Random
        self.given = values                 # replay: name -> value
        self.values = {}
        self.n_checks = 0
        self.tmp = tmp
        self.obl_hits = {}
        self.used_given = 0
        self.nontrivial = False
        self.undo = []
    # ---- inputs
    def _take(self, name, gen):
        if name in self.values: raise RuntimeError('duplicate input ' + name)
        if self.given is not None and name in self.given:
            v = self.given[name]; self.used_given += 1
        else: v = gen()
        self.values[name] = v
        return v
    def choose(self, name, options, quick=None):
        options = list(options)
        i = self._take(name, lambda: self.rng.randrange(len(options)))
        return options[i % len(options)]
    def flag(self, name, quick=None): return self.choose(name, [False, True])
    def int(self, name, lo=None, hi=None, chi=None):
        a = lo if lo is not None else (hi - 6 if hi is not None else -4)
        if chi is None: chi = a + 4
        b = hi if hi is not None else chi
        b = min(b, chi) if hi is not None and chi is not None and chi >= a else b
        return int(self._take(name, lambda: self.rng.randint(int(a), max(int(a), int(b)))))
    def real(self, name, lo=None, hi=None, gt=None, lt=None, step=0.25, span=6.0, nice=None):
        """lo/hi inclusive, gt/lt strict; values are multiples of `step` (exact in floating point)"""
        def gen():
            if nice and self.rng.random() < 0.3: return float(self.rng.choice(nice))
            l = lo if lo is not None else (gt if gt is not None else (-span if hi is None and lt is None else min(-span, (hi if hi is not None else lt) - 2 * span)))
            h = hi if hi is not None else (lt if lt is not None else max(l, 0 if (lo is not None or gt is not None) and l > 0 else l) + (2 * span))
            for _ in range(200):
                v = l + step * self.rng.randint(0, max(0, int((h - l) / step)))
                if gt is not None and not v > gt: continue
                if lt is not None and not v < lt: continue
                return float(v)
            raise Skip()
        v = float(self._take(name, gen))
        if (lo is not None and v < lo) or (hi is not None and v > hi) or (gt is not None and not v > gt) or (lt is not None and not v < lt): raise Skip()
        return v
    def bool(self, name): return bool(self._take(name, lambda: self.rng.random() < 0.5))
    def array(self, name, shape, kind='f', lo=None, hi=None, gt=None, step=0.25, span=6.0, nan=False, elems=None, fine=False):
        """array of independent values; fine: with more digits than single precision holds"""
        np = self.np
        shape = tuple(int(s) for s in shape)
        def gen():
            n = 1
            for s in shape: n *= s
            out = []
            for k in range(n):
                if elems is not None: out.append(self.rng.choice(elems)); continue
                if kind == 'b': out.append(self.rng.random() < 0.5); continue
                if kind == 'i':
                    a = lo if lo is not None else -4
                    b = hi if hi is not None else a + 8
                    out.append(self.rng.randint(int(a), int(b))); continue
                l = lo if lo is not None else (gt if gt is not None else -span)
                h = hi if hi is not None else max(l, 0) + span
                v = l + step * self.rng.randint(1 if gt is not None else 0, max(1, int((h - l) / step)))
                if fine and self.rng.random() < 0.5: v += self.rng.randint(0, 3) * 2.0 ** -24
                if nan and self.rng.random() < 0.1: v = 'nan'
                out.append(v)
            return {'shape': list(shape), 'data': out}
        v = self._take(name, gen)
        if tuple(v['shape']) != shape: raise Skip()
        data = [float('nan') if x == 'nan' else x for x in v['data']]
        dt = {'f': float, 'i': int, 'b': bool, 'c': complex}[kind]
        return np.array(data, dtype=dt).reshape(shape)
    def func(self, name, nargs=1):
        """an arbitrary real function of nargs reals (deterministic pseudo-random but smooth-free)"""
        cs = self._take(name, lambda: [round(self.rng.uniform(-2, 2), 3) for _ in range(nargs + 2)])
        np = self.np
        def f(*a):
            r = cs[0]
            for c, x in zip(cs[1:], a): r = r + c * np.asarray(x) + 0.125 * c * np.asarray(x) * np.asarray(x)
            return r
        return f
    def distribution(self, name):
        """a continuous distribution (frozen scipy.stats object)"""
        from scipy import stats
        a = self.real(name + '.a', lo=0.0, span=2.0); w = self.real(name + '.w', gt=0.0, span=4.0)
        k = self.choose(name + '.shape', ['uniform', 'uniform', 'power', 'triangle', 'lognormal', 'modified_schechter', 'schechter', 'double_schechter', 'double_power_law'])
        res = 0
        if k == 'uniform': d = stats.uniform(a, w)
        elif k == 'power': d = stats.powerlaw(2.0, a, w)
        elif k == 'triangle': d = stats.triang(0.25, a, w)
        elif k == 'lognormal': d = stats.lognorm(0.5, a, w)
        else:
            m = self.mod('simim.galprops.galprops_am'); res = 5e-3
            d = {'modified_schechter': lambda: m.modified_schechter_gen(name='m')(1.0, w, 1.25, 0.5, a + 0.25), 'schechter': lambda: m.schechter_gen(name='s')(w, -1.25, 1.0, a + 0.25),
                 'double_schechter': lambda: m.double_schechter_gen(name='d')(w, -1.5, 1.0, 0.25, 0.5, a + 0.25), 'double_power_law': lambda: m.double_power_law_gen(name='p')(1.0, w, 0.5, 2.0, a + 0.25)}[k]()
        class Rv:
            def cdf(s, x): return d.cdf(x)
            def ppf(s, x): return d.ppf(x)
        r = Rv(); r.res = res; r.a, r.b = float(d.ppf(0.0)), float(d.ppf(1.0))
        return r
    def near(self, a, b, res=0): return self.eq(a, b) or abs(a - b) <= res
    def le(self, a, b, res=0): return bool(a <= b) or self.eq(a, b) or abs(a - b) <= res * max(abs(a), abs(b))
    def rng_obj(self, name):
        """a numpy random Generator in an arbitrary state"""
        seed = self._take(name, lambda: self.rng.randrange(10 ** 6))
        return self.np.random.default_rng(seed)
    def same_rng(self, name):
        """another generator in the state the named one had at the start"""
        return self.np.random.default_rng(self.values[name])
    _gens = [0, []]
    def _hidden(self):
        """the generators kept by the package itself: in its modules, classes and default arguments"""
        if getattr(self, '_h', None) is not None: return self._h
        G = self.np.random.Generator; out = {}
        if Conc._gens[0] % 25 == 0:
            for nm, m in list(sys.modules.items()):
                if not nm.startswith('simim') or m is None: continue
                fs = [x for x in vars(m).values()]
                fs += [y for x in fs if isinstance(x, type) and x.__module__.startswith('simim') for y in vars(x).values()]
                for x in fs:
                    for d in list(getattr(x, '__defaults__', None) or ()) + list((getattr(x, '__kwdefaults__', None) or {}).values()) + [x]:
                        if isinstance(d, G): out[id(d)] = d
            Conc._gens[1] = [out[k] for k in sorted(out)]
        Conc._gens[0] += 1
        self._h = Conc._gens[1]
        return self._h
    def randomness(self):
        """the state of everything random except the generators of this contract"""
        s = self.np.random.get_state(legacy=False)
        return [repr(s['state']['pos']), s['state']['key'].tobytes(), s['gauss']] + [repr(g.bit_generator.state) for g in self._hidden()] + [__import__('random').getstate()]
    def disturb(self):
        """somebody else draws random numbers"""
        self.np.random.random(3)
        for g in self._hidden(): g.random(3)
    ln10 = math.log(10)
    def assume(self, c):
        if not c: raise Skip()
    def hint(self, c): pass
    # ---- obligations
    def _rec(self, name):
        self.n_checks += 1
        self.obl_hits[name] = self.obl_hits.get(name, 0) + 1
    def prove(self, name, c, detail=''):
        self._rec(name)
        try: ok = bool(c)
        except Exception as e: ok = False; detail = 'condition not evaluable: %r' % e
        if not ok: raise Failed(name, str(detail() if callable(detail) else detail))
    def forall(self, name, extents, fn):
        self._rec(name)
        tot = 1
        for e in extents: tot *= int(e)
        rs = [range(int(e)) for e in extents]
        it = itertools.product(*rs)
        if tot > 3000:
            it = (tuple(self.rng.randrange(int(e)) for e in extents) for _ in range(3000))
        for idx in it:
            r = fn(*idx)
            if not bool(r): raise Failed(name, 'at index %r' % (idx,))
    def raises(self, thunk, *exc):
        try: thunk()
        except (exc or (Exception,)): return True
        return False
    def fail(self, name, detail=''):
        self._rec(name); raise Failed(name, detail)
    def cover(self, name): self._rec('cover:' + name)
    # ---- values
    def at(self, a, *idx): return a[tuple(int(i) for i in idx)]
    def snap(self, a): return self.np.copy(a)
    def floor(self, x): return math.floor(x)
    def ceil(self, x): return math.ceil(x)
    def ite(self, c, a, b):
        v = a if c else b
        return v() if callable(v) else v
    def And(self, *c): return all(bool(x() if callable(x) else x) for x in c)
    def Or(self, *c): return any(bool(x() if callable(x) else x) for x in c)
    def Not(self, c): return not c
    def implies(self, a, b): return (not a) or bool(b() if callable(b) else b)
    def iff(self, a, b): return bool(a) == bool(b)
    tol = 1e-9
    def eq(self, a, b, scale=None):
        """equality of mathematical values: up to rounding; NaN equals NaN"""
        if a is None or b is None or isinstance(a, str) or isinstance(b, str): return a == b
        if isinstance(a, complex) or isinstance(b, complex):
            return self.eq(complex(a).real, complex(b).real, scale or abs(complex(b)) + abs(complex(a))) and self.eq(complex(a).imag, complex(b).imag, scale or abs(complex(b)) + abs(complex(a)))
        a, b = float(a), float(b)
        if a != a or b != b: return a != a and b != b
        if a == b: return True
        if math.isinf(a) or math.isinf(b): return False
        s = max(abs(a), abs(b), 1e-300) if scale is None else max(abs(a), abs(b), abs(scale))
        return abs(a - b) <= self.tol * s + 1e-12
    def eq32(self, a, b):
        """equality up to single precision"""
        a, b = float(a), float(b)
        return self.eq(a, b) or abs(a - b) <= 3e-7 * max(abs(a), abs(b))
    def same(self, a, b):
        """bit-for-bit / object equality (NaN equals NaN)"""
        if a is None or b is None: return a is b
        try:
            if a != a and b != b: return True
        except Exception: pass
        return bool(a == b)
    def isnan(self, x): return bool(x != x)
    def sum(self, extents, fn):
        t = 0
        for idx in itertools.product(*[range(int(e)) for e in extents]): t = t + fn(*idx)
        return t
    def exists(self, extents, fn):
        return any(bool(fn(*idx)) for idx in itertools.product(*[range(int(e)) for e in extents]))
    def contains(self, arr, v): return any(self.eq(x, v) for x in self.np.asarray(arr).tolist())
    def all_of(self, extents, fn):
        return all(bool(fn(*idx)) for idx in itertools.product(*[range(int(e)) for e in extents]))
    def sqrt(self, x): return math.sqrt(x)
    def pow(self, x, y): return float(x) ** float(y)
    def real_of(self, x): return float(x)
    def mod(self, name): return importlib.import_module(name)
    def arr_eq(self, name, a, b):
        """arrays equal in shape and (up to rounding) in every element"""
        np = self.np
        a = np.asarray(a); b = np.asarray(b)
        self.prove(name + '.shape', a.shape == b.shape, '%r vs %r' % (a.shape, b.shape))
        self.forall(name, a.shape, lambda *i: self.eq(a[i], b[i]))
    def shape_is(self, name, a, shape):
        self.prove(name, tuple(self.np.shape(a)) == tuple(int(s) for s in shape), '%r vs %r' % (self.np.shape(a), tuple(shape)))
    def asarray(self, x): return self.np.array(x)
    def kind(self, a): return self.np.asarray(a).dtype.kind
    def tmpdir(self):
        if self.tmp is None: raise RuntimeError('no scratch directory')
        import tempfile
        return tempfile.mkdtemp(dir=self.tmp)
    def patch(self, obj, name, value):
        """replace an attribute for the duration of this case"""
        d = vars(obj)
        self.undo.append((obj, name, name in d, d.get(name)))
        setattr(obj, name, value)
    def restore(self):
        while self.undo:
            obj, name, had, old = self.undo.pop()
            if had: setattr(obj, name, old)
            else: delattr(obj, name)
    def string(self, name):
        """a non-empty string without separators, line breaks or path separators"""
        return self._take(name, lambda: ''.join(self.rng.choice('abcXYZ019_-.,#=\u00e9\u4e2d~') for _ in range(self.rng.randint(1, 4))).replace('..', '.x').strip('.~') or 'p')
    def answers(self, module, seq):
        """what the user types when the module asks; returns the list of prompts shown"""
        seq = list(seq); shown = []
        def ask(prompt=''):
            shown.append(prompt)
            if not seq: raise Failed('prompt', 'unexpected prompt: %s' % prompt)
            return seq.pop(0)
        self.patch(module, 'input', ask)
        return shown
    def package_root(self):
        """an empty package directory for simim's own settings; returns the directory"""
        import pathlib
        d = self.tmpdir(); os.makedirs(d + '/pkg/simim/resources')
        self.patch(self.mod('simim._paths'), 'files', lambda pkg: pathlib.Path(d + '/pkg') / pkg.replace('.', '/'))
        return d
    def rows(self, col):
        """the rows of a table to look at: all (symbolically: the arbitrary row of the loop that filled it)"""
        return range(len(col))
    def canon_grid(self, g, n, px, c, props, data=None): return g
    def note_nontrivial(self): self.nontrivial = True

def load_contracts(prop=None):
    import pkgutil
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts')
    root = os.path.dirname(d)
    if root not in sys.path: sys.path.insert(0, root)
    for m in sorted(os.listdir(d)):
        if m.endswith('.py') and not m.startswith('_'): importlib.import_module('contracts.' + m[:-3])
    return [c for c in CONTRACTS if prop is None or c.prop == prop]
