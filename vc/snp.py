"""numpy as seen by the symbolically executed code (assumed contracts on the dependency)."""
import itertools, math
import builtins as _b
import z3
from . import core
from .core import *
from .arr import *
from .arr import A, asarr, nary, unop, binop

pi = mkR(frac(math.pi)); e = math.e; nan = float('nan'); inf = float('inf'); newaxis = None
ndarray = A
class _Kind(type):
    def __instancecheck__(cls, x): return kind_of(x) in cls._kinds or type.__instancecheck__(cls, x)
def _mk(name, kind, kinds):
    def new(cls, x=0, *a):
        if isinstance(x, A) or isinstance(x, (list, tuple)): return asarr(x).astype(kind)
        return cast(x, kind)
    return _Kind(name, (), {'_kind': kind, '_kinds': kinds, '__new__': new})
int64 = _mk('int64', 'i', 'i'); int32 = _mk('int32', 'i', 'i'); int_ = int64; intp = int64; int16 = _mk('int16', 'i', 'i'); int8 = _mk('int8', 'i', 'i')
uint64 = uint32 = uint16 = uint8 = int64
float64 = _mk('float64', 'f', 'f'); float32 = _mk('float32', 'f', 'f'); float16 = float32; float_ = float64
complex128 = _mk('complex128', 'c', 'c'); complex64 = complex128
bool_ = _mk('bool_', 'b', 'b')
object_ = _mk('object_', 'O', 'O')
class integer: _kinds = 'i'
class floating: _kinds = 'f'
class number: _kinds = 'ifc'
class inexact: _kinds = 'fc'
complexfloating = type('complexfloating', (), {'_kinds': 'c'}); signedinteger = integer
class generic: _kinds = 'bifcO'

def dtype(x=None, align=False, dtype=None):
    x = dtype if x is None else x
    if isinstance(x, RecDtype): return x
    if isinstance(x, list): return RecDtype(x)
    return DType(kind_name(x))

def issubdtype(t, sup):
    k = kind_name(t) if not isinstance(t, type) or hasattr(t, '_kind') else None
    if isinstance(t, type) and not hasattr(t, '_kind'):
        if issubclass(t, (Z,)) or (issubclass(t, int) and not issubclass(t, bool)): k = 'i'
        elif issubclass(t, (R, float)): k = 'f'
        elif issubclass(t, (B, bool)): k = 'b'
        elif issubclass(t, (C, complex)): k = 'c'
        else: k = 'O'
    if hasattr(sup, '_kinds'): return k in sup._kinds
    return k == kind_name(sup)

def array(x, dtype=None, ndmin=0, copy=True, **kw):
    if isinstance(x, A): a = x.copy()
    else: a = asarr(x)
    if not isinstance(a, A): a = scalarA(a)
    if dtype is not None: a = a.astype(dtype)
    while a.ndim < ndmin: a = a.reshape([1] + list(a.shape))
    if isinstance(x, A) and a.imap is not None: a = a.copy()
    return a
def asarray(x, dtype=None):
    a = asarr(x)
    if dtype is not None and a.kind != kind_name(dtype): a = a.astype(dtype)
    return a
asanyarray = asarray
def ascontiguousarray(x): return asarr(x)
def atleast_1d(x):
    a = asarr(x)
    return a if a.ndim else a.reshape([1])
def atleast_2d(x):
    a = atleast_1d(x)
    return a if a.ndim > 1 else a.reshape([1] + list(a.shape))
def copy(x): return x.copy() if isinstance(x, RecArr) else asarr(x).copy()

def _shape(s):
    if isinstance(s, A): s = [s.get()] if s.ndim == 0 else list(s.cells())
    elif not isinstance(s, (tuple, list)): s = [s]
    out = [norm_dim(x) for x in s]
    for x in out:
        if isinstance(x, int):
            if x < 0: raise ValueError('negative dimensions are not allowed')
        elif core.E.check(x.t < 0, timeout=2000) != z3.unsat:
            if core.E.branch(x.t < 0): raise ValueError('negative dimensions are not allowed')
    return out
def full(shape, v, dtype=None):
    k = kind_name(dtype) or kind_of(v)
    v = cast_store(v, k)
    return A(_shape(shape), Storage(lambda *i: v, k))
class RecDtype:
    kind = 'V'
    def __init__(self, fields): self.fields_ = [(f[0], f[1]) for f in fields]
    @property
    def names(self): return _b.tuple(f[0] for f in self.fields_)
    def __eq__(self, o): return isinstance(o, RecDtype) and self.names == o.names
    def __hash__(self): return hash(self.names)
class Rec:
    def __init__(self, arr, i): self.arr = arr; self.i = i
    def __getitem__(self, k): return self.arr.cols[k if isinstance(k, str) else self.arr.dtype.names[k]][self.i]
    def __setitem__(self, k, v): self.arr.cols[k if isinstance(k, str) else self.arr.dtype.names[k]][self.i] = v
class RecArr:
    """structured array: a dictionary of columns of equal length"""
    def __init__(self, cols, dtype): self.cols = cols; self.dtype = dtype
    def _any(self): return self.cols[self.dtype.names[0]]
    @property
    def shape(self): return self._any().shape
    @property
    def ndim(self): return self._any().ndim
    @property
    def size(self): return self._any().size
    def slen(self): return self._any().slen()
    def __len__(self): return _b.len(self._any())
    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.cols: raise ValueError('no field of name ' + k)
            return self.cols[k]
        if isinstance(k, (list, _b.tuple)) and k and isinstance(k[0], str): return RecArr({n: self.cols[n] for n in k}, RecDtype([f for f in self.dtype.fields_ if f[0] in k]))
        if isinstance(k, A) and k.ndim == 0 and k.kind == 'i': k = k.item()
        if not isinstance(k, (A, slice, list)) and self.ndim == 1:
            for c in self.cols.values(): c[k]      # range check
            return Rec(self, k)
        return RecArr({n: c[k] for n, c in self.cols.items()}, self.dtype)
    def __setitem__(self, k, v):
        if isinstance(k, str): self.cols[k][...] = v
        elif isinstance(v, Rec):
            for n in self.cols: self.cols[n][k] = v[n]
        elif isinstance(v, RecArr):
            for n in self.cols: self.cols[n][k] = v.cols[n]
        elif isinstance(v, _b.tuple):
            for n, x in zip(self.dtype.names, v): self.cols[n][k] = x
        else: raise Unsupported('assignment to a structured array')
    def copy(self): return RecArr({n: c.copy() for n, c in self.cols.items()}, self.dtype)
    def __iter__(self): return iter([self[i] for i in _b.range(_b.len(self))])
def rec_zeros(shape, dtype):
    dt = dtype if isinstance(dtype, RecDtype) else RecDtype(dtype)
    cols = {}
    for n, t in dt.fields_:
        k = kind_name(t) if not (isinstance(t, str) and t.lstrip('<>=|')[:1] in 'US') else 'O'
        cols[n] = full(shape, '' if k == 'O' else cast(0, k), k)
    return RecArr(cols, dt)
def zeros(shape, dtype=float):
    if isinstance(dtype, (list, RecDtype)): return rec_zeros(shape, dtype)
    return full(shape, cast(0, kind_name(dtype)), dtype)
def ones(shape, dtype=float): return full(shape, cast(1, kind_name(dtype)), dtype)
def empty(shape, dtype=float):
    if isinstance(dtype, (list, RecDtype)): return rec_zeros(shape, dtype)
    k = kind_name(dtype); sh = _shape(shape)
    n = _b.max(1, len(sh))
    if k == 'f':
        f = core.E.func('uninit', *([z3.IntSort()] * n + [z3.RealSort()]))
        return A(sh, Storage(lambda *i: mkR(f(*[int_term(x) for x in i] or [z3.IntVal(0)])), k))
    if k == 'i':
        f = core.E.func('uninit_i', *([z3.IntSort()] * n + [z3.IntSort()]))
        return A(sh, Storage(lambda *i: mkZ(f(*[int_term(x) for x in i] or [z3.IntVal(0)])), k))
    return full(sh, cast(0, k), k)
def _like(f):
    def g(a, dtype=None):
        a = asarr(a)
        r = f(a.shape, dtype or a.dtype)
        r.dom = a.dom
        return r
    return g
zeros_like = _like(lambda s, d: zeros(s, d)); ones_like = _like(lambda s, d: ones(s, d)); empty_like = _like(lambda s, d: empty(s, d))
def full_like(a, v, dtype=None):
    a = asarr(a); r = full(a.shape, v, dtype or a.dtype); r.dom = a.dom; return r
def identity(n): return eye(n)
def eye(n): return from_nested([[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)])

def arange(*a, dtype=None):
    start, stop, step = 0, None, 1
    if len(a) == 1: stop = a[0]
    elif len(a) == 2: start, stop = a
    else: start, stop, step = a
    def sc(x): return x.item() if isinstance(x, A) else x
    start, stop, step = sc(start), sc(stop), sc(step)
    if step != 1 or kind_of(start) != 'i' or kind_of(stop) != 'i':
        if all(isinstance(x, (int, float)) for x in (start, stop, step)):
            import numpy
            return asarr(numpy.arange(start, stop, step).tolist()) if dtype is None else asarr(numpy.arange(start, stop, step).tolist()).astype(dtype)
        if kind_of(stop) == 'f' and start == 0 and step == 1:
            z = stop.ceil_z() if isinstance(stop, R) else math.ceil(stop)
            return arange(z, dtype=float)
        raise Unsupported('arange')
    n = stop - start
    if isinstance(n, int): n = _b.max(0, n)
    elif not core.E.branch(as_bool_term(n >= 0)): n = 0
    k = kind_name(dtype) or 'i'
    r = A([norm_dim(n)], Storage(lambda i: cast(i + start, k), k))
    if k == 'i' and isinstance(start, int) and start == 0: r.ipos = Dom((r.shape[0],))
    return r

def linspace(a, b, n=50, endpoint=True):
    if isinstance(a, A): a = a.item()
    if isinstance(b, A): b = b.item()
    n = norm_dim(n)
    d = (n - 1) if endpoint else n
    if isinstance(d, int) and d == 0: return from_nested([cast(a, 'f')])
    def f(i):
        if isinstance(i, int) and i == 0: return cast(a, 'f')
        if endpoint and not isinstance(i, Z) and isinstance(d, int) and i == d: return cast(b, 'f')
        return s_div((b - a) * i, d) + a
    return A([n], Storage(f, 'f'))
def logspace(a, b, n=50):
    if not is_sym(a) and not is_sym(b) and isinstance(n, int) and n > 1:
        # positive, increasing; values themselves only at concrete positions
        h = core.E.func('logspace', z3.IntSort(), z3.RealSort())
        def f(i):
            if isinstance(i, int): return 10.0 ** (a + (b - a) * i / (n - 1))
            t = h(int_term(i)); core.E.fact(t > 0, key=('logsp', t.get_id())); return mkR(t)
        return A([n], Storage(f, 'f'))
    l = linspace(a, b, n)
    return unop(l, lambda x: rpow(10, x), 'f')
def geomspace(a, b, n=50): raise Unsupported('geomspace')

def reshape(a, shape): return asarr(a).reshape(shape)
def ravel(a): return asarr(a).reshape(-1)
def transpose(a, axes=None): return asarr(a).transpose(*(axes or ()))
def expand_dims(a, axis):
    a = asarr(a)
    ax = list(axis) if isinstance(axis, (tuple, list)) else [axis]
    n = a.ndim + len(ax)
    ax = [int(x) % n if -n <= int(x) < n else _axerr(x) for x in ax]
    it = iter(range(a.ndim))
    key = tuple(None if i in ax else slice(None) for i in range(n))
    return a[key] if a.ndim else a.reshape([1] * n)
def _axerr(x): raise ValueError('axis %s is out of bounds' % x)
def squeeze(a, axis=None): return asarr(a).squeeze(axis)
def moveaxis(a, src, dst):
    a = asarr(a); n = a.ndim
    s = [int(x) for x in (src if isinstance(src, (tuple, list, A)) else [src])]
    d = [int(x) for x in (dst if isinstance(dst, (tuple, list, A)) else [dst])]
    for x in s + d:
        if x < -n or x >= n: raise ValueError('axis out of bounds')
    s = [x % n for x in s]; d = [x % n for x in d]
    order = [i for i in range(n) if i not in s]
    for dd, ss in sorted(zip(d, s)): order.insert(dd, ss)
    return a.transpose(*order)
def swapaxes(a, i, j):
    a = asarr(a); o = list(range(a.ndim)); o[i], o[j] = o[j], o[i]
    return a.transpose(*o)
def broadcast_to(a, shape):
    a = asarr(a); z_ = zeros(shape)
    s, d, (f, g) = bcast([a, z_])
    return A(s, Storage(lambda *i: f(*i), a.kind), None, None, d)
def flip(a, axis=None):
    a = asarr(a); ax = norm_axes(a, axis)
    return a[tuple(slice(None, None, -1) if i in ax else slice(None) for i in range(a.ndim))]

def concatenate(arrs, axis=0):
    arrs = list(arrs)
    if _b.all(isinstance(a, RecArr) for a in arrs): return RecArr({k: concatenate([a.cols[k] for a in arrs]) for k in arrs[0].cols}, arrs[0].dtype)
    arrs = [asarr(a) for a in arrs]
    if axis is None: arrs = [a.reshape(-1) for a in arrs]; axis = 0
    n = arrs[0].ndim
    if _b.any(a.ndim != n for a in arrs): raise ValueError('all the input array dimensions must match')
    axis = int(axis)
    if axis < -n or axis >= n: raise ValueError('axis out of bounds')
    axis %= n
    for a in arrs[1:]:
        for i in range(n):
            if i != axis and not dim_eq(a.shape[i], arrs[0].shape[i]):
                if core.E.branch(as_bool_term(arrs[0].shape[i] == a.shape[i])): continue
                raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
    if len(arrs) == 1: return arrs[0].copy()
    k = arrs[0].kind
    for a in arrs[1:]: k = mx(k, a.kind)
    dom = list(arrs[0].dom)
    for a in arrs[1:]:
        for i in range(n):
            if i != axis and a.dom[i] is not dom[i] and not doms_equal(a.dom[i], dom[i]): raise Unsupported('concatenate over different selections')
    dom[axis] = None
    fs = [a.fz() for a in arrs]; axd = [a.dom[axis] for a in arrs]
    offs = [0]
    for a in arrs: offs.append(offs[-1] + a.shape[axis])
    def f(*i):
        j = i[axis]
        def part(q):
            p = j - offs[q]
            if axd[q] is not None: p = axd[q].base(p)
            return cast(fs[q](*(i[:axis] + (p,) + i[axis + 1:])), k)
        if isinstance(j, int) and _b.all(isinstance(o, int) for o in offs):
            for q in range(len(fs)):
                if j < offs[q + 1]: return part(q)
        r = None
        for q in reversed(range(len(fs))):
            if isinstance(arrs[q].shape[axis], int) and arrs[q].shape[axis] == 0: continue
            if r is None: r = part(q); continue
            c = j < offs[q + 1]
            if c is True: r = part(q)
            elif c is False: pass
            else: r = ite(c, part(q), r)
        return r
    shape = list(arrs[0].shape); shape[axis] = norm_dim(offs[-1])
    return A(shape, Storage(f, k), None, None, dom)
def stack(arrs, axis=0):
    arrs = [asarr(a) for a in arrs]
    return moveaxis(from_nested(arrs), 0, axis)
def append(a, b, axis=None):
    a, b = asarr(a), asarr(b)
    if axis is None: return concatenate((a.reshape(-1), b.reshape(-1)))
    return concatenate((a, b), axis)
def vstack(arrs):
    return concatenate([atleast_2d(a) for a in arrs], 0)
def hstack(arrs):
    arrs = [atleast_1d(a) for a in arrs]
    return concatenate(arrs, 0 if arrs[0].ndim == 1 else 1)
def column_stack(arrs):
    arrs = [asarr(a) for a in arrs]
    return concatenate([a.reshape([a.shape[0], 1]) if a.ndim == 1 else a for a in arrs], 1)
def tile(a, reps):
    a = asarr(a)
    if a.ndim == 1 and isinstance(reps, int): return concatenate([a] * reps)
    raise Unsupported('tile')
def repeat(a, n, axis=None):
    a = asarr(a)
    if axis is None: a = a.reshape(-1); axis = 0
    if a.ndim != 1 or a.dom[0] is not None or not isinstance(norm_dim(n) if not isinstance(n, (A, list, _b.tuple)) else None, (int, Z)): raise Unsupported('repeat')
    n = norm_dim(n); f = a.fz()
    if dim_is1(a.shape[0]): return A((n,), Storage(lambda i: f(0), a.kind))
    if isinstance(n, int) and n == 1: return a.copy()
    return A((norm_dim(a.shape[0] * n),), Storage(lambda i: f(i // n), a.kind))
def delete(a, idx, axis=None):
    a = asarr(a)
    if axis is None and a.ndim == 1: axis = 0
    n = a.shape[axis]
    ii = [int(x) % n for x in (asarr(idx).cells() if not isinstance(idx, int) else [idx])]
    keep = [i for i in range(n) if i not in ii]
    return take(a, from_nested(keep) if keep else A((0,), Storage(lambda i: 0, 'i')), axis)
def insert(a, pos, v):
    a = asarr(a); pos = int(pos)
    return concatenate((a[:pos], atleast_1d(v), a[pos:]))
def take(a, idx, axis=None):
    a = asarr(a)
    if axis is None: a = a.reshape(-1); axis = 0
    axis = int(axis) % a.ndim
    if not isinstance(idx, (int, Z)): idx = asarr(idx)
    key = [slice(None)] * a.ndim; key[axis] = idx
    return a[tuple(key)]
def split(a, n, axis=0):
    a = asarr(a)
    m = a.shape[axis]
    if not isinstance(n, int): raise Unsupported('split')
    if m % n: raise ValueError('array split does not result in an equal division')
    w = m // n
    return [a[tuple(slice(i * w, (i + 1) * w) if j == axis % a.ndim else slice(None) for j in range(a.ndim))] for i in range(n)]
array_split = split
def meshgrid(*xs, indexing='xy'):
    xs = [asarr(x) for x in xs]
    if indexing == 'xy' and len(xs) > 1: raise Unsupported('meshgrid xy')
    n = len(xs); out = []
    for i, x in enumerate(xs):
        f = x.fz()
        out.append(A([y.shape[0] for y in xs], Storage((lambda i, f: lambda *k: f(k[i]))(i, f), x.kind), None, None, [y.dom[0] for y in xs]))
    return out
def indices(shape):
    sh = _shape(shape); n = len(sh)
    return A([n] + sh, Storage(lambda *i: _pick(i), 'i'))
def _pick(i):
    if isinstance(i[0], int): return i[1 + i[0]]
    r = i[-1]
    for q in range(len(i) - 3, -1, -1): r = ite(i[0] == q, i[1 + q], r)
    return r

def pad(a, widths, mode='constant', constant_values=0):
    a = asarr(a); f = a.fz(); n = a.ndim
    w = asarr(widths)
    if w.ndim == 0: ws = [(w.item(), w.item())] * n
    elif w.ndim == 1: ws = [tuple(w.cells())] * n
    else: ws = [(w[i, 0], w[i, 1]) for i in range(w.shape[0])]
    if len(ws) == 1: ws = ws * n
    if len(ws) != n: raise ValueError('operands could not be broadcast together')
    for p in ws:
        for x in p:
            if (x < 0 if isinstance(x, int) else core.E.branch(as_bool_term(x < 0))): raise ValueError("index can't contain negative values")
    if mode != 'constant': raise Unsupported('pad mode')
    if _b.any(d is not None for d in a.dom): raise Unsupported('pad of a selection')
    cv = cast_store(constant_values, a.kind)
    def g(*i):
        j = [x - p[0] for x, p in zip(i, ws)]
        c = land(*[land(y >= 0, y < s) for y, s, p in zip(j, a.shape, ws) if not (p[0] == 0 and p[1] == 0 and isinstance(p[0], int))])
        if c is True: return f(*j)
        if c is False: return cv
        return ite(c, f(*j), cv)
    return A([norm_dim(s + p[0] + p[1]) for s, p in zip(a.shape, ws)], Storage(g, a.kind))

def diff(a, n=1, axis=-1):
    a = asarr(a); ax = axis % a.ndim
    lo = [slice(None)] * a.ndim; hi = list(lo)
    lo[ax] = slice(None, -1); hi[ax] = slice(1, None)
    return a[tuple(hi)] - a[tuple(lo)]
def ptp(a, axis=None): return amax(a, axis) - amin(a, axis)

# ---- elementwise
def _floor1(x): return x.floor_r() if isinstance(x, R) else (float(math.floor(x)) if not is_sym(x) else R(real_term(x)))
def _ceil1(x): return x.ceil_r() if isinstance(x, R) else (float(math.ceil(x)) if not is_sym(x) else R(real_term(x)))
def floor(a): return unop(a, _floor1, 'f')
def ceil(a): return unop(a, _ceil1, 'f')
def trunc(a): return unop(a, lambda x: R(real_term(x.trunc_z())) if isinstance(x, R) else float(math.trunc(x)), 'f')
def round(a, decimals=0):
    return unop(a, lambda x: x.round_r(decimals) if isinstance(x, R) else (x if is_sym(x) else _b.round(x, decimals)), None)
around = round; rint = round
def abs(a): return unop(a, lambda x: x.__abs__() if not isinstance(x, C) else sqrt(x.re * x.re + x.im * x.im), None)
absolute = abs; fabs = abs
def sqrt(a): return unop(a, lambda x: core.sqrt(x) if is_sym(x) else math.sqrt(x) if x >= 0 else nan, 'f')
def square(a): return unop(a, lambda x: x * x, None)
def negative(a): return -asarr(a)
def _uf(name, py):
    def g(a): return unop(a, lambda x: ufun(name, x) if is_sym(x) else py(x), 'f')
    return g
def _plog(fn):
    def g(x):
        if x == 0: return -inf
        if x < 0: return nan
        return fn(x)
    return g
exp = _uf('exp', lambda x: math.exp(x) if x < 700 else inf)
log = _uf('log', _plog(math.log)); log10 = _uf('log10', _plog(math.log10)); log2 = _uf('log2', _plog(math.log2)); log1p = _uf('log1p', math.log1p); expm1 = _uf('expm1', math.expm1)
sin = _uf('sin', math.sin); cos = _uf('cos', math.cos); tan = _uf('tan', math.tan)
arcsin = _uf('arcsin', math.asin); arccos = _uf('arccos', math.acos); arctan = _uf('arctan', math.atan)
sinh = _uf('sinh', math.sinh); cosh = _uf('cosh', math.cosh); tanh = _uf('tanh', math.tanh); arcsinh = _uf('arcsinh', math.asinh)
def _uf2(name, py):
    def g(a, b):
        def h(x, y):
            if is_sym(x) or is_sym(y):
                x, y = lift_real(x), lift_real(y)
                return mkR(uf(name, 2)(x.t, y.t), core._or(x.nan, y.nan))
            return py(x, y)
        return nary(h, 'f', a, b)
    return g
arctan2 = _uf2('arctan2', math.atan2)
def hypot(a, b): return sqrt(asarr(a) ** 2 + asarr(b) ** 2)
def power(a, b): return binop(a, b, s_pow, pow_kind)
def subtract(a, b): return binop(a, b, lambda x, y: x - y, ar_kind)
def multiply(a, b): return binop(a, b, lambda x, y: x * y, ar_kind)
def divide(a, b): return binop(a, b, s_div, div_kind)
true_divide = divide
def mod(a, b): return binop(a, b, lambda x, y: x % y, ar_kind)
remainder = mod
def floor_divide(a, b): return binop(a, b, lambda x, y: x // y, ar_kind)
def maximum(a, b): return nary(lambda x, y: ite(x >= y, x, y), mx(asarr(a).kind, asarr(b).kind), a, b)
def minimum(a, b): return nary(lambda x, y: ite(x <= y, x, y), mx(asarr(a).kind, asarr(b).kind), a, b)
def clip(a, lo, hi):
    if lo is not None: a = maximum(a, lo)
    if hi is not None: a = minimum(a, hi)
    return a
def where(c, *xy):
    if not xy: return nonzero(c)
    x, y = xy
    return nary(lambda q, u, v: ite(as_cond(q), u, v), mx(asarr(x).kind, asarr(y).kind), c, x, y)
def logical_and(a, b): return nary(lambda x, y: land(as_cond(x), as_cond(y)), 'b', a, b)
def logical_or(a, b): return nary(lambda x, y: lor(as_cond(x), as_cond(y)), 'b', a, b)
def logical_not(a): return unop(a, lambda x: lnot(as_cond(x)), 'b')
def isnan(a): return unop(a, lambda x: mkB(x.nan) if isinstance(x, R) and x.nan is not None else (isinstance(x, float) and x != x), 'b')
def isfinite(a): return unop(a, lambda x: lnot(mkB(x.nan)) if isinstance(x, R) and x.nan is not None else not (isinstance(x, float) and (x != x or x in (inf, -inf))), 'b')
def isinf(a): return unop(a, lambda x: isinstance(x, float) and x in (inf, -inf), 'b')
def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    # assumed: exact equality of mathematical reals implies closeness; closeness is |a-b| <= atol + rtol*|b|
    def f(x, y):
        if isinstance(x, (R, Z)) or isinstance(y, (R, Z)):
            d = lift_real(x) - lift_real(y)
            return land(d <= lift_real(y).__abs__() * rtol + atol, -d <= lift_real(y).__abs__() * rtol + atol)
        return math.isclose(x, y, rel_tol=rtol, abs_tol=atol)
    return nary(f, 'b', a, b)
def allclose(a, b, **k): return np_all(isclose(a, b, **k))
def array_equal(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim != b.ndim: return False
    for x, y in zip(a.shape, b.shape):
        if not (x == y): return False
    return np_all(a == b)
def equal(a, b): return asarr(a) == b
def sign(a): return unop(a, lambda x: ite(x > 0, 1.0, ite(x < 0, -1.0, 0.0)) if is_sym(x) else float((x > 0) - (x < 0)), 'f')
def heaviside(a, h): return nary(lambda x, y: ite(x < 0, 0.0, ite(x > 0, 1.0, y)), 'f', a, h)
def conj(a): return asarr(a).conj()
conjugate = conj
def real(a): return asarr(a).real
def imag(a): return asarr(a).imag
def nan_to_num(a, **k): return unop(a, lambda x: ite(mkB(x.nan), 0.0, R(x.t)) if isinstance(x, R) and x.nan is not None else (0.0 if isinstance(x, float) and x != x else x), None)
def deg2rad(a): return asarr(a) * (pi / 180)
def rad2deg(a): return asarr(a) * (180 / pi)
radians = deg2rad; degrees = rad2deg

# ---- reductions
def sum(a, axis=None, keepdims=False, **k): return np_sum(a, axis, keepdims)
nansum = sum
def mean(a, axis=None, keepdims=False): return np_mean(a, axis, keepdims)
def any(a, axis=None, keepdims=False): return np_any(a, axis, keepdims)
def all(a, axis=None, keepdims=False): return np_all(a, axis, keepdims)
def amin(a, axis=None, keepdims=False): return np_minmax(a, axis, 'min', keepdims)
def amax(a, axis=None, keepdims=False): return np_minmax(a, axis, 'max', keepdims)
min = amin; max = amax
def prod(a, axis=None):
    a = asarr(a)
    if axis is not None and a.ndim > 1: raise Unsupported('prod axis')
    r = 1 if a.kind in 'bi' else 1.0
    for v in a.cells(): r = r * v
    return r
def average(a, axis=None, weights=None):
    a = asarr(a)
    if weights is None: return mean(a, axis)
    w = asarr(weights)
    if w.ndim != a.ndim:
        if axis is None: raise TypeError('Axis must be specified when shapes of a and weights differ.')
        sh = [1] * a.ndim; sh[int(axis) % a.ndim] = w.shape[0]
        w = w.reshape(sh)
    return divide(sum(a * w, axis), sum(broadcast_to(w, a.shape), axis))
def count_nonzero(a): return np_sum(unop(a, as_cond, 'b'))
def argmax(a, axis=None): raise Unsupported('argmax')
def argmin(a, axis=None): raise Unsupported('argmin')
def cumsum(a, axis=None):
    a = asarr(a)
    if a.ndim == 1 and a.conc():
        out = []; t = 0
        for v in a.cells(): t = t + v; out.append(t)
        return from_nested(out)
    raise Unsupported('cumsum')
def dot(a, b): return matmul(a, b)
def matmul(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 1 and b.ndim == 1: return np_sum(a * b)
    if a.ndim == 2 and b.ndim == 1: return np_sum(a * b, 1)
    if a.ndim == 1 and b.ndim == 2: return np_sum(a.reshape([a.shape[0], 1]) * b, 0)
    if a.ndim == 2 and b.ndim == 2:
        return np_sum(a.reshape([a.shape[0], a.shape[1], 1]) * b.reshape([1] + list(b.shape)), 1)
    raise Unsupported('matmul')
A.__matmul__ = lambda s, o: matmul(s, o)
A.dot = lambda s, o: matmul(s, o)

# ---- selections, sorting, searching
def nonzero(m):
    m = asarr(m); f = m.fz()
    if m.conc() and _b.all(d is None for d in m.dom) and _b.all(
            not is_sym(v) for v in m.cells()) if m.conc() and m.size <= 256 else False:
        out = [[] for _ in range(m.ndim)]
        for c in itertools.product(*[range(s) for s in m.shape]):
            if m.get(*c):
                for o, x in zip(out, c): o.append(x)
        return tuple(A((len(o),), Storage((lambda o: lambda i: o[i] if isinstance(i, int) else asarr(o).get(i))(o), 'i')) if o else A((0,), Storage(lambda i: 0, 'i')) for o in out)
    if m.conc() and m.ndim == 1 and m.shape[0] <= 6 and m.dom[0] is None:
        o = [i for i in range(m.shape[0]) if core.E.branch(as_bool_term(as_cond(m.get(i))))]
        return (from_nested(o) if o else A((0,), Storage(lambda i: 0, 'i')),)
    # general: one axis structured by the guard
    if m.ndim == 1 and m.dom[0] is not None:
        d0 = m.dom[0]
        g0 = d0.guard
        d = mkdom(d0.ext, (lambda *k: land(g0(*k), as_cond(f(k[0] if len(k) == 1 else k)))) if g0 else (lambda *k: as_cond(f(k[0] if len(k) == 1 else k))))
        src = d0
        val = lambda k: rank(src, k)
        a = A((norm_dim(d.count()),), Storage(val, 'i'), None, None, [d], src)
        return (a,)
    if _b.any(d is not None for d in m.dom): raise Unsupported('nonzero over selections')
    ext = m.shape
    d = mkdom(ext, lambda *k: as_cond(f(*k)))
    out = []
    for ax in range(m.ndim):
        a = A((norm_dim(d.count()),), Storage((lambda ax: lambda k: tup(k)[ax])(ax), 'i'), None, None, [d], Dom(ext) if m.ndim == 1 else None)
        if m.ndim > 1: a.nzaxis = ax
        out.append(a)
    return tuple(out)
def mkdom(ext, guard):
    """hash-consed selection structure"""
    E_ = core.E
    vs = [Z(z3.Int('dv!%d' % i)) for i in range(len(ext))]
    with E_.under(*[z3.And(v.t >= 0, v.t < int_term(x)) for v, x in zip(vs, ext)]):
        g = simp(as_bool_term(guard(*vs)))
    key = ('dom', tuple(simp(int_term(x)).get_id() for x in ext), g.get_id())
    core._keep.append(g)
    if not hasattr(E_, 'doms') or E_.doms_owner is not E_.solver: E_.doms = {}; E_.doms_owner = E_.solver
    if key in E_.doms: return E_.doms[key]
    d = Dom(ext, guard)
    for o in E_.doms.values():
        if o.same_ext(d) and doms_equal(o, d): E_.doms[key] = o; return o
    E_.doms[key] = d
    return d
def flatnonzero(m): return nonzero(asarr(m).reshape(-1))[0]
def argwhere(m): raise Unsupported('argwhere')

def unique(a, return_counts=False, return_inverse=False, return_index=False):
    a = asarr(a)
    if a.conc() and a.ndim == 1 and not return_inverse and not return_index:
        vals = list(a.cells())
        if a.kind == 'O' or not _b.any(is_sym(v) for v in vals):
            us = sorted(set(vals)); cs = [vals.count(u) for u in us]
            arr = lambda l, k: from_nested(l) if l else A((0,), Storage(lambda i: 0, k))
            return (arr(us, a.kind), arr(cs, 'i')) if return_counts else arr(us, a.kind)
    if a.ndim == 1 and not return_counts and not return_index and a.dom[0] is None and a.kind in 'fi':
        # assumed contract: values[inverse[i]] == a[i] with inverse in range (order and minimality not used)
        n = a.shape[0]; f = a.fz(); nt = int_term(n)
        m = z3.Int('unique!%d' % _b.len(core.E.fresh_n)); core.E.fresh_n['unique%d' % _b.len(core.E.fresh_n)] = 1
        core.E.fact(z3.And(m >= 0, m <= nt, z3.Implies(nt > 0, m >= 1)))
        sort_ = z3.RealSort() if a.kind == 'f' else z3.IntSort()
        u = core.E.func('uniq', z3.IntSort(), sort_); v = core.E.func('inv', z3.IntSort(), z3.IntSort())
        mk = (lambda t: R(t)) if a.kind == 'f' else (lambda t: mkZ(t))
        def inv(i):
            it = int_term(i); t = v(it)
            core.E.fact(z3.Implies(z3.And(it >= 0, it < nt), z3.And(t >= 0, t < m)), key=('inv', t.get_id()))
            x = f(i)
            if a.kind == 'f' and getattr(x, 'nan', None) is not None: raise Unsupported('unique of values that may be NaN')
            w = u(t); core.E.fact(z3.Implies(z3.And(it >= 0, it < nt), w == (lift_real(x).t if a.kind == 'f' else int_term(x))), key=('uq', t.get_id()))
            return mkZ(t)
        vals = A((mkZ(m),), Storage(lambda j: mk(u(int_term(j))), a.kind))
        return (vals, A((n,), Storage(inv, 'i'))) if return_inverse else vals
    raise Unsupported('unique')
def isin(a, b):
    bs = list(asarr(b).cells())
    return unop(a, lambda x: lor(*[s_eq(x, y) for y in bs]) if bs else False, 'b')
in1d = isin
def setdiff1d(a, b):
    a = asarr(a); b = asarr(b)
    av = sorted(set(int(x) for x in a.cells())); bv = set(int(x) for x in b.cells())
    o = [x for x in av if x not in bv]
    return from_nested(o) if o else A((0,), Storage(lambda i: 0, 'i'))
def union1d(a, b):
    o = sorted(set(asarr(a).cells()) | set(asarr(b).cells()))
    return from_nested(o)
def intersect1d(a, b):
    a, b = asarr(a), asarr(b)
    if a.conc() and b.conc() and _b.all(d is None for d in a.dom + b.dom):
        ca, cb = list(a.cells()), list(b.cells())
        if not _b.any(is_sym(x) for x in ca + cb):
            o = sorted(set(ca) & set(cb))
            return from_nested(o) if o else A((0,), Storage(lambda i: 0, a.kind))
    if a.ipos is not None and b.ipos is not None and a.ipos.same_ext(b.ipos) and a.ipos.guard is None and b.ipos.guard is None and len(a.ipos.ext) == 1:
        ga = a.dom[0].guard if a.dom[0] is not None else None
        gb = b.dom[0].guard if b.dom[0] is not None else None
        d = mkdom(a.ipos.ext, lambda k: land(ga(k) if ga else True, gb(k) if gb else True))
        return A((norm_dim(d.count()),), Storage(lambda k: k, 'i'), None, None, [d], a.ipos)
    raise Unsupported('intersect1d')

class Perm:
    """a permutation of [0,n): p with inverse q"""
    def __init__(self, n):
        E_ = core.E
        self.n = n; self.p = E_.func('perm', z3.IntSort(), z3.IntSort()); self.q = E_.func('permi', z3.IntSort(), z3.IntSort())
        self.seen = []; self.lt = None
    def at(self, i, inv=False):
        f, g = (self.q, self.p) if inv else (self.p, self.q)
        it = int_term(i); t = f(it); n = int_term(self.n)
        rng = z3.And(it >= 0, it < n)
        core.E.fact(z3.Implies(rng, z3.And(t >= 0, t < n, g(t) == it)), key=('perm', t.get_id()))
        return mkZ(t)
def argsort(a, kind=None, axis=-1):
    a = asarr(a)
    if a.ndim != 1 or a.dom[0] is not None: raise Unsupported('argsort')
    if isinstance(a.shape[0], int):
        c = [v if isinstance(v, (int, float)) else v.const() if hasattr(v, 'const') else None for v in a.cells()]
        if _b.all(v is not None for v in c) and _b.len(_b.set(c)) == _b.len(c): return asarr(_b.sorted(_b.range(_b.len(c)), key=lambda i: c[i]))
    # the same array is always sorted in the same way
    cache = core.E.__dict__.setdefault('sorts', {}).setdefault(core.E.stats['paths'], [])
    if a.imap is None:
        for fn, r in cache:
            if fn is a.st.fn: return r
    n = a.shape[0]; f = a.fz(); P = Perm(n); keep = a.st.fn
    def val(i):
        z = P.at(i)
        # sortedness against every index seen so far
        it = int_term(i); v = f(z)
        for (jt, w) in P.seen:
            ok = z3.And(it >= 0, it < int_term(n), jt >= 0, jt < int_term(n))
            core.E.fact(z3.Implies(z3.And(ok, it <= jt), as_bool_term(v <= w)), key=('srt', it.get_id(), jt.get_id(), id(P)))
            core.E.fact(z3.Implies(z3.And(ok, jt <= it), as_bool_term(w <= v)), key=('srt', jt.get_id(), it.get_id(), id(P)))
        P.seen.append((it, v))
        return z
    r = A((n,), Storage(val, 'i'))
    r.perm = P
    if a.imap is None: cache.append((keep, r))
    return r
def sort(a, axis=-1, order=None):
    if isinstance(a, RecArr):
        # a table of concrete length: insertion sort, forking on the comparisons
        n = _b.len(a); key = a.cols[order]; o = []
        for i in _b.range(n):
            j = _b.len(o)
            while j > 0 and core.E.branch(as_bool_term(key[i] < key[o[j - 1]])): j -= 1
            o.insert(j, i)
        if n <= 1: return a.copy()
        return RecArr({k: stack([c[i] for i in o]) for k, c in a.cols.items()}, a.dtype)
    a = asarr(a)
    return a[argsort(a)]
def digitize(x, bins, right=False):
    b = asarr(bins)
    if right: raise Unsupported('digitize right')
    n = b.shape[0]; fb = b.fz()
    if b.conc() and n <= 12:
        # monotone increasing bins: number of edges <= x
        return unop(x, lambda v: _count([lift_or(v, e_, '>=') for e_ in b.cells()]), 'i')
    D = core.E.func('digitize', z3.RealSort(), z3.IntSort())
    def f(v):
        t = D(real_term(v)); vt = lift_real(v)
        z_ = Z(t); nt = int_term(n)
        lo = fb(mkZ(t - 1)); hi = fb(z_)
        core.E.fact(z3.And(t >= 0, t <= nt, z3.Implies(t > 0, as_bool_term(lo <= vt)), z3.Implies(t < nt, as_bool_term(vt < hi))), key=('dig', t.get_id()))
        return z_
    return unop(x, f, 'i')
def lift_or(v, e_, op): return v >= e_
def _count(cs):
    r = 0
    for c in cs: r = r + (mkZ(int_term(c)) if isinstance(c, B) else int(c))
    return r
def searchsorted(a, v, side='left'):
    a = asarr(a)
    if a.conc() and a.shape[0] <= 12:
        if side == 'left': return unop(v, lambda x: _count([e_ < x for e_ in a.cells()]), 'i')
        return unop(v, lambda x: _count([e_ <= x for e_ in a.cells()]), 'i')
    raise Unsupported('searchsorted')
def interp(x, xp, fp, left=None, right=None):
    """assumed contract, for a table with nondecreasing xp (checked here) and nondecreasing fp (checked; otherwise nothing is
    known about the order of results): fp[j] where x is xp[j] (the last such j), between fp[j] and fp[j+1] for xp[j] <= x < xp[j+1],
    nondecreasing in x (increasing if fp is), left/right outside"""
    xp, fp = asarr(xp), asarr(fp); n = xp.shape[0]
    from .arr import dim_eq
    if xp.ndim != 1 or fp.ndim != 1 or xp.dom[0] is not None or fp.dom[0] is not None: raise Unsupported('interp table')
    if not dim_eq(n, fp.shape[0]): raise ValueError('fp and xp are not of the same length.')
    if bool(n < 1): raise ValueError('array of sample points is empty')
    E_ = core.E
    tabs = E_.__dict__.setdefault('interps', {}).setdefault(E_.stats['paths'], [])
    T = None
    for t in tabs:
        if xp.imap is None and fp.imap is None and t['x'] is xp.st.fn and t['f'] is fp.st.fn: T = t
    if T is None:
        fx, ff = xp.fz(), fp.fz()
        j = E_.fresh('j', z3.IntSort()); ok = [j >= 0, j < int_term(n) - 1]; jz = mkZ(j)
        with E_.under(*ok):
            def holds(c): return E_.check(*ok, z3.Not(as_bool_term(c))) == z3.unsat
            if not holds(fx(jz) <= fx(jz + 1)): raise Unsupported('interp precondition: sorted xp')
            mono = holds(ff(jz) <= ff(jz + 1)); strict = mono and holds(ff(jz) < ff(jz + 1))
        T = dict(x=xp.st.fn, f=fp.st.fn, fx=fx, ff=ff, mono=mono, strict=strict, h=E_.func('interp', z3.RealSort(), z3.RealSort()), j=E_.func('bracket', z3.RealSort(), z3.IntSort()), seen=[])
        if xp.imap is None and fp.imap is None: tabs.append(T)
    fx, ff = T['fx'], T['ff']
    x0, xl, f0, fl = fx(0), fx(n - 1), ff(0), ff(n - 1)
    lv = f0 if left is None else left; rv = fl if right is None else right
    bt = as_bool_term
    def one(v):
        if isinstance(v, A): v = v.item()
        X = real_term(v); v = mkR(X); y = mkR(T['h'](X)); j = mkZ(T['j'](X)); k = X.get_id()
        ins = z3.And(bt(x0 <= v), bt(v < xl))
        fact = lambda c, *key: E_.fact(c, key=('interp', id(T)) + key)
        fact(z3.Implies(bt(v == xl), bt(y == fl)), k, 'last')
        fact(z3.Implies(ins, z3.And(j.t >= 0, j.t < int_term(n) - 1)), k, 'j')
        with E_.under(ins):
            a, b, p, q = fx(j), fx(j + 1), ff(j), ff(j + 1)
        fact(z3.Implies(ins, z3.And(bt(a <= v), bt(v < b), z3.Implies(bt(v == a), bt(y == p)))), k, 'bracket')
        if T['mono']:
            fact(z3.Implies(ins, z3.And(bt(p <= y), bt(y < q) if T['strict'] else bt(y <= q))), k, 'between')
            both = z3.And(bt(x0 <= v), bt(v <= xl))
            fact(z3.Implies(both, z3.And(bt(f0 <= y), bt(y <= fl))), k, 'range')
            for (w, z, c) in T['seen'][-12:]:
                g = z3.And(both, c)
                up, dn = (y < z, z < y) if T['strict'] else (y <= z, z <= y)
                fact(z3.Implies(z3.And(g, bt(v < w)), bt(up)), k, w.t.get_id(), 'mono'); fact(z3.Implies(z3.And(g, bt(w < v)), bt(dn)), w.t.get_id(), k, 'mono')
            if _b.all(w.t.get_id() != k for w, _, _ in T['seen']): T['seen'].append((v, y, both))
        core._keep.append(X)
        return ite(v < x0, lv, ite(v > xl, rv, y))
    return unop(x, one, 'f') if isinstance(x, (A, list, _b.tuple)) else one(x)
def histogram(*a, **k): raise Unsupported('histogram')

class _AddUfunc:
    def __call__(self, a, b, **k): return binop(a, b, lambda x, y: x + y, ar_kind)
    def at(self, a, idx, vals):
        add_at(a, idx, vals)
add = _AddUfunc()

def add_at(a, key, vals):
    """np.add.at: every addressed cell gains the sum of the values whose index is that cell"""
    if not isinstance(key, tuple): key = (key,)
    key = expand_key(a, key)
    key = [k.item() if isinstance(k, A) and k.ndim == 0 else k for k in key]
    key = adv_norm(a, key)
    if not _b.any(isinstance(k, A) for k in key): raise Unsupported('add.at without index arrays')
    _, info = adv_view(a, key)
    v = asarr(vals)
    tgt = A(info['res_shape'], Storage(lambda *i: 0, 'i'), None, None, info['res_dom'])
    shape, dom, (ft, fv) = bcast([tgt, v])
    if len(shape) != tgt.ndim: raise ValueError('array is not broadcastable to correct shape')
    for s, t in zip(shape, tgt.shape):
        if not dim_eq(s, t): raise ValueError('array is not broadcastable to correct shape')
    fmap, modes, kmap, off, bn = info['fmap'], info['modes'], info['kmap'], info['off'], info['bn']
    bshape, bdom = info['bshape'], info['bdom']
    k = a.kind
    fa = a.fz()
    frame = A(bshape, Storage(lambda *i: 0, 'i'), None, None, bdom)
    def new(*s):
        idx0 = [0] * (len(info['sl']) + bn); conds0 = []
        for (i, st, l, step, dm, fu) in info['sl']:
            x = s[i]
            if fu: idx0[info['slpos'][i]] = x
            else:
                q = (x - st) if step == 1 else (x - st) // step
                conds0.append(land(q >= 0, q < l, q * step + st == x)); idx0[info['slpos'][i]] = q
        for i, w in info['intmap'].items(): conds0.append(s[i] == w)
        pre = land(*conds0) if conds0 else True
        if pre is False: return fa(*s)
        def at(*b):
            c = []
            for i in fmap:
                tgt_i = s[i]
                if isinstance(tgt_i, tuple): raise Unsupported('add.at on a product axis')
                if a.dom[i] is not None: raise Unsupported('add.at on a selection')
                c.append(wrap_val(fmap[i](*b), a.shape[i]) == tgt_i)
            cc = land(*c)
            if cc is False: return 0.0 if k == 'f' else 0
            idx = list(idx0)
            for j in range(bn): idx[off + j] = b[j]
            if cc is True: val = fv(*idx)
            else:
                with core.E.under(cc): val = fv(*idx)
            val = cast_store(val, k)
            return ite(cc, val, 0.0 if k == 'f' else 0) if k != 'c' else ite(cc, toC(val), C(0, 0))
        tot = sum_over(frame, at, list(range(bn)), {}, k)
        r = fa(*s) + tot
        return r if pre is True else ite(pre, r, fa(*s))
    assign_all(a, A(a.shape, Storage(new, k), None, None, a.dom))

# ---- fft: trusted contracts (linear, inverse of each other); data opaque
class _FFT:
    def fftfreq(self, n, d=1.0):
        n = norm_dim(n.item() if isinstance(n, A) else n)
        d = d.item() if isinstance(d, A) else d
        half = (n - 1) // 2
        def f(i):
            c = i <= half
            v = ite(c, i, i - n)
            return s_div(s_div(cast(v, 'f'), n), d) if False else s_div(cast(v, 'f'), n * d)
        a = A((n,), Storage(f, 'f'))
        a._fftfreq = (n, d)
        return a
    def rfftfreq(self, n, d=1.0): raise Unsupported('rfftfreq')
    def fftshift(self, x, axes=None):
        x = asarr(x)
        if getattr(x, '_fftfreq', None) is not None and x.ndim == 1:
            n, d = x._fftfreq
            h = n // 2
            return A((n,), Storage(lambda i: s_div(cast(i - h, 'f'), n * d), 'f'))
        return self._shift(x, axes, lambda i, n: (i + (n + 1) // 2) % n if False else _rot(i, n, (n + 1) // 2))
    def ifftshift(self, x, axes=None):
        x = asarr(x)
        return self._shift(x, axes, lambda i, n: _rot(i, n, n // 2))
    def _shift(self, x, axes, src):
        if axes is None: axes = list(range(x.ndim))
        ax = [int(a) % x.ndim for a in (axes if isinstance(axes, (list, tuple, A)) else [axes])]
        f = x.fz()
        if _b.any(d is not None for d in x.dom): raise Unsupported('shift')
        r = A(x.shape, Storage(lambda *i: f(*[src(j, x.shape[q]) if q in ax else j for q, j in enumerate(i)]), x.kind))
        r._fft = None
        return r
    def fftn(self, x, axes=None, s=None): return self._ft(x, axes, 'fwd')
    def ifftn(self, x, axes=None, s=None): return self._ft(x, axes, 'inv')
    def fft(self, x, axis=-1): return self._ft(x, [axis], 'fwd')
    def ifft(self, x, axis=-1): return self._ft(x, [axis], 'inv')
    def _ft(self, x, axes, way):
        x = asarr(x)
        if axes is None: axes = list(range(x.ndim))
        ax = sorted(int(a) % x.ndim for a in axes)
        if not ax:
            return x.astype('c')
        return ft_node(x, tuple(ax), way)
fft = _FFT()
def _rot(i, n, k):
    """(i + k) mod n for 0 <= i < n, 0 <= k <= n"""
    j = i + k
    c = j < n
    return ite(c, j, j - n)

def ft_node(x, ax, way):
    """opaque (inverse) Fourier transform of the array along ax.  Elements are applications of an
    uninterpreted function determined by the transformed data; equal data give equal transforms
    (checked by the solver), and ifft(fft(x)) = x, scaling commutes (trusted contracts of numpy.fft)."""
    from . import opaque
    return opaque.transform(x, ax, way)

class _Random:
    def __getattr__(self, n):
        if n == 'Generator': return _RngType
        if n == 'default_rng':
            def fresh(*a):
                SymRng.made += 1
                return SymRng('!default%d' % SymRng.made)
            return fresh
        if n.startswith('__'): raise AttributeError(n)
        g = _Random.glob
        if n == 'rand': return lambda *size: g.random(size or None)
        if n == 'randn': return lambda *size: g.standard_normal(size or None)
        if hasattr(g, n): return getattr(g, n)
        def f(*a, **k):
            SymRng.hidden += 1
            raise Unsupported('np.random.%s' % n)
        return f
class _RngType: pass
class SymRng(_RngType):
    """assumed contract of numpy.random.Generator: draw number c of a generator is a fixed array
    (a function of the generator state); nothing else depends on or changes it"""
    made = 0; hidden = 0
    def __init__(self, name): self.name = name; self.count = 0
    def _draw(self, kind, size, lo=None, hi=None):
        if self.name.startswith('!'): SymRng.hidden += 1      # not a generator the contract handed out
        c = self.count; self.count += 1
        sh = () if size is None else tuple(_shape(size))
        f = z3.Function('draw_%s_%s_%d' % (self.name, kind, c), *([z3.IntSort()] * _b.max(1, len(sh)) + [z3.RealSort()]))
        def at(*i):
            t = f(*([int_term(x) for x in i] or [z3.IntVal(0)]))
            if lo is not None: core.E.fact(t >= lo, key=('dl', t.get_id()))
            if hi is not None: core.E.fact(t < hi, key=('dh', t.get_id()))
            return R(t)
        if not sh: return at()
        return A(sh, Storage(at, 'f'))
    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            s, d, _ = bcast([asarr(loc), asarr(scale)]); size = s if s else None
        return asarr(self._draw('normal', size)) * scale + loc if size is not None else self._draw('normal', None) * scale + loc
    def standard_normal(self, size=None): return self._draw('normal', size)
    def random(self, size=None): return self._draw('uniform', size, 0, 1)
    def uniform(self, low=0.0, high=1.0, size=None):
        u = self._draw('uniform', size, 0, 1)
        return u * (high - low) + low
    def choice(self, *a, **k): raise Unsupported('rng.choice')
    def integers(self, lo, hi=None, size=None):
        if hi is None: lo, hi = 0, lo
        c = self.count; self.count += 1
        if size is not None: raise Unsupported('rng.integers size')
        t = z3.Int('drawi_%s_%d' % (self.name, c))
        core.E.fact(z3.And(t >= int_term(lo), t < int_term(hi)))
        return Z(t)
_Random.glob = SymRng('!global')
random = _Random()

def errstate(**k):
    import contextlib
    return contextlib.nullcontext()
def seterr(**k): return {}
def iterable(x): return hasattr(x, '__iter__')
def ndim(x): return asarr(x).ndim
def shape(x): return asarr(x).shape
def size(x): return asarr(x).size
def isscalar(x): return not isinstance(x, (A, list, tuple, dict))
def vectorize(f, **k): raise Unsupported('vectorize')
def save(*a, **k): raise Unsupported('np.save')
def load(*a, **k): raise Unsupported('np.load')
def gradient(*a): raise Unsupported('gradient')
def trapz(*a): raise Unsupported('trapz')

def __getattr__(name):
    if name.startswith('__'): raise AttributeError(name)
    return _Missing('np.' + name)
class _Missing:
    def __init__(self, n): self._n = n
    def __call__(self, *a, **k): raise Unsupported(self._n)
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return _Missing(self._n + '.' + n)

def piecewise(x, condlist, funclist, *a, **k):
    """each function is applied to the selected elements; the last condition that holds wins, 0 where none does"""
    x = asarr(x); out = zeros(x.shape, x.kind)
    if not isinstance(condlist, (list, tuple)): condlist = [condlist]
    if _b.len(funclist) == _b.len(condlist) + 1:
        rest = logical_not(asarr(condlist[0]))
        for c in condlist[1:]: rest = logical_and(rest, logical_not(asarr(c)))
        condlist = list(condlist) + [rest]
    if _b.len(funclist) != _b.len(condlist): raise ValueError('with {} condition(s), either {} or {} functions are expected')
    for c, f in zip(condlist, funclist):
        c = asarr(c)
        out[c] = f(x[c], *a, **k) if callable(f) else f
    return out
