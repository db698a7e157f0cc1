"""Symbolic arrays: concrete number of axes, symbolic axis lengths, elements given by a function of
the index.  In-place writes replace the function of the shared storage, views write through."""
import itertools
import z3
from . import core
from .core import *

def eng(): return core.E

class Ellip: pass

def ikey(i):
    if isinstance(i, Z):
        t = simp(i.t); core._keep.append(t)
        return ('t', t.get_id())
    if isinstance(i, tuple): return tuple(ikey(x) for x in i)
    return i

class Fn:
    """memoised element function; index entries are ints, Z or (for product axes) tuples"""
    __slots__ = ('f', 'memo')
    def __init__(self, f): self.f = f; self.memo = {}
    def __call__(self, *idx):
        k = (core.E.scopes, tuple(ikey(i) for i in idx))
        if k in self.memo: return self.memo[k]
        v = self.f(*idx)
        self.memo[k] = v
        return v

class Storage:
    __slots__ = ('fn', 'kind')
    def __init__(self, fn, kind): self.fn = fn if isinstance(fn, Fn) else Fn(fn); self.kind = kind

class Dom:
    """the structure of an axis: base extents (several for flattened axes) and an optional guard.
    Elements of the axis are the base points satisfying the guard, in order."""
    _n = 0
    def __init__(self, extents, guard=None, parent=None):
        self.ext = tuple(extents); self.guard = guard
        self._count = None; self._sel = None; self._js = []
    def total(self):
        r = 1
        for e in self.ext: r = r * e
        return r
    def count(self):
        if self.guard is None: return self.total()
        if self._count is None:
            t = eng().make_sum([int_term(e) for e in self.ext],
                               lambda ks: z3.If(as_bool_term(self.guard(*ks)), z3.IntVal(1), z3.IntVal(0)), z3.IntSort())
            self._count = mkZ(t)
            if isinstance(self._count, Z):
                eng().fact(z3.And(t >= 0, t <= int_term(self.total())), key=('cnt', t.get_id()))
        return self._count
    def same_ext(self, o):
        return len(self.ext) == len(o.ext) and all(dim_eq(a, b) for a, b in zip(self.ext, o.ext))
    def base(self, j):
        """position -> base coordinate"""
        if isinstance(j, tuple): return j
        if self.guard is None:
            if len(self.ext) == 1: return j
            out = []; r = j
            for e in reversed(self.ext[1:]):
                if isinstance(e, int) and e == 1: out.append(0); continue
                out.append(r % e); r = r // e
            out.append(r)
            return tuple(reversed(out))
        if self._sel is None:
            n = len(self.ext)
            self._sel = [eng().func('sel', z3.IntSort(), z3.IntSort()) for _ in range(n)]
        jt = int_term(j)
        ks = tuple(mkZ(s(jt)) for s in self._sel)
        rng = z3.And(jt >= 0, jt < int_term(self.count()))
        eng().fact(z3.Implies(rng, z3.And(as_bool_term(self.guard(*ks)), *[z3.And(int_term(k) >= 0, int_term(k) < int_term(e)) for k, e in zip(ks, self.ext)])),
                   key=('sel', jt.get_id(), self._sel[0].get_id()))
        if n_ext(self) == 1 and not has_bv(jt):
            # positions are numbered in increasing order of the base coordinate; facts are scoped like the term
            s = self._sel[0]; cnt = int_term(self.count())
            if jt.get_id() not in [q.get_id() for q in self._js]:
                for o in self._js[-6:]:
                    both = z3.And(rng, o >= 0, o < cnt)
                    eng().fact(z3.Implies(both, z3.And((jt < o) == (s(jt) < s(o)), (jt == o) == (s(jt) == s(o)))), key=('selmono', jt.get_id(), o.get_id(), s.get_id()))
                self._js.append(jt); core._keep.append(jt)
        return ks if n_ext(self) > 1 else ks[0]
def n_ext(d): return len(d.ext)

def tup(i): return i if isinstance(i, tuple) else (i,)

def dim_eq(a, b):
    """provably equal lengths (never forks)"""
    if isinstance(a, int) and isinstance(b, int): return a == b
    t = simp(int_term(a) == int_term(b))
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    return eng().check(z3.Not(t), timeout=2000) == z3.unsat

def dim_is1(a): return isinstance(a, int) and a == 1

def norm_dim(n):
    if isinstance(n, Z):
        c = n.const()
        return c if c is not None else n
    if isinstance(n, (R,)):
        z = n.to_z() if (int_of_real(n.t) is not None or n.ri is not None) else None
        if z is None: raise TypeError("'float' object cannot be interpreted as an integer")
        return norm_dim(z)
    if isinstance(n, float): raise TypeError("'float' object cannot be interpreted as an integer")
    if isinstance(n, B): return norm_dim(mkZ(int_term(n)))
    return int(n)

class A:
    _is_symarr = True
    __array_priority__ = 2000
    __array_ufunc__ = None
    def __init__(self, shape, storage, imap=None, inv=None, dom=None, ipos=None):
        self._shape = tuple(shape)
        self.st = storage
        self.imap = imap           # own base index -> storage index
        self.inv = inv             # storage index -> (cond, own base index); None with imap => not writable
        self.dom = tuple(dom) if dom is not None else (None,) * len(self._shape)
        self.ipos = ipos           # for 1-d index arrays: Dom whose positions these are (value == position of base k)

    # ---- basics
    @property
    def ipos(self):
        # valid only while the contents are unchanged
        return self._ip_[0] if self._ip_ is not None and self._ip_[1] is self.st.fn else None
    @ipos.setter
    def ipos(self, d): self._ip_ = None if d is None else (d, self.st.fn)
    @property
    def shape(self): return self._shape
    @property
    def ndim(self): return len(self._shape)
    @property
    def kind(self): return self.st.kind
    @property
    def dtype(self): return DType(self.st.kind)
    @property
    def size(self):
        r = 1
        for s in self._shape: r = r * s
        return r
    def __len__(self):
        if not self._shape: raise TypeError('len() of unsized object')
        n = self._shape[0]
        if isinstance(n, int): return n
        return n.__index__()
    def slen(self):
        if not self._shape: raise TypeError('len() of unsized object')
        return self._shape[0]
    def fz(self):
        """current element function in own base coordinates (frozen: later writes do not show)"""
        f = self.st.fn; m = self.imap
        if m is None: return f
        return Fn(lambda *i: f(*m(*i)))
    def getb(self, *idx): return self.fz()(*idx)
    def get(self, *pos):
        """element at positions"""
        return self.getb(*[p if d is None else d.base(p) for p, d in zip(pos, self.dom)])
    def conc(self): return all(isinstance(s, int) for s in self._shape)
    def cells(self):
        if not self.conc(): raise Unsupported('enumerating a symbolic-length array')
        return [self.get(*c) for c in itertools.product(*[range(s) for s in self._shape])]
    def __iter__(self):
        if not self._shape: raise TypeError('iteration over a 0-d array')
        n = self._shape[0]
        if not isinstance(n, int):
            raise Unsupported('iteration over a symbolic-length array')
        for i in range(n): yield self[i]
    def __repr__(self): return 'A%s:%s' % (self._shape, self.kind)
    def __format__(self, s): return repr(self)
    __str__ = __repr__
    def __hash__(self): return id(self)
    def __bool__(self):
        if all(dim_is1(s) for s in self._shape): return bool(self.get(*[0] * self.ndim))
        if self.conc() and self.size == 0: return False
        raise ValueError('The truth value of an array with more than one element is ambiguous.')
    def __index__(self):
        if self.ndim == 0: return self.item().__index__()
        raise TypeError('only integer scalar arrays can be converted to a scalar index')
    def __float__(self): return float(self.item())
    def item(self):
        if not all(dim_is1(s) for s in self._shape): raise ValueError('can only convert an array of size 1 to a Python scalar')
        return self.get(*[0] * self.ndim)

    # ---- derived
    def view(self, shape, tobase, inv, dom=None, ipos=None):
        """tobase: new base idx -> own base idx; inv: own base idx -> (cond, new idx)"""
        m0, v0 = self.imap, self.inv
        nm = tobase if m0 is None else (lambda *i: m0(*tobase(*i)))
        if inv is None: ni = None
        elif m0 is None: ni = inv
        elif v0 is None: ni = None
        else:
            def ni(*s):
                c, j = v0(*s)
                c2, k = inv(*j)
                return land(c, c2), k
        return A(shape, self.st, nm, ni, dom, ipos)
    @property
    def T(self): return self.transpose()
    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)): axes = tuple(axes[0])
        n = self.ndim
        p = tuple(int(a) % n for a in axes) if axes else tuple(reversed(range(n)))
        q = [p.index(i) for i in range(n)]
        return self.view([self._shape[i] for i in p], lambda *i: tuple(i[q[k]] for k in range(n)),
                         lambda *s: (True, tuple(s[p[k]] for k in range(n))), [self.dom[i] for i in p])
    def copy(self, *a, **k):
        return A(self._shape, Storage(self.fz(), self.kind), None, None, self.dom, self.ipos)
    def astype(self, kind, copy=True):
        k = kind_name(kind)
        if k == self.kind: return self.copy()
        f = self.fz()
        return A(self._shape, Storage(lambda *i: cast(f(*i), k), k), None, None, self.dom, self.ipos if k == 'i' else None)
    def flatten(self): return self.reshape(-1).copy()
    def ravel(self): return self.reshape(-1)
    def tolist(self):
        if self.ndim == 0: return self.item()
        return [x.tolist() if isinstance(x, A) else x for x in self]
    @property
    def real(self):
        f = self.fz()
        if self.kind != 'c': return self
        return A(self._shape, Storage(lambda *i: toC(f(*i)).re, 'f'), None, None, self.dom)
    @property
    def imag(self):
        f = self.fz()
        return A(self._shape, Storage(lambda *i: toC(f(*i)).im, 'f'), None, None, self.dom)
    def conj(self):
        f = self.fz()
        if self.kind != 'c': return self.copy()
        return A(self._shape, Storage(lambda *i: toC(f(*i)).conj(), 'c'), None, None, self.dom)
    conjugate = conj
    def squeeze(self, axis=None):
        if axis is None: ax = [i for i, s in enumerate(self._shape) if dim_is1(s)]
        else: ax = [a % self.ndim for a in (axis if isinstance(axis, (tuple, list)) else [axis])]
        keep = [i for i in range(self.ndim) if i not in ax]
        return self.reshape([self._shape[i] for i in keep]) if ax else self

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list, A)): shape = tuple(shape[0])
        shape = [norm_dim(s) for s in shape]
        # -1
        if any(isinstance(s, int) and s == -1 for s in shape):
            j = [i for i, s in enumerate(shape) if isinstance(s, int) and s == -1][0]
            others = [s for i, s in enumerate(shape) if i != j]
            mine = list(self._shape)
            if self.conc() and all(isinstance(s, int) for s in others):
                p = 1
                for s in others: p *= s
                tot = 1
                for s in mine: tot *= s
                if p == 0 or tot % p: raise ValueError('cannot reshape array')
                shape[j] = tot // p
            else:
                rest = [s for s in mine]
                for o in others:
                    if dim_is1(o): continue
                    for r in list(rest):
                        if r is o or dim_eq(r, o): rest.remove(r); break
                    else: raise Unsupported('reshape %r -> %r' % (self._shape, shape))
                p = 1
                for r in rest: p = p * r
                shape[j] = norm_dim(p) if isinstance(p, (int, Z)) else p
                # flatten of everything: product axis
        n1 = [i for i, s in enumerate(self._shape) if not dim_is1(s)]
        n2 = [i for i, s in enumerate(shape) if not dim_is1(s)]
        # only 1-axes differ
        if len(n1) == len(n2) and all(dim_eq(self._shape[a], shape[b]) for a, b in zip(n1, n2)):
            m = self.ndim; k = len(shape)
            fill = lambda d: 0
            def tob(*i):
                r = [0] * m
                for a, b in zip(n1, n2): r[a] = i[b]
                return tuple(r)
            def inv(*s):
                r = [0] * k
                for a, b in zip(n1, n2): r[b] = s[a]
                return True, tuple(r)
            dom = [None] * k
            for a, b in zip(n1, n2): dom[b] = self.dom[a]
            return self.view(shape, tob, inv, dom)
        if self.conc() and all(isinstance(s, int) for s in shape):
            p = 1
            for s in shape: p *= s
            q = 1
            for s in self._shape: q *= s
            if p != q: raise ValueError('cannot reshape array of size %d into shape %r' % (q, tuple(shape)))
            me = self._shape
            def tob(*i):
                if all(isinstance(x, int) for x in i):
                    l = 0
                    for x, s in zip(i, shape): l = l * s + x
                    r = []
                    for s in reversed(me): r.append(l % s); l //= s
                    return tuple(reversed(r))
                l = 0
                for x, s in zip(i, shape): l = l * s + x
                r = []
                for s in reversed(me): r.append(l % s); l = l // s
                return tuple(reversed(r))
            def inv(*i):
                l = 0
                for x, s in zip(i, me): l = l * s + x
                r = []
                for s in reversed(shape): r.append(l % s); l = l // s
                return True, tuple(reversed(r))
            return self.view(shape, tob, inv)
        # flatten to one (non-1) axis: product axis
        if len(n2) == 1 and all(d is None for d in self.dom):
            b = n2[0]; k = len(shape); m = self.ndim
            ext = [self._shape[a] for a in n1]
            d = Dom(ext)
            def tob(*i):
                r = [0] * m
                for a, x in zip(n1, tup(i[b])): r[a] = x
                return tuple(r)
            def inv(*s):
                r = [0] * k
                r[b] = tuple(s[a] for a in n1)
                return True, tuple(r)
            dom = [None] * k; dom[b] = d
            p = 1
            for e in ext: p = p * e
            if not dim_eq(p, shape[b]):
                raise Unsupported('flatten to a different size')
            return self.view([norm_dim(x) for x in shape], tob, inv, dom)
        # unflatten a product axis
        if len(n1) == 1 and self.dom[n1[0]] is not None and self.dom[n1[0]].guard is None:
            d = self.dom[n1[0]]
            if len(d.ext) == len(n2) and all(dim_eq(e, shape[b]) for e, b in zip(d.ext, n2)):
                a = n1[0]; m = self.ndim; k = len(shape)
                def tob(*i):
                    r = [0] * m; r[a] = tuple(i[b] for b in n2); return tuple(r)
                def inv(*s):
                    r = [0] * k
                    for b, x in zip(n2, s[a]): r[b] = x
                    return True, tuple(r)
                return self.view(shape, tob, inv)
        # lengths that are equal only on this path
        p = 1
        for s in shape: p = p * s
        if eng().branch(as_bool_term(p == self.size)): raise Unsupported('reshape %r -> %r' % (self._shape, shape))
        raise ValueError('cannot reshape array')

    # ---- indexing
    def __getitem__(self, key): return getitem(self, key)
    def __setitem__(self, key, val): setitem(self, key, val)

    # ---- arithmetic
    def _bin(self, o, f, kf): return binop(self, o, f, kf)
    def __add__(self, o): return binop(self, o, lambda a, b: a + b, ar_kind)
    def __radd__(self, o): return binop(o, self, lambda a, b: a + b, ar_kind)
    def __sub__(self, o): return binop(self, o, lambda a, b: a - b, ar_kind)
    def __rsub__(self, o): return binop(o, self, lambda a, b: a - b, ar_kind)
    def __mul__(self, o): return binop(self, o, lambda a, b: a * b, ar_kind)
    def __rmul__(self, o): return binop(o, self, lambda a, b: a * b, ar_kind)
    def __truediv__(self, o): return binop(self, o, s_div, div_kind)
    def __rtruediv__(self, o): return binop(o, self, s_div, div_kind)
    def __floordiv__(self, o): return binop(self, o, lambda a, b: a // b, ar_kind)
    def __rfloordiv__(self, o): return binop(o, self, lambda a, b: a // b, ar_kind)
    def __mod__(self, o): return binop(self, o, lambda a, b: a % b, ar_kind)
    def __pow__(self, o): return binop(self, o, s_pow, pow_kind)
    def __rpow__(self, o): return binop(o, self, s_pow, pow_kind)
    def __neg__(self): return unop(self, lambda a: -a, None)
    def __pos__(self): return self.copy()
    def __abs__(self): return unop(self, abs, None)
    def __invert__(self):
        if self.kind == 'b': return unop(self, lnot, 'b')
        return unop(self, lambda a: -a - 1, 'i')
    def __and__(self, o): return binop(self, o, bitand, bool_kind)
    __rand__ = __and__
    def __or__(self, o): return binop(self, o, _bitor, bool_kind)
    __ror__ = __or__
    def __xor__(self, o): return binop(self, o, lambda a, b: a != b, bool_kind)
    def __lt__(self, o): return binop(self, o, lambda a, b: a < b, cmp_kind)
    def __le__(self, o): return binop(self, o, lambda a, b: a <= b, cmp_kind)
    def __gt__(self, o): return binop(self, o, lambda a, b: a > b, cmp_kind)
    def __ge__(self, o): return binop(self, o, lambda a, b: a >= b, cmp_kind)
    def __eq__(self, o): return binop(self, o, s_eq, cmp_kind)
    def __ne__(self, o): return binop(self, o, lambda a, b: lnot(s_eq(a, b)), cmp_kind)
    def _ip(self, o, f, kf):
        r = binop(self, o, f, kf)
        k = r.kind if isinstance(r, A) else kind_of(r)
        if 'bifcO'.index(k) > 'bifcO'.index(self.kind):
            raise TypeError("Cannot cast ufunc output from dtype %s to dtype %s with casting rule 'same_kind'" % (k, self.kind))
        assign_all(self, r)
        return self
    def __iadd__(self, o): return self._ip(o, lambda a, b: a + b, ar_kind)
    def __isub__(self, o): return self._ip(o, lambda a, b: a - b, ar_kind)
    def __imul__(self, o): return self._ip(o, lambda a, b: a * b, ar_kind)
    def __itruediv__(self, o): return self._ip(o, s_div, div_kind)
    def __ifloordiv__(self, o): return self._ip(o, lambda a, b: a // b, ar_kind)
    def __iand__(self, o): return self._ip(o, bitand, bool_kind)
    def __ior__(self, o): return self._ip(o, _bitor, bool_kind)
    def __ipow__(self, o): return self._ip(o, s_pow, pow_kind)

    # ---- reductions
    def sum(self, axis=None, **k): return np_sum(self, axis, **k)
    def mean(self, axis=None): return np_mean(self, axis)
    def any(self, axis=None): return np_any(self, axis)
    def all(self, axis=None): return np_all(self, axis)
    def min(self, axis=None): return np_minmax(self, axis, 'min')
    def max(self, axis=None): return np_minmax(self, axis, 'max')
    def fill(self, v): assign_all(self, v)
    def nonzero(self):
        from . import snp
        return snp.nonzero(self)
    def argsort(self, *a, **k):
        from . import snp
        return snp.argsort(self)

class DType:
    def __init__(self, kind): self._kind = kind
    @property
    def kind(self): return self._kind
    @property
    def name(self): return {'b': 'bool', 'i': 'int64', 'f': 'float64', 'c': 'complex128', 'O': 'object'}[self._kind]
    def __eq__(self, o):
        try: return kind_name(o) == self._kind
        except Exception: return False
    def __hash__(self): return hash(self._kind)
    def __repr__(self): return 'dtype(%s)' % self._kind

# ------------------------------------------------------------------- scalar helpers
def s_div(a, b):
    if is_sym(a) or is_sym(b):
        if isinstance(a, C) or isinstance(b, C): return toC(a) / b
        a = lift_real(a)
        return a / b
    if b == 0: return float('nan') if a == 0 else float('inf') * (1 if a > 0 else -1)
    return a / b
def s_pow(a, b):
    if is_sym(a) or is_sym(b):
        return a ** b if is_sym(a) else rpow(a, b)
    if isinstance(a, int) and isinstance(b, int) and b < 0: raise ValueError('Integers to negative integer powers are not allowed.')
    return a ** b
def s_eq(a, b):
    if a is None or b is None: return a is b
    if isinstance(a, str) or isinstance(b, str): return type(a) == type(b) and a == b
    return a == b
def s_sqrt(a):
    if is_sym(a): return sqrt(a)
    return a ** 0.5
KORD = 'bifcO'
def mx(a, b): return KORD[max(KORD.index(a), KORD.index(b))]
def ar_kind(a, b):
    k = mx(a, b)
    return k
def div_kind(a, b): return mx(mx(a, b), 'f')
def pow_kind(a, b): return mx(a, b)
def cmp_kind(a, b): return 'b'
def _bitor(a, b):
    if not all(isinstance(v, (bool, B)) for v in (a, b)): raise Unsupported('bitwise or of numbers')
    return lor(a, b)
def bool_kind(a, b): return mx(a, b)

def scalarA(v): return A((), Storage(lambda: v, kind_of(v)))

def asarr(x):
    if isinstance(x, A): return x
    if isinstance(x, (list, tuple, range)): return from_nested(x)
    if type(x).__module__ == 'numpy' and hasattr(x, 'tolist'): return from_nested(x.tolist())
    if hasattr(x, '_to_symarr'): return x._to_symarr()
    return scalarA(x)

def from_nested(x, kind=None):
    def shape_of(v):
        if isinstance(v, A): return tuple(v.shape)
        if isinstance(v, (list, tuple, range)):
            if len(v) == 0: return (0,)
            ss = [shape_of(e) for e in v]
            s0 = ss[0]
            for s in ss[1:]:
                if len(s) != len(s0) or not all(dim_eq(p, q) for p, q in zip(s, s0)):
                    raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
            return (len(v),) + s0
        return ()
    shp = shape_of(x)
    def kk(v):
        if isinstance(v, A): return v.kind
        if isinstance(v, (list, tuple, range)):
            r = None
            for e in v:
                k = kk(e)
                r = k if r is None else mx(r, k) if k else r
            return r
        return kind_of(v)
    k = kind or kk(x) or 'f'
    # depth of python nesting
    froz = {}
    doms = [None] * len(shp)
    def prep(v):
        if isinstance(v, A):
            f = v.fz()
            return ('A', f, v)
        if isinstance(v, (list, tuple, range)): return [prep(e) for e in v]
        return ('s', v)
    p = prep(x)
    def depth_dom(v, d):
        if isinstance(v, tuple) and v[0] == 'A':
            for i, dm in enumerate(v[2].dom):
                if dm is not None:
                    if doms[d + i] is None: doms[d + i] = dm
                    elif doms[d + i] is not dm and not doms_equal(doms[d + i], dm): raise Unsupported('stack of arrays over different selections')
        elif isinstance(v, list):
            for e in v: depth_dom(e, d + 1)
    depth_dom(p, 0)
    def at(v, idx):
        if isinstance(v, tuple):
            if v[0] == 's': return v[1]
            return v[1](*idx)
        i = idx[0]
        if isinstance(i, int): return at(v[i], idx[1:])
        r = at(v[-1], idx[1:])
        for j in range(len(v) - 2, -1, -1): r = ite(i == j, at(v[j], idx[1:]), r)
        return r
    return A(shp, Storage(lambda *i: cast(at(p, i), k) if k != 'O' else at(p, i), k), None, None, doms)

def doms_equal(a, b):
    if a is b: return True
    if a is None or b is None:
        d = a or b
        return False
    if not a.same_ext(b): return False
    if a.guard is None and b.guard is None: return True
    ks = [Z(eng().fresh('dk', z3.IntSort())) for _ in a.ext]
    ga = as_bool_term(a.guard(*ks)) if a.guard else z3.BoolVal(True)
    gb = as_bool_term(b.guard(*ks)) if b.guard else z3.BoolVal(True)
    t = simp(ga == gb)
    if z3.is_true(t): return True
    rng = [z3.And(k.t >= 0, k.t < int_term(e)) for k, e in zip(ks, a.ext)]
    return eng().check(*rng, z3.Not(t), timeout=3000) == z3.unsat

# ------------------------------------------------------------------- broadcasting
def bcast(arrs):
    """common shape, dom; returns (shape, dom, list of index adapters)"""
    n = max(a.ndim for a in arrs)
    shape = []; dom = []
    for ax in range(n):
        d = 1; dm = None; have = False
        for a in arrs:
            k = ax - (n - a.ndim)
            if k < 0: continue
            s = a.shape[k]
            if dim_is1(s) and a.dom[k] is None: continue
            if not have: d, dm, have = s, a.dom[k], True
            else:
                if dm is None and a.dom[k] is None:
                    if not dim_eq(d, s):
                        if isinstance(d, int) and isinstance(s, int):
                            raise ValueError('operands could not be broadcast together with shapes %s' % ' '.join(str(x.shape) for x in arrs))
                        if eng().branch(int_term(d) == int_term(s)): pass
                        else:
                            # length one on this path broadcasts
                            raise_bcast(d, s, arrs)
                elif not doms_equal(dm, a.dom[k]):
                    if dim_eq(d, s): 
                        dm, d = merge_dom(dm, a.dom[k], d)
                    else: raise_bcast(d, s, arrs)
        shape.append(d); dom.append(dm)
    fs = []
    for a in arrs:
        f = a.fz(); off = n - a.ndim
        ones = [dim_is1(s) and a.dom[i] is None for i, s in enumerate(a.shape)]
        conv = []
        for i in range(a.ndim):
            dm, da = dom[off + i], a.dom[i]
            if ones[i] or dm is da or (dm is not None and da is not None): conv.append(None)
            elif dm is not None and da is None: conv.append(('pos', dm))
            else: raise Unsupported('broadcast of a selected axis against a plain one')
        def g(*idx, f=f, off=off, ones=ones, conv=conv):
            r = []
            for i, o in enumerate(ones):
                if o: r.append(0)
                elif conv[i] is None: r.append(idx[off + i])
                else: r.append(rank(conv[i][1], idx[off + i]))
            return f(*r)
        fs.append(g)
    return tuple(shape), dom, fs

def merge_dom(d1, d2, n):
    if d1 is None: return d2, n
    if d2 is None: return d1, n
    raise Unsupported('arrays over different selections')

def rank(d, k):
    """base coordinate -> position"""
    ks = tup(k)
    if d.guard is None:
        r = ks[0]
        for e, x in zip(d.ext[1:], ks[1:]): r = r * e + x
        return r
    if not hasattr(d, '_rank'):
        d._rank = eng().func('rank', *([z3.IntSort()] * (len(d.ext) + 1)))
    t = d._rank(*[int_term(x) for x in ks])
    z = mkZ(t)
    inr = z3.And(*[z3.And(int_term(x) >= 0, int_term(x) < int_term(e)) for x, e in zip(ks, d.ext)])
    g = as_bool_term(d.guard(*ks))
    eng().fact(z3.Implies(z3.And(inr, g), z3.And(t >= 0, t < int_term(d.count()))), key=('rank', t.get_id()))
    return z

def raise_bcast(d, s, arrs):
    one1 = eng().branch(as_bool_term(d == 1)) if not isinstance(d, int) else d == 1
    one2 = eng().branch(as_bool_term(s == 1)) if not isinstance(s, int) else s == 1
    if one1 or one2: raise Unsupported('broadcasting that depends on a symbolic length being 1')
    raise ValueError('operands could not be broadcast together')

def binop(a, b, f, kf):
    if b is None or a is None or isinstance(b, str) or isinstance(a, str):
        a = asarr(a) if isinstance(a, A) else scalarA(a); b = asarr(b) if isinstance(b, A) else scalarA(b)
    if isinstance(a, type(NotImplemented)) or isinstance(b, type(NotImplemented)): return NotImplemented
    a, b = asarr(a), asarr(b)
    shape, dom, (fa, fb) = bcast([a, b])
    k = kf(a.kind, b.kind)
    ip = None
    r = A(shape, Storage(lambda *i: f(fa(*i), fb(*i)), k), None, None, dom)
    if r.ndim == 0: return r.get()
    return r

def unop(a, f, kind):
    a = asarr(a); g = a.fz()
    r = A(a.shape, Storage(lambda *i: f(g(*i)), kind or a.kind), None, None, a.dom)
    return r if r.ndim else r.get()

def nary(f, kind, *arrs):
    arrs = [asarr(a) for a in arrs]
    shape, dom, fs = bcast(arrs)
    r = A(shape, Storage(lambda *i: f(*[g(*i) for g in fs]), kind), None, None, dom)
    return r if r.ndim else r.get()

# ------------------------------------------------------------------- assignment
def assign_all(a, val):
    """a[...] = val (a may be a view)"""
    v = asarr(val)
    shape, dom, (fa, fv) = bcast([a, v])
    if len(shape) != a.ndim:
        lead = len(shape) - a.ndim
        if not all(dim_is1(s) for s in shape[:lead]): raise ValueError('could not broadcast input array')
        fv0 = fv
        fv = lambda *i: fv0(*([0] * lead + list(i)))
    k = a.kind
    vf = Fn(lambda *i: cast_store(fv(*i), k))
    if a.imap is None:
        a.st.fn = vf; return
    if a.inv is None: raise Unsupported('write through a non-invertible view')
    old = a.st.fn; inv = a.inv
    def new(*s):
        c, own = inv(*s)
        if c is True: return vf(*own)
        if c is False: return old(*s)
        with core.E.under(c): x = vf(*own)
        return ite(c, x, old(*s))
    a.st.fn = Fn(new)

def cast_store(v, k):
    if k == 'O': return v
    if k == 'i' and isinstance(v, float) and v != v: raise ValueError('cannot convert float NaN to integer')
    if k == 'i' and isinstance(v, R) and v.nan is not None:
        raise ValueError('cannot convert float NaN to integer')
    if k == 'f' and isinstance(v, C): return v.re
    return cast(v, k)

# ------------------------------------------------------------------- indexing
def _is_int_index(k):
    return isinstance(k, (int, Z)) and not isinstance(k, bool) or (type(k).__module__ == 'numpy' and getattr(k, 'shape', None) == () and getattr(k, 'dtype', None) is not None and k.dtype.kind in 'iu')

def wrap_index(i, n):
    """python/numpy index -> in-range non-negative index; forks an IndexError when it may be out of range"""
    if type(i).__module__ == 'numpy': i = int(i)
    if isinstance(i, int) and isinstance(n, int):
        if i < -n or i >= n: raise IndexError('index %d is out of bounds for axis with size %d' % (i, n))
        return i + n if i < 0 else i
    if isinstance(i, int) and i < 0:
        if eng().branch(as_bool_term(n + i >= 0)): return n + i
        raise IndexError('index out of bounds')
    if isinstance(i, int):
        if eng().branch(as_bool_term(n > i)): return i
        raise IndexError('index out of bounds')
    if eng().branch(as_bool_term(land(i >= 0, i < n))): return i
    if eng().branch(as_bool_term(land(i < 0, i >= -n if isinstance(n, int) else i + n >= 0))): return i + n
    raise IndexError('index out of bounds')

def clamp_slice(s, n):
    """slice -> (start, length, step) with numpy clamping; step concrete"""
    step = 1 if s.step is None else int(s.step)
    def fix(v, default):
        if v is None: return default
        if isinstance(v, (float, R)): raise TypeError('slice indices must be integers or None or have an __index__ method')
        if isinstance(v, A): v = v.item()
        if type(v).__module__ == 'numpy': v = int(v)
        if isinstance(v, int) and isinstance(n, int):
            if v < 0: v += n
            return max(0, min(v, n))
        # symbolic
        if isinstance(v, int) and v == 0: return 0
        if isinstance(v, int) and v < 0:
            w = n + v
            return w if eng().branch(as_bool_term(w >= 0)) else 0
        if isinstance(v, Z):
            if eng().branch(as_bool_term(v < 0)):
                w = v + n
                v = w if eng().branch(as_bool_term(w >= 0)) else 0
        return v if eng().branch(as_bool_term(v <= n)) else n
    if step == 1:
        a = fix(s.start, 0); b = fix(s.stop, n)
        l = b - a
        if isinstance(l, int): l = max(0, l)
        elif not eng().branch(as_bool_term(l >= 0)): l = 0
        return a, l, 1
    if isinstance(n, int):
        st = s.start if s.start is None else int(s.start); sp = s.stop if s.stop is None else int(s.stop)
        r = range(*slice(st, sp, step).indices(n))
        return r.start, len(r), step
    if step == -1 and s.start is None and s.stop is None:
        return n - 1, n, -1
    raise Unsupported('strided slice of a symbolic-length axis')

def expand_key(a, key):
    if not isinstance(key, tuple): key = (key,)
    key = list(key)
    out = []
    nd = 0
    for k in key:
        if k is None or k is Ellipsis: continue
        if isinstance(k, (list,)): k = asarr(k)
        if isinstance(k, A) and k.kind == 'b': nd += k.ndim
        else: nd += 1
    if nd > a.ndim: raise IndexError('too many indices for array')
    seen = False
    for k in key:
        if k is Ellipsis:
            seen = True
            out += [slice(None)] * (a.ndim - nd)
        elif isinstance(k, (list, tuple)) or (type(k).__module__ == 'numpy' and getattr(k, 'shape', ()) != ()):
            kk = asarr(k)
            if kk.shape == (0,): kk = A((0,), Storage(lambda *i: 0, 'i'))
            out.append(kk)
        else: out.append(k)
    if not seen: out += [slice(None)] * (a.ndim - nd)
    return out

def bool_key(key):
    """a single truth value used as an index: all of the array (with a new axis) or nothing"""
    if isinstance(key, A) and key.ndim == 0 and key.kind == 'b': key = key.item()
    return key if isinstance(key, (bool, B)) else None
def getitem(a, key):
    b = bool_key(key)
    if b is not None:
        if isinstance(b, B): b = eng().branch(as_bool_term(b))
        if b: return basic_get(a, [None] + [slice(None)] * a.ndim)
        return A((0,) + tuple(a.shape), Storage(lambda *i: 0, a.kind))
    key = expand_key(a, key)
    key = [k.item() if isinstance(k, A) and k.ndim == 0 and k.kind in 'i' else k for k in key]
    if any(isinstance(k, (float, R)) for k in key) or any(isinstance(k, A) and k.kind in 'fO' for k in key):
        raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices')
    if any(isinstance(k, A) for k in key) or any(isinstance(k, (B, bool)) for k in key):
        return adv_get(a, key)
    return basic_get(a, key)

def basic_get(a, key):
    shape = []; dom = []; conv = []       # conv per source axis
    newpos = 0
    src = 0
    plan = []                             # per source axis: ('i', idx) | ('s', newaxis, start, step)
    for k in key:
        if k is None:
            shape.append(1); dom.append(None); newpos += 1; continue
        n = a.shape[src]; dm = a.dom[src]
        if _is_int_index(k):
            j = wrap_index(k, n)
            plan.append(('i', j if dm is None else dm.base(j)))
        elif isinstance(k, slice):
            st, l, step = clamp_slice(k, n)
            if dm is not None and not (isinstance(st, int) and st == 0 and (l is n or dim_eq(l, n)) and step == 1):
                raise_slice = True
                plan.append(('d', newpos, st, step, dm)); shape.append(norm_dim(l)); dom.append(None)
            else:
                plan.append(('s', newpos, st, step)); shape.append(norm_dim(l)); dom.append(dm)
            newpos += 1
        else: raise Unsupported('index %r' % (type(k),))
        src += 1
    nn = newpos
    def tob(*i):
        r = []
        for p in plan:
            if p[0] == 'i': r.append(p[1])
            elif p[0] == 'd':
                x = i[p[1]]
                r.append(p[4].base(x * p[3] + p[2]))
            else:
                x = i[p[1]]
                if isinstance(x, tuple): r.append(x)
                else: r.append(x if (isinstance(p[2], int) and p[2] == 0 and p[3] == 1) else (p[2] + x if p[3] == 1 else p[2] + x * p[3]))
        return tuple(r)
    lens = list(shape)
    full = {}
    for p, s_ in zip(plan, range(len(plan))):
        if p[0] == 's': full[p[1]] = isinstance(p[2], int) and p[2] == 0 and p[3] == 1 and (lens[p[1]] is a.shape[s_] or dim_eq(lens[p[1]], a.shape[s_]))
    def inv(*s):
        c = []; r = [0] * nn
        for p, x in zip(plan, s):
            if p[0] == 'i':
                if isinstance(x, tuple): c += [u == v for u, v in zip(x, tup(p[1]))]
                else: c.append(x == p[1])
            elif p[0] == 'd': raise Unsupported('write through a slice of a selection')
            else:
                if full[p[1]]: r[p[1]] = x; continue
                j = x - p[2]
                if p[3] == 1:
                    c.append(land(j >= 0, j < lens[p[1]]))
                    r[p[1]] = j
                else:
                    q = j // p[3]
                    c.append(land(q * p[3] == j, q >= 0, q < lens[p[1]]))
                    r[p[1]] = q
        return land(*c) if c else True, tuple(r)
    v = a.view(shape, tob, inv, dom, a.ipos if len(shape) == 1 and a.ndim == 1 and dom == list(a.dom) else None)
    if v.ndim == 0: return v.get()
    return v

def mask_to_index(m):
    """boolean mask array -> list of integer index arrays (numpy nonzero)"""
    from . import snp
    return snp.nonzero(m)

def adv_get(a, key):
    v, _ = adv_view(a, key)
    return v

def adv_norm(a, key):
    """integer index arrays / ints / slices per source axis (no None), masks expanded"""
    out = []
    src = 0
    for k in key:
        if k is None: raise Unsupported('newaxis with advanced indexing')
        if isinstance(k, (bool, B)): raise Unsupported('boolean scalar index')
        if isinstance(k, A) and k.kind == 'b':
            if k.ndim == 1:
                n = k.shape[0]; ms = a.shape[src]
                if not dim_eq(n, ms):
                    if eng().branch(as_bool_term(n == ms)): pass
                    else: raise IndexError('boolean index did not match indexed array along axis')
                out += list(mask_to_index(k))
            else:
                for n, ms in zip(k.shape, a.shape[src:]):
                    if not dim_eq(n, ms): raise IndexError('boolean index did not match indexed array')
                out += list(mask_to_index(k))
            src += k.ndim
        else:
            out.append(k); src += 1
    return out

def idx_value_in(ia, n, axdom, idxbase, f):
    """base coordinate in the source axis selected by the index array element"""
    if ia.ipos is not None and (axdom is None or True):
        d = ia.ipos
        if axdom is None:
            if len(d.ext) == 1 and d.guard is None and dim_eq(d.ext[0], n): return ('base', None)
        elif axdom.same_ext(d) and ((axdom.guard is None and d.guard is None) or doms_equal(axdom, d)): return ('base', None)
    return ('val', None)

def adv_view(a, key):
    key = adv_norm(a, key)
    arrs = [(i, k) for i, k in enumerate(key) if isinstance(k, A)]
    ints = [(i, k) for i, k in enumerate(key) if _is_int_index(k)]
    # numpy: ints take part in advanced indexing (position rule)
    adv = sorted([i for i, k in arrs] + [i for i, k in ints])
    contiguous = adv == list(range(adv[0], adv[-1] + 1))
    bshape, bdom, bf = bcast([k for i, k in arrs])
    # range check of plain values
    modes = {}
    for (i, k), f in zip(arrs, bf):
        mode = idx_value_in(k, a.shape[i], a.dom[i], None, None)[0]
        if mode == 'base' and k.ndim != 1: mode = 'val' if not (k.ndim >= 1) else mode
        modes[i] = mode
        if mode == 'val':
            check_range(k, a.shape[i])
    fmap = {i: f for (i, k), f in zip(arrs, bf)}
    kmap = {i: k for (i, k) in arrs}
    intmap = {i: wrap_index(k, a.shape[i]) for i, k in ints}
    bn = len(bshape)
    res_shape = []; res_dom = []
    plan = []
    pos_adv = None
    nsl_before = len([i for i in range(adv[0]) if isinstance(key[i], slice)]) if contiguous else 0
    sl = []
    for i, k in enumerate(key):
        if isinstance(k, slice):
            st, l, step = clamp_slice(k, a.shape[i])
            fullax = isinstance(st, int) and st == 0 and step == 1 and (l is a.shape[i] or dim_eq(l, a.shape[i]))
            if a.dom[i] is not None and not fullax: raise Unsupported('slice of a selection with advanced index')
            sl.append((i, st, l, step, a.dom[i], fullax))
    off = nsl_before
    slpos = {}
    for n_, (i, st, l, step, dm, fu) in enumerate(sl):
        slpos[i] = n_ if n_ < off else n_ + bn
    res_shape = [None] * (len(sl) + bn); res_dom = [None] * (len(sl) + bn)
    for n_, (i, st, l, step, dm, fu) in enumerate(sl):
        res_shape[slpos[i]] = norm_dim(l); res_dom[slpos[i]] = dm
    for j in range(bn): res_shape[off + j] = bshape[j]; res_dom[off + j] = bdom[j]
    fa = a.fz()
    def src_index(idx):
        bi = idx[off:off + bn]
        r = []
        for i, k in enumerate(key):
            if i in fmap:
                if modes[i] == 'base':
                    kk = kmap[i]
                    # base coordinate of the index array's own axis
                    r.append(base_coord(kk, bi, bn))
                else:
                    v = fmap[i](*bi)
                    v = wrap_val(v, a.shape[i])
                    r.append(v if a.dom[i] is None else a.dom[i].base(v))
            elif i in intmap: r.append(intmap[i] if a.dom[i] is None else a.dom[i].base(intmap[i]))
            else:
                s = [x for x in sl if x[0] == i][0]
                x = idx[slpos[i]]
                r.append(x if s[5] else s[1] + x * s[3])
        return tuple(r)
    ip = None
    res = A(res_shape, Storage(lambda *idx: fa(*src_index(idx)), a.kind), None, None, res_dom)
    if a.ipos is not None and a.ndim == 1 and len(arrs) == 1 and modes[arrs[0][0]] == 'base': res.ipos = a.ipos
    if res.ndim == 0: return res.get(), None
    info = dict(key=key, fmap=fmap, kmap=kmap, modes=modes, intmap=intmap, sl=sl, slpos=slpos, off=off, bn=bn, bshape=bshape, bdom=bdom, res_shape=res_shape, res_dom=res_dom)
    return res, info

def base_coord(kk, bi, bn):
    off = bn - kk.ndim
    # the (single) non-trivial axis of the index array
    for j in range(kk.ndim):
        if not (dim_is1(kk.shape[j]) and kk.dom[j] is None): return bi[off + j]
    return bi[off]

def wrap_val(v, n):
    """index value known to be in [-n, n)"""
    if isinstance(v, int): return v if v >= 0 else v + n
    if isinstance(v, Z):
        if eng().check(v.t < 0, timeout=2000) == z3.unsat: return v
        return ite(v < 0, v + n, v)
    raise IndexError('arrays used as indices must be of integer (or boolean) type')

def check_range(k, n):
    """all elements of the index array are in [-n, n): proved, or the path forks with IndexError"""
    ks = []
    conds = []
    idx = []
    for j in range(k.ndim):
        d = k.dom[j]
        if d is None:
            if isinstance(k.shape[j], int) and k.shape[j] == 0: return
            v = Z(eng().fresh('rc', z3.IntSort())); idx.append(v)
            conds.append(z3.And(v.t >= 0, v.t < int_term(k.shape[j])))
        else:
            vs = [Z(eng().fresh('rc', z3.IntSort())) for _ in d.ext]
            for v, e in zip(vs, d.ext): conds.append(z3.And(v.t >= 0, v.t < int_term(e)))
            if d.guard is not None: conds.append(as_bool_term(d.guard(*vs)))
            idx.append(tuple(vs) if len(vs) > 1 else vs[0])
    if k.conc() and all(d is None for d in k.dom) and k.size <= 64:
        for v in k.cells(): wrap_index(v, n)
        return
    with eng().under(*conds):
        v = k.getb(*idx)
        if isinstance(v, int):
            bad = lor(v >= n, v < -n if isinstance(n, int) else n + v < 0)
        else: bad = lor(v >= n, v + n < 0)
        r = eng().check(as_bool_term(bad), timeout=5000)
    if r == z3.unsat: return
    b = eng().fresh('oob', z3.BoolSort())
    if eng().branch(b):
        for c in conds: eng().assume(c)
        eng().assume(as_bool_term(bad))
        raise IndexError('index out of bounds (some element)')
    # in range for every element from here on
    prev = k
    def fact(*idx2):
        v2 = f0(*idx2)
        c = land(v2 < n, v2 + n >= 0) if not isinstance(v2, int) else True
        if isinstance(c, B): eng().fact(z3.Implies(z3.Not(b), c.t), key=('ir', c.t.get_id()))
        return v2
    f0 = k.st.fn
    if k.imap is None: k.st.fn = Fn(fact)

def setitem(a, key, val):
    b = bool_key(key)
    if b is not None:
        if isinstance(b, bool):
            if b: assign_all(a, val)
            return
        v = asarr(val)
        if v.ndim:
            if eng().branch(as_bool_term(b)): assign_all(a, val)
            return
        fv = cast_store(v.get(), a.kind); fa = a.fz()
        assign_all(a, A(a.shape, Storage(lambda *i: ite(b, fv, fa(*i)), a.kind), None, None, a.dom))
        return
    if isinstance(key, tuple) and len(key) > 1 and any(isinstance(k, tuple) for k in key) and asarr(val).ndim <= 2:
        # a one-tuple (np.where of a 1-d mask) inside an index: same elements, one more axis of length one
        key = tuple(k[0] if isinstance(k, tuple) and len(k) == 1 and isinstance(k[0], A) and k[0].ndim == 1 else k for k in key)
    key = expand_key(a, key)
    key = [k.item() if isinstance(k, A) and k.ndim == 0 and k.kind == 'i' else k for k in key]
    if any(isinstance(k, (float, R)) for k in key) or any(isinstance(k, A) and k.kind in 'fO' for k in key):
        raise IndexError('only integers, slices and integer or boolean arrays are valid indices')
    if not any(isinstance(k, A) for k in key):
        if all(_is_int_index(k) for k in key):
            # single element
            idx = [wrap_index(k, n) for k, n in zip(key, a.shape)]
            idx = [i if d is None else d.base(i) for i, d in zip(idx, a.dom)]
            v = val.item() if isinstance(val, A) else val
            v = cast_store(v, a.kind)
            si = tuple(idx) if a.imap is None else a.imap(*idx)
            old = a.st.fn
            def new(*s):
                c = land(*[x == y for x, y in zip(s, si) if not isinstance(x, tuple)] + [land(*[p == q for p, q in zip(x, tup(y))]) for x, y in zip(s, si) if isinstance(x, tuple)])
                if c is True: return v
                if c is False: return old(*s)
                return ite(c, v, old(*s))
            a.st.fn = Fn(new)
            return
        vw = basic_get(a, key)
        if not isinstance(vw, A): raise Unsupported('setitem')
        assign_all(vw, val)
        return
    # mask assignment with a scalar / broadcastable: pointwise
    if len([k for k in key if isinstance(k, A)]) == 1:
        j = [i for i, k in enumerate(key) if isinstance(k, A)][0]
        m = key[j]
        if m.kind == 'b':
            v = asarr(val)
            rest_full = all(isinstance(k, slice) and k == slice(None) for i, k in enumerate(key) if i != j)
            if rest_full and v.ndim == 0 and j == 0:
                fm = m.fz(); fv = v.get(); nm = m.ndim; fv = cast_store(fv, a.kind)
                full = A(a.shape, Storage(a.fz(), a.kind), None, None, a.dom)
                fa = a.fz()
                def g(*i):
                    mi = [x for x in i[:nm]]
                    return ite(as_cond(fm(*mi)), fv, fa(*i))
                assign_all(a, A(a.shape, Storage(g, a.kind), None, None, a.dom))
                return
    _, info = adv_view(a, key)
    if info is None: raise Unsupported('advanced setitem with scalar result')
    v = asarr(val)
    tgt = A(info['res_shape'], Storage(lambda *i: 0, 'i'), None, None, info['res_dom'])
    shape, dom, (ft, fv) = bcast([tgt, v])
    if len(shape) != tgt.ndim:
        lead = len(shape) - tgt.ndim
        fv0 = fv; fv = lambda *i: fv0(*([0] * lead + list(i)))
    k = a.kind
    fa = a.fz()
    fmap, modes, kmap = info['fmap'], info['modes'], info['kmap']
    off, bn = info['off'], info['bn']
    bdom, bshape = info['bdom'], info['bshape']
    # all index arrays in 'base' mode over one axis: injective and invertible
    def sl_part(s, idx, conds):
        for (i, st, l, step, dm, fu) in info['sl']:
            x = s[i]
            if fu: idx[info['slpos'][i]] = x
            else:
                q = (x - st) if step == 1 else (x - st) // step
                conds.append(land(q >= 0, q < l, q * step + st == x))
                idx[info['slpos'][i]] = q
        for i, w in info['intmap'].items(): conds.append(s[i] == w)
    nontriv = [j for j in range(bn) if not (dim_is1(bshape[j]) and bdom[j] is None)]
    if all(modes[i] == 'base' for i in fmap) and len(nontriv) <= 1 and len(fmap) == 1:
        i0 = list(fmap)[0]
        d = bdom[nontriv[0]] if nontriv else None
        def new(*s):
            idx = [0] * (len(info['sl']) + bn); conds = []
            sl_part(s, idx, conds)
            kb = s[i0]
            if nontriv:
                idx[off + nontriv[0]] = kb
                if d is not None and d.guard is not None: conds.append(d.guard(*tup(kb)))
                if a.dom[i0] is not None and a.dom[i0].guard is not None and (d is None or d.guard is None): pass
            c = land(*conds) if conds else True
            if c is False: return fa(*s)
            if c is True: return cast_store(fv(*idx), k)
            with core.E.under(c): x = cast_store(fv(*idx), k)
            return ite(c, x, fa(*s))
        assign_all(a, A(a.shape, Storage(new, k), None, None, a.dom))
        return
    # nonzero() of an n-d mask used as a whole index: all arrays share one product domain
    if all(isinstance(kmap[i], A) and getattr(kmap[i], 'nzaxis', None) is not None for i in fmap):
        d = bdom[nontriv[0]] if nontriv else None
        order = {kmap[i].nzaxis: i for i in fmap}
        if d is not None and len(order) == len(d.ext) == len(fmap):
            def new(*s):
                idx = [0] * (len(info['sl']) + bn); conds = []
                sl_part(s, idx, conds)
                kb = tuple(s[order[q]] for q in range(len(d.ext)))
                idx[off + nontriv[0]] = kb if len(kb) > 1 else kb[0]
                if d.guard is not None: conds.append(d.guard(*kb))
                c = land(*conds) if conds else True
                if c is True: return cast_store(fv(*idx), k)
                if c is False: return fa(*s)
                with core.E.under(c): x = cast_store(fv(*idx), k)
                return ite(c, x, fa(*s))
            assign_all(a, A(a.shape, Storage(new, k), None, None, a.dom))
            return
    # general scatter: concrete index arrays only
    if all(isinstance(x, int) for x in bshape) and all(d is None for d in bdom):
        tot = 1
        for x in bshape: tot *= x
        if tot <= 64:
            combos = list(itertools.product(*[range(x) for x in bshape]))
            def new(*s):
                r = fa(*s)
                for b in combos:
                    idx = [0] * (len(info['sl']) + bn); conds = []
                    sl_part(s, idx, conds)
                    for i in fmap: conds.append(s[i] == wrap_val(fmap[i](*b), a.shape[i]))
                    for j in range(bn): idx[off + j] = b[j]
                    c = land(*conds)
                    r = ite(c, cast_store(fv(*idx), k), r) if c is not False else r
                return r
            assign_all(a, A(a.shape, Storage(new, k), None, None, a.dom))
            return
    raise Unsupported('scatter assignment with symbolic indices')

def as_cond(c): return c if isinstance(c, (B, bool)) else (c != 0)

# ------------------------------------------------------------------- reductions
def norm_axes(a, axis):
    if axis is None: return list(range(a.ndim))
    if isinstance(axis, (tuple, list)): ax = list(axis)
    elif isinstance(axis, A): ax = list(axis) if axis.ndim else [axis.item()]
    else: ax = [axis]
    out = []
    for x in ax:
        x = int(x)
        if x < -a.ndim or x >= a.ndim: raise ValueError('axis %d is out of bounds for array of dimension %d' % (x, a.ndim))
        out.append(x % a.ndim)
    return out

def reduce_frame(a, axis, keepdims):
    ax = norm_axes(a, axis)
    keep = [i for i in range(a.ndim) if i not in ax]
    shape = [1 if i in ax else a.shape[i] for i in range(a.ndim)] if keepdims else [a.shape[i] for i in keep]
    dom = [None if i in ax else a.dom[i] for i in range(a.ndim)] if keepdims else [a.dom[i] for i in keep]
    return ax, keep, shape, dom

def np_sum(a, axis=None, keepdims=False, **kw):
    a = asarr(a); f = a.fz()
    ax, keep, shape, dom = reduce_frame(a, axis, keepdims)
    kind = 'i' if a.kind == 'b' else a.kind
    def g(*i):
        oi = {}
        for n_, k in enumerate(keep): oi[k] = i[k] if keepdims else i[n_]
        return sum_over(a, f, ax, oi, kind)
    r = A(shape, Storage(g, kind), None, None, dom)
    return r if r.ndim else r.get()

def sum_over(a, f, ax, oi, kind):
    """sum of f over the axes ax (base coordinates, guards included), other coordinates oi"""
    conc = [k for k in ax if isinstance(a.shape[k], int) and a.dom[k] is None]
    symb = [k for k in ax if k not in conc]
    def at(sub):
        return f(*[sub[k] for k in range(a.ndim)])
    total = None
    for c in itertools.product(*[range(a.shape[k]) for k in conc]):
        sub = dict(oi); sub.update(dict(zip(conc, c)))
        if not symb: v = at(sub)
        else: v = sym_sum(a, at, symb, sub, kind)
        total = v if total is None else total + v
    if total is None: return 0.0 if kind == 'f' else 0
    if isinstance(total, (B, bool)): total = mkZ(int_term(total))
    return total

def sym_sum(a, at, symb, sub, kind):
    exts = []; layout = []
    for k in symb:
        d = a.dom[k]
        if d is None: layout.append((k, 1, None)); exts.append(a.shape[k])
        else: layout.append((k, len(d.ext), d)); exts += list(d.ext)
    def comp(sel):
        def body(ks):
            s2 = dict(sub); p = 0; guards = []
            for k, n, d in layout:
                part = ks[p:p + n]; p += n
                s2[k] = part[0] if n == 1 else tuple(part)
                if d is not None and d.guard is not None: guards.append(d.guard(*part))
            g = land(*guards) if guards else True
            if g is False: return z3.IntVal(0) if kind in 'bi' else z3.RealVal(0)
            if g is True: v = sel(at(s2))
            else:
                with core.E.under(g): v = sel(at(s2))
            if kind in 'bi':
                t = int_term(v)
                return t if g is True else z3.If(g.t, t, z3.IntVal(0))
            if isinstance(v, R) and v.nan is not None: raise Unsupported('sum of possibly-NaN values')
            t = real_term(v)
            return t if g is True else z3.If(g.t, t, z3.RealVal(0))
        sort = z3.IntSort() if kind in 'bi' else z3.RealSort()
        t = core.E.make_sum([int_term(e) for e in exts], body, sort)
        return mkZ(t) if kind in 'bi' else mkR(t)
    if kind == 'c': return C(comp(lambda v: toC(v).re), comp(lambda v: toC(v).im))
    return comp(lambda v: v)

def axis_count(a, ax):
    n = 1
    for k in ax: n = n * (a.shape[k] if a.dom[k] is None else a.dom[k].count())
    return n

def np_mean(a, axis=None, keepdims=False):
    a = asarr(a)
    ax, keep, shape, dom = reduce_frame(a, axis, keepdims)
    s = np_sum(a, axis, keepdims)
    n = axis_count(a, ax)
    return binop(s, n, s_div, div_kind) if isinstance(s, A) else s_div(s, n)

def np_any(a, axis=None, keepdims=False, _neg=False):
    a = asarr(a); f = a.fz()
    ax, keep, shape, dom = reduce_frame(a, axis, keepdims)
    def g(*i):
        oi = {}
        for n_, k in enumerate(keep): oi[k] = i[k] if keepdims else i[n_]
        conc = [k for k in ax if isinstance(a.shape[k], int) and a.dom[k] is None]
        symb = [k for k in ax if k not in conc]
        if not symb:
            cs = []
            for c in itertools.product(*[range(a.shape[k]) for k in conc]):
                sub = dict(oi); sub.update(dict(zip(conc, c)))
                cs.append(as_cond(f(*[sub[k] for k in range(a.ndim)])))
            return lor(*cs) if cs else False
        return sym_any(a, f, conc, symb, oi)
    r = A(shape, Storage(g, 'b'), None, None, dom)
    return r if r.ndim else r.get()

def sym_any(a, f, conc, symb, oi):
    """exists over symbolic axes: fresh boolean with a witness, and its negation as a universal fact"""
    E_ = core.E
    layout = []; exts = []
    for k in symb:
        d = a.dom[k]
        if d is None: layout.append((k, 1, None)); exts.append(a.shape[k])
        else: layout.append((k, len(d.ext), d)); exts += list(d.ext)
    if any(has_bv(int_term(x)) for v in oi.values() for x in tup(v)): raise Unsupported('any() inside a sum')
    def cond(ks):
        p = 0; guards = []; s2 = dict(oi)
        for k, n, d in layout:
            part = ks[p:p + n]; p += n
            s2[k] = part[0] if n == 1 else tuple(part)
            if d is not None and d.guard is not None: guards.append(d.guard(*part))
        cs = []
        for c in itertools.product(*[range(a.shape[k]) for k in conc]):
            s3 = dict(s2); s3.update(dict(zip(conc, c)))
            cs.append(as_cond(f(*[s3[k] for k in range(a.ndim)])))
        return land(*(guards + [lor(*cs) if cs else False]))
    # cheap: is the element condition never / always true?
    ws = [Z(E_.fresh('any_w', z3.IntSort())) for _ in exts]
    rng = z3.And(*[z3.And(w.t >= 0, w.t < int_term(e)) for w, e in zip(ws, exts)])
    with E_.under(rng):
        cw = cond(ws)
        if cw is False: return False
        if E_.check(as_bool_term(cw), timeout=3000) == z3.unsat: return False
    nonempty = z3.And(*[int_term(e) > 0 for e in exts])
    with E_.under(rng):
        allt = cw is True or E_.check(z3.Not(as_bool_term(cw)), timeout=3000) == z3.unsat
    if allt and all(d is None or d.guard is None for _, _, d in layout): return mkB(nonempty)
    b = E_.fresh('any', z3.BoolSort())
    E_.fact(z3.Implies(b, z3.And(rng, as_bool_term(cw))))
    vs = [Z(z3.Int('qv!%d_%d' % (len(E_.pc), j))) for j in range(len(exts))]
    with E_.under(*[z3.And(v.t >= 0, v.t < int_term(e)) for v, e in zip(vs, exts)]):
        body = as_bool_term(cond(vs))
    E_.fact(z3.Implies(z3.Not(b), z3.ForAll([v.t for v in vs], z3.Implies(z3.And(*[z3.And(v.t >= 0, v.t < int_term(e)) for v, e in zip(vs, exts)]), z3.Not(body)))))
    return B(b)

def np_all(a, axis=None, keepdims=False):
    a = asarr(a)
    r = np_any(unop(a, lambda x: lnot(as_cond(x)), 'b'), axis, keepdims)
    if isinstance(r, A): return unop(r, lnot, 'b')
    return lnot(r)

def decided(c):
    """a condition that the path already settles, as a plain bool"""
    if not isinstance(c, core.B) or has_bv(c.t): return c
    if core.E.check(c.t, timeout=1000) == z3.unsat: return False
    if core.E.check(z3.Not(c.t), timeout=1000) == z3.unsat: return True
    return c

def np_minmax(a, axis=None, which='min', keepdims=False):
    a = asarr(a); f = a.fz()
    ax, keep, shape, dom = reduce_frame(a, axis, keepdims)
    def g(*i):
        oi = {}
        for n_, k in enumerate(keep): oi[k] = i[k] if keepdims else i[n_]
        symb = [k for k in ax if not (isinstance(a.shape[k], int) and a.dom[k] is None)]
        if symb: return sym_minmax(a, f, ax, oi, which)
        r = None
        for c in itertools.product(*[range(a.shape[k]) for k in ax]):
            sub = dict(oi); sub.update(dict(zip(ax, c)))
            v = f(*[sub[k] for k in range(a.ndim)])
            if r is None: r = v
            else:
                c_ = (v < r) if which == 'min' else (v > r)
                if a.ndim == 1 and a.shape[0] == 2: c_ = decided(c_)
                r = ite(c_, v, r)
        if r is None: raise ValueError('zero-size array to reduction operation %simum which has no identity' % which)
        return r
    for k in ax:
        n = a.shape[k]
        if isinstance(n, Z) and not eng().branch(as_bool_term(n > 0)): raise ValueError('zero-size array to reduction operation which has no identity')
    r = A(shape, Storage(g, a.kind), None, None, dom)
    return r if r.ndim else r.get()

def sym_minmax(a, f, ax, oi, which):
    """extremum over symbolic axes: a fresh value attained at a witness and bounding every element"""
    E_ = core.E
    layout = []; exts = []
    for k in ax:
        d = a.dom[k]
        if d is None: layout.append((k, 1, None)); exts.append(a.shape[k])
        else: layout.append((k, len(d.ext), d)); exts += list(d.ext)
    for v in oi.values():
        for x in tup(v):
            if isinstance(x, Z) and has_bv(x.t): raise Unsupported('min/max inside a sum')
    def at(ks):
        p = 0; guards = []; s2 = dict(oi)
        for k, n, d in layout:
            part = ks[p:p + n]; p += n
            s2[k] = part[0] if n == 1 else tuple(part)
            if d is not None and d.guard is not None: guards.append(d.guard(*part))
        return (land(*guards) if guards else True), f(*[s2[k] for k in range(a.ndim)])
    ws = [Z(E_.fresh('mm_w', z3.IntSort())) for _ in exts]
    rng = z3.And(*[z3.And(w.t >= 0, w.t < int_term(e)) for w, e in zip(ws, exts)])
    g, v = at(ws)
    E_.fact(z3.And(rng, as_bool_term(g)))
    vs = [Z(z3.Int('qm!%d_%d' % (len(E_.pc), j))) for j in range(len(exts))]
    rv = z3.And(*[z3.And(u.t >= 0, u.t < int_term(e)) for u, e in zip(vs, exts)])
    with E_.under(rv):
        g2, v2 = at(vs)
    c = (v <= v2) if which == 'min' else (v >= v2)
    E_.fact(z3.ForAll([u.t for u in vs], z3.Implies(z3.And(rv, as_bool_term(g2)), as_bool_term(c))))
    return v
