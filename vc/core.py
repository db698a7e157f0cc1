"""Symbolic scalars, path exploration and obligations (runs under python3-vt, needs z3).

The real functions of /repo are executed natively on these values.  Every branch on a
symbolic condition forks the execution (re-execution with a decision prefix), every
`prove` becomes an obligation  path-condition => goal  that z3 (then cvc5) must discharge.
"""
import math, time, os, sys
from fractions import Fraction
import z3

z3.set_param('smt.random_seed', 1)

class Unsupported(Exception):
    """The engine cannot model what the code does; the function falls back to the bounded check."""
class Infeasible(BaseException):
    """current path is infeasible"""
class SkipCase(BaseException):
    """concrete mode: the generated input does not satisfy the precondition"""
class PathLimit(BaseException):
    pass

_simp_cache = {}
def simp(t):
    k = t.get_id()
    r = _simp_cache.get(k)
    if r is None:
        r = z3.simplify(t)
        _simp_cache[k] = r
        _keep.append(t)
    return r
_keep = []

BV_PREFIX = 'bv!'            # bound variables of sums

# --------------------------------------------------------------------------- engine
class Engine:
    def __init__(self, timeout_ms=10000, max_paths=4000, deadline=None):
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.results = []          # obligations
        self.stats = dict(paths=0, branches=0, queries=0, solver_s=0.0, infeasible=0, unsupported=[], exceptions=0)
        self.reset_path([])

    # -- path state
    def reset_path(self, prefix):
        self.prefix = list(prefix)
        self.decisions = []        # list of (kind, value, noptions)
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout_ms)
        self.pc = []
        self.fresh_n = {}
        self.sums = {}             # name -> SumDef
        self.sum_keys = {}
        self.inputs = {}           # name -> descriptor (for concretisation)
        self.fn_cache = {}
        self.guards = []
        self.facts_on = set()
        self.cover = []
        self.scopes = ()

    def fresh(self, name, sort):
        n = self.fresh_n.get(name, 0)
        self.fresh_n[name] = n + 1
        nm = name if n == 0 else '%s!%d' % (name, n)
        return z3.Const(nm, sort)

    def func(self, name, *sorts):
        """a z3 function, unique per (name, path)"""
        n = self.fresh_n.get(name, 0)
        self.fresh_n[name] = n + 1
        nm = name if n == 0 else '%s!%d' % (name, n)
        return z3.Function(nm, *sorts)

    def assume(self, c):
        c = as_bool_term(c)
        c = simp(c)
        if z3.is_true(c): return
        if z3.is_false(c): raise Infeasible()
        self.pc.append(c)
        self.solver.add(c)

    def fact(self, c, key=None):
        """a true fact about freshly introduced terms (may mention bound variables)"""
        c = as_bool_term(c)
        if self.guards: c = z3.Implies(z3.And(*self.guards), c)
        if key is not None:
            if key in self.facts_on: return
            self.facts_on.add(key); _keep.append(c)
        c = simp(c)
        if z3.is_true(c): return
        if has_bv(c):
            self.templates.append(c)
            self.solver.add(c)          # only lives inside the enclosing under() scope
            return
        self.pc.append(c); self.solver.add(c)

    def under(self, *conds):
        """scope in which extra conditions hold (range of a bound variable, a guard)"""
        return _Under(self, conds)

    def check(self, *assumptions, timeout=None):
        self.stats['queries'] += 1
        if self.deadline and time.time() > self.deadline: raise PathLimit('deadline')
        t0 = time.time()
        self.solver.push()
        try:
            for a in assumptions: self.solver.add(a)
            if timeout: self.solver.set('timeout', timeout)
            r = self.solver.check()
            self._model = self.solver.model() if r == z3.sat else None
        finally:
            self.solver.pop()
            if timeout: self.solver.set('timeout', self.timeout_ms)
        self.stats['solver_s'] += time.time() - t0
        return r

    def branch(self, t):
        t = simp(t)
        if z3.is_true(t): return True
        if z3.is_false(t): return False
        if has_bv(t):
            if self.check(t, timeout=2000) == z3.unsat: return False
            if self.check(z3.Not(t), timeout=2000) == z3.unsat: return True
            raise Unsupported('branch on a bound variable')
        i = len(self.decisions)
        if i < len(self.prefix):
            v = self.prefix[i][1]
        else:
            self.stats['branches'] += 1
            can_t = self.check(t, timeout=2000) != z3.unsat
            can_f = self.check(z3.Not(t), timeout=2000) != z3.unsat if can_t else True
            if can_t and can_f:
                v = True
            elif can_t: v = ('T',)
            else: v = ('F',)
        self.decisions.append(('b', v, 2))
        val = v if isinstance(v, bool) else v == ('T',)
        if self.scopes and not isinstance(v, bool): return val    # forced only inside the scope
        self.pc.append(t if val else z3.Not(t))
        self.solver.add(self.pc[-1])
        return val

    def choose(self, n):
        i = len(self.decisions)
        v = self.prefix[i][1] if i < len(self.prefix) else 0
        self.decisions.append(('c', v, n))
        return v

    def next_prefix(self):
        d = list(self.decisions)
        while d:
            k, v, n = d[-1]
            if k == 'b' and v is True:
                d[-1] = (k, False, n); return d
            if k == 'c' and v + 1 < n:
                d[-1] = (k, v + 1, n); return d
            d.pop()
        return None

    # -- exploration
    def explore(self, fn, name):
        """fn() runs one harness from scratch on the current path"""
        global E
        E = self
        prefix = []
        n0 = len(self.results)
        while prefix is not None:
            if self.stats['paths'] >= self.max_paths:
                raise PathLimit('path limit %d' % self.max_paths)
            self.templates = []
            self.reset_path(prefix)
            self.stats['paths'] += 1
            try:
                fn()
            except Infeasible:
                self.stats['infeasible'] += 1
            prefix = self.next_prefix()
        return self.results[n0:]

    # -- obligations
    def prove(self, name, goal, ranges=()):
        """record an obligation; ranges: extra hypotheses (on skolem indices)"""
        t0 = time.time()
        g = simp(as_bool_term(goal))
        rec = dict(name=name, status=None, backend='z3', path=self.path_id())
        hyp = [simp(as_bool_term(r)) for r in ranges]
        if z3.is_true(g):
            rec['status'] = 'proved'; rec['backend'] = 'simplifier'
        else:
            extra = self.sum_lemmas([g] + hyp)
            inst = []
            r = self.check(*hyp, *extra, *inst, z3.Not(g))
            if r != z3.unsat and self.sums:
                more = self.split_lemmas([g] + hyp) + self.point_lemmas([g] + hyp)
                if more: extra = extra + more; r = self.check(*hyp, *extra, *inst, z3.Not(g))
            if r == z3.unsat: rec['status'] = 'proved'
            elif r == z3.sat:
                rec['status'] = 'refuted'
                rec['model'] = self.concretise(hyp + extra + inst + [z3.Not(g)])
                rec['goal'] = str(g)[:600]
            else:
                r2 = self.cvc5(hyp + extra + inst, g)
                if r2 == 'unsat': rec['status'] = 'proved'; rec['backend'] = 'cvc5'
                else:
                    rec['status'] = 'unknown'; rec['goal'] = str(g)[:600]
        rec['t'] = round(time.time() - t0, 3)
        self.results.append(rec)
        return rec['status'] == 'proved'

    def path_id(self):
        return ''.join(('T' if v in (True, ('T',)) else 'F') if k == 'b' else '[%d]' % v for k, v, n in self.decisions)

    def cvc5(self, hyp, g):
        try:
            import subprocess, tempfile
            s = z3.Solver()
            for c in self.pc: s.add(c)
            for c in hyp: s.add(c)
            s.add(z3.Not(g))
            txt = '(set-logic ALL)\n' + s.to_smt2()
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
                f.write(txt); p = f.name
            try:
                out = subprocess.run(['cvc5', '--tlimit=%d' % self.timeout_ms, p], capture_output=True, text=True, timeout=self.timeout_ms / 1000 + 5).stdout
            finally:
                os.unlink(p)
            return out.strip().split('\n')[0] if out.strip() else 'unknown'
        except Exception:
            return 'unknown'

    # -- sums ---------------------------------------------------------------
    def make_sum(self, extents, body, sort):
        """extents: list of int terms; body(list of Z) -> z3 term of `sort`; canonical by structure"""
        depth = getattr(self, '_sdepth', 0)
        self._sdepth = depth + 1
        try:
            vs = [z3.Int('%s%d_%d' % (BV_PREFIX, depth, j)) for j in range(len(extents))]
            with self.under(*[z3.And(v >= 0, v < e) for v, e in zip(vs, extents)]):
                b = simp(body([Z(v) for v in vs]))
        finally:
            self._sdepth = depth
        ext = [simp(x) for x in extents]
        if z3.is_int_value(b) and b.as_long() == 0: return b
        if z3.is_rational_value(b) and b.numerator_as_long() == 0: return b
        if (z3.is_int_value(b) or z3.is_rational_value(b)) and not all(z3.is_int_value(x) for x in ext):
            # a constant summand: value times the number of points
            r = b
            for x in ext:
                c = x if self.check(x < 0, timeout=2000) == z3.unsat else z3.If(x > 0, x, z3.IntVal(0))
                r = r * (c if sort == z3.IntSort() else z3.ToReal(c))
            return simp(r)
        # concrete small extents: expand
        if all(z3.is_int_value(x) for x in ext):
            tot = 1
            for x in ext: tot *= max(0, x.as_long())
            if tot <= 64:
                import itertools
                terms = [z3.substitute(b, *[(v, z3.IntVal(i)) for v, i in zip(vs, c)])
                         for c in itertools.product(*[range(max(0, x.as_long())) for x in ext])]
                if not terms: return z3.IntVal(0) if sort == z3.IntSort() else z3.RealVal(0)
                return simp(z3.Sum(*terms)) if len(terms) > 1 else simp(terms[0])
        key = (tuple(x.get_id() for x in ext), b.get_id(), str(sort))
        if key not in self.sum_keys:
            own = set(str(v) for v in vs)
            free = [v for v in bvs_of([b] + ext) if str(v) not in own]
            nm = 'Sum!%d' % len(self.sums)
            f = z3.Function(nm, *([z3.IntSort()] * len(free) + [sort])) if free else z3.Const(nm, sort)
            self.sums[nm] = (free, ext, vs, b, sort)
            self.sum_keys[key] = (f, free)
            _keep.append(b); _keep.extend(ext)
            t = f(*free) if free else f
            return t
        f, free = self.sum_keys[key]
        return f(*free) if free else f

    def sum_apps(self, terms):
        seen, out = set(), {}
        st = list(terms)
        while st:
            t = st.pop()
            if t.get_id() in seen: continue
            seen.add(t.get_id())
            if z3.is_app(t):
                nm = t.decl().name()
                if nm in self.sums: out[t.get_id()] = t
                st.extend(t.children())
        return list(out.values())

    def sum_def(self, app):
        free, ext, vs, b, sort = self.sums[app.decl().name()]
        args = app.children()
        sub = list(zip(free, args))
        if sub:
            ext = [z3.substitute(e, *sub) for e in ext]
            b = z3.substitute(b, *sub)
        return ext, vs, b, sort

    def sum_lemmas(self, terms, depth=0):
        """extensionality: sums over the same extents with pointwise equal bodies are equal (trusted
        meta-lemma), plus sign lemmas; each premise is itself discharged by the solver."""
        apps = [a for a in self.sum_apps(terms) if not has_bv(a)]
        out = []
        if not apps or depth > 2: return out
        groups = []
        for a in apps:
            ext, vs, b, sort = self.sum_def(a)
            # sign lemmas
            ks = [self.fresh('k', z3.IntSort()) for _ in vs]
            bk = z3.substitute(b, *zip(vs, ks))
            rng = [z3.And(k >= 0, k < e) for k, e in zip(ks, ext)]
            ins = self.instances_for(zip(vs, ks))
            inner = self.sum_lemmas([bk], depth + 1)
            if self.check(*rng, *ins, *inner, bk < 0, timeout=1500) == z3.unsat:
                out.append(a >= 0)
                if self.check(*rng, *ins, *inner, bk != 0, timeout=1500) == z3.unsat:
                    out.append(a == 0)
            if str(sort) == 'Int' and self.check(*rng, *ins, *inner, bk > 1, timeout=1500) == z3.unsat:
                p = ext[0]
                for e in ext[1:]: p = p * e
                if len(ext) == 1:
                    out.append(z3.Implies(p >= 0, a <= p))
                    # each single point is part of the sum of an indicator
                    if depth == 0 and z3.is_app_of(b, z3.Z3_OP_ITE):
                        for x in self.index_terms(terms):
                            bx = z3.substitute(b, (vs[0], x))
                            inx = z3.And(x >= 0, x < p)
                            out.append(z3.Implies(inx, z3.And(a >= bx, a <= p - 1 + bx)))
                            out.extend(self.instances_for([(vs[0], x)]))
            for g in groups:
                a2, ext2, vs2, b2, sort2 = g
                if len(ext2) != len(ext) or sort2 != sort: continue
                same = [simp(x == y) for x, y in zip(ext, ext2)]
                if not all(z3.is_true(s) for s in same):
                    if self.check(z3.Not(z3.And(*same)), timeout=2000) != z3.unsat: continue
                bk2 = z3.substitute(b2, *zip(vs2, ks))
                ins2 = self.instances_for(list(zip(vs, ks)) + list(zip(vs2, ks)))
                inner = self.sum_lemmas([bk, bk2], depth + 1)
                r = self.check(*rng, *ins2, *inner, *out, bk != bk2)
                if r == z3.unsat:
                    out.append(a == a2)
            groups.append((a, ext, vs, b, sort))
        return out

    def point_lemmas(self, terms):
        """for counts in the path condition: each index mentioned by the goal is one summand"""
        xs = self.index_terms(terms); out = []
        if not xs: return out
        for a in self.sum_apps(self.pc):
            if has_bv(a): continue
            ext, vs, b, sort = self.sum_def(a)
            if len(ext) != 1 or sort != z3.IntSort() or not z3.is_app_of(b, z3.Z3_OP_ITE): continue
            if not all(z3.is_int_value(c) and 0 <= c.as_long() <= 1 for c in b.children()[1:]): continue
            for x in xs:
                bx = z3.substitute(b, (vs[0], x))
                out.append(z3.Implies(z3.And(x >= 0, x < ext[0]), z3.And(a >= bx, a <= ext[0] - 1 + bx)))
                out.extend(self.instances_for([(vs[0], x)]))
        return out

    def index_terms(self, terms):
        seen, out = set(), {}
        st = list(terms)
        while st:
            t = st.pop()
            if t.get_id() in seen: continue
            seen.add(t.get_id())
            if z3.is_app(t) and t.sort() == z3.IntSort():
                nm = t.decl().name()
                if nm.startswith('i!') or nm.startswith('sel'):
                    if not has_bv(t): out[t.get_id()] = t
            st.extend(t.children())
        return list(out.values())[:4]

    def split_lemmas(self, terms):
        # sum over [0,p+q) = sum over [0,p) + sum over [0,q) shifted by p (trusted meta-lemma; premises discharged)
        import itertools
        apps = [a for a in self.sum_apps(terms) if not has_bv(a)]
        apps = [(a,) + self.sum_def(a) for a in apps]
        apps = [x for x in apps if len(x[1]) == 1][:8]
        out = []
        for c in apps:
            for a, b in itertools.combinations([x for x in apps if x is not c], 2):
                if not (c[4] == a[4] == b[4]): continue
                if self.check(a[1][0] + b[1][0] != c[1][0], timeout=1500) != z3.unsat: continue
                if self.check(z3.Or(a[1][0] < 0, b[1][0] < 0), timeout=1500) != z3.unsat: continue
                for p, q in ((a, b), (b, a)):
                    k = self.fresh('k', z3.IntSort()); k2 = self.fresh('k', z3.IntSort())
                    bp = z3.substitute(p[3], (p[2][0], k)); cp = z3.substitute(c[3], (c[2][0], k))
                    i1 = self.instances_for([(p[2][0], k), (c[2][0], k)])
                    if self.check(k >= 0, k < p[1][0], *i1, *self.sum_lemmas([bp, cp], 1), bp != cp) != z3.unsat: continue
                    sh = p[1][0] + k2
                    bq = z3.substitute(q[3], (q[2][0], k2)); cq = z3.substitute(c[3], (c[2][0], sh))
                    i2 = self.instances_for([(q[2][0], k2)]) + self.instances_for([(c[2][0], sh)])
                    if self.check(k2 >= 0, k2 < q[1][0], *i2, *self.sum_lemmas([bq, cq], 1), bq != cq) != z3.unsat: continue
                    out.append(a[0] + b[0] == c[0]); break
        return out

    def instances_for(self, sub):
        sub = list(sub)
        names = set(str(v) for v, k in sub)
        out = []
        for c in self.templates:
            fv = set(str(v) for v in bvs_of([c]))
            if fv & names:
                ci = z3.substitute(c, *sub)
                if not has_bv(ci): out.append(ci)
        return out

    # -- counter-models ------------------------------------------------------
    def concretise(self, constraints):
        """values for all declared inputs from a model; prefers small array lengths"""
        def dims(desc):
            return [d for d in desc.get('shape', ()) if not isinstance(d, int)]
        small = []
        for d in self.inputs.values():
            for s in dims(d): small.append(s.t <= 4)
            if d['kind'] == 'int' and 'term' in d: small.append(z3.And(d['term'] <= 6, d['term'] >= -6))
        m = None
        for extra in (small, [s for s in small if True][:0]):
            if self.check(*constraints, *extra, timeout=4000) == z3.sat:
                m = self._model; break
        if m is None: return None
        out = {}
        def ev(t):
            v = m.eval(t, model_completion=True)
            v = z3.simplify(v)
            if z3.is_int_value(v): return v.as_long()
            if z3.is_rational_value(v): return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
            if z3.is_algebraic_value(v):
                a = v.approx(20); return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
            if z3.is_true(v): return True
            if z3.is_false(v): return False
            return 0
        import itertools
        for nm, d in self.inputs.items():
            if d['kind'] == 'choice': out[nm] = d['value']; continue
            if d['kind'] in ('int', 'real', 'bool') and 'shape' not in d:
                out[nm] = ev(d['term']); continue
            shp = [x if isinstance(x, int) else ev(x.t) for x in d['shape']]
            tot = 1
            for x in shp: tot *= max(0, x)
            if tot > 4000: return None
            vals = []
            for idx in itertools.product(*[range(max(0, x)) for x in shp]):
                vals.append(ev(d['fn'](*[z3.IntVal(i) for i in idx]) if idx else d['fn']()))
            out[nm] = {'shape': shp, 'data': vals}
        return out

class _Under:
    def __init__(self, e, conds): self.e = e; self.conds = [as_bool_term(c) for c in conds]
    def __enter__(self):
        self.n = len(self.e.pc)
        self.e.solver.push()
        self.conds = [simp(c) for c in self.conds]; _keep.extend(self.conds)
        self.e.scopes = self.e.scopes + tuple(c.get_id() for c in self.conds)
        self.k = len(self.conds)
        for c in self.conds: self.e.solver.add(c)
    def __exit__(self, *a):
        self.e.solver.pop()
        if self.k: self.e.scopes = self.e.scopes[:-self.k]
        for c in self.e.pc[self.n:]: self.e.solver.add(c)

E = None
def eng(): return E

def bvs_of(terms):
    seen, out = set(), {}
    st = list(terms)
    while st:
        t = st.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if t.decl().name().startswith(BV_PREFIX): out[t.decl().name()] = t
        st.extend(t.children())
    return [out[k] for k in sorted(out)]
_hasbv = {}
def has_bv(t):
    k = t.get_id()
    if k not in _hasbv:
        _keep.append(t)
        _hasbv[k] = bool(bvs_of([t]))
    return _hasbv[k]

# --------------------------------------------------------------------------- scalars
def is_sym(x): return isinstance(x, (B, Z, R, C))

def as_bool_term(x):
    if isinstance(x, B): return x.t
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, z3.BoolRef): return x
    if isinstance(x, Z): return x.t != 0
    if x in (0, 1): return z3.BoolVal(bool(x))
    raise Unsupported('not a boolean: %r' % (type(x),))

def frac(x):
    f = Fraction(x)
    return z3.RealVal(str(f.numerator) + '/' + str(f.denominator))

def int_term(x):
    if isinstance(x, Z): return x.t
    if isinstance(x, B): return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool): return z3.IntVal(int(x))
    if isinstance(x, int): return z3.IntVal(x)
    if hasattr(x, '__index__'): return z3.IntVal(x.__index__())
    raise Unsupported('not an integer: %r' % (x,))

def real_term(x):
    if isinstance(x, R): return x.t
    if isinstance(x, (Z, B, bool)): return simp(z3.ToReal(int_term(x)))
    if isinstance(x, int): return z3.RealVal(x)
    if isinstance(x, (float, Fraction)):
        if x != x or x in (float('inf'), float('-inf')): raise Unsupported('nan/inf as real')
        return frac(x)
    if hasattr(x, '__float__'): return frac(float(x))
    raise Unsupported('not a real: %r' % (x,))

def nan_of(x):
    if isinstance(x, R): return x.nan
    if isinstance(x, float) and x != x: return z3.BoolVal(True)
    return None

def _or(*cs):
    cs = [c for c in cs if c is not None]
    if not cs: return None
    return simp(z3.Or(*cs)) if len(cs) > 1 else cs[0]

class B:
    __slots__ = ('t',)
    __array_priority__ = 1000
    def __init__(self, t): self.t = t if isinstance(t, z3.ExprRef) else z3.BoolVal(bool(t))
    def __bool__(self): return E.branch(self.t)
    def __invert__(self): return mkB(z3.Not(self.t))
    def __and__(self, o):
        if _arr(o): return NotImplemented
        return mkB(z3.And(self.t, as_bool_term(o)))
    __rand__ = __and__
    def __or__(self, o):
        if _arr(o): return NotImplemented
        return mkB(z3.Or(self.t, as_bool_term(o)))
    __ror__ = __or__
    def __xor__(self, o):
        if _arr(o): return NotImplemented
        return mkB(z3.Xor(self.t, as_bool_term(o)))
    def _i(self): return Z(int_term(self))
    def __add__(self, o): return self._i() + o
    __radd__ = __add__
    def __mul__(self, o): return self._i() * o
    __rmul__ = __mul__
    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()
    def __eq__(self, o):
        if isinstance(o, (B, bool)): return mkB(self.t == as_bool_term(o))
        if o is None or isinstance(o, str): return False
        if _arr(o): return NotImplemented
        return self._i() == o
    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)
    def __hash__(self): return self.t.get_id()
    def __lt__(self, o): return self._i() < o
    def __le__(self, o): return self._i() <= o
    def __gt__(self, o): return self._i() > o
    def __ge__(self, o): return self._i() >= o
    def __repr__(self): return 'B<%s>' % str(self.t)[:60]
    def __format__(self, s): return repr(self)
    def item(self): return self

def mkB(t):
    t = simp(t)
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    return B(t)

def lnot(x):
    if isinstance(x, B): return mkB(z3.Not(x.t))
    return not x
def land(*xs):
    xs = [as_bool_term(x) for x in xs]
    return mkB(z3.And(*xs)) if xs else True
def lor(*xs):
    xs = [as_bool_term(x) for x in xs]
    return mkB(z3.Or(*xs)) if xs else False
def bitand(a, b):
    """a & b of two's-complement integers, b (or a) a non-negative constant; of truth values, their conjunction"""
    if all(isinstance(v, (bool, B)) for v in (a, b)): return land(a, b)
    a, b = [v._i() if isinstance(v, B) else int(v) if isinstance(v, bool) else v for v in (a, b)]
    if isinstance(a, int) and isinstance(b, int): return a & b
    if isinstance(a, Z) and a.const() is not None: a, b = b, a.const()
    if isinstance(a, int): a, b = b, a
    if isinstance(b, Z): b = b.const()
    if not isinstance(a, Z) or not isinstance(b, int) or b < 0: raise Unsupported('bitwise and')
    t = z3.IntVal(0); k = 0
    while b >> k:
        if b >> k & 1: t = t + (a.t / z3.IntVal(1 << k)) % 2 * (1 << k)
        k += 1
    return mkZ(simp(t))
def implies(a, b): return lor(lnot(a), b)

def _arr(o): return hasattr(o, '_is_symarr') or type(o).__module__ == 'numpy' and hasattr(o, 'shape') and o.shape != ()

def ite(c, a, b):
    if not isinstance(c, B):
        return a if c else b
    if a is b: return a
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        if type(a) == type(b) and a == b: return a
        raise Unsupported('ite over objects')
    if isinstance(a, C) or isinstance(b, C):
        a, b = toC(a), toC(b)
        return C(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if isinstance(a, (B, bool)) and isinstance(b, (B, bool)):
        return mkB(z3.If(c.t, as_bool_term(a), as_bool_term(b)))
    if isinstance(a, (Z, int, B)) and isinstance(b, (Z, int, B)):
        return mkZ(z3.If(c.t, int_term(a), int_term(b)))
    na, nb = nan_of(a), nan_of(b)
    nan = None
    if na is not None or nb is not None:
        f = z3.BoolVal(False)
        nan = simp(z3.If(c.t, na if na is not None else f, nb if nb is not None else f))
    ta = real_term(a) if not (isinstance(a, float) and a != a) else z3.RealVal(0)
    tb = real_term(b) if not (isinstance(b, float) and b != b) else z3.RealVal(0)
    return mkR(z3.If(c.t, ta, tb), nan)

class Z:
    __slots__ = ('t', 'q', 'kind')     # q: ('floor'|'ceil', real term) when the integer is a rounding
    __array_priority__ = 1000
    def __init__(self, t, q=None): self.t = t; self.q = q
    def const(self):
        s = simp(self.t)
        return s.as_long() if z3.is_int_value(s) else None
    def __index__(self):
        c = self.const()
        if c is not None: return c
        # value forced by the path condition?
        if E.check() == z3.sat:
            v = E._model.eval(self.t, model_completion=True)
            if z3.is_int_value(v) and E.check(self.t != v) == z3.unsat: return v.as_long()
            if not has_bv(self.t) and not E.scopes:
                # few possible values: one path for each
                vals = []; cs = []
                while len(vals) <= 6 and E.check(*cs) == z3.sat:
                    v = E._model.eval(self.t, model_completion=True)
                    if not z3.is_int_value(v): vals = [0] * 9; break
                    vals.append(v.as_long()); cs.append(self.t != v)
                if len(vals) <= 6 and E.check(*cs) == z3.unsat:
                    for v in sorted(vals)[:-1]:
                        if E.branch(self.t == v): return v
                    return sorted(vals)[-1]
        raise Unsupported('symbolic integer used where a concrete one is needed: %s' % str(self.t)[:80])
    def __int__(self): return self.__index__()
    def __bool__(self): return E.branch(self.t != 0)
    def _ar(self, o, f, fr):
        if isinstance(o, (Z, B)) or isinstance(o, int) or type(o).__name__ in ('int64', 'int32', 'bool_', 'intp'): return mkZ(f(self.t, int_term(o)))
        if isinstance(o, (R, float, Fraction)): return fr(R(real_term(self)), o)
        return NotImplemented
    def __add__(self, o): return self._ar(o, lambda a, b: a + b, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._ar(o, lambda a, b: a - b, lambda a, b: a - b)
    def __rsub__(self, o): return self._ar(o, lambda a, b: b - a, lambda a, b: b - a)
    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)): return NotImplemented
        return self._ar(o, lambda a, b: a * b, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(self): return mkZ(-self.t)
    def __pos__(self): return self
    def __abs__(self): return mkZ(z3.If(self.t >= 0, self.t, -self.t))
    def __truediv__(self, o): return R(real_term(self)) / o
    def __rtruediv__(self, o): return o / R(real_term(self))
    def _divmod(self, a, b, which):
        bs = simp(b)
        if z3.is_int_value(bs):
            if bs.as_long() == 0: raise ZeroDivisionError()
            if bs.as_long() > 0: return mkZ(a / b if which == 'd' else a % b)
        elif E.check(b <= 0, timeout=2000) == z3.unsat:
            return mkZ(a / b if which == 'd' else a % b)
        q = z3.If(b > 0, a / b, (-a) / (-b))
        return mkZ(q if which == 'd' else a - q * b)
    def __floordiv__(self, o):
        if isinstance(o, (R, float)): return (R(real_term(self)) / o).floor_r()
        if _arr(o): return NotImplemented
        return self._divmod(self.t, int_term(o), 'd')
    def __rfloordiv__(self, o):
        if _arr(o): return NotImplemented
        return self._divmod(int_term(o), self.t, 'd')
    def __mod__(self, o):
        if _arr(o): return NotImplemented
        return self._divmod(self.t, int_term(o), 'm')
    def __and__(self, o):
        if _arr(o): return NotImplemented
        return bitand(self, o)
    __rand__ = __and__
    def __rmod__(self, o):
        if isinstance(o, str): return o
        return self._divmod(int_term(o), self.t, 'm')
    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o): r = self * r
            return r
        return R(real_term(self)) ** o
    def __rpow__(self, o): return lift_real(o) ** self
    def _cmp(self, o, op):
        if isinstance(o, (R, float)) and not isinstance(o, bool):
            return getattr(R(real_term(self)), op)(o)
        if isinstance(o, (Z, int, B)) or type(o).__name__ in ('int64', 'int32', 'bool_', 'intp'):
            b = int_term(o)
            if self.q is not None and not (isinstance(o, Z) and o.q is not None):
                return rnd_cmp(self.q, b, op)
            if isinstance(o, Z) and o.q is not None and self.q is None:
                return rnd_cmp(o.q, self.t, {'__lt__': '__gt__', '__gt__': '__lt__', '__le__': '__ge__', '__ge__': '__le__'}.get(op, op))
            a = self.t
            return mkB({'__lt__': lambda: a < b, '__le__': lambda: a <= b, '__gt__': lambda: a > b, '__ge__': lambda: a >= b,
                        '__eq__': lambda: a == b, '__ne__': lambda: a != b}[op]())
        if o is None or isinstance(o, str): return op == '__ne__'
        return NotImplemented
    def __lt__(self, o): return self._cmp(o, '__lt__')
    def __le__(self, o): return self._cmp(o, '__le__')
    def __gt__(self, o): return self._cmp(o, '__gt__')
    def __ge__(self, o): return self._cmp(o, '__ge__')
    def __eq__(self, o): return self._cmp(o, '__eq__')
    def __ne__(self, o): return self._cmp(o, '__ne__')
    def __hash__(self):
        c = self.const()
        return hash(c) if c is not None else self.t.get_id()
    def __float__(self): raise Unsupported('float() of symbolic int')
    def __repr__(self): return 'Z<%s>' % str(self.t)[:60]
    def __format__(self, s): return repr(self)
    def item(self): return self
    def astype(self, k): return cast(self, k)
    ndim = 0; shape = ()

def rnd_cmp(q, b, op):
    """comparison of floor(x)/ceil(x) with an integer b, as a comparison of the real x"""
    kind, x = q
    br = z3.ToReal(b)
    lt, le, gt, ge = [lambda u, v, o=o: real_cmp(u, v, o) for o in ('__lt__', '__le__', '__gt__', '__ge__')]
    if kind == 'floor':
        return mkB({'__lt__': lambda: lt(x, br), '__ge__': lambda: ge(x, br), '__le__': lambda: lt(x, br + 1), '__gt__': lambda: ge(x, br + 1),
                    '__eq__': lambda: z3.And(ge(x, br), lt(x, br + 1)), '__ne__': lambda: z3.Or(lt(x, br), ge(x, br + 1))}[op]())
    return mkB({'__le__': lambda: le(x, br), '__gt__': lambda: gt(x, br), '__lt__': lambda: le(x, br - 1), '__ge__': lambda: gt(x, br - 1),
                '__eq__': lambda: z3.And(gt(x, br - 1), le(x, br)), '__ne__': lambda: z3.Or(le(x, br - 1), gt(x, br))}[op]())

def mkZ(t, q=None):
    t = simp(t)
    if z3.is_int_value(t): return t.as_long()
    return Z(t, q)

_UF = {}
def uf(name, n=1):
    k = (name, n)
    if k not in _UF: _UF[k] = z3.Function(name, *([z3.RealSort()] * (n + 1)))
    return _UF[k]

class R:
    __slots__ = ('t', 'nan', 'ri')      # ri: ('floor'|'ceil', real term) when the value is integral by rounding
    __array_priority__ = 1000
    def __init__(self, t, nan=None, ri=None):
        self.t = t; self.ri = ri
        if nan is not None and z3.is_false(nan): nan = None
        self.nan = nan
    def _ar(self, o, f):
        if isinstance(o, (R, Z, B, int, float, Fraction)) or (hasattr(o, '__float__') and not _arr(o) and not isinstance(o, C)):
            if isinstance(o, float) and o != o: return R(self.t, z3.BoolVal(True))
            if isinstance(o, float) and o in (float('inf'), -float('inf')): raise Unsupported('inf arithmetic')
            return mkR(f(self.t, real_term(o)), _or(self.nan, nan_of(o)))
        return NotImplemented
    def __add__(self, o):
        if isinstance(o, C): return NotImplemented
        return self._ar(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o):
        if isinstance(o, C): return NotImplemented
        return self._ar(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._ar(o, lambda a, b: b - a)
    def __mul__(self, o):
        if isinstance(o, C): return NotImplemented
        return self._ar(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o):
        if isinstance(o, C): return NotImplemented
        return self._ar(o, real_div)
    def __rtruediv__(self, o): return self._ar(o, lambda a, b: real_div(b, a))
    def __floordiv__(self, o): return (self / o).floor_r()
    def __rfloordiv__(self, o): return (o / self).floor_r()
    def __mod__(self, o):
        q = (self / o).floor_r()
        return self - q * o
    def __neg__(self): return mkR(-self.t, self.nan)
    def __pos__(self): return self
    def __abs__(self): return mkR(z3.If(self.t >= 0, self.t, -self.t), self.nan)
    def __pow__(self, o): return rpow(self, o)
    def __rpow__(self, o): return rpow(o, self)
    def _cmp(self, o, op):
        if o is None or isinstance(o, str): return op == '__ne__'
        if isinstance(o, float) and o in (float('inf'), -float('inf')):
            pos = o > 0
            v = {'__lt__': pos, '__le__': pos, '__gt__': not pos, '__ge__': not pos, '__eq__': False, '__ne__': True}[op]
            if self.nan is None: return v
            return mkB(z3.And(z3.Not(self.nan), z3.BoolVal(v))) if op != '__ne__' else True
        if isinstance(o, float) and o != o: return op == '__ne__'
        if isinstance(o, (R, Z, B, int, float, Fraction)) or (hasattr(o, '__float__') and not _arr(o) and not isinstance(o, C)):
            a = self.t; b = real_term(o)
            nan = _or(self.nan, nan_of(o))
            c = real_cmp(a, b, op)
            if nan is not None: c = z3.Or(nan, c) if op == '__ne__' else z3.And(z3.Not(nan), c)
            return mkB(c)
        return NotImplemented
    def __lt__(self, o): return self._cmp(o, '__lt__')
    def __le__(self, o): return self._cmp(o, '__le__')
    def __gt__(self, o): return self._cmp(o, '__gt__')
    def __ge__(self, o): return self._cmp(o, '__ge__')
    def __eq__(self, o): return self._cmp(o, '__eq__')
    def __ne__(self, o): return self._cmp(o, '__ne__')
    def __hash__(self): return self.t.get_id()
    def __bool__(self): return E.branch(self.t != 0)
    def floor_z(self):
        s = int_of_real(self.t)
        if s is not None: return mkZ(s)
        if self.ri is not None: return self.to_z()
        return mkZ(z3.ToInt(self.t), ('floor', self.t))
    def ceil_z(self):
        s = int_of_real(self.t)
        if s is not None: return mkZ(s)
        if self.ri is not None: return self.to_z()
        return mkZ(-z3.ToInt(-self.t), ('ceil', self.t))
    def floor_r(self):
        z = self.floor_z(); return mkR(real_term(z), self.nan, z.q if isinstance(z, Z) else None)
    def ceil_r(self):
        z = self.ceil_z(); return mkR(real_term(z), self.nan, z.q if isinstance(z, Z) else None)
    def round_r(self, dec=0):
        if int_of_real(self.t) is not None or self.ri is not None: return self
        sc = 10 ** dec
        # half-up instead of half-even at exact ties (listed assumption)
        return mkR(z3.ToReal(z3.ToInt(self.t * sc + z3.RealVal('1/2'))) / sc, self.nan)
    def to_z(self):
        """the integer with the same value, for integral reals"""
        s = int_of_real(self.t)
        if s is not None: return mkZ(s)
        k, x = self.ri
        return mkZ(z3.ToInt(x) if k == 'floor' else -z3.ToInt(-x), self.ri)
    def trunc_z(self):
        s = int_of_real(self.t)
        if s is not None: return mkZ(s)
        if self.ri is not None: return self.to_z()
        return mkZ(z3.If(self.t >= 0, z3.ToInt(self.t), -z3.ToInt(-self.t)))
    def __int__(self): raise Unsupported('int() of symbolic real')
    def __float__(self):
        s = simp(self.t)
        if z3.is_rational_value(s): return float(Fraction(s.numerator_as_long(), s.denominator_as_long()))
        raise Unsupported('float() of symbolic real')
    def __repr__(self): return 'R<%s>' % str(self.t)[:60]
    def __format__(self, s): return repr(self)
    def item(self): return self
    def astype(self, k): return cast(self, k)
    def conj(self): return self
    conjugate = conj
    @property
    def real(self): return self
    @property
    def value(self): return self
    ndim = 0; shape = ()

_FLIP = {'__lt__': '__gt__', '__gt__': '__lt__', '__le__': '__ge__', '__ge__': '__le__', '__eq__': '__eq__', '__ne__': '__ne__'}
def known_pos(t):
    if E is None: return False
    k = ('pos', t.get_id())
    if k in E.facts_on: return True
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE: return False
    if has_bv(t): return False
    if E.check(t <= 0, timeout=300) == z3.unsat:
        if not E.scopes: E.facts_on.add(k); _keep.append(t)
        return True
    return False
def real_cmp(a, b, op):
    # comparison of reals; quotients by positive terms are multiplied out, floors compared with integers unfolded
    for _ in range(4):
        a, b = simp(a), simp(b)
        moved = False
        for x, y, o in ((a, b, op), (b, a, _FLIP[op])):
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(x.arg(1)) and known_pos(x.arg(1)):
                a, b, op = x.arg(0), y * x.arg(1), o; moved = True; break
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL and z3.is_app(x.arg(0)) and x.arg(0).decl().kind() == z3.Z3_OP_TO_INT:
                iy = int_of_real(y)
                if iy is None: continue
                q = x.arg(0).arg(0)
                if o in ('__eq__', '__ne__'): continue
                br = z3.ToReal(iy)
                if o in ('__lt__', '__ge__'): a, b, op = q, br, o
                else: a, b, op = q, br + 1, {'__le__': '__lt__', '__gt__': '__ge__'}[o]
                moved = True; break
        if not moved: break
    return {'__lt__': lambda: a < b, '__le__': lambda: a <= b, '__gt__': lambda: a > b, '__ge__': lambda: a >= b, '__eq__': lambda: a == b, '__ne__': lambda: a != b}[op]()

def int_of_real(t):
    """integer term equal to a real term that is syntactically integral, else None"""
    t = simp(t)
    if z3.is_rational_value(t):
        return z3.IntVal(t.numerator_as_long()) if t.denominator_as_long() == 1 else None
    if z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_TO_REAL: return t.arg(0)
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
            cs = [int_of_real(c) for c in t.children()]
            if any(c is None for c in cs): return None
            if k == z3.Z3_OP_ADD: return z3.Sum(*cs)
            if k == z3.Z3_OP_MUL:
                r = cs[0]
                for c in cs[1:]: r = r * c
                return r
            if k == z3.Z3_OP_UMINUS: return -cs[0]
            r = cs[0]
            for c in cs[1:]: r = r - c
            return r
        if k == z3.Z3_OP_ITE:
            a, b = int_of_real(t.arg(1)), int_of_real(t.arg(2))
            if a is not None and b is not None: return z3.If(t.arg(0), a, b)
    return None

def real_div(a, b):
    a, b = simp(a), simp(b)
    if z3.is_rational_value(b):
        if b.numerator_as_long() == 0: return uf('div0')(a)
        return a / b
    if a.eq(b) and nonzero(b): return z3.RealVal(1)
    # (x*b)/b -> x when b is known to be non-zero
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_MUL:
        cs = a.children()
        for i, c in enumerate(cs):
            if c.eq(b) and nonzero(b):
                rest = cs[:i] + cs[i + 1:]
                r = rest[0]
                for x in rest[1:]: r = r * x
                return r
    return a / b

def nonzero(t):
    return E is not None and E.check(t == 0, timeout=1000) == z3.unsat

def mkR(t, nan=None, ri=None):
    return R(simp(t), nan, ri)

def lift_real(x): return x if isinstance(x, R) else R(real_term(x), nan_of(x))

def sqrt(x):
    x = lift_real(x)
    y = uf('sqrt')(x.t)
    E.fact(z3.Implies(x.t >= 0, z3.And(y >= 0, y * y == x.t)), key=('sqrt', x.t.get_id()))
    return mkR(y, _or(x.nan))

def rpow(a, b):
    if isinstance(b, float) and b == int(b): b = int(b)
    if isinstance(b, R):
        s = simp(b.t)
        if z3.is_rational_value(s) and s.denominator_as_long() == 1: b = s.numerator_as_long()
    if isinstance(b, int) and not isinstance(b, bool):
        a = lift_real(a)
        if 0 <= b <= 6:
            r = R(z3.RealVal(1), a.nan)
            for _ in range(b): r = a * r
            return r
        if -6 <= b < 0: return 1 / rpow(a, -b)
    if isinstance(b, float) and b == 0.5: return sqrt(a)
    a, b = lift_real(a), lift_real(b)
    p = uf('pow', 2)(a.t, b.t)
    pi = uf('pow', 2)(a.t, simp(-b.t))
    E.fact(z3.Implies(a.t > 0, z3.And(p > 0, p * pi == 1)), key=('pow', a.t.get_id(), b.t.get_id()))
    E.fact(z3.Implies(b.t == 0, p == 1), key=('pow0', a.t.get_id(), b.t.get_id()))
    return mkR(p, _or(a.nan, b.nan))

def ufun(name, x):
    x = lift_real(x)
    return mkR(uf(name)(x.t), x.nan)

class C:
    """complex scalar"""
    __slots__ = ('re', 'im')
    __array_priority__ = 1000
    def __init__(self, re, im): self.re = lift_real(re); self.im = lift_real(im)
    def __add__(self, o): o = toC(o); return C(self.re + o.re, self.im + o.im)
    __radd__ = __add__
    def __sub__(self, o): o = toC(o); return C(self.re - o.re, self.im - o.im)
    def __rsub__(self, o): o = toC(o); return o - self
    def __mul__(self, o):
        if not isinstance(o, C) and not isinstance(o, complex): return C(self.re * o, self.im * o)
        o = toC(o); return C(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
    __rmul__ = __mul__
    def __truediv__(self, o):
        if isinstance(o, C): raise Unsupported('complex division')
        return C(self.re / o, self.im / o)
    def __neg__(self): return C(-self.re, -self.im)
    def conj(self): return C(self.re, -self.im)
    conjugate = conj
    def __eq__(self, o): o = toC(o); return land(self.re == o.re, self.im == o.im)
    def __ne__(self, o): return lnot(self == o)
    def __hash__(self): return hash((self.re, self.im))
    @property
    def real(self): return self.re
    @property
    def imag(self): return self.im
def toC(x):
    if isinstance(x, C): return x
    if isinstance(x, complex): return C(x.real, x.imag)
    return C(x, 0)

def kind_of(x):
    if isinstance(x, (B, bool)): return 'b'
    if isinstance(x, (Z, int)): return 'i'
    if isinstance(x, (R, float, Fraction)): return 'f'
    if isinstance(x, (C, complex)): return 'c'
    n = type(x).__name__
    if n.startswith('int') or n.startswith('uint'): return 'i'
    if n.startswith('float'): return 'f'
    if n.startswith('bool'): return 'b'
    return 'O'

def cast(x, kind):
    """value of x after conversion to the dtype kind (numpy astype semantics on mathematical numbers)"""
    kind = kind_name(kind)
    if kind == 'O': return x
    if kind == 'b':
        if isinstance(x, (B, bool)): return x
        return x != 0
    if kind == 'i':
        if isinstance(x, R): return x.trunc_z()
        if isinstance(x, B): return mkZ(int_term(x))
        if isinstance(x, bool): return int(x)
        if isinstance(x, float): return int(x)
        return x
    if kind == 'f':
        if isinstance(x, (Z, B)): return R(real_term(x))
        if isinstance(x, (int, bool)): return float(x)
        return x
    if kind == 'c': return toC(x)
    raise Unsupported('cast to %r' % kind)

def kind_name(k):
    if isinstance(k, str) and k in ('b', 'i', 'f', 'c', 'O'): return k
    if k is None: return None
    n = getattr(k, '_kind', None)
    if n: return n
    s = k if isinstance(k, str) else getattr(k, '__name__', str(k))
    s = s.lower()
    if s.startswith('bool'): return 'b'
    if s.startswith('int') or s.startswith('uint') or s in ('i4', 'i8', 'u4', 'u8', 'i', 'long'): return 'i'
    if s.startswith('float') or s in ('f4', 'f8', 'f', 'd', 'double', 'single'): return 'f'
    if s.startswith('complex'): return 'c'
    return 'O'
