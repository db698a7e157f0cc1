"""P03 abundance matching"""
from vc.api import contract
from contracts.grid import unchanged

AM = 'galprops/galprops_am.py:'
INF = float('inf')
WAYS = [dict(rev=r, part=p) for r in (False, True) for p in (False, True)]

class Target:
    """a distribution, the part of it that is used, and the probability mass missing on either side"""
    def __init__(self, I, name, part, finite=False, open_ended=True):
        self.rv = I.distribution(name); rv = self.rv
        self.kw = {}
        if part:
            # any cut that keeps some of the distribution
            self.lo = rv.a + I.real(name + '.lo', lo=-1.0, span=1.0); self.hi = self.lo + I.real(name + '.span', gt=0.0, span=4.0)
            I.assume(self.hi > rv.a); I.assume(self.lo < rv.b)
            if not I.sym: I.assume(float(rv.cdf(self.hi) - rv.cdf(self.lo)) > 1e-3)
            self.l, self.h = I.real(name + '.low', lo=0.0, hi=1.0, step=I.choose(name + '.step', [0.125, 0.1], quick=[0])), I.real(name + '.high', lo=0.0, hi=1.0, step=I.choose(name + '.step2', [0.125, 0.1], quick=[0]))
            I.assume(self.l + self.h < 1)
        else: self.lo, self.hi, self.l, self.h = 0.0, INF, 0.0, 0.0
        self.F0, self.F1 = rv.cdf(self.lo), rv.cdf(self.hi)
        self.res = rv.res
        if not I.sym: I.assume(all(f == 0 or f == 1 or 1e-6 < f < 1 - 1e-6 for f in (float(self.F0), float(self.F1))))      # beyond that the cdf loses the value to rounding
    def fill(self, I, name, flat):
        """extrapolation setting: keyword value and the value it stands for, low and high"""
        k = I.choose(name, ['default', 'number'] + (['flat'] if not I.sym or self.hi != INF else []))
        if k == 'flat': return {'low': 'flat', 'high': 'flat'}, flat[0], flat[1]
        if k == 'default': return {}, float('nan'), float('nan')
        a, b = I.real(name + '.low'), I.real(name + '.high')
        return {'low': a, 'high': b}, a, b
    def frac(self, I, v): return (self.rv.cdf(v) - self.F0) / (self.F1 - self.F0)
    def cum(self, I, v):
        """cumulative fraction of a value inside the range"""
        return self.l + self.frac(I, v) * (1 - self.l - self.h)
    def holds(self, I, name, v, c, low, high):
        """v is what belongs to the cumulative fraction c"""
        inside = I.And(c >= self.l, c <= 1 - self.h)
        def edge(x): return I.sym or x == 0 or abs(x) > 1e-9
        if not (edge(c - self.l) and edge(c - (1 - self.h))):
            # at an end, to within rounding: the value of the end or what is beyond it
            I.prove(name + '.edge', I.same(v, low) or I.same(v, high) or (v == v and I.le(self.lo, v, 1e-6) and (self.hi == INF or I.le(v, self.hi, 1e-6)))); return
        if isinstance(v, float) and v != v:
            I.prove(name + '.below', I.implies(c < self.l, low != low)); I.prove(name + '.above', I.implies(c > 1 - self.h, high != high))
            I.prove(name + '.in_range', I.Not(inside)); return
        I.prove(name + '.below', I.implies(c < self.l, lambda: I.eq(v, low)))
        I.prove(name + '.above', I.implies(c > 1 - self.h, lambda: I.eq(v, high)))
        I.prove(name + '.in_range', I.implies(inside, lambda: I.And(I.Not(I.isnan(v)), lambda: I.le(self.lo, v, 10 * self.res), lambda: self.hi == INF or I.le(v, self.hi, 10 * self.res))))
        I.prove(name + '.abundance', I.implies(inside, lambda: I.near(self.frac(I, v), (c - self.l) / (1 - self.l - self.h), self.res * 5 / max(1e-3, float(self.F1 - self.F0)) if self.res else 1e-7 if not I.sym else 0)))

def keywords(t, n, fill):
    kw = {'extrapolate_%s_p%d' % (k, n): v for k, v in fill.items()}
    if t.hi != INF or t.l != 0: kw.update({'missing_pmass_low_p%d' % n: t.l, 'missing_pmass_high_p%d' % n: t.h})
    return kw
def limits(t, n): return {} if isinstance(t.hi, float) and t.hi == INF else {'prop%d_min' % n: t.lo, 'prop%d_max' % n: t.hi}

class Catalogue:
    """a catalogue as the distribution of property 1"""
    def __init__(self, I, part):
        self.N = I.int('N', 2, chi=7); self.cat = I.array('cat', (self.N,), gt=0.0, span=4.0, fine=True); self.given = I.snap(self.cat); self.o = I.np.sort(self.cat); self.hi = None; self.res = 0
        if part:
            self.l, self.h = I.real('low1', lo=0.0, hi=1.0, step=I.choose('step1', [0.125, 0.1], quick=[0])), I.real('high1', lo=0.0, hi=1.0, step=I.choose('step2', [0.125, 0.1], quick=[0]))
            I.assume(self.l + self.h < 1)
        else: self.l = self.h = 0.0
    def rank(self, k): return self.l + k * (1 - self.l - self.h) / (self.N - 1)

def both(I, f, x):
    """the value of one object, which an array gives too"""
    v = f(x); w = f(I.np.array([x, x]))
    I.shape_is('array.shape', w, [2])
    I.prove('array', I.And(I.same(I.at(w, 0), v), I.same(I.at(w, 1), v)))
    return v

@contract('P03', covers=[AM + 'am_dfcat'], params=WAYS, weight=2)
def catalogue(I, rev, part):
    """an object gets the value with the same fraction of the distribution below it as there are objects below the object"""
    c = Catalogue(I, part); t = Target(I, 'target', part); fill, low, high = t.fill(I, 'fill', (t.lo, t.hi))
    f, g = I.mod('simim.galprops.galprops_am').am_dfcat(c.cat, t.rv, reverseorder=rev, **keywords(t, 2, fill), **limits(t, 2), **({'missing_pmass_low_p1': c.l, 'missing_pmass_high_p1': c.h} if part else {}))
    k = I.int('k', 0, c.N - 1)
    # the last of several equal objects
    I.assume(I.Or(k == c.N - 1, lambda: I.at(c.o, k) < I.at(c.o, k + 1)))
    x = I.at(c.o, k); q = c.rank(k)
    v = both(I, f, x)
    t.holds(I, 'value', v, 1 - q if rev else q, low, high)
    unchanged(I, 'catalogue_unchanged', c.cat, c.given)

@contract('P03', covers=[AM + 'am_dfcat'], params=WAYS)
def outside_catalogue(I, rev, part):
    """objects below or above all of the catalogue count as its lower or upper end"""
    c = Catalogue(I, part); t = Target(I, 'target', part); fill, low, high = t.fill(I, 'fill', (t.lo, t.hi))
    f, g = I.mod('simim.galprops.galprops_am').am_dfcat(c.cat, t.rv, reverseorder=rev, **keywords(t, 2, fill), **limits(t, 2), **({'missing_pmass_low_p1': c.l, 'missing_pmass_high_p1': c.h} if part else {}))
    d = I.real('d', gt=0.0, span=3.0); top = I.flag('top')
    v = both(I, f, I.at(c.o, c.N - 1) + d if top else I.at(c.o, 0) - d)
    t.holds(I, 'value', v, 1.0 if top != rev else 0.0, low, high)

@contract('P03', covers=[AM + 'am_dfcat'], params=WAYS, weight=2)
def catalogue_monotone(I, rev, part):
    """a larger object never gets a smaller value (a larger one with the order reversed)"""
    c = Catalogue(I, part); t = Target(I, 'target', part)
    f, g = I.mod('simim.galprops.galprops_am').am_dfcat(c.cat, t.rv, reverseorder=rev, **keywords(t, 2, {'low': 'flat', 'high': 'flat'}), **limits(t, 2), **({'missing_pmass_low_p1': c.l, 'missing_pmass_high_p1': c.h} if part else {}))
    x, y = I.real('x', lo=0.0, span=5.0), I.real('y', lo=0.0, span=5.0)
    I.assume(x <= y)
    u, v = f(x), f(y)
    I.prove('order', I.le(v, u, 10 * t.res) if rev else I.le(u, v, 10 * t.res))

@contract('P03', covers=[AM + 'am_dfcat'], params=WAYS, weight=2)
def catalogue_inverse(I, rev, part):
    """the second function goes back: a value that splits the distribution between two neighbouring ranks belongs between
    the two objects, and an object's own value to the object"""
    c = Catalogue(I, part); t = Target(I, 'target', part)
    k = I.choose('fill', ['flat', 'number'])
    a, b = (I.np.min(c.cat), I.np.max(c.cat)) if k == 'flat' else (I.real('fill.low'), I.real('fill.high'))
    f, g = I.mod('simim.galprops.galprops_am').am_dfcat(c.cat, t.rv, reverseorder=rev, **keywords(t, 2, {}), **limits(t, 2), **({'missing_pmass_low_p1': c.l, 'missing_pmass_high_p1': c.h} if part else {}), extrapolate_low_p1='flat' if k == 'flat' else a, extrapolate_high_p1='flat' if k == 'flat' else b)
    p = I.real('p', lo=0.0, hi=1.0, step=0.0625); v = t.rv.ppf(t.F0 + p * (t.F1 - t.F0)) if I.sym else t.rv.ppf(float(t.F0 + p * (t.F1 - t.F0)))
    if not I.sym: I.assume(t.res == 0 and v < INF)
    I.assume(I.And(v >= t.lo, v <= t.hi) if t.hi != INF else v >= t.lo)
    q = t.l + p * (1 - t.l - t.h); q = 1 - q if rev else q
    if not I.sym: I.assume(min(abs(q - c.l), abs(q - 1 + c.h)) > 1e-9)
    w = both(I, g, v)
    I.prove('below', I.implies(q < c.l, lambda: I.eq(w, a))); I.prove('above', I.implies(q > 1 - c.h, lambda: I.eq(w, b)))
    j = I.int('j', 0, c.N - 2)
    I.prove('between', I.implies(I.And(c.rank(j) <= q, q <= c.rank(j + 1)), lambda: I.And(I.le(I.at(c.o, j), w, 1e-6), I.le(w, I.at(c.o, j + 1), 1e-6))))
    I.prove('own', I.implies(c.rank(j) == q, lambda: I.near(w, I.at(c.o, j), 1e-6)))

class Pair:
    def __init__(self, I, rev, part, fill=None):
        self.a, self.b = Target(I, 'one', part), Target(I, 'two', part); a, b = self.a, self.b
        self.f1, self.low1, self.high1 = a.fill(I, 'fill1', (a.lo, a.hi)) if fill is None else (fill, None, None)
        self.f2, self.low2, self.high2 = b.fill(I, 'fill2', (b.lo, b.hi)) if fill is None else (fill, None, None)
        self.f, self.g = I.mod('simim.galprops.galprops_am').am_dfdf(a.rv, b.rv, reverseorder=rev, **keywords(a, 1, self.f1), **keywords(b, 2, self.f2), **limits(a, 1), **limits(b, 2))

@contract('P03', covers=[AM + 'am_dfdf'], params=[dict(w, to=k) for w in WAYS for k in (1, 2)], weight=2)
def distributions(I, rev, part, to):
    """both ways between two distributions: values with the same fraction of objects below them belong together"""
    p = Pair(I, rev, part)
    src, dst, f, low, high = (p.a, p.b, p.f, p.low2, p.high2) if to == 2 else (p.b, p.a, p.g, p.low1, p.high1)
    x = src.lo + I.real('x', lo=0.0, span=4.0) if part else src.rv.a + I.real('x', lo=-1.0, span=4.0)
    I.assume(x >= src.lo); I.assume(x <= src.hi)
    c = src.cum(I, x); v = both(I, f, x)
    dst.holds(I, 'value', v, 1 - c if rev else c, low, high)

@contract('P03', covers=[AM + 'am_dfdf'], params=[dict(rev=r, to=k) for r in (False, True) for k in (1, 2)])
def outside_distribution(I, rev, to):
    """values outside the range that is used count as its ends"""
    p = Pair(I, rev, True)
    src, dst, f, low, high = (p.a, p.b, p.f, p.low2, p.high2) if to == 2 else (p.b, p.a, p.g, p.low1, p.high1)
    d = I.real('d', gt=0.0, span=3.0); top = I.flag('top')
    v = both(I, f, src.hi + d if top else src.lo - d)
    dst.holds(I, 'value', v, 1.0 if top != rev else 0.0, low, high)

@contract('P03', covers=[AM + 'am_dfdf'], params=[dict(w, to=k) for w in WAYS for k in (1, 2)])
def distributions_monotone(I, rev, part, to):
    p = Pair(I, rev, part, {'low': 'flat', 'high': 'flat'}); f = p.f if to == 2 else p.g
    x, y = I.real('x', lo=0.0, span=6.0), I.real('y', lo=0.0, span=6.0)
    I.assume(x <= y)
    u, v = f(x), f(y)
    r = 1e-6 + 10 * max(p.a.res, p.b.res); I.prove('order', I.le(v, u, r) if rev else I.le(u, v, r))

@contract('P03', covers=[AM + 'am_dfdf'], params=WAYS)
def distributions_inverse(I, rev, part):
    """there and back again"""
    p = Pair(I, rev, part, {})
    x = p.a.lo + I.real('x', lo=0.0, span=4.0) if part else p.a.rv.a + I.real('x', lo=0.0, span=4.0)
    I.assume(x >= p.a.rv.a); I.assume(x <= p.a.rv.b); I.assume(x <= p.a.hi)
    if not I.sym: I.assume(p.a.res == 0 and p.b.res == 0 and 1e-3 < float(p.a.frac(I, x)) < 1 - 1e-3)
    c = p.a.cum(I, x); c = 1 - c if rev else c
    if not I.sym: I.assume(abs(c - p.b.l) > 1e-6 and abs(c - 1 + p.b.h) > 1e-6)
    I.assume(I.And(c >= p.b.l, c <= 1 - p.b.h))
    I.prove('back', I.near(p.g(p.f(x)), x, 1e-4))

@contract('P03', covers=[AM + 'am_dfcat', AM + 'am_dfdf'], weight=0.5)
def invalid(I):
    """impossible missing probability masses and unknown extrapolation modes are refused"""
    am = I.mod('simim.galprops.galprops_am'); t = I.distribution('target')
    l1, h1, l2, h2 = [I.real(n, lo=-0.5, hi=1.25) for n in ('l1', 'h1', 'l2', 'h2')]
    kw = dict(missing_pmass_low_p1=l1, missing_pmass_high_p1=h1, missing_pmass_low_p2=l2, missing_pmass_high_p2=h2)
    ok = I.And(l1 >= 0, h1 >= 0, l2 >= 0, h2 >= 0, l1 + h1 <= 1, l2 + h2 <= 1)
    which = I.choose('which', ['dfcat', 'dfdf'])
    def call(**k):
        if which == 'dfcat': am.am_dfcat(I.np.array([1.0, 2.0]), t, **k)
        else: am.am_dfdf(t, t, **k)
    I.prove('refused', I.iff(I.raises(lambda: call(**kw), ValueError), I.Not(ok)))
    I.prove('mode', I.raises(lambda: call(**{I.choose('key', ['extrapolate_low_p1', 'extrapolate_high_p1', 'extrapolate_low_p2', 'extrapolate_high_p2']): 'linear'}), ValueError))

GEN = [AM + c + '.' + f for c in ('schechter_gen', 'double_schechter_gen', 'modified_schechter_gen', 'double_power_law_gen') for f in ('lum_function', 'lum_function_int', '_cdf', '_ppf')]
@contract('P03', covers=GEN, params=[dict(kind=k) for k in ('schechter', 'double_schechter', 'modified_schechter', 'double_power_law')], sym=False, weight=0.5)
def target_distributions(I, kind):
    """the target distributions themselves: the fraction below a value is the integral of the luminosity function up to it, ppf goes
    back, arrays give what single values give"""
    np = I.np; m = I.mod('simim.galprops.galprops_am')
    g = getattr(m, kind + '_gen')(name='g'); xmin = I.real('xmin', gt=0.0, span=1.0); x0 = I.real('x0', gt=0.0, span=2.0); logs = kind in ('modified_schechter', 'double_power_law')
    al = I.choose('alpha', [-2.25, -2.0, -1.5, -1.25, -1.0, -0.5, 0.25]); p1, p2 = I.real('phi1', gt=0.0), I.real('phi2', gt=0.0)
    par = {'schechter': (x0, al, p1, xmin), 'double_schechter': (x0, al, p1, I.choose('alpha2', [-1.5, -0.5, 0.25]), p2, xmin), 'modified_schechter': (p1, x0, 1.25, I.choose('sigma', [0.375, 0.5]), xmin), 'double_power_law': (p1, x0, I.choose('a', [0.25, 0.5]), I.choose('b', [1.5, 2.0]), xmin)}[kind]
    n = I.int('n', 1, chi=5); x = xmin + I.array('x', (n,), lo=-1.0, span=6.0)
    d = g(*par); c = d.cdf(x)
    t = np.logspace(np.log10(xmin), np.log10(xmin) + 6, 60001)
    ph = g.lum_function(t, *par) * (1.0 if logs else t)
    F = np.concatenate([[0.0], np.cumsum((ph[1:] + ph[:-1]) / 2)]); F /= F[-1]
    I.shape_is('shape', c, [n])
    I.forall('integral', [n], lambda i: I.near(c[i], np.interp(x[i], t, F, left=0.0), 2e-3))
    I.forall('scalar', [n], lambda i: I.near(c[i], float(d.cdf(x[i])), 1e-9))
    q = c[(c > 0) & (c < 0.99)]; back = d.ppf(q)
    I.forall('ppf', [len(q)], lambda i: I.near(d.cdf(back[i]), q[i], 3e-2))
    hi = np.sort(x); cs = d.cdf(hi)
    I.forall('nondecreasing', [n - 1], lambda i: cs[i] <= cs[i + 1] + 1e-12)
