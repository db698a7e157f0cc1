"""Galaxy property models: P01 randomness, P02 object by object, P03 abundance matching"""
from vc.api import contract
from contracts.grid import unchanged

D = 'galprops/'
class M:
    """how to call one model: its object inputs, the keyword switching scatter, the width keyword, whether the
    linear mean is kept, the variants, and the keyword that makes a duty cycle random"""
    def __init__(self, file, fn, args, off=None, width=None, mean=False, variants=({},), duty=None, many=False):
        self.file, self.fn, self.args, self.off, self.width, self.mean, self.variants, self.duty, self.many = file, fn, args, off or {}, width, mean, list(variants), duty, many
CO, CI = ['CO1-0', 'CO2-1', 'CO3-2', 'CO4-3', 'CO5-4'], ['CI1-0', 'CI2-1']
SETS = [None, 'DGS', 'dwarfs', 'starbursts', 'comp/AGN']
FIR = [{'line': l} for l in ('[CII]', '[NII]', '[OI]', '[OIII]88um', '[OIII]52um', '[SiII]', '[SIII]33um', '[SIII]19um', '[NeII]', '[NeIII]')]
MODELS = {
    'keating16': M('line_co', 'keating16', ['mass'], {'scatter_lco': False}, 'sig_lco', variants=[{}, {'m_min': 4.0, 'A': 2.0}]),
    'li16': M('line_co', 'li16', ['sfr'], {'scatter_lco': False}, 'sig_lco', True, [{}, {'d_mf': 1.5, 'nu_rest': 230.0}]),
    'pullen13': M('line_co', 'pullen13', ['mass', 'z', 'cosmo'], {'rand_f_duty': False}, duty='rand_f_duty'),
    'lidz11': M('line_co', 'lidz11', ['mass'], {'rand_f_duty': False}, duty='rand_f_duty', variants=[{}, {'f_duty': 0.5}]),
    'kamenetzky16': M('line_co', 'kamenetzky16', ['sfr'], {'scatter_lco': False}, 'sig_lco', variants=[{'lines': [1, 4, 13]}, {'lines': [3, 2], 'break_ulirgs': True}, {}], many=True),
    'hcn_gao': M('line_densegas', 'hcn_gao', ['sfr'], {'scatter_lhcn': False}, 'sig_lhcn', True),
    'hcn_breysse': M('line_densegas', 'hcn_breysse', ['mass'], {'rand_f_duty': False}, duty='rand_f_duty', variants=[{}, {'f_duty': 0.5}]),
    'delooze14': M('line_fir', 'delooze14', ['sfr'], {'scatter': False}, 'fix_scatter', variants=[{'line': l, 'set': s} for l in ('[CII]', '[OI]', '[OIII]') for s in SETS] + [{'line': '[CII]', 'set': 'high z'}]),
    'uzgil14': M('line_fir', 'uzgil14', ['sfr'], {'scatter': False}, 'sig_scatter', variants=FIR),
    'spinoglio12': M('line_fir', 'spinoglio12', ['sfr'], {'scatter': False}, 'sig_scatter', variants=FIR),
    'schaerer20': M('line_fir', 'schaerer20', ['sfr'], {'scatter': False}, 'sig_scatter', variants=[{'set': s} for s in (None, 'ALPINE-uvir', 'ALPINE-sed', 'ALPINE-uvirx', 'high z-uvirx')]),
    'zhao13': M('line_fir', 'zhao13', ['sfr'], {'scatter': False}, 'sig_scatter', variants=[{}, {'d_mf': 1.5}]),
    'padmanabhan19': M('line_fir', 'padmanabhan19', ['mass', 'z'], {'scatter': False}, 'sig_scatter', True),
    'yang22': M('line_fir_yang', 'yang22', ['mass', 'z'], {'scatter': False, 'fduty': False}, 'fix_scatter', variants=[{'line': l} for l in ['CII'] + CI + CO], duty='fduty'),
    'behroozi_sfr': M('sfr_behroozi13', 'sfr', ['z', 'mass'], {'scatter': False}, 'sigma_scatter', True),
    'behroozi_stellarmass': M('sfr_behroozi13', 'stellarmass', ['z', 'mass'], {'scatter': False}, 'sigma_scatter', True),
}
def covers(m): return [D + '%s.py:%s' % (m.file, m.fn)]

class Cosmo:
    """a cosmology: the age of the universe is some positive function of redshift"""
    def __init__(self, I): self.f = I.func('age', 1)
    class V:
        def __init__(self, v): self.value = v
    def age(self, z): return Cosmo.V(self.f(z) ** 2 + 0.125)

class Table:
    """an interpolation table: some function of its two coordinates"""
    def __init__(self, I, name): self.f = I.func(name, 2)
    def ev(self, x, y): return self.f(x, y) ** 2

def model(I, m):
    mod = I.mod('simim.galprops.' + m.file)
    if m.file == 'sfr_behroozi13':
        b = mod.behroozi13_base.__new__(mod.behroozi13_base)
        b.warn = False; b.path = 'somewhere'; b.grid_redshift = I.np.array([0.0, 1.0]); b.grid_mass = I.np.array([0.5, 10.0])
        b.sfr_function = Table(I, 'sfr_table'); b.stellarmass_function = Table(I, 'mass_table')
        I.patch(mod, 'base', b)
    return getattr(mod, m.fn)

def inputs(I, m, N, share=False):
    """the object inputs: masses of a few units, of dwarfs or of clusters; redshifts of all ages or low ones, or (share) one for all"""
    out = []
    ms = I.choose('mass_scale', [1.0, 2.0 ** 35, 2.0 ** 39, 'mixed'], quick=[0]) if 'mass' in m.args else 1.0
    if ms == 'mixed': ms = I.array('mass_scales', (N,), elems=[2.0 ** 31, 2.0 ** 36, 2.0 ** 43])
    I.scale = ms
    zs = I.choose('z_scale', [1.0, 0.125], quick=[0]) if 'z' in m.args else 1.0
    shared = share and 'z' in m.args and I.flag('one_redshift')
    for a in m.args:
        if a == 'cosmo': out.append(Cosmo(I))
        elif a == 'z' and shared: out.append(I.real('z_all', lo=0.0, hi=7.0) * zs)
        elif a == 'z': out.append(I.array('z', (N,), lo=0.0, hi=7.0) * zs)
        else: out.append(I.array(a, (N,), gt=0.0, span=8.0) * (ms if a == 'mass' else 1.0))
    return out
def z_of(m, args): return args[m.args.index('z')] if 'z' in m.args else None
def single(a): return isinstance(a, Cosmo) or not hasattr(a, 'shape') or not len(a.shape)
def pick(I, m, args, i): return [a if single(a) else I.at(a, i) for a in args]
def own_row(I, args, i): return [a if isinstance(a, Cosmo) else I.np.array([a if single(a) else I.at(a, i)]) for a in args]
def cols(I, m, r): return list(r) if m.many else [r]
def variant(I, m): return I.choose('variant', m.variants, quick=list(range(len(m.variants)))[:2] if len(m.variants) > 8 else None)

@contract('P02', covers=sorted(set(sum([covers(m) for m in MODELS.values()], []))) + [D + 'line_co_dutycycle.py:f_duty', D + 'line_fir_yang.py:_yang22_fduty'], params=[{'name': n} for n in MODELS], weight=2)
def rowwise(I, name):
    """scatter off: the value of any object in any catalogue is its value in a catalogue of its own and as a scalar"""
    m = MODELS[name]; f = model(I, m); v = variant(I, m); np = I.np
    N = I.int("N", 1, chi=I.choose("size", [5] * 9 + [150]) if not I.sym else 5); args = inputs(I, m, N, share=True); old = [a if single(a) else I.snap(a) for a in args]
    i = I.int("i", 0, N - 1, chi=149)
    kw = dict(m.off, **v)
    r = cols(I, m, f(*args, **kw))
    for a, b in zip(args, old):
        if not single(a): unchanged(I, 'inputs_unchanged', a, b)
    own = cols(I, m, f(*own_row(I, old, i), **kw))
    if I.flag('as_integers', quick=[0]):
        w = [a if isinstance(a, Cosmo) else np.array(a) // 1.0 + (0.0 if k == 'z' else 1.0) for k, a in zip(m.args, old)]
        for x, y in zip(cols(I, m, f(*w, **kw)), cols(I, m, f(*[a if isinstance(a, Cosmo) else a.astype('int') for a in w], **kw))):
            I.shape_is('shape_integers', y, [N]); I.forall('integer_inputs', [N], lambda i: I.eq(I.at(x, i), I.at(y, i)))
    alone = cols(I, m, f(*pick(I, m, old, i), **kw))
    I.prove('columns', len(r) == len(own) == len(alone))
    if m.many and v.get('lines'):
        for l, x in zip(v['lines'], own): I.prove('line_asked_for', I.eq(I.at(x, 0), I.at(cols(I, m, f(*own_row(I, old, i), **dict(kw, lines=[l])))[0], 0)))
    for x, y, s in zip(r, own, alone):
        I.shape_is('shape', x, [N]); I.shape_is('shape_one', y, [1])
        I.prove('own_inputs_only', I.eq(I.at(x, i), I.at(y, 0)))
        s = np.array(s).reshape(-1); I.shape_is('shape_scalar', s, [1])
        I.prove('scalar', I.eq(I.at(s, 0), I.at(y, 0)))

@contract('P02', covers=sorted(set(sum([covers(m) for m in MODELS.values()], []))), params=[{'name': n} for n in MODELS], weight=0.2)
def empty(I, name):
    """a catalogue without objects gives no values"""
    m = MODELS[name]; f = model(I, m)
    r = f(*inputs(I, m, 0), **dict(m.off, **variant(I, m)))
    for x in cols(I, m, r): I.shape_is('shape', x, [0])

SCATTER = [n for n, m in MODELS.items() if m.width]
DUTY = [n for n, m in MODELS.items() if m.duty]
def on(m, v, scatter=None, duty=False):
    kw = dict(m.off, **v)
    for k in m.off:
        if k == m.duty: kw[k] = duty
        elif scatter is not None: kw[k] = True
    if scatter is not None: kw[m.width] = scatter
    return kw

@contract(['P01', 'P02'], covers=sorted(set(sum([covers(MODELS[n]) for n in SCATTER], []))) + [D + 'log10normal.py:log10normal'], params=[{'name': n} for n in SCATTER], weight=2)
def scatter(I, name):
    """scatter on: times ten to the object's own normal draw of the stated width from the generator given, and nothing else random"""
    m = MODELS[name]; f = model(I, m); v = variant(I, m); np = I.np
    N = I.int('N', 1, chi=5); args = inputs(I, m, N, share=True); sig = I.real('width', lo=0.0, hi=2.0, step=0.125)
    base = cols(I, m, f(*args, **dict(m.off, **v)))
    rng = I.rng_obj('rng'); before = I.randomness()
    r = cols(I, m, f(*args, rng=rng, **on(m, v, sig)))
    I.prove('no_other_randomness', I.randomness() == before)
    I.disturb()
    again = cols(I, m, f(*args, rng=I.same_rng('rng'), **on(m, v, sig)))
    g = I.same_rng('rng').normal(size=(N, len(r)) if m.many else N)
    for k, (x, b, y) in enumerate(zip(r, base, again)):
        I.shape_is('shape', x, [N])
        def value(i):
            d = I.at(g, i, k) if m.many else I.at(g, i)
            mu = I.at(b, i) / I.pow(10, sig * sig * I.ln10 / 2) if m.mean else I.at(b, i)
            return I.And(I.eq(I.at(x, i), mu * I.pow(10, sig * d)), I.eq(I.at(x, i), I.at(y, i)))
        I.forall('value', [N], value)

@contract(['P01', 'P02'], covers=sorted(set(sum([covers(MODELS[n]) for n in DUTY], []))), params=[{'name': n} for n in DUTY])
def duty(I, name):
    """duty cycles switch objects fully on or off, by a draw of their own from the generator given"""
    m = MODELS[name]; f = model(I, m); v = variant(I, m)
    if name != 'yang22' and I.flag('all_on', quick=[0]) and 'f_duty' in v: v = dict(v, f_duty=1.0)
    N = I.int('N', 1, chi=5); args = inputs(I, m, N, share=True); one = name == 'pullen13' and single(args[1])
    mean = f(*args, **dict(m.off, **v))
    rng = I.rng_obj('rng'); before = I.randomness()
    r = f(*args, rng=rng, **on(m, v, duty=True))
    I.prove('no_other_randomness', I.randomness() == before)
    I.disturb()
    again = f(*args, rng=I.same_rng('rng'), **on(m, v, duty=True))
    u = I.same_rng('rng').random(N)
    I.shape_is('shape', r, [N])
    if name == 'pullen13': frac = I.mod('simim.galprops.line_co_dutycycle').f_duty(0.1, args[1], args[2])
    elif name == 'yang22': frac = I.mod('simim.galprops.line_fir_yang')._yang22_fduty(*args)
    else: frac = None
    def value(i):
        p = v.get('f_duty', 0.1) if frac is None else I.at(frac, 0 if one else i)
        full = I.at(mean, i) if name == 'yang22' else I.at(mean, i) / p
        x = I.at(r, i); d = I.at(u, i)
        return I.And(I.Or(I.eq(x, 0.0), lambda: I.eq(x, full)), I.implies(d < p, lambda: I.eq(x, full)), I.implies(d > p, lambda: I.eq(x, 0.0)), I.eq(x, I.at(again, i)))
    I.forall('value', [N], value)
    if frac is not None: I.forall('fraction', [1 if one else N], lambda i: I.And(I.at(frac, i) > 0, I.at(frac, i) <= 1))

@contract(['P01', 'P02'], covers=sorted(set(sum([covers(MODELS[n]) for n in MODELS], []))) + [D + 'line_co_dutycycle.py:f_duty', D + 'line_fir_yang.py:_yang22_fduty'], params=[{'name': n} for n in MODELS], weight=2)
def others(I, name):
    """everything random on, widths as the model has them: an object's value does not change when the other objects do"""
    m = MODELS[name]; f = model(I, m); v = variant(I, m)
    kw = dict(on(m, v, 0.25 if name == 'padmanabhan19' else None, duty=True), **v)
    if name != 'padmanabhan19': kw = {k: (True if k in m.off else x) for k, x in kw.items() if k != m.width}
    N = I.int('N', 1, chi=5); args = inputs(I, m, N, share=True)
    i = I.int('i', 0, N - 1, chi=4); here = I.np.arange(N) == i
    new = [a if single(a) else I.np.where(here, a, I.array('other_%d' % k, (N,), gt=0.0, span=7.0) * (1.0 if a is z_of(m, args) else I.scale)) for k, a in enumerate(args)]
    r = cols(I, m, f(*args, rng=I.rng_obj('rng'), **kw)); s = cols(I, m, f(*new, rng=I.same_rng('rng'), **kw))
    I.prove('columns', len(r) == len(s))
    for x, y in zip(r, s):
        I.shape_is('shape', x, [N]); I.shape_is('shape', y, [N])
        I.prove('own_inputs_and_draws', I.eq(I.at(x, i), I.at(y, i)))

# ---- models that carry tables and parameters of their own
def bethermin(I, **kw):
    mod = I.mod('simim.galprops.sfr_bethermin17'); b = mod.bethermin17_base.__new__(mod.bethermin17_base)
    p = dict(sffrac_fq00=0.1017, sffrac_gamma=-1.039, sffrac_logmt0=10.53, sffrac_alpha1=0.2232, sffrac_alpha2=0.0913, sffrac_sigsf0=0.8488, sffrac_beta1=0.0418, sffrac_beta2=-0.0159,
             sfms_m0=0.5, sfms_m1=0.36, sfms_a0=1.5, sfms_a1=0.3, sfms_a2=2.5, sfms_correztlowz=True, sfms_sigma=0.3, sfms_msoffset=0.87, sfms_sboffset=5.3, sf_sflimit=1000.0)
    for k, v in dict(p, **kw).items(): setattr(b, k, v)
    t = Table(I, 'interpolator'); b.interpolator = lambda q: t.ev(*q); b.init_stellarmass_function = True
    return b
def gruppioni(I):
    mod = I.mod('simim.galprops.sfr_ir'); b = mod.g13irlf_base.__new__(mod.g13irlf_base)
    for k, v in dict(lf_alpha0=1.2, lf_sigma0=0.5, lf_lstar0=10 ** 9.95, lf_phistar0=10 ** -2.25, lir_to_sfr=1e-10).items(): setattr(b, k, v)
    t = Table(I, 'interpolator'); b.interpolator = lambda q: t.ev(*q); b.init_lir_function = True
    return b
B17 = 'galprops/sfr_bethermin17.py:bethermin17_base.'; G13 = 'galprops/sfr_ir.py:g13irlf_base.'
TABLED = {'b17_sffrac': bethermin, 'b17_sfms': bethermin, 'b17_sbfrac': bethermin, 'stellarmass': bethermin, 'lir': gruppioni, 'sfr': gruppioni, 'get_irlf_pars': gruppioni}

@contract('P02', covers=[(B17 if b is bethermin else G13) + n for n, b in TABLED.items()], params=[{'name': n} for n in TABLED])
def tabled(I, name):
    """the same for the methods of the models built on tables"""
    np = I.np; obj = TABLED[name](I); f = getattr(obj, name)
    if name == 'b17_sfms': obj.sfms_correztlowz = I.flag('lowz')
    N = I.int('N', 1, chi=5); i = I.int('i', 0, N - 1, chi=4)
    args = ([] if name == 'get_irlf_pars' else [I.array('m', (N,), gt=0.0, span=8.0) * (1e9 if name.startswith('b17') else 1)]) + [I.array('z', (N,), lo=0.0, hi=7.0) * I.choose('z_scale', [1.0, 0.125], quick=[0])]
    old = [I.snap(a) for a in args]
    tup = lambda r: list(r) if isinstance(r, tuple) else [r]
    r = tup(f(*args))
    for a, b in zip(args, old): unchanged(I, 'inputs_unchanged', a, b)
    if I.flag('as_integers', quick=[0]):
        w = [a // 1.0 + (0.0 if a is old[-1] else 1.0) for a in old]
        for x, y in zip(tup(f(*w)), tup(f(*[a.astype('int') for a in w]))):
            I.shape_is('shape_integers', y, [N]); I.forall('integer_inputs', [N], lambda i: I.eq(I.at(x, i), I.at(y, i)))
    own = tup(f(*[np.array([I.at(a, i)]) for a in old])); alone = tup(f(*[I.at(a, i) for a in old]))
    for x, y, s in zip(r, own, alone):
        I.shape_is('shape', x, [N])
        I.prove('own_inputs_only', I.eq(I.at(x, i), I.at(y, 0)))
        s = np.array(s).reshape(-1); I.shape_is('shape_scalar', s, [1])
        I.prove('scalar', I.eq(I.at(s, 0), I.at(y, 0)))

@contract(['P01', 'P02'], covers=[B17 + 'b17_sfr', B17 + 'b17_sbfrac', B17 + 'b17_sffrac', B17 + 'b17_sfms'], weight=2)
def star_formation(I):
    """star formation rates: main sequence with scatter, starbursts and quenched objects by draws of their own, all from the generator given"""
    np = I.np
    off, sb, lim, sig = I.real('msoffset', gt=0.0, hi=2.0), I.real('sboffset', gt=0.0), I.real('limit', gt=0.0, hi=20.0), I.real('sigma', lo=0.0, hi=1.0)
    b = bethermin(I, sfms_msoffset=off, sfms_sboffset=sb, sf_sflimit=lim, sfms_sigma=sig)
    N = I.int('N', 1, chi=5); m = I.array('m', (N,), gt=0.0, span=40.0) * 1e9
    z = I.array('z', (N,), lo=0.0, hi=4.0); z1 = z
    m0, z0 = I.snap(m), I.snap(z)
    ms, sbf, sff = b.b17_sfms(m, z), b.b17_sbfrac(m, z), b.b17_sffrac(m, z)
    rng = I.rng_obj('rng'); before = I.randomness()
    fr = I.flag('fracs')
    r = b.b17_sfr(m, z, rng=rng, return_fracs=True) if fr else b.b17_sfr(m, z, rng=rng)
    I.prove('no_other_randomness', I.randomness() == before)
    I.disturb()
    again = b.b17_sfr(m, z, rng=I.same_rng('rng'))
    r, issb, isq = r if fr else (r, None, None)
    unchanged(I, 'inputs_unchanged', m, m0); unchanged(I, 'inputs_unchanged', z, z0)
    q = I.same_rng('rng'); g = q.normal(size=N); u = q.uniform(0, 1, N); w = q.uniform(0, 1, N)
    I.shape_is('shape', r, [N])
    def value(i):
        x = off * I.at(ms, i) * I.pow(10, sig * I.at(g, i))
        burst = I.at(u, i) < I.at(sbf, i); quiet = I.at(w, i) > I.at(sff, i)
        v = I.ite(quiet, 0.0, I.ite(burst, x * (sb / off), x)); v = I.ite(v > lim, lim, v)
        c = [I.eq(I.at(r, i), v), I.eq(I.at(r, i), I.at(again, i))]
        if fr: c += [I.iff(I.at(isq, i), quiet), I.iff(I.at(issb, i), I.And(burst, I.Not(quiet)))]
        return I.And(*c)
    I.forall('value', [N], value)

@contract('P01', covers=[D + 'log10normal.py:log10normal'])
def log_normal(I):
    """the scatter itself: one independent draw of the stated width per object, from the generator given; inputs stay"""
    N = I.int('N', 0, chi=5); x = I.array('x', (N,), lo=0.0, span=8.0); x0 = I.snap(x); sig = I.real('width', lo=0.0, hi=2.0, step=0.125)
    f = I.mod('simim.galprops.log10normal').log10normal
    mean = I.flag('mean'); before = I.randomness()
    scalar = I.flag('scalar')
    if scalar: I.assume(N >= 1)
    r = f(I.at(x, 0) if scalar else x, sig, **({'preserve_linear_mean': True} if mean else {}), rng=I.rng_obj('rng'))
    I.prove('no_other_randomness', I.randomness() == before)
    unchanged(I, 'inputs_unchanged', x, x0)
    n = 1 if scalar else N
    g = I.same_rng('rng').normal(size=n); r = I.np.array(r).reshape(-1)
    I.shape_is('shape', r, [n])
    I.forall('value', [n], lambda i: I.eq(I.at(r, i), (I.at(x0, i) / I.pow(10, sig * sig * I.ln10 / 2) if mean else I.at(x0, i)) * I.pow(10, sig * I.at(g, i))))

@contract('P01', covers=sorted(set(sum([covers(m) for m in MODELS.values()], []))), params=[{'name': n} for n in MODELS], weight=0.5)
def deterministic(I, name):
    """scatter off: nothing random is read or changed"""
    m = MODELS[name]; f = model(I, m); v = variant(I, m)
    N = I.int('N', 0, chi=4); args = inputs(I, m, N)
    before = I.randomness()
    r = cols(I, m, f(*args, **dict(m.off, **v))); rng = I.rng_obj('rng')
    I.prove('nothing_drawn', I.randomness() == before)
    I.disturb(); before = I.randomness()
    again = cols(I, m, f(*args, rng=rng, **dict(m.off, **v)))
    I.prove('nothing_drawn', I.randomness() == before)
    I.arr_eq('generator_untouched', rng.normal(size=2), I.same_rng('rng').normal(size=2))
    for x, y in zip(r, again):
        I.shape_is('shape', x, [N]); I.shape_is('shape', y, [N])
        I.forall('value', [N], lambda i: I.eq(I.at(x, i), I.at(y, i)))
