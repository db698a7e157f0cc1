"""Instruments: staleness of maps (I01), sampling (I02), mapping (I03)"""
from vc.api import contract
from contracts.grid import mk_grid, mk_pos, in_grid, unchanged, wf

F = 'instrument/instrument.py:'

def spatial(I, name):
    """an arbitrary beam: any function of the two offsets, the spectral coordinate and a parameter, on the grid of the axes"""
    f = I.func(name, 4)
    def beam(x, y, z, w=0):
        x, y, z = [I.np.array(v, ndmin=1) for v in (x, y, z)]
        return f(x.reshape(-1, 1, 1), y.reshape(1, -1, 1), z.reshape(1, 1, -1), w)
    beam.point = lambda x, y, z, w=0: f(x, y, z, w)
    return beam

def spectral(I, name):
    """an arbitrary positive spectral response"""
    f = I.func(name, 2)
    def resp(z, w=0): return f(z, w) ** 2 + 1
    return resp

def instrument(I, **kw): return I.mod('simim.instrument.instrument').Instrument(**kw)

def zero(n, dt): raise AssertionError('noise function called')

# ------------------------------------------------------------------------------------------------ I02
@contract('I02', covers=[F + 'Instrument.sample_fields', F + 'Instrument._find_pointing_clones', F + 'Instrument.add_detector', F + 'Instrument.set_noise_functions'], params=[{'k': k, 'parts': p} for k in (1, 2, 3) for p in ('noise', 'signal', 'both')], weight=2)
def samples(I, k, parts):
    """every detector's samples: its own map at the pointing plus its own offset, plus its own noise"""
    np = I.np
    g, n, px, c, old = mk_grid(I, 2, k, nobj=False)
    two = I.flag('two_fields', quick=[0] if k == 3 else [1] if k == 2 else None)
    fields = [(g, n, px, c, old)] + ([mk_grid(I, 2, k, tag='b', nobj=False)] if two else [])
    N = I.int('N', 1, chi=5)
    pos = mk_pos(I, 'pos', N, c, False); p0 = I.snap(pos)
    noise = parts != 'signal'; signal = parts != 'noise'
    dt = I.real('dt', gt=0)
    calls = []
    inst = instrument(I)
    offs = []; tables = {}
    for d in range(k):
        if d and I.flag('same%d' % d, quick=None if k < 3 or d == 1 else [0]): o = offs[I.choose('as%d' % d, list(range(d)), quick=[0])]
        else: o = (I.real('ox%d' % d, step=0.25, span=2), I.real('oy%d' % d, step=0.25, span=2))
        offs.append(o)
        w = I.real('w%d' % d)
        def fn(m, t, w=None, d=d):
            calls.append((d, m, t, w))
            return tables[len(calls) - 1]
        for f in range(len(fields)): tables[f * k + d] = I.array('noise%d_%d' % (f, d), (N,)) if noise else None
        # equal beams and spectral responses: only name, offset and noise tell the detectors apart
        inst.add_detector(name='d%d' % ((d * 2) % 3), pointing_offsets=o, spatial_response='gauss', spectral_response='gauss', noise_function=fn, noise_kwargs={'w': w}, nominal_frequency=1.0)
        tables['w%d' % d] = w
    names = ['f', 'e'][:len(fields)]
    for nm, q in zip(names, fields): inst.fields[nm] = q[0]; inst.field_props[nm] = 0; inst.field_names.append(nm); inst.maps[nm] = q[0]; inst.maps_consistent[nm] = True
    ask = I.choose('ask', [[], ['f']] + ([['e', 'f'], ['e']] if two else []), quick=[0, 2] if two else [0])
    which = ask or names
    kw = {} if I.flag('no_dt', quick=[0]) and not noise else {'dt': dt}
    r = inst.sample_fields(pos, *ask, sample_signal=signal, sample_noise=noise, **kw)
    res = {which[0]: r} if len(which) == 1 else r
    I.prove('fields', not (len(which) > 1 and not isinstance(r, dict)) and sorted(res) == sorted(which))
    if noise:
        I.prove('noise_calls', len(calls) == k * len(which))
        # the q-th call belongs to field which[q // k]; each detector's function is called once per field with its own arguments
        for q, (d, m, t, w) in enumerate(calls): I.prove('noise_arguments', I.And(I.eq(m, N), I.eq(t, dt), I.eq(w, tables['w%d' % d])))
    else: I.prove('no_noise', len(calls) == 0)
    for fi, nm in enumerate(which):
        (g2, n2, px2, c2, old2) = fields[names.index(nm)]
        out = res[nm]
        I.shape_is('shape', out, [N, k])
        mine = {d: q for q, (d, m, t, w) in enumerate(calls) if q // k == fi}
        I.prove('noise_once', not noise or sorted(mine) == list(range(k)))
        for d in range(k):
            def value(i, d=d):
                x = I.at(out, i, d); t = I.at(tables[mine[d]], i) if noise else 0
                if not signal: return I.eq(x, t)
                q = [I.at(p0, i, a) + offs[d][a] for a in range(2)]
                idx = [I.floor((q[a] - c2[a] + n2[a] * px2[a] / 2) / px2[a]) for a in range(2)]
                inside = I.And(*[I.And(v >= 0, v < m) for v, m in zip(idx, n2)])
                return I.And(I.implies(inside, lambda: I.And(I.Not(I.isnan(x)), lambda: I.eq(x, I.at(old2, *idx, d) + t, scale=None if I.sym else 10.0))), I.Or(inside, lambda: I.isnan(x)))
            I.forall('value', [N], value)
        unchanged(I, 'map_unchanged', g2.grid, old2)
    unchanged(I, 'positions_unchanged', pos, p0)

@contract('I02', covers=[F + 'Instrument.sample_fields'], weight=0.3)
def sample_refused(I):
    """requests that make no sense are refused"""
    g, n, px, c, old = mk_grid(I, 2, 1, nobj=False)
    inst = instrument(I); inst.add_detector(spatial_response='gauss', spectral_response='gauss', noise_function='none', nominal_frequency=1.0)
    inst.fields['f'] = g; inst.field_props['f'] = 0; inst.field_names.append('f'); inst.maps['f'] = g; inst.maps_consistent['f'] = True
    pos = I.array('pos', (2, 2))
    for nm in ('e', 'c'): inst.fields[nm] = g; inst.field_props[nm] = 0; inst.field_names.append(nm); inst.maps[nm] = g; inst.maps_consistent[nm] = nm == 'c'
    what = I.choose('what', ['dt', 'nothing', 'shape1', 'shape3', 'field', 'twice', 'stale', 'one_stale', 'any_stale'])
    call = {'dt': lambda: inst.sample_fields(pos, 'f'), 'nothing': lambda: inst.sample_fields(pos, 'f', sample_signal=False, sample_noise=False, dt=1.0),
            'shape1': lambda: inst.sample_fields(pos[:, 0], 'f', dt=1.0), 'shape3': lambda: inst.sample_fields(I.array('p3', (2, 3)), 'c', dt=1.0),
            'stale': lambda: inst.sample_fields(pos, 'e', dt=1.0), 'one_stale': lambda: inst.sample_fields(pos, 'c', 'e', 'f', dt=1.0), 'any_stale': lambda: inst.sample_fields(pos, dt=1.0),
            'field': lambda: inst.sample_fields(pos, 'x', dt=1.0), 'twice': lambda: inst.sample_fields(pos, 'f', 'f', dt=1.0)}[what]
    I.prove('refused', I.raises(call, ValueError))

# ------------------------------------------------------------------------------------------------ I03
def field_grid(I, P, tag='', nchi=3):
    g, n, px, c, old = mk_grid(I, 3, P, tag=tag, nobj=False, nchi=nchi)
    return g, n, px, c, old

@contract('I03', covers=[F + 'Instrument.map_fields', F + 'Instrument._setup_beam', F + 'Instrument._find_spatial_clones', F + 'Instrument.add_field', F + 'Instrument.add_detector', F + 'Instrument.set_spatial_respones', F + 'Instrument.set_spectral_respones',
                         'map/gridder.py:Grid.convolve', 'map/gridder.py:Grid.collapse_dimension'], params=[{'k': k, 'norm': m} for k in (1, 2) for m in ('none', 'peak', 'area')], weight=2)
def maps(I, k, norm):
    """one map per detector, in order: selected property, convolved with its beam, averaged with its spectral response"""
    P = I.choose('P', [1, 2], quick=[1] if k == 1 else [0]); prop = I.choose('prop', list(range(P)), quick=[P - 1] if norm == 'area' else None)
    g, n, px, c, old = field_grid(I, P)
    inst = instrument(I)
    inst.add_field(g, 'f', field_property_idx=prop, in_place=I.flag('in_place', quick=[0] if k > 1 or norm != 'none' else None))
    if I.flag('clones') and k > 1: bs = [spatial(I, 'beam0')] * k; ws = [I.real('bw0')] * k
    elif I.flag('one_function', quick=[1]) and k > 1: bs = [spatial(I, 'beam0')] * k; ws = [I.real('bw%d' % d) for d in range(k)]
    else: bs = [spatial(I, 'beam%d' % d) for d in range(k)]; ws = [I.real('bw%d' % d) for d in range(k)]
    ss = [spectral(I, 'spec%d' % d) for d in range(k)]; vs = [I.real('sw%d' % d) for d in range(k)]
    K = I.choose('kernel', [1, 3, (3, 1), (1, 3)], quick=[0] if k > 1 else [2] if norm == 'area' else [1])
    K2 = K if isinstance(K, tuple) else (K, K)
    def point(d, u, v, z):
        """beam of detector d at kernel pixel (u, v) and spectral cell z, before normalisation"""
        dx, dy = [(t - (m - 1) / 2) * p for t, p, m in ((u, px[0], K2[0]), (v, px[1], K2[1]))]
        w = c[2] - n[2] * px[2] / 2 + z * px[2] + px[2] / 2
        return bs[d].point(dx, dy, w, ws[d])
    for d in range(k):
        inst.add_detector(name='d%d' % ((d * 2) % 3), spatial_response=bs[d], spatial_kwargs={'w': ws[d]}, spectral_response=ss[d], spectral_kwargs={'w': vs[d]}, noise_function=zero, nominal_frequency=1.0)
    cells = [(u, v) for u in range(K2[0]) for v in range(K2[1])]
    def scale(d, z):
        if norm == 'none': return 1.0
        b = [point(d, u, v, z) for u, v in cells]
        if norm == 'area':
            t = 0
            for x in b: t = t + x
            return t
        m = b[0]
        for x in b[1:]: m = I.ite(x > m, x, m)
        return m
    # the normalisation is meaningful: no zero peak or area
    for d in range(k): I.assume(I.all_of([n[2]], lambda z: I.Not(I.eq(scale(d, z), 0.0)) if I.sym else abs(scale(d, z)) > 0.05))
    pad = I.choose('pad', [None, 1, [2, 0]], quick=[0])
    inst.map_fields(*([] if I.flag('all', quick=[0]) else ['f']), spatial_response_norm=norm, kernel_size=K, pad=pad)
    m = inst.maps['f']
    wf(I, m, n[:2], px[:2], c[:2], k)
    I.shape_is('shape', m.grid, [n[0], n[1], k])
    I.prove('usable', bool(inst.maps_consistent['f']))
    for d in range(k):
        def size(d): return max(sum(abs(float(point(d, u, v, z) / scale(d, z))) for u, v in cells) for z in range(n[2]))
        def spec(z): return ss[d](c[2] - n[2] * px[2] / 2 + z * px[2] + px[2] / 2, vs[d])
        def conv(x, y, z):
            t = 0
            for u, v in cells:
                a, b = x + (K2[0] - 1) // 2 - u, y + (K2[1] - 1) // 2 - v
                inside = I.And(a >= 0, a < n[0], b >= 0, b < n[1])
                t = t + I.ite(inside, (lambda a=a, b=b, u=u, v=v: I.at(old, a, b, z, prop) * (point(d, u, v, z) / scale(d, z))), 0.0)
            return t
        def value(x, y):
            num = I.sum([n[2]], lambda z: conv(x, y, z) * spec(z)); den = I.sum([n[2]], spec)
            if I.sym: return I.implies(I.Not(I.eq(den, 0.0)), lambda: I.eq(I.at(m.grid, x, y, d), num / den))  # den >= n[2] > 0: every response is at least 1
            return I.eq(I.at(m.grid, x, y, d) * den, num, scale=float(den) * (1e3 + float(abs(old).max()) * size(d)))      # rounding of the transforms grows with the beam, also where terms cancel
        I.forall('value', [n[0], n[1]], value)
    unchanged(I, 'field_unchanged', g.grid, old)
    wf(I, g, n, px, c, P, name='field')

@contract('I03', covers=[F + 'Instrument.map_fields', F + 'Instrument._setup_beam', F + 'Instrument._find_spatial_clones', F + 'Instrument.add_field'], params=[{'k': 1}, {'k': 2}])
def two_fields(I, k):
    """the maps of several fields of different geometry: each uses its own axes, property and units"""
    Ps = [1, 2]; G = [field_grid(I, P, tag=t, nchi=2) for P, t in zip(Ps, 'ab')]
    inst = instrument(I); flip = I.flag('second_first', quick=[k - 1])
    props = [0, I.choose('prop', [0, 1], quick=[1])]
    for j in ((1, 0) if flip else (0, 1)): inst.add_field(G[j][0], 'f%d' % j, field_property_idx=props[j], in_place=I.flag('in_place%d' % j, quick=[j]))
    same = k > 1 and I.flag('same_beam', quick=[1])
    bs = [spatial(I, 'beam0')] * k if same else [spatial(I, 'beam%d' % d) for d in range(k)]; w = I.real('bw')
    ss = [spectral(I, 'spec%d' % d) for d in range(k)]; vs = [I.real('sw%d' % d) for d in range(k)]
    for d in range(k): inst.add_detector(spatial_response=bs[d], spatial_kwargs={'w': w}, spectral_response=ss[d], spectral_kwargs={'w': vs[d]}, noise_function=zero, nominal_frequency=1.0)
    inst.map_fields(*([] if I.flag('all', quick=[0]) else ['f0', 'f1']), spatial_response_norm='none', kernel_size=1)
    for j, (g, n, px, c, old) in enumerate(G):
        m = inst.maps['f%d' % j]
        wf(I, m, n[:2], px[:2], c[:2], k, name='map%d' % j)
        I.shape_is('shape', m.grid, [n[0], n[1], k]); I.prove('usable', bool(inst.maps_consistent['f%d' % j]))
        for d in range(k):
            def at(z): return c[2] - n[2] * px[2] / 2 + z * px[2] + px[2] / 2
            def value(x, y):
                num = I.sum([n[2]], lambda z: I.at(old, x, y, z, props[j]) * bs[d].point(0.0, 0.0, at(z), w) * ss[d](at(z), vs[d])); den = I.sum([n[2]], lambda z: ss[d](at(z), vs[d]))
                if I.sym: return I.implies(I.Not(I.eq(den, 0.0)), lambda: I.eq(I.at(m.grid, x, y, d), num / den))
                return I.eq(I.at(m.grid, x, y, d) * den, num, scale=float(den) * (1 + abs(float(num / den))) + 1e3 * float(den))
            I.forall('value', [n[0], n[1]], value)
        unchanged(I, 'field_unchanged', g.grid, old)

@contract('I03', covers=[F + 'Instrument._setup_beam', F + 'Instrument.map_fields'], sym=False, note='kernels of 11 to 61 cells')
def default_kernel(I):
    """without a kernel size the beam covers ten times the best resolution along each axis, in that axis's own pixels"""
    np = I.np; g, n, px, c, old = field_grid(I, 1, nchi=4)
    best = float(I.choose('best', [1, 2, 3])) * max(px[0], px[1])
    inst = instrument(I, best_spatial_res=best); inst.add_field(g, 'f')
    f = lambda u, v, z: 1 + u * 0.25 + v * 0.5
    b = lambda x, y, z: f(x.reshape(-1, 1, 1), y.reshape(1, -1, 1), z.reshape(1, 1, -1)) + z.reshape(1, 1, -1) * 0
    inst.add_detector(spatial_response=b, spectral_response=lambda z: z * 0 + 1.0, noise_function=zero, nominal_frequency=1.0)
    inst.map_fields(spatial_response_norm='none')
    m = inst.maps['f']; K = [int(round(best / p)) * 10 + 1 for p in px[:2]]
    I.shape_is('shape', m.grid, [n[0], n[1], 1])
    for x in range(n[0]):
        for y in range(n[1]):
            t = 0.0
            for a in range(n[0]):
                for e in range(n[1]):
                    if abs(x - a) <= K[0] // 2 and abs(y - e) <= K[1] // 2: t += float(np.mean(old[a, e, :, 0])) * f((x - a) * px[0], (y - e) * px[1], 0)
            I.prove('value', I.eq(m.grid[x, y, 0], t, scale=1e3))

@contract('I03', covers=[F + 'Instrument.map_fields', 'map/gridder.py:Grid.convolve', 'map/gridder.py:Grid.collapse_dimension'], params=[{'k': 1}, {'k': 2}])
def given_beam(I, k):
    """a beam handed to map_fields is used for every detector as it is"""
    g, n, px, c, old = field_grid(I, 1)
    inst = instrument(I); inst.add_field(g, 'f')
    ss = [spectral(I, 'spec%d' % d) for d in range(k)]; vs = [I.real('sw%d' % d) for d in range(k)]
    for d in range(k): inst.add_detector(spatial_response='gauss', spectral_response=ss[d], spectral_kwargs={'w': vs[d]}, noise_function=zero, nominal_frequency=1.0)
    K = I.choose('kernel', [(3, 1), (1, 3), (1, 1)], quick=[0, 1] if k == 1 else [2])
    beam = I.mod('simim.map').Grid(1, [0.0, 0.0, c[2]], [K[0] * px[0], K[1] * px[1], n[2] * px[2]], list(px))
    beam.init_grid(); bv = I.array('beam', (K[0], K[1], n[2], 1)); beam.grid = bv; b0 = I.snap(bv)
    inst.map_fields(beam=beam)
    m = inst.maps['f']
    I.shape_is('shape', m.grid, [n[0], n[1], k])
    for d in range(k):
        def spec(z): return ss[d](c[2] - n[2] * px[2] / 2 + z * px[2] + px[2] / 2, vs[d])
        def conv(x, y, z):
            t = 0
            for u in range(K[0]):
                for v in range(K[1]):
                    a, b = x + (K[0] - 1) // 2 - u, y + (K[1] - 1) // 2 - v
                    t = t + I.ite(I.And(a >= 0, a < n[0], b >= 0, b < n[1]), (lambda a=a, b=b, u=u, v=v: I.at(old, a, b, z, 0) * I.at(b0, u, v, z, 0)), 0.0)
            return t
        def value(x, y):
            num = I.sum([n[2]], lambda z: conv(x, y, z) * spec(z)); den = I.sum([n[2]], spec)
            if I.sym: return I.implies(I.Not(I.eq(den, 0.0)), lambda: I.eq(I.at(m.grid, x, y, d), num / den))
            return I.eq(I.at(m.grid, x, y, d) * den, num, scale=float(den) * (1 + abs(float(num / den))) + 1e3 * float(den))
        I.forall('value', [n[0], n[1]], value)
    unchanged(I, 'field_unchanged', g.grid, old); unchanged(I, 'beam_unchanged', beam.grid, b0)

# ------------------------------------------------------------------------------------------------ I01
class Ghost:
    """an instrument beside the configuration it should have.

    Detector d answers b_d * (F0 + s_d F1) / (1 + s_d) for a field with the two spectral cells F0, F1, so a
    map is current exactly when these values come back."""
    def __init__(self, I):
        np = self.np = I.np; self.I = I
        self.one = lambda x, y, z, b=1.0: np.zeros((len(x), len(y), len(z))) + b
        self.two = lambda x, y, z, b=1.0: np.zeros((len(x), len(y), len(z))) + b * 2
        self.spec = lambda z, s=1.0: np.array([1.0, s])
        self.spec2 = lambda z, s=1.0: np.array([s, 1.0])
        self.noise = lambda n, dt, v=0.0: np.zeros(n) + v
        self.det = {}; self.fld = {}; self.counter = 0; self.dflt = (1, 1.5, 0.5, 1)      # spatial factor and parameter, spectral parameter and direction
        self.inst = instrument(I, default_spatial_response=self.one, default_spatial_kwargs={'b': 1.5}, default_spectral_response=self.spec, default_spectral_kwargs={'s': 0.5}, default_noise_function='none', default_noise_kwargs={})
    def add_det(self, name, tag, **kw):
        I = self.I; b = I.real('b' + tag, step=0.25); s = I.real('s' + tag, lo=0, step=0.25)
        skw = {'b': b}; ckw = {'s': s}; nkw = {'v': 1.0}
        self.inst.add_detector(name=name, spatial_response=self.one, spatial_kwargs=skw, spectral_response=self.spec, spectral_kwargs=ckw, noise_function=self.noise, noise_kwargs=nkw, nominal_frequency=1.0, **kw)
        skw['b'] = b + 100; ckw['s'] = s + 100; nkw['v'] = 7.0      # the caller's dictionaries are the caller's
        self.det[name] = (b, s, 1)
    def grid(self, tag):
        I = self.I
        g = I.mod('simim.map').Grid(1, [0.0, 0.0, 0.0], [1.0, 1.0, 2.0], [1.0, 1.0, 1.0]); g.init_grid()
        F = (I.real('F0' + tag), I.real('F1' + tag))
        g.grid[0, 0, 0, 0] = F[0]; g.grid[0, 0, 1, 0] = F[1]
        return g, F
    def add_fld(self, name, tag):
        g, F = self.grid(tag); self.inst.add_field(g, name); self.fld[name] = F
    def expected(self, d, f):
        (b, s, m), F = self.det[d], self.fld[f]
        return (b, (F[0] + s * F[1]) / (1 + s)) if m != -1 else (b, (s * F[0] + F[1]) / (1 + s))
    def sampled(self, f):
        """None: refused"""
        try: return self.inst.sample_fields(self.np.array([[0.0, 0.0]]), f, sample_noise=False)
        except ValueError: return None
    def check(self, tag, allowed):
        """allowed: name -> True (must answer), False (must refuse), None (may refuse); answers are current"""
        I = self.I; inst = self.inst
        I.prove(tag + '.fields', list(inst.field_names) == list(self.fld) and sorted(inst.fields) == sorted(self.fld))
        I.prove(tag + '.detectors', list(inst.detector_names) == list(self.det) and sorted(inst.detectors) == sorted(self.det))
        for f in self.fld:
            if not self.det: continue
            r = self.sampled(f); want = allowed.get(f)
            I.prove(tag + '.refused', want is not False or r is None, lambda: '%s: sampled although its maps are missing or stale' % f)
            I.prove(tag + '.allowed', want is not True or r is not None, lambda: '%s: refused although its maps are current' % f)
            if r is not None:
                I.shape_is(tag + '.shape', r, [1, len(self.det)])
                for i, d in enumerate(self.det):
                    b, a = self.expected(d, f)
                    I.prove(tag + '.current', I.eq(I.at(r, 0, i), b * a, scale=None if I.sym else 100.0), lambda: '%s: detector %s answers from an old map' % (f, d))

OPS = ['add_detector', 'add_default', 'add_refused', 'del_detectors', 'del_refused', 'spatial', 'spectral', 'noise', 'default_only', 'set_refused',
       'add_field', 'add_field_refused', 'del_fields', 'del_fields_refused', 'del_all_fields', 'replace_field', 'replace_detector', 'map_all', 'map_one', 'map_refused', 'nothing']
def apply_op(I, G, op, tag, ok):
    """perform one operation on instrument and ghost; ok: field -> are the maps known to be current?  Returns the same after it"""
    inst = G.inst; new = dict(ok); D = list(G.det); Fs = list(G.fld)
    stale = lambda: {f: False for f in G.fld}
    pick = lambda what, names: [names[i] for i in I.choose(what + tag, [c for c in ([0], [1], [0, 1]) if max(c) < len(names)])]
    if op == 'add_detector': G.add_det('n' + tag, tag); new = stale()
    elif op == 'add_default':
        if I.flag('kw' + tag): inst.add_detector(name='n' + tag, spatial_kwargs={'b': 2.0}, nominal_frequency=1.0); G.det['n' + tag] = (G.dflt[0] * 2.0, *G.dflt[2:])
        else: inst.add_detector(name='n' + tag, nominal_frequency=1.0); G.det['n' + tag] = (G.dflt[0] * G.dflt[1], *G.dflt[2:])
        new = stale()
    elif op == 'add_refused':
        how = I.choose('how' + tag, [dict(name='z', spectral_kwargs=3), dict(name='z', noise_kwargs=3), dict(name='z', spatial_response=3), dict(name='z', pointing_offsets=(1, 2, 3))] + [dict(name=d) for d in D[:1]])
        I.prove('add_detector.refused', I.raises(lambda: inst.add_detector(nominal_frequency=1.0, **how), ValueError))
    elif op == 'del_detectors':
        if not D: return None
        w = pick('dels', D); inst.del_detectors(*w)
        for d in w: G.det.pop(d)
        new = stale()
    elif op == 'del_refused':
        I.prove('del_detectors.refused', I.raises(lambda: inst.del_detectors(*D, 'unknown'), ValueError))
        if D: I.prove('del_detectors.refused', I.raises(lambda: inst.del_detectors(D[0], D[0]), ValueError))
    elif op in ('spatial', 'spectral', 'noise'):
        if not D: return None
        named = I.flag('named' + tag); w = pick('sets', D) if named else D; extra = ['instrument'] if named and I.flag('inst' + tag) else []
        v = I.real('v' + tag, lo=0, step=0.25)
        if op == 'spatial':
            kw = {'b': v}; inst.set_spatial_respones(*((w + extra) if named else []), spatial_response=G.two, spatial_kwargs=kw); kw['b'] = v + 9
            for d in w: G.det[d] = (2 * v,) + G.det[d][1:]
            if extra: G.dflt = (2, v) + G.dflt[2:]
            new = stale()
        elif op == 'spectral':
            kw = {'s': v}; inst.set_spectral_respones(*((w + extra) if named else []), spectral_response=G.spec2, spectral_kwargs=kw); kw['s'] = v + 9
            for d in w: G.det[d] = (G.det[d][0], v, -1)
            if extra: G.dflt = G.dflt[:2] + (v, -1)
            new = stale()
        else:
            inst.set_noise_functions(*((w + extra) if named else []), noise_function='none', noise_kwargs={})
            new = {f: None if a else a for f, a in ok.items()}       # noise is no part of the maps: either answer will do
    elif op == 'default_only':
        kw = {'b': 5.0}; inst.set_spatial_respones('instrument', spatial_response=G.two, spatial_kwargs=kw); inst.set_spectral_respones('instrument', spectral_response=G.spec2, spectral_kwargs={'s': 3.0})
        inst.set_noise_functions('instrument', noise_function=G.noise, noise_kwargs={'v': 3.0}); kw['b'] = 6.0; G.dflt = (2, 5.0, 3.0, -1)
    elif op == 'set_refused':
        which = I.choose('how' + tag, [lambda: inst.set_spatial_respones(*D, 'unknown', spatial_response=G.two), lambda: inst.set_spectral_respones(*D, 'unknown', spectral_response=G.spec2), lambda: inst.set_spectral_respones('unknown', spectral_response=G.spec2, spectral_kwargs={})]
            + [lambda: inst.set_spatial_respones(*D, spatial_response=None), lambda: inst.set_spectral_respones(spectral_response=3), lambda: inst.set_spatial_respones(D[0], spatial_response=G.two, spatial_kwargs=3)] * bool(D))
        I.prove('set.refused', I.raises(which, ValueError))
    elif op == 'add_field': G.add_fld('m' + tag, tag); new['m' + tag] = False
    elif op == 'add_field_refused':
        if not Fs: return None
        g, _ = G.grid(tag); how = I.choose('how' + tag, [dict(name=Fs[0]), dict(name='q', field_property_idx=1), dict(name='q', field_property_idx=-1)])
        I.prove('add_field.refused', I.raises(lambda: inst.add_field(g, **how), ValueError))
    elif op == 'del_fields':
        if not Fs: return None
        for f in (w := pick('delf', Fs)): G.fld.pop(f); new.pop(f)
        inst.del_fields(*w)
        for f in w: I.prove('del_fields.gone', G.sampled(f) is None)
    elif op == 'del_fields_refused': I.prove('del_fields.refused', I.raises(lambda: inst.del_fields(*Fs, 'unknown'), ValueError))
    elif op == 'del_all_fields': inst.del_fields(*Fs); G.fld.clear(); new = {}
    elif op == 'replace_field':
        if not Fs: return None
        f = I.choose('which' + tag, Fs); inst.del_fields(f); G.fld.pop(f); G.add_fld(f, tag); new[f] = False
    elif op == 'replace_detector':
        if not D: return None
        d = I.choose('which' + tag, D); inst.del_detectors(d); G.det.pop(d); G.add_det(d, tag); new = stale()
    elif op in ('map_all', 'map_one'):
        if not D: return None
        if not Fs and op == 'map_one': return None
        w = Fs if op == 'map_all' else [I.choose('which' + tag, Fs)]
        inst.map_fields(*(w if op == 'map_one' else []), kernel_size=1, spatial_response_norm='none')
        for f in w: new[f] = True
    elif op == 'map_refused':
        I.prove('map_fields.refused', I.raises(lambda: inst.map_fields(*Fs, 'unknown', kernel_size=1), ValueError))
        if Fs: I.prove('map_fields.refused', I.raises(lambda: inst.map_fields(kernel_size=1, beam=inst.fields[Fs[0]]), ValueError) and I.raises(lambda: inst.map_fields(), ValueError))
    return new

@contract('I01', covers=[F + 'Instrument.' + m for m in ('__init__', '_check_detectors', '_check_fields', '_set_response', 'set_spatial_respones', 'set_spectral_respones', 'set_noise_functions', 'add_detector', 'del_detectors', 'add_field', 'del_fields', 'map_fields', 'sample_fields')],
          params=[{'op': o} for o in OPS], weight=2)
def step(I, op):
    """from any instrument whose usable maps are current: after one operation usable maps are still current"""
    G = Ghost(I); np = I.np; inst = G.inst
    nd = I.choose('detectors', [1, 2, 0]); nf = I.choose('fields', [2, 1, 0])
    if I.sym and (nd, nf) not in ((2, 2), (1, 1), (0, 1), (1, 0)): I.assume(False)
    for d in range(nd): G.add_det('d%d' % (1 - d), 'd%d' % d)
    ok = {}
    for f in range(nf):
        nm = 'f%d' % f; G.add_fld(nm, 'f%d' % f)
        st = I.choose('state%d' % f, ['current', 'stale', 'missing'])
        if st == 'current' and not nd: st = 'missing'
        ok[nm] = st == 'current'
        inst.maps_consistent[nm] = st == 'current'
        if st != 'missing':
            m = I.mod('simim.map').Grid(max(nd, 1), [0.0, 0.0], [1.0, 1.0], [1.0, 1.0]); m.init_grid()
            for i, d in enumerate(G.det):
                b, a = G.expected(d, nm)
                m.grid[0, 0, i] = b * a if st == 'current' else b * a + 1
            inst.maps[nm] = m
    G.check('before', ok)
    new = apply_op(I, G, op, 'x', ok)
    I.assume(new is not None)
    G.check('after', new)
    if op in ('nothing', 'add_refused', 'del_fields') and G.det and G.fld:
        # mapping with the current configuration is always allowed and makes the maps usable
        inst.map_fields(kernel_size=1, spatial_response_norm='none'); G.check('mapped', {f: True for f in G.fld})

@contract('I01', covers=[F + 'Instrument.' + m for m in ('add_detector', 'del_detectors', 'add_field', 'del_fields', 'map_fields', 'sample_fields')], sym=False, weight=12)
def history(I):
    """histories of operations from an empty instrument"""
    G = Ghost(I); ok = {}
    for k in range(I.int('length', 1, chi=9)):
        op = I.choose('op%d' % k, OPS + ['add_detector', 'add_field', 'map_all'] * 2)
        r = apply_op(I, G, op, '_%d' % k, ok)
        if r is None: continue
        ok = r; G.check('after', ok)

# ------------------------------------------------------------------------------------------------ built-in responses, noise and checks
R = 'instrument/spatial_response.py:'; SR = 'instrument/spectral_response.py:'; NF = 'instrument/noise_functions.py:'
def one_detector(I, **kw):
    """a detector with built-in responses given by name, on its own or as the instrument's default"""
    kw = dict(dict(spatial_response='gauss', spectral_response='gauss', noise_function='none'), **kw)
    how = I.choose('how', ['own', 'default', 'single'])
    if how == 'single':
        inst = I.mod('simim.instrument.instrument').Detector(nominal_frequency=1.0, **kw)
        I.prove('one_detector', list(inst.detectors) == ['detector'] and inst.detector_names == ['detector'] and inst.detectors['detector'].pointing_offsets == (0, 0))
        return inst, inst.detectors['detector']
    if how == 'default':
        kw = dict(dict(spatial_kwargs={}, spectral_kwargs={}, noise_kwargs={}), **kw)
        inst = instrument(I, **{'default_' + k: v for k, v in kw.items()})
        inst.add_detector(name='d', nominal_frequency=1.0)
    else:
        inst = instrument(I); inst.add_detector(name='d', nominal_frequency=1.0, **kw)
    return inst, inst.detectors['d']

@contract('I03', covers=['instrument/instrument.py:Detector.__init__', R + 'gauss_psf', R + 'gauss_psf_freq_dependent', F + 'Instrument._set_response'], params=[{'kind': 'gauss'}, {'kind': 'specgauss'}])
def builtin_beams(I, kind):
    """the built-in beams: Gaussians with peak 1 at their centre and the stated full widths at half maximum at each frequency"""
    np = I.np; m, n, k = [I.int(a, 1, chi=4) for a in ('m', 'n', 'k')]
    dx, dy = I.array('dx', (m,)), I.array('dy', (n,)); fr = I.array('freq', (k,), gt=0.0, span=4.0)
    p = dict(fwhmx=I.real('fwhmx', gt=0.0), fwhmy=I.real('fwhmy', gt=0.0), cx=I.real('cx'), cy=I.real('cy'))
    if kind == 'specgauss': p.update(freq0=I.real('freq0', gt=0.0), freq_exp=I.choose('freq_exp', [-1, 1, 2, 0]))
    for a in [q for q in p if I.flag('default_' + q, quick=[0])]: del p[a]
    alias = I.choose('alias', ['gauss', 'Gauss', 'gaussian', 'Gaussian'] if kind == 'gauss' else ['specgauss', 'spec-gauss', 'SpecGauss', 'Spec-Gauss', 'spectral-gaussian', 'Spectral-Gaussian'], quick=[0])
    inst, d = one_detector(I, spatial_response=alias, spatial_kwargs=p)
    old = [I.snap(a) for a in (dx, dy, fr)]
    r = d.spatial_response(dx, dy, fr, **d.spatial_kwargs)
    for a, b in zip((dx, dy, fr), old): unchanged(I, 'inputs_unchanged', a, b)
    I.shape_is('shape', r, [m, n, k])
    q = dict(dict(fwhmx=1, fwhmy=1, cx=0, cy=0, freq0=100e9, freq_exp=-1), **p)
    def value(i, j, z):
        w = (I.at(fr, z) / q['freq0']) ** -q['freq_exp'] if kind == 'specgauss' else 1
        x, y = (I.at(dx, i) - q['cx']) / (q['fwhmx'] * w), (I.at(dy, j) - q['cy']) / (q['fwhmy'] * w)
        return I.eq(I.at(r, i, j, z), np.exp(-4 * np.log(2) * (x * x + y * y)))
    I.forall('value', [m, n, k], value)

@contract('I03', covers=[SR + 'gauss_response', SR + 'boxcar_response', F + 'Instrument._set_response'], params=[{'kind': 'gauss'}, {'kind': 'boxcar'}])
def builtin_spectra(I, kind):
    """the built-in spectral responses: a Gaussian of the stated centre and full width at half maximum, a box of the stated width"""
    np = I.np; k = I.int('k', 1, chi=5); fr = I.array('freq', (k,), gt=0.0, span=4.0); old = I.snap(fr)
    A, f0, w = I.real('A', gt=0.0), I.real('f0', gt=0.0), I.real('w', gt=0.0)
    alias = I.choose('alias', ['gauss', 'Gauss', 'gaussian', 'Gaussian'] if kind == 'gauss' else ['box', 'boxcar', 'Box', 'Boxcar'], quick=[0])
    p = {'A': A, 'freq0': f0, ('fwhm' if kind == 'gauss' else 'width'): w}
    for a in [q for q in p if I.flag('default_' + q, quick=[0])]: del p[a]
    A, f0, w = p.get('A', 1), p.get('freq0', 100), p.get('fwhm', p.get('width', 1))
    inst, d = one_detector(I, spectral_response=alias, spectral_kwargs=p)
    r = d.spectral_response(fr, **d.spectral_kwargs)
    unchanged(I, 'inputs_unchanged', fr, old); I.shape_is('shape', r, [k])
    def value(i):
        x = I.at(fr, i)
        if kind == 'gauss': return I.eq(I.at(r, i), A * np.exp(-4 * np.log(2) * ((x - f0) * (x - f0) / (w * w))))
        return I.eq(I.at(r, i), I.ite(I.And(x >= f0 - w / 2, x <= f0 + w / 2), A * 1.0, 0.0))
    I.forall('value', [k], value)

@contract('I02', covers=[NF + 'white_noise', NF + 'zero_noise', F + 'Instrument.sample_fields', F + 'Instrument._set_response'], params=[{'kind': 'none'}, {'kind': 'white'}])
def builtin_noise(I, kind):
    """built-in noise: none at all, or the stated mean and rms (per root integration time) times fresh draws of the given generator, in detector order"""
    np = I.np; N = I.int('N', 1, chi=5); k = I.choose('k', [1, 2, 3], quick=[1]); dt = I.real('dt', gt=0.0)
    pos = I.array('pos', (N, 2)); inst = instrument(I); rng = I.rng_obj('rng'); before = I.randomness(); seen = rng
    ps = []
    for d in range(k):
        p = {'rng': rng}
        if kind == 'white': p.update(rms=I.real('rms%d' % d, gt=0.0), bias=I.real('bias%d' % d))
        for a in [q for q in p if q != 'rng' and I.flag('default_%s%d' % (q, d), quick=[d])]: del p[a]
        alias = I.choose('alias%d' % d, ['none', 'None'] if kind == 'none' else ['white', 'White'], quick=[0])
        ps.append(p); inst.add_detector(name='d%d' % ((d * 2) % 3), spatial_response='gauss', spectral_response='gauss', noise_function=alias, noise_kwargs=p, nominal_frequency=1.0)
    g, n, px, c, old = mk_grid(I, 2, k, nobj=False)
    inst.fields['f'] = g; inst.field_props['f'] = 0; inst.field_names.append('f'); inst.maps['f'] = g; inst.maps_consistent['f'] = True
    times = 2 if I.flag('twice', quick=[0]) else 1
    r = [inst.sample_fields(pos, 'f', sample_signal=False, dt=dt) for _ in range(times)]
    I.prove('only_the_given_generator', I.randomness() == before)
    same = I.same_rng('rng')
    for t in range(times):
        I.shape_is('shape', r[t], [N, k])
        for d in range(k):
            draws = same.normal(size=N) if kind == 'white' else None
            def value(i):
                if kind == 'none': return I.eq(I.at(r[t], i, d), 0.0)
                return I.eq(I.at(r[t], i, d), ps[d].get('bias', 0) + ps[d].get('rms', 1) / np.sqrt(dt) * I.at(draws, i))
            I.forall('value', [N], value)

@contract('I03', covers=[F + 'Instrument.add_field', 'instrument/_helpers.py:_check_unit', 'instrument/_helpers.py:_check_grid_detector_compatibility'], params=[{'part': 'axes'}, {'part': 'flux'}, {'part': 'rest'}], weight=0.5)
def fields_checked(I, part):
    """a field is taken exactly when its stated units agree with the detector's and its pixels resolve the stated resolution; a refused one leaves nothing behind"""
    g, n, px, c, old = mk_grid(I, 3, 2, nobj=False)
    sp = [None, 'rad', 'deg', 'arcmin', 'arcsec']; fr = [None, 'GHz', 'Hz', 'm', 'mm', 'um']; fl = [None, 'Jy', 'mJy']
    u = {'spatial_unit': I.choose('du_sp', sp, quick=[2]), 'spectral_unit': I.choose('du_fr', fr, quick=[2]), 'flux_unit': I.choose('du_fl', fl, quick=[0, 2])}
    odd = 'nothing' if part == 'rest' else I.choose('odd', ['x', 'y', 'z', 'all'] if part == 'axes' else ['p0', 'p1', 'all'], quick=[0, 1, 2] if part == 'axes' else [0, 1])
    def stated(what, as_detector, options, quick): return I.choose('gu_' + what, options, quick=quick) if odd in (what, 'all') else as_detector
    ax = [stated('x', u['spatial_unit'], sp + ['Mpc', 'Jy'], [0, 3]), stated('y', u['spatial_unit'], sp + ['kpc', 'GHz'], [1, 5]), stated('z', u['spectral_unit'], fr + ['THz', 'rad'], [3, 6])]
    gu = [stated('p%d' % i, u['flux_unit'], fl + ['Lsun', 'K'], [0, 1, 3]) for i in range(2)]
    g.axunits = list(ax); g.gridunits = I.np.array(gu, ndmin=1, copy=True, dtype=object)
    res = {}
    for a, t in (('best_spatial_res', px[I.choose('along', [0, 1], quick=[1])]), ('best_spectral_res', px[2])):
        if odd == 'nothing' and I.flag('has_' + a, quick=[1]): res[a] = I.choose(a, [0.5, 1.0, 1.5, 6.0], quick=[0, 1]) * t
    inst = instrument(I, **u, **res); inst.add_detector(spatial_response='gauss', spectral_response='gauss', noise_function='none', nominal_frequency=1.0)
    prop = I.choose('prop', [None, 0, 1, 2, -1], quick=[2, 3] if odd == 'nothing' else [1, 2]); k = prop or 0
    what = I.choose('grid', ['fine', 'fourier', 'empty', 'other'], quick=[0, 1]) if odd == 'nothing' else 'fine'
    if what == 'empty': g = I.mod('simim.map.gridder').Grid(2, c, [n[i] * px[i] for i in range(3)], px)
    if what == 'fourier': g.fourier_space[I.choose('axis', [0, 1, 2], quick=[2])] = True
    name = I.choose('name', ['f', None], quick=[1]) if odd == 'nothing' else 'f'; place = I.flag('in_place', quick=None if part == 'rest' else [0])
    taken = odd == 'nothing' and I.flag('taken', quick=[0])
    if taken: inst.fields[name or '0'] = g; inst.field_names.append(name or '0'); inst.field_props[name or '0'] = 0; inst.maps_consistent[name or '0'] = True
    def state(): return sorted(inst.fields), list(inst.field_names), dict(inst.field_props), dict(inst.maps_consistent), dict(inst.maps), inst.field_counter
    before = state()
    def ok(a, b): return a is None or b is None or a == b
    good = 0 <= k < 2 and what == 'fine' and not taken and ok(ax[0], u['spatial_unit']) and ok(ax[1], u['spatial_unit']) and ok(ax[2], u['spectral_unit']) and ok(gu[k] if 0 <= k < 2 else None, u['flux_unit'])
    small = True
    if 'best_spatial_res' in res: small = I.And(small, px[0] <= res['best_spatial_res'], px[1] <= res['best_spatial_res'])
    if 'best_spectral_res' in res: small = I.And(small, px[2] <= res['best_spectral_res'])
    refused = I.raises(lambda: inst.add_field(g if what != 'other' else 7, name, prop, in_place=place), Exception)
    I.prove('taken_when_compatible', I.eq(refused, I.Not(I.And(good, small))))
    if refused: I.prove('nothing_left', state() == before); return
    nm = name or '0'
    I.prove('stored', nm in inst.fields and nm in inst.field_names and inst.maps_consistent[nm] is False)
    f = inst.fields[nm]; q = inst.field_props[nm]
    I.prove('in_place', (f is g) == place)
    I.forall('value', list(n), lambda *i: I.eq(I.at(f.grid, *i, q), I.at(old, *i, k)))
    unchanged(I, 'source', g.grid, old)

@contract('I03', covers=[F + 'Instrument.__init__', 'instrument/_helpers.py:_check_unit'], weight=0.2)
def units_known(I):
    """only known units are accepted"""
    kw = {'spatial_unit': I.choose('s', [None, 'rad', 'deg', 'arcmin', 'arcsec', 'Mpc', 'GHz', 'Jy']), 'spectral_unit': I.choose('f', [None, 'GHz', 'Hz', 'm', 'mm', 'um', 'rad', 'THz'], quick=[0, 2, 6]),
          'flux_unit': I.choose('fl', [None, 'Jy', 'mJy', 'GHz', 'K'], quick=[0, 1, 4])}
    good = kw['spatial_unit'] in (None, 'rad', 'deg', 'arcmin', 'arcsec') and kw['spectral_unit'] in (None, 'GHz', 'Hz', 'm', 'mm', 'um') and kw['flux_unit'] in (None, 'Jy', 'mJy')
    I.prove('known', I.raises(lambda: instrument(I, **kw), ValueError) == (not good))
