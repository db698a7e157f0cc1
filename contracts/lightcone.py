"""L01 spheres, L02 light cones, L03 added properties, L04 statistics of light cones."""
import math
from vc.api import contract
from contracts.sims import SIM, mksim
from contracts.handlers import scaled, check_read, same_set

LM = 'simim.lightcone.lcmaker'
_memo = {}
def cosmology(I):
    """the code's cosmology class, which makes its table of 100000 distances faster and remembers it"""
    if I.sym: return
    m = I.mod(LM); base = I.mod('astropy.cosmology').FlatLambdaCDM
    class Memo(base):
        def comoving_distance(self, z):
            if self.__class__ is not Memo or I.np.size(z) < 1000: return super().comoving_distance(z)
            k = (self.H0.value, self.Om0, self.Ob0, len(z), float(z[0]), float(z[-1]))
            if k not in _memo:
                v = table(I.np, self, I.np.asarray(z))
                some = I.np.linspace(0, len(z) - 1, 7).astype(int)
                ref = super().comoving_distance(I.np.asarray(z)[some])
                _memo[k] = v * ref.unit if v is not None and I.np.allclose(v[some], ref.value, rtol=1e-10, atol=1e-10) else super().comoving_distance(z)
            return _memo[k]
    I.patch(m, 'FlatLambdaCDM', Memo)

def table(np, C, z):
    """comoving distances at rising redshifts, by Gauss-Legendre quadrature between neighbours (checked against astropy's at some)"""
    if z.ndim != 1 or np.any(np.diff(z) < 0): return None
    x, w = np.polynomial.legendre.leggauss(5)
    a = np.concatenate([[0.0], z[:-1]]); b = z
    step = sum(wi * C.inv_efunc(0.5 * (b - a) * xi + 0.5 * (a + b)) for xi, wi in zip(x, w)) * 0.5 * (b - a)
    return np.cumsum(step) * C.hubble_distance.value

def universe(I, k, box, rows, zs, h=None, vectors=True, lo=0, exact=True, grain=None):
    """a simulation with k snapshots with abutting redshift intervals zs[0..k], filled with halos; snapshots are listed by falling or rising redshift"""
    np = I.np
    cosmology(I)
    h = I.choose('h', [0.5, 0.75]) if h is None else h
    cosmo = I.mod('astropy.cosmology').FlatLambdaCDM(H0=100 * h, Om0=0.3, Ob0=0.05, Tcmb0=2.7255)
    D = lambda z: cosmo.comoving_distance(z).value * h
    E = D if not grain else lambda z: round(D(z) / grain) * grain         # snapshot edges which are exact in floating point
    snaps = []; ft = I.choose('stored_as', ['f8', 'f4'])
    for j in range(k):
        n = I.int('n%d' % j, lo, chi=rows)
        X = I.array('x%d' % j, (n, 3), lo=0, span=float(box), step=box / (64 if exact else 64 * 64 * 64))
        mass = np.sort(I.array('mass%d' % j, (n,), gt=0, span=4.0, step=0.5))[::-1].copy()
        p = {'mass': (mass.astype(ft), 'Msun/h', -1)}
        for c in range(3): p['pos_' + 'xyz'[c]] = (X[:, c].astype(ft), 'Mpc/h', -1)
        ident = 10 ** 8 * (j + 1) + np.arange(n) * 3 + 1
        p['ident'] = (ident.astype('i8'), 'None', 0)
        p['val'] = (np.arange(n) * 0.1 + 1 / 3 + j, 'Msun', -1)
        V = I.array('v%d' % j, (n, 3), span=4.0) if vectors else np.zeros((n, 3))
        for c in range(3): p['v_' + 'xyz'[c]] = (V[:, c].copy(), 'km/s', 0)
        cuts = [2.75, 2.0, 1.25, 0.5]
        z = 0.5 * (zs[j] + zs[j + 1])
        snaps.append(dict(index=[33, 50, 67, 99][k - 1 - j], redshift=z, redshift_min=zs[j], redshift_max=zs[j + 1], distance_min=E(zs[j]), distance_max=E(zs[j + 1]),
                          transverse_distance_min=E(zs[j]), transverse_distance_max=E(zs[j + 1]), props=p, cuts=[(c, int((mass >= c).sum())) for c in cuts]))
    order = list(range(k))
    if I.flag('decreasing'): order.reverse()
    universe.write = lambda: mksim(I, [snaps[j] for j in order], h, float(box))
    universe.write()
    return snaps, h, D

def cone(I, i=0, name='cone'):
    P = I.mod('simim._paths')._SimIMPaths()
    with I.mod('h5py').File(P.lcs[SIM] + '/%s/lc_%04d.hdf5' % (name, i), 'r') as f:
        a = {k: f.attrs[k] for k in f.attrs.keys()}
        full = {k: f['Lightcone Full'][k][:] for k in f['Lightcone Full'].keys()}
        return a, full, f['Indexing']['sim_indices'][:], f['Indexing']['redshift_indices'][:]

MODES = ['sphere', 'hemisphere', 'quarter', 'eighth']
def in_mode(mode, r): return {'hemisphere': r[2] > 0, 'quarter': r[2] > 0 and r[1] > 0}.get(mode, True)

def dyadic(I, rng):
    """a generator of numbers that are exact in floating point, and so are sums and differences with them"""
    class Dyadic(I.np.random.Generator):
        def random(self, *a, **k): return I.np.floor(super().random(*a, **k) * 64) / 64
    return Dyadic(rng.bit_generator)

def mksphere(I, k=None, n=1, rows=6, vectors=False, lo=0):
    np = I.np
    k = I.choose('k', [1, 2, 3]) if k is None else k
    mode = I.choose('mode', MODES)
    e = [I.choose('edge0', [0, 0.0005, 0.001])]
    for j in range(k): e.append(round(e[-1] + I.choose('step%d' % j, [0.0005, 0.001]), 6))
    box = I.choose('box', [16.0, 24.0])
    on_edges = I.flag('on_edges'); grain = 5 / 16
    snaps, h, D = universe(I, k, box, rows, e, vectors=vectors, lo=lo, grain=grain if on_edges else None)
    zmin = I.choose('zmin', e[:-1] + [0.5 * (e[0] + e[1]), 0]); zmax = I.choose('zmax', e[1:] + [0.5 * (e[-1] + e[-2]), 'max', e[-1] + 0.0003])
    Z = e[-1] if zmax == 'max' else zmax
    I.assume(zmin < Z)
    I.assume(D(Z) <= (box if mode == 'eighth' else box / 2))
    mmin = I.choose('minimum_mass', [0, 0.5, 1.5, 2.0, 3.0, 9.0])
    def build(rng):
        S = I.mod(LM).SphereMaker(SIM, 'cone', redshift_min=zmin, redshift_max=zmax, minimum_mass=mmin, mode=mode, overwrite=True)
        S.build_lightcones(n, rng=rng); return S
    S = build(dyadic(I, I.rng_obj('rng')) if on_edges else I.rng_obj('rng'))
    if on_edges:
        # the same observers again, with halos exactly on the edges of the shells and on the faces of the field of the first one
        a = cone(I)[0]; ds = sorted(set(d for s in snaps for d in (s['distance_min'], s['distance_max']) if d > 0))
        for j, sn in enumerate(snaps):
            T = I.array('aim%d' % j, (len(sn['props']['mass'][0]), 3), elems=[-3, 0, 1, 2, 3, 4, 5])
            for i, (t, x, y) in enumerate(T):
                if t < 0: continue
                d = ds[int(t) % len(ds)]; u = d / 5
                r = [(0, 0, 5), (0, 3, 4), (0, 4, 3), (3, 0, 4), (3, 4, 0), (5, 0, 0), (0, 5, 0), (0, 0, -5), (4, 0, -3)][int(x + 3 + 2 * y) % 9]
                for c in range(3): sn['props']['pos_' + 'xyz'[c]][0][i] = (r[c] * u + a['start position'][c]) * a['box flips'][c] % box
        universe.write()
        S = build(dyadic(I, I.same_rng('rng')))
        for lc in range(n):          # the direction of a halo at the very place of the observer is undefined
            a = cone(I, lc)[0]
            for sn in snaps:
                X = np.array([sn['props']['pos_' + c][0] for c in 'xyz']).T.reshape(-1, 3)
                I.assume(not np.any(np.all((X * a['box flips'] - a['start position']) % box == 0, axis=1)))
    return S, snaps, h, D, box, mode, zmin, Z, mmin

def observed(np, X, flips, start, box, mode):
    """positions relative to the observer, nearest periodic image (for an eighth: the image in the octant)"""
    r = (X * flips - start) % box
    return r if mode == 'eighth' else np.where(r >= box / 2, r - box, r)

def check_description(I, a, L, lc, h, box, mode, zmin, zmax, angle=None, aspect=None):
    """rows in order of distance; units, limits and cosmology as described"""
    np = I.np
    I.prove('sorted', bool(np.all(np.diff(L['redshift']) >= -1e-9)))
    I.prove('attributes', a['shape'] == mode and I.eq(a['minimum redshift'], zmin) and I.eq(a['maximum redshift'], zmax) and a['cosmo_h'] == h and a['cosmo_omega_matter'] == 0.3
            and a['box_edge'] == box and (angle is None or I.eq(a['open angle'], angle) and I.eq(a['aspect ratio'], aspect)), lambda: '%r' % {k: a[k] for k in a if k != 'snapshots'})
    H = I.mod('simim.lightcone.lchandler').LCHandler(SIM, 'cone', lc, in_h_units=True)
    for k, (u, e) in {'pos_x': ('Mpc/h', -1), 'pos_y': ('Mpc/h', -1), 'pos_z': ('Mpc/h', -1), 'ra': ('radians', 0), 'dec': ('radians', 0), 'redshift': ('None', 0), 'mass': ('Msun/h', -1)}.items():
        I.prove('units', H.properties_units[k] == u and H.properties_h_dependence[k] == e, k)
        I.arr_eq('handler', H.return_property(k), L[k])
        I.arr_eq('handler_no_h', H.return_property(k, in_h_units=False), L[k].astype(float) * h ** e)
    I.prove('limits', I.eq(H.minimum_redshift, zmin) and I.eq(H.maximum_redshift, zmax))
    if angle is not None: I.prove('field', I.eq(H.open_angle, angle) and I.eq(H.aspect_ratio, aspect))

@contract('L01', covers=['SphereMaker.__init__', 'SphereMaker.build_lightcones', 'GenericLCMaker.__init__', 'SimHandler.get_mass_index'], sym=False, weight=4)
def sphere_exact(I):
    """exactly the halos of the shell, each placed relative to the observer, with its own redshift and mass"""
    np = I.np
    n = I.choose('cones', [1, 1, 2])
    S, snaps, h, D, box, mode, zmin, zmax, mmin = mksphere(I, n=n)
    for lc in range(n):
        a, L, idx, zi = cone(I, lc)
        want = []
        for s in snaps:
            p = s['props']; X = np.array([p['pos_' + c][0] for c in 'xyz']).T
            R = observed(np, X, a['box flips'], a['start position'], box, mode)
            lo, hi = max(s['distance_min'], D(zmin)), min(s['distance_max'], D(zmax))
            for i, r in enumerate(R):
                d = math.sqrt(sum(r * r))
                if lo <= d < hi and in_mode(mode, r) and p['mass'][0][i] >= mmin: want.append((s['index'], i, d, r, p['mass'][0][i]))
        got = {(int(b['snap']), int(b['index'])): j for j, b in enumerate(idx)}
        I.prove('once', len(got) == len(idx))
        miss = [w[:4] for w in want if w[:2] not in got]
        I.prove('complete', not miss, lambda: 'missing %r' % (miss,))
        I.prove('nothing_else', len(idx) == len(want), lambda: 'extra %r' % (set(got) - set(w[:2] for w in want),))
        I.prove('lengths', all(len(v) == len(idx) for v in L.values()))
        for s, i, d, r, m in want:
            j = got[(s, i)]
            for c in range(3): I.prove('position', I.eq(L['pos_' + 'xyz'[c]][j], r[c], scale=box))
            I.prove('dec', I.eq(math.sin(L['dec'][j]) * d, r[2], scale=box))
            q = d * math.cos(L['dec'][j])
            I.prove('ra', I.eq(q * math.cos(L['ra'][j]), r[0], scale=box) and I.eq(q * math.sin(L['ra'][j]), r[1], scale=box))
            I.prove('ra_range', 0 <= L['ra'][j] <= 2 * math.pi)
            I.prove('redshift', abs(D(L['redshift'][j]) - d) <= 1e-4)
            I.prove('mass', I.same(L['mass'][j], m))
        I.prove('redshift_index', all(int(t['index']) == int((L['redshift'] <= t['redshift']).sum()) for t in zi[1:]))
        check_description(I, a, L, lc, h, box, mode, zmin, zmax)

@contract('L01', covers=['SphereMaker.__init__'], sym=False)
def sphere_fits(I):
    """a shell that is larger than the box in every unit is refused, one that fits is accepted"""
    mode = I.choose('mode', MODES); box = I.choose('box', [8.0, 16.0])
    snaps, h, D = universe(I, 1, box, 2, [0, 0.01], vectors=False)
    z = I.choose('zmax', [0.0005, 0.001, 0.002, 0.003, 0.004, 0.006, 0.008, 0.01])
    room = box if mode == 'eighth' else box / 2
    refused = I.raises(lambda: I.mod(LM).SphereMaker(SIM, 'cone', redshift_max=z, mode=mode, overwrite=True), ValueError)
    if D(z) <= room: I.prove('accepted', not refused)
    if D(z) > room / h: I.prove('refused', refused)

@contract('L01', covers=['SphereMaker.__init__'], sym=False)
def sphere_fits_units(I):
    """a shell between the size of the box in Mpc/h and its size in Mpc is refused"""
    mode = I.choose('mode', MODES); box = I.choose('box', [8.0, 16.0])
    snaps, h, D = universe(I, 1, box, 2, [0, 0.01], vectors=False)
    z = I.choose('zmax', [0.0015, 0.002, 0.003, 0.004, 0.006, 0.008])
    room = box if mode == 'eighth' else box / 2
    I.assume(room < D(z) <= room / h)
    I.prove('refused_between', I.raises(lambda: I.mod(LM).SphereMaker(SIM, 'cone', redshift_max=z, mode=mode, overwrite=True), ValueError))

def mkcone(I, k=None, n=1, rows=40, vectors=False, lo=20):
    np = I.np
    k = I.choose('k', [1, 2, 3]) if k is None else k
    box = I.choose('box', [24.0, 40.0])
    e = [I.choose('edge0', [0, 0.0, 0.005, 0.02])]
    for j in range(k): e.append(round(e[-1] + I.choose('step%d' % j, [0.004, 0.01, 0.03]), 6))
    snaps, h, D = universe(I, k, box, rows, e, vectors=vectors, exact=False, lo=lo)
    zmin = I.choose('zmin', e[:-1] + [0.5 * (e[0] + e[1]), 0]); zmax = I.choose('zmax', e[1:] + [0.5 * (e[-1] + e[-2]), 'max', e[-1] + 0.003])
    Z = e[-1] if zmax == 'max' else zmax
    I.assume(zmin < Z)
    mode = I.choose('shape', ['box', 'circle']); angle = I.choose('angle', [0.5, 2, 4, 6, 12, 20]); aspect = I.choose('aspect', [1, 0.5, 0.125])
    I.assume(D(Z) * math.radians(angle) < (0.8 if mode == 'circle' else 0.6) * box)
    mmin = I.choose('minimum_mass', [0, 0.5, 1.5, 2.0, 3.0, 9.0])
    def build(rng):
        M = I.mod(LM).LCMaker(SIM, 'cone', angle, aspect=aspect, redshift_min=zmin, redshift_max=zmax, minimum_mass=mmin, mode=mode, overwrite=True)
        M.build_lightcones(n, rng=rng); return M
    M = build(I.rng_obj('rng'))
    if I.flag('aimed'):
        # the same pointings again, with the halos put at chosen places in and around the field of the first cone
        a = cone(I)[0]; rot = a['position angle transformation matrix'] @ a['line of sight transformation matrix']
        for j, sn in enumerate(snaps):
            lo, hi = max(D(zmin), D(e[j])), min(D(Z), D(e[j + 1]))
            T = I.array('aim%d' % j, (len(sn['props']['mass'][0]), 3), elems=[-1.00123, -0.99871, -0.9013, -0.3137, 0.00117, 0.4139, 0.7171, 0.99877, 1.00119])
            for i, (f, x, y) in enumerate(T):
                d = 0.93 * lo if -0.5 < f < 0 else {-0.9013: 0.01, -0.99871: 0.04, -1.00123: 0.15}[f] * hi if f < 0 else lo + f * (hi - lo) # just below, behind, within or just beyond
                b = math.radians(angle) / 2
                x, y = (x * b * math.cos(math.pi * y), x * b * math.sin(math.pi * y)) if mode == 'circle' else (x * b, y * b * aspect)
                v = np.array([math.sqrt(1 - x * x - y * y) * (-1 if f < -0.5 else 1), x, y]) * d
                r = (((v @ rot) + a['start position']) * a['box flips']) % box
                for c in range(3): sn['props']['pos_' + 'xyz'[c]][0][i] = r[c]
        universe.write()
        M = build(I.same_rng('rng'))
    return M, snaps, h, D, box, mode, math.radians(angle), aspect, zmin, Z, mmin

@contract('L02', covers=['LCMaker.__init__', 'LCMaker._initialize_los', 'LCMaker._initialize_pa', 'LCMaker.build_lightcones', 'GenericLCMaker.__init__'], sym=False, weight=4)
def cone_exact(I):
    """every image of a halo in the field and the distance range is there once, moved by one rigid transformation, and nothing else is there"""
    np = I.np
    n = I.choose('cones', [1, 1, 2])
    M, snaps, h, D, box, mode, angle, aspect, zmin, zmax, mmin = mkcone(I, n=n)
    eps = 1e-9
    for lc in range(n):
        a, L, idx, zi = cone(I, lc)
        rot = a['position angle transformation matrix'] @ a['line of sight transformation matrix']
        I.prove('rigid', bool(np.allclose(rot @ rot.T, np.eye(3), atol=1e-9)))
        q = np.array([L['pos_z'], L['pos_x'], L['pos_y']]).T.reshape(-1, 3)
        dist = np.sqrt((q ** 2).sum(axis=1))
        sky = lambda v, d: (v[..., 1] / d, v[..., 2] / d)
        def margin(v, d):
            """how far inside the field (negative: outside)"""
            x, y = sky(v, d)
            if mode == 'circle': return angle / 2 - np.sqrt(x ** 2 + y ** 2)
            return np.minimum(angle / 2 - abs(x), angle * aspect / 2 - abs(y))
        I.prove('lengths', all(len(v) == len(idx) for v in L.values()))
        rel = q @ rot                    # transpose of the rotation: back to the axes of the box
        known = {s['index']: s for s in snaps}
        seen = set(); total = 0
        for j, b in enumerate(idx):
            s = known[int(b['snap'])]; i = int(b['index']); p = s['props']
            x = np.array([p['pos_' + c][0][i] for c in 'xyz'])
            t = (x * a['box flips'] - a['start position'] - rel[j]) / box
            I.prove('transformed', bool(np.all(abs(t - np.round(t)) < 1e-8)), lambda: 'row %d' % j)
            seen.add((s['index'], i) + tuple(int(v) for v in np.round(t)))
            d = dist[j]
            I.prove('own_snapshot', max(s['distance_min'], D(zmin)) - eps <= d <= min(s['distance_max'], D(zmax)) + eps)
            I.prove('in_field', margin(q[j], d) >= -eps and q[j][0] > 0)
            I.prove('sky', I.eq(L['ra'][j], q[j][1] / d, scale=1) and I.eq(L['dec'][j], q[j][2] / d, scale=1))
            I.prove('redshift', abs(D(L['redshift'][j]) - d) <= 1e-4)
            I.prove('mass', I.same(L['mass'][j], p['mass'][0][i]) and L['mass'][j] >= mmin)
        I.prove('once', len(seen) == len(idx))
        for s in snaps:
            p = s['props']; X = np.array([p['pos_' + c][0] for c in 'xyz']).T
            lo, hi = max(s['distance_min'], D(zmin)), min(s['distance_max'], D(zmax))
            m = int(hi / box) + 2
            K = np.array(np.meshgrid(*[np.arange(-m, m + 1)] * 3)).reshape(3, -1).T
            for i in range(len(X)):
                if p['mass'][0][i] < mmin: continue
                r = X[i] * a['box flips'] - a['start position'] + box * K
                v = r @ rot.T; d = np.sqrt((r ** 2).sum(axis=1))
                with np.errstate(all='ignore'): inside = (v[:, 0] > 0) & (d >= lo + eps) & (d < hi - eps) & (margin(v, d) > eps)
                for k in K[inside]:
                    I.prove('complete', (s['index'], i) + tuple(int(-w) for w in k) in seen, lambda: 'snapshot %d halo %d image %r' % (s['index'], i, k))
                    total += 1
        if total: I.note_nontrivial()
        check_description(I, a, L, lc, h, box, mode, zmin, zmax, angle, aspect)
        I.prove('redshift_index', all(int(t['index']) == int((L['redshift'] <= t['redshift']).sum()) for t in zi[1:]))

@contract('L02', covers=['GenericLCMaker.__init__', 'LCMaker.__init__', 'SphereMaker.__init__'], sym=False)
def kept(I):
    """an existing set of light cones is left alone unless overwriting is asked for; impossible requests are refused"""
    sphere = I.flag('sphere'); S = mksphere(I, lo=2) if sphere else mkcone(I, rows=6, lo=2)
    before = cone(I)[1]; m = I.mod(LM)
    make = lambda name='cone', ow=False, **k: m.SphereMaker(SIM, name, overwrite=ow, **dict(dict(redshift_max=0.0005, mode='eighth'), **k)) if sphere else m.LCMaker(SIM, name, 0.5, overwrite=ow, **dict(dict(redshift_max=0.004), **k))
    ow = I.choose('overwrite', [False, 'check'])
    said = []
    if ow == 'check':
        answers = I.choose('answers', [['n'], ['maybe', 'n'], ['', 'q', 'n']]); it = iter(answers)
        import builtins
        I.patch(builtins, 'input', lambda *a: (said.append(1), next(it))[1])
    I.prove('refused', I.raises(lambda: make(ow=ow), ValueError))
    if ow == 'check': I.prove('asked', len(said) == len(answers))
    after = cone(I)[1]
    I.prove('untouched', sorted(before) == sorted(after) and all(I.np.array_equal(before[k], after[k]) for k in before))
    if ow == 'check': I.patch(builtins, 'input', lambda *a: 'y')
    make(name='other'); make(ow=True if ow is False else 'check')
    bad = I.choose('bad', ['mode', 'overwrite', 'order', 'aspect', 'sim'])
    if bad == 'mode': I.prove('bad_mode', I.raises(lambda: make('m', mode='ball'), ValueError))
    elif bad == 'overwrite': I.prove('bad_overwrite', I.raises(lambda: make('o', ow='yes'), ValueError))
    elif bad == 'order': I.prove('bad_order', I.raises(lambda: make('r', redshift_min=0.01, redshift_max=0.001), ValueError))
    elif bad == 'aspect' and not sphere: I.prove('bad_aspect', I.raises(lambda: make('a', aspect=1.5), ValueError))
    elif bad == 'sim': I.prove('bad_sim', I.raises(lambda: m.LCMaker('no such simulation', 'x', 1), ValueError, NameError))

# ------------------------------------------------------------------------------------------------ L04
SOLID = {'sphere': 4, 'hemisphere': 2, 'quarter': 1, 'eighth': 0.5}       # in units of pi

def lcfile(I, props, h, shape, zmin, zmax, angle=None, aspect=None, number=0):
    """a light cone on disk; props: name -> (values, units, exponent)"""
    h5 = I.mod('h5py'); os = I.mod('os')
    P = I.mod('simim._paths')._SimIMPaths()
    if SIM not in P.lcs: P._newlcpath(SIM)
    d = P.lcs[SIM] + '/cone'
    if not os.path.exists(d): os.mkdir(d)
    with h5.File(d + '/lc_%04d.hdf5' % number, 'w') as f:
        f.attrs['cosmo_h'] = h; f.attrs['cosmo_omega_matter'] = 0.3; f.attrs['cosmo_omega_baryon'] = 0.05
        f.attrs['shape'] = shape; f.attrs['minimum redshift'] = zmin; f.attrs['maximum redshift'] = zmax
        if angle is not None: f.attrs['open angle'] = angle; f.attrs['aspect ratio'] = aspect
        g = f.create_group('Lightcone Full')
        for k, (v, u, e) in props.items():
            ds = g.create_dataset(k, data=v); ds.attrs['units'] = u; ds.attrs['h dependence'] = e

def distance(I, h):
    c = I.mod('astropy.cosmology'); u = I.mod('astropy.units')
    C = c.FlatLambdaCDM(H0=100 * h * u.km / u.s / u.Mpc, Om0=0.3, Ob0=0.05, Tcmb0=2.7255 * u.K)
    return lambda z: C.comoving_distance(z).value

def mklc(I, shape):
    """a light cone with arbitrary objects, in either unit default"""
    I.mod('simim.galprops.galprops')
    I.package_root(); P = I.mod('simim._paths')._SimIMPaths(); P._setuppath(I.tmpdir())
    n = I.int('n', 0, chi=7); h = I.real('h', gt=0, step=0.125, lt=2)
    z0 = I.real('zmin', lo=0, hi=1, step=0.25); z1 = I.real('zmax', gt=z0, hi=None if I.sym else 3, step=0.25)
    zs = I.array('z', (n,), lo=0, step=0.25, span=3.0)
    x = I.array('x', (n,)); mass = I.array('mass', (n,), gt=0)
    angle = aspect = None
    if shape in ('box', 'circle'): angle = I.real('angle', gt=0, hi=None if I.sym else 2, step=0.125); aspect = I.choose('aspect', [1, 0.5]) if not I.sym else I.real('aspect', gt=0, hi=1)
    lcfile(I, {'redshift': (zs, 'None', 0), 'mass': (mass, 'Msun/h', -1), 'x': (x, 'u', 2), 'row': (I.np.arange(n), 'None', 0)}, h, shape, z0, z1, angle, aspect)
    d0 = I.flag('default')
    H = I.mod('simim.lightcone.lchandler').LCHandler(SIM, 'cone', 0, in_h_units=d0)
    return n, h, z0, z1, zs, x, mass, angle, aspect, d0, H

def area_of(I, shape, angle, aspect):
    """solid angle; light cones use the small-angle area of their field"""
    pi = I.np.pi
    return SOLID[shape] * pi if shape in SOLID else pi * angle * angle / 4 if shape == 'circle' else angle * angle * aspect

def region(I, D, h, z0, z1, area, in_h):
    v = (D(z1) * D(z1) * D(z1) - D(z0) * D(z0) * D(z0)) * area / 3
    return v * h * h * h if in_h else v

@contract('L04', covers=['LCHandler.volume', 'LCHandler.__init__'], params=[{'shape': s} for s in ['box', 'circle', 'sphere', 'hemisphere', 'quarter', 'eighth']])
def volume(I, shape):
    """the volume of the light cone between two redshifts, by default all of it"""
    n, h, z0, z1, zs, x, mass, angle, aspect, d0, H = mklc(I, shape)
    D = distance(I, h)
    req = I.choose('request', [None, True, False]); u = d0 if req is None else req
    lims = I.choose('limits', ['none', 'min', 'max', 'both'])
    kw = {}; a, b = z0, z1
    if lims in ('min', 'both'): a = kw['redshift_min'] = I.real('a', lo=0, hi=None if I.sym else 3)
    if lims in ('max', 'both'): b = kw['redshift_max'] = I.real('b', lo=0, hi=None if I.sym else 3)
    I.assume(a <= b)
    got = []
    refused = I.raises(lambda: got.append(H.volume(in_h_units=req, **kw)), ValueError)
    I.prove('refused', I.iff(refused, I.Or(a < z0, b > z1)))
    if not refused: I.prove('volume', I.eq(got[0], region(I, D, h, a, b, area_of(I, shape, angle, aspect), u)))

@contract('L04', covers=['LCHandler.volume'], params=[{'shape': s, 'part': p} for s in ['box', 'circle'] for p in ['box', 'circle']])
def volume_of_part(I, shape, part):
    """a narrower field inside the light cone; one that does not fit is refused"""
    n, h, z0, z1, zs, x, mass, angle, aspect, d0, H = mklc(I, shape)
    D = distance(I, h)
    if shape == 'circle': aspect = 1; I.assume(H.aspect_ratio == 1)
    a = I.real('part', gt=0, hi=None if I.sym else 2, step=0.125); r = I.choose('part_aspect', [1, 0.5, 0.25])
    got = []
    refused = I.raises(lambda: got.append(H.volume(shape=part, open_angle=a, aspect_ratio=r)), ValueError)
    if part == 'circle': fits = a <= (angle if shape == 'circle' else angle * aspect)
    elif shape == 'box': fits = I.And(a <= angle, a * r <= angle * aspect)
    else: fits = a * a * (1 + r * r) <= angle * angle
    I.prove('refused', I.iff(refused, I.Not(fits)))
    if not refused: I.prove('volume', I.eq(got[0], region(I, D, h, z0, z1, area_of(I, part, a, r), d0)))

@contract('L04', covers=['LCHandler.eval_stat_evo', 'LCHandler.volume', 'Handler.set_property_range', 'Handler.eval_stat'], params=[{'bins': 1}, {'bins': 2}, {'bins': 3}])
def evolution(I, bins):
    """the statistic of each bin gets the objects of that bin, in the requested units, and that bin's limits and volume; the handler and the arguments stay as they were"""
    shape = I.choose('shape', ['box', 'sphere'], quick=[0])
    n, h, z0, z1, zs, x, mass, angle, aspect, d0, H = mklc(I, shape)
    D = distance(I, h)
    prior = I.flag('prior')
    if prior: H.set_property_range('mass', pmin=I.real('pmin', lo=0, hi=6), in_h_units=True)
    before = I.snap(H.inds_active); count = H.nhalos_active
    edges = [z0 if j == 0 and I.flag('first', quick=[0]) else I.real('edge%d' % j, lo=z0, hi=z1, step=0.25) for j in range(bins + 1)]
    for j in range(bins): I.assume(edges[j] <= edges[j + 1])
    given = list(edges)
    if I.flag('reversed', quick=[1]): given.reverse()
    zk, Zk, vk = I.choose('keywords', [(True, True, True), (False, False, False), (True, False, False), (False, True, False), (False, False, True)], quick=[0, 4])
    req = I.choose('request', [None, True, False], quick=[0]); u = d0 if req is None else req
    other = {'c': 3}; remap = {'y': 'x'}; calls = []
    def stat(**kw): calls.append(kw); return len(calls)
    own = I.flag('own_arguments', quick=[1])
    kw = dict(other_kws=other) if own else {}
    got_bins, vals = H.eval_stat_evo(given, stat, ['y', 'row'], kw_remap=remap, zmin_kw=zk, zmax_kw=Zk, volume_kw=vk, give_args_in_h_units=req, **kw)
    I.prove('one_call_per_bin', vals == list(range(1, bins + 1)) and len(calls) == bins)
    for j in range(bins + 1): I.prove('bins', I.eq(I.at(got_bins, j), edges[j]))
    for j, c in enumerate(calls):
        a, b = edges[j], edges[j + 1]
        member = lambda i: I.And(a <= I.at(zs, i), I.at(zs, i) <= b)
        act = c['row']
        I.prove('number', I.eq(act.shape[0], I.sum((n,), lambda i: I.ite(member(i), 1, 0))))
        I.forall('only_members', act.shape, lambda q: member(I.at(act, q)))
        I.forall('all_members', (n,), lambda i: I.implies(member(i), lambda: I.contains(act, i)))
        I.shape_is('values_shape', c['y'], act.shape)
        I.forall('values', act.shape, lambda q: I.eq(I.at(c['y'], q), scaled(I, I.at(x, I.at(act, q)), h, 2, u)))
        I.prove('arguments', sorted(c) == sorted(['y', 'row'] + (['c'] if own else []) + ['zmin'] * zk + ['zmax'] * Zk + ['volume'] * vk))
        if zk: I.prove('zmin', I.eq(c['zmin'], a))
        if Zk: I.prove('zmax', I.eq(c['zmax'], b))
        if vk: I.prove('bin_volume', I.eq(c['volume'], region(I, D, h, a, b, area_of(I, shape, angle, aspect), u)))
    I.prove('caller', other == {'c': 3} and remap == {'y': 'x'})
    I.shape_is('selection_shape', H.inds_active, before.shape)
    I.forall('selection', before.shape, lambda q: I.eq(I.at(H.inds_active, q), I.at(before, q)))
    I.prove('count', I.eq(H.nhalos_active, count))
    # a second evaluation with defaults sees nothing of the first
    calls2 = []
    H.eval_stat_evo(given, lambda **kw: calls2.append(kw), ['row'])
    I.prove('no_leftovers', len(calls2) == bins and all(sorted(c) == ['row'] for c in calls2))
    I.prove('count_again', I.eq(H.nhalos_active, count))

# ------------------------------------------------------------------------------------------------ L03
@contract('L03', covers=['GenericLCMaker.add_properties', 'GenericLCMaker.add_pos_properties'], sym=False, weight=4)
def added(I):
    """properties added to light cones that were built: every row has the value of its own halo in its own snapshot, vectors are moved like the object"""
    np = I.np
    sphere = I.flag('sphere'); n = I.choose('cones', [1, 2])
    if sphere: M, snaps, h, D, box, mode, zmin, zmax, mmin = mksphere(I, n=n, rows=8, vectors=True)
    else: M, snaps, h, D, box, mode, angle, aspect, zmin, zmax, mmin = mkcone(I, n=n, rows=40, vectors=True)
    steps = I.choose('steps', [[['ident', 'val'], 'v'], ['v', ['val'], ['ident']], [['masscheck'], ['val', 'ident'], 'v'], [['ident']], ['v'], [['val'], 'v', ['val', 'ident'], 'v']])
    known = {s['index']: s for s in snaps}
    before = [cone(I, lc) for lc in range(n)]
    done = set()
    for st in steps:
        if st == 'v': M.add_pos_properties('v'); done |= {'v_x', 'v_y', 'v_z'}
        else: M.add_properties(*st); done |= set(st)
    for lc in range(n):
        a, L, idx, zi = cone(I, lc)
        I.prove('fields', sorted(L) == sorted(set(before[lc][1]) | done), lambda: '%r' % (set(L) ^ (set(before[lc][1]) | done),))
        for k, v in before[lc][1].items(): I.prove('unchanged', np.array_equal(v, L[k]))
        I.prove('unchanged_rows', np.array_equal(idx, before[lc][2]))
        rot = None if sphere else (a['position angle transformation matrix'] @ a['line of sight transformation matrix'])
        for j, b in enumerate(idx):
            p = known[int(b['snap'])]['props']; i = int(b['index'])
            for k in done & {'ident', 'val'}: I.prove('value', I.same(L[k][j], p[k][0][i]), lambda: '%s of row %d' % (k, j))
            if 'masscheck' in done: I.prove('masscheck', I.same(L['masscheck'][j], L['mass'][j]))
            if 'v_x' in done:
                v = np.array([p['v_' + c][0][i] for c in 'xyz']) * a['box flips']
                if rot is not None: v = (rot @ v)[[1, 2, 0]]
                for c in range(3): I.prove('vector', I.eq(L['v_' + 'xyz'[c]][j], v[c], scale=8))
        H = I.mod('simim.lightcone.lchandler').LCHandler(SIM, 'cone', lc, in_h_units=False)
        if 'val' in done: I.arr_eq('units', H.return_property('val') * h, L['val'])
        if 'v_x' in done: I.arr_eq('units_vector', H.return_property('v_x'), L['v_x'])

@contract('L03', covers=['GenericLCMaker.get_LCIterator', 'LCIterator.__init__', 'LCIterator.volume'], sym=False)
def iterator(I):
    """the iterator over the light cones of a set reaches each of them"""
    n = I.choose('cones', [1, 2, 3])
    if I.flag('sphere'): M = mksphere(I, n=n)[0]
    else: M = mkcone(I, n=n, rows=10, lo=0)[0]
    u = I.flag('default')
    T = M.get_LCIterator(in_h_units=u)
    r = T.return_property('mass'); v = T.volume()
    I.prove('number', sorted(r) == [str(i) for i in range(n)])
    for i in range(n):
        H = I.mod('simim.lightcone.lchandler').LCHandler(SIM, 'cone', i, in_h_units=u)
        I.arr_eq('values', r[str(i)], H.return_property('mass'))
        I.prove('volume', I.eq(v, H.volume()))

@contract('L03', covers=['LCIterator.__init__', 'LCIterator.volume'], weight=2, params=[{'numbers': [0, 7]}, {'numbers': [123, 4]}, {'numbers': [12, 5021, 80]}, {'numbers': [10000]}])
def iterator_numbers(I, numbers):
    """one handler for each light cone asked for, or each on disk; every operation reaches all of them; different light cones are refused or told apart"""
    I.mod('simim.galprops.galprops')
    I.package_root(); P = I.mod('simim._paths')._SimIMPaths(); P._setuppath(I.tmpdir())
    h = I.real('h', gt=0, step=0.125, lt=2); shape = I.choose('shape', ['box', 'sphere'], quick=[0])
    z0 = I.real('zmin', lo=0, hi=1, step=0.25); z1 = I.real('zmax', gt=z0, hi=None if I.sym else 3, step=0.25)
    angle, aspect = (0.25, 0.5) if shape == 'box' else (None, None)
    odd = I.choose('odd_one', [None, 'angle', 'zmax']) if len(numbers) > 1 else None
    if odd == 'angle' and shape != 'box': odd = 'zmax'
    data = {}
    for j, k in enumerate(numbers):
        n = I.int('n%d' % k, 0, chi=4); data[k] = (n, I.array('mass%d' % k, (n,), gt=0))
        last = j == len(numbers) - 1
        lcfile(I, {'redshift': (I.array('z%d' % k, (n,), lo=0, hi=4), 'None', 0), 'mass': (data[k][1], 'Msun/h', -1)}, h, shape, z0, z1 + 1 if last and odd == 'zmax' else z1, angle * 2 if last and odd == 'angle' else angle, aspect, number=k)
    u = I.flag('default', quick=[0]); LC = I.mod('simim.lightcone.lchandler')
    part = len(numbers) > 1 and odd is not None and I.flag('some'); asked = numbers[:-1] if part else numbers
    strict = I.flag('require_consistent'); differ = odd is not None and not part
    out = []
    refused = I.raises(lambda: out.append(LC.LCIterator(SIM, 'cone', numbers=asked if part or I.flag('named', quick=[0]) else None, in_h_units=u, require_consistent=strict)), ValueError)
    I.prove('refused', refused == (differ and strict))
    if refused: return
    T = out[0]
    r = T.return_property('mass')
    I.prove('reached', sorted(r) == sorted(str(k) for k in asked))
    for k in asked: check_read(I, 'values', r[str(k)], data[k][1], h, -1, u)
    lo = I.real('lo', gt=0, hi=4, step=0.5)
    T.set_property_range('mass', pmin=lo, in_h_units=True)
    c = T.eval_stat(lambda mass: mass, ['mass'], give_args_in_h_units=True)
    for k in asked: I.prove('selected', I.eq(c[str(k)].shape[0], I.sum((data[k][0],), lambda i: I.ite(I.at(data[k][1], i) >= lo, 1, 0))))
    w = I.choose('which', [None] + list(asked), quick=[0, 1])
    vol = []
    refused = I.raises(lambda: vol.append(T.volume(number=w)), ValueError)
    I.prove('volume_refused', refused == (differ and w is None))
    if not refused:
        own = LC.LCHandler(SIM, 'cone', asked[0] if w is None else w, in_h_units=u).volume()
        I.prove('volume', I.eq(vol[0], own))
    I.prove('no_such_number', I.raises(lambda: T.volume(number=99), ValueError))
