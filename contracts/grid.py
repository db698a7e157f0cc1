"""Grid: geometry (G02), gridding (G01), sampling (G03), spectral gridding (G04), reshaping (G05), copies (G06)"""
import itertools
from vc.api import contract

AX = {1: [[0]], 2: [[0], [1], [0, 1], [1, 0]], 3: [[0], [1], [2], [2, 0], [0, 1], [1, 2], [2, 1, 0], [0, 1, 2]]}
F = 'map/gridder.py:'
FAR = [0.0, -1.5, 8388608.25, -4194304.75]    # far from the origin relative to the cell size, too

def S(I, *xs):
    return None if I.sym else sum(abs(float(x)) for x in xs)

def mk_grid(I, nd, nprops=1, data=True, tag='', nlo=1, nchi=4, fourier=False, units=False, power=False, cls=None, nobj=True, span=6.0, q=None):
    """an arbitrary grid in a reachable (well-formed) state; returns g, n, px, c, snapshot of the data"""
    G = I.mod('simim.map.gridder')
    n = [I.int('n%s%d' % (tag, i), nlo, chi=nchi) for i in range(nd)]
    px = [I.real('px%s%d' % (tag, i), gt=0, step=0.25, span=1) for i in range(nd)]
    c = [I.real('c%s%d' % (tag, i), step=0.25, span=4, nice=FAR) for i in range(nd)]
    kw = {}
    if units and I.flag('units' + tag, q):
        kw = dict(axunits=['u%d' % i for i in range(nd)], gridunits=['v%d' % i for i in range(nprops)])
    g = G.Grid(nprops, c, [I.real_of(n[i]) * px[i] for i in range(nd)], px, **kw)
    old = None
    if data:
        g.init_grid()
        d = I.array('data' + tag, list(n) + [nprops], span=span, fine=True)
        g.grid = d
        old = I.snap(d)
        if nobj: g.n_objects = I.int('nobj' + tag, 0)
    if fourier:
        for i in range(nd):
            if I.flag('fourier%s%d' % (tag, i), None if q is None or i == 0 else [0]): g.fourier_space[i] = True
    if power: g.is_power_spectrum = I.flag('power' + tag, q)
    return g, n, px, c, old

def wf(I, g, n, px, c, nprops=None, name='geometry', data=True, axes_only=False):
    """the class invariant of Grid for pixel counts n, pixel sizes px and centre c"""
    nd = len(n)
    I.prove(name + '.n_dimensions', g.n_dimensions == nd and len(g.axes) == nd and len(g.axes_centers) == nd and len(g.fourier_axes) == nd and len(g.fourier_axes_centers) == nd)
    I.prove(name + '.attribute_lengths', len(g.n_pixels) == nd and len(g.pixel_size) == nd and len(g.side_length) == nd and len(g.center_point) == nd and len(g.fourier_space) == nd and len(g.axunits) == nd and len(g.fourier_axunits) == nd)
    for i in range(nd):
        sc = S(I, c[i], n[i] * px[i])
        side = n[i] * px[i]; lo = c[i] - side / 2
        I.prove(name + '.n_pixels', I.eq(I.at(g.n_pixels, i), n[i]))
        I.prove(name + '.pixel_size', I.eq(I.at(g.pixel_size, i), px[i]))
        I.prove(name + '.side_length', I.eq(I.at(g.side_length, i), side))
        I.prove(name + '.center_point', I.eq(I.at(g.center_point, i), c[i], scale=sc))
        I.shape_is(name + '.axes.len', g.axes[i], [n[i] + 1])
        I.shape_is(name + '.axes_centers.len', g.axes_centers[i], [n[i]])
        I.shape_is(name + '.fourier_axes.len', g.fourier_axes[i], [n[i] + 1])
        I.shape_is(name + '.fourier_axes_centers.len', g.fourier_axes_centers[i], [n[i]])
        I.forall(name + '.axes', [n[i] + 1], lambda k: I.eq(I.at(g.axes[i], k), lo + k * px[i], scale=sc))
        I.forall(name + '.axes_centers', [n[i]], lambda k: I.eq(I.at(g.axes_centers[i], k), lo + k * px[i] + px[i] / 2, scale=sc))
        h = n[i] // 2
        I.forall(name + '.fourier_axes_centers', [n[i]], lambda k: I.eq(I.at(g.fourier_axes_centers[i], k) * side, I.real_of(k - h), scale=S(I, n[i])))
        I.forall(name + '.fourier_axes', [n[i] + 1], lambda k: I.eq(I.at(g.fourier_axes[i], k) * side, I.real_of(k - h) - 0.5, scale=S(I, n[i])))
    if nprops is not None:
        I.prove(name + '.n_properties', I.eq(g.n_properties, nprops))
        I.prove(name + '.gridunits.len', I.eq(len(g.gridunits), nprops))
        if data and g.grid_active: I.shape_is(name + '.data.shape', g.grid, list(n) + [nprops])

def units_of(g): return [str(x) for x in g.axunits], [str(x) for x in g.fourier_axunits], [str(x) for x in g.gridunits], [bool(x) for x in g.fourier_space]
def units_are(I, name, g, U, keep=None, more=0):
    """units and Fourier flags of the kept axes, and the units of the properties, are as before"""
    k = list(range(len(U[0]))) if keep is None else keep; now = units_of(g)
    I.prove(name + '.units', now[0] == [U[0][i] for i in k] and now[1] == [U[1][i] for i in k] and now[2] == U[2] + ['None'] * more, lambda: '%r -> %r' % (U, now))
    I.prove(name + '.fourier_flags', now[3] == [U[3][i] for i in k])

def data_eq(I, name, g, n, P, fn):
    """every cell of every property of g holds fn(*cell, p)"""
    I.shape_is(name + '.shape', g.grid, list(n) + [P])
    I.forall(name, list(n) + [P], lambda *i: I.eq(I.at(g.grid, *i), fn(*i)))

def unchanged(I, name, now, before): I.arr_eq(name, now, before)

# ------------------------------------------------------------------ G02 construction
@contract('G02', covers=[F + 'Grid.__init__', F + 'Grid.init_grid'], params=[dict(nd=1), dict(nd=2), dict(nd=3)])
def ctor(I, nd):
    """constructor from centre, side and pixel size"""
    g, n, px, c, _ = mk_grid(I, nd, 2, data=False, units=True)
    wf(I, g, n, px, c, 2)
    g.init_grid()
    I.prove('active', g.grid_active)
    I.shape_is('data.shape', g.grid, list(n) + [2])
    I.forall('data.zero', list(n) + [2], lambda *i: I.eq(I.at(g.grid, *i), 0))

@contract('G02', covers=[F + 'Grid.__init__'], params=[dict(nd=1), dict(nd=2)], shards=2)
def ctor_any_side(I, nd):
    """side lengths that are not a multiple of the pixel size, scalars broadcast to all axes, integer input"""
    G = I.mod('simim.map.gridder')
    scal = I.flag('scalar'); ints = I.flag('ints', None if nd == 1 else [0])
    if ints:
        c = [I.int('c%d' % i) for i in range(nd)]; px0 = [I.int('px%d' % i, 1) for i in range(nd)]; s0 = [I.int('s%d' % i, 1, chi=9) for i in range(nd)]
    else:
        c = [I.real('c%d' % i) for i in range(nd)]; px0 = [I.real('px%d' % i, gt=0, span=1) for i in range(nd)]; s0 = [I.real('s%d' % i, gt=0, span=3, step=0.125) for i in range(nd)]
    if scal: px = [px0[0]] * nd; s = [s0[0]] * nd
    else: px, s = px0, s0
    for i in range(nd): I.assume(s[i] / px[i] >= 0.0625)
    g = G.Grid(1, c, s[0] if scal else s, px[0] if scal else px)
    n = [I.at(g.n_pixels, i) for i in range(nd)]
    for i in range(nd):
        I.assume(n[i] >= 1)
        I.prove('whole_pixels_cover', I.And(n[i] >= s[i] / px[i] - 0.0501, n[i] < s[i] / px[i] + 1.0001))
    wf(I, g, n, px, c, 1)

@contract('G02', covers=[F + 'GridFromAxes.__init__', F + 'GridFromAxesAndFunction.__init__'], params=[dict(nd=1), dict(nd=2), dict(nd=3)])
def from_axes(I, nd):
    """explicit edges"""
    G = I.mod('simim.map.gridder')
    n = [I.int('n%d' % i, 1, chi=4) for i in range(nd)]; px = [I.real('px%d' % i, gt=0, span=1) for i in range(nd)]; lo = [I.real('lo%d' % i, span=4) for i in range(nd)]
    axes = [I.np.arange(n[i] + 1) * px[i] + lo[i] for i in range(nd)]
    c = [lo[i] + n[i] * px[i] / 2 for i in range(nd)]
    g = G.GridFromAxes(*axes, n_properties=2)
    wf(I, g, n, px, c, 2)
    f = I.func('f', nd)
    sh = lambda i: [1] * i + [-1] + [1] * (nd - i - 1)
    def fun(*cs): return f(*[x.reshape(sh(i)) for i, x in enumerate(cs)])
    h = G.GridFromAxesAndFunction(fun, *axes)
    wf(I, h, n, px, c, 1)
    data_eq(I, 'populated', h, n, 1, lambda *i: f(*[lo[q] + i[q] * px[q] + px[q] / 2 for q in range(nd)]))

@contract('G02', covers=[F + 'GridFromAxes.__init__'], sym=False, weight=0.5)
def from_axes_float(I):
    """edges that are only approximately representable keep their number of cells"""
    G = I.mod('simim.map.gridder')
    n = I.int('n', 1, chi=40); px = I.choose('px', [0.1, 0.7, 1 / 3, 0.3, 1e-3, 2.1]); lo = I.choose('lo', [0.0, 0.1, -7.3, 100.7])
    ax = lo + I.np.arange(n + 1) * px if I.flag('ar') else I.np.linspace(lo, lo + n * px, n + 1)
    g = G.GridFromAxes(ax)
    wf(I, g, [n], [px], [lo + n * px / 2], 1)

@contract('G02', covers=[F + 'PSF.__init__', F + 'SpectralPSF.__init__'], params=[dict(nd=1), dict(nd=2)])
def psf(I, nd):
    """point-spread functions"""
    G = I.mod('simim.map.gridder')
    n = [I.int('n%d' % i, 1, chi=4) for i in range(nd)]; px = [I.real('px%d' % i, gt=0, span=1) for i in range(nd)]; fw = [I.real('fwhm%d' % i, gt=0, span=2) for i in range(nd)]
    norm = I.choose('norm', ['area', 'peak'])
    g = G.PSF(fw, px, side_length=[I.real_of(n[i]) * px[i] for i in range(nd)], norm=norm)
    wf(I, g, n, px, [0] * nd, 1)
    I.prove('active', g.grid_active)

@contract('G02', covers=[F + 'SpectralPSF.__init__'], params=[dict(nd=1)], sym=False, weight=0.5)
def spectral_psf(I, nd):
    """beams along a spectral axis"""
    G = I.mod('simim.map.gridder')
    n = [I.int('n%d' % i, 1, chi=3) for i in range(nd)]; px = [I.real('px%d' % i, gt=0, span=1) for i in range(nd)]; fw = [I.real('fwhm%d' % i, gt=0, span=2) for i in range(nd)]
    ns = I.int('ns', 2, chi=4); ds = I.real('ds', gt=0, span=1); s0 = I.real('s0', gt=0, span=3)
    spec = I.np.arange(ns) * ds + s0
    g = G.SpectralPSF(spec, I.real('spec0', gt=0, span=2), fw, px, side_length=[I.real_of(n[i]) * px[i] for i in range(nd)], norm=I.choose('norm', ['area', 'peak']))
    wf(I, g, n + [ns], px + [ds], [0] * nd + [s0 + (ns - 1) * ds / 2], 1)

# ------------------------------------------------------------------ pad / crop / scale / down_sample / collapse  (G02 geometry, G05 contents)
@contract(['G02', 'G05'], covers=[F + 'Grid.pad', F + '_unpad', F + '_axis_edges'], params=[dict(nd=1), dict(nd=2), dict(nd=3)], weight=2)
def pad(I, nd):
    """padding and unpadding any axes by any amounts"""
    geo = I.prop == 'G02'
    P = 1 if I.sym else I.choose('P', [1, 2])
    few = None if nd == 1 else [0]
    g, n, px, c, old = mk_grid(I, nd, P, fourier=geo, data=not (geo and I.flag('inactive', few)), units=True, q=few)
    U = units_of(g)
    ax = I.choose('ax', AX[nd], None if nd < 3 else [1, 3])
    scal = I.flag('scalar', few) if len(ax) > 1 else False
    w = [I.int('pad%d' % (0 if scal else j), -2, 3) if not (scal and j) else None for j in range(len(ax))]
    if not I.sym or nd == 3:
        pass
    if scal: w = [w[0]] * len(ax)
    val = I.real('val')
    for j, a in enumerate(ax): I.assume(n[a] + 2 * w[j] > 0)
    fsp = [bool(g.fourier_space[i]) for i in range(nd)]
    g.pad(ax, w[0] if scal else w, val) if I.flag('withval', [1] if nd > 1 else None) else (g.pad(ax, w[0] if scal else w), setattr(I, 'v0', 1))
    if getattr(I, 'v0', 0): val = 0
    W = [0] * nd
    for j, a in enumerate(ax): W[a] = w[j]
    n2 = [n[i] + 2 * W[i] for i in range(nd)]
    if geo:
        px2 = [n[i] * px[i] / n2[i] if fsp[i] else px[i] for i in range(nd)]
        wf(I, g, n2, px2, c, P)
        units_are(I, 'padded', g, U)
    else:
        data_eq(I, 'contents', g, n2, P, lambda *i: I.ite(I.And(*[I.And(i[q] - W[q] >= 0, i[q] - W[q] < n[q]) for q in range(nd)]),
                                                           lambda: I.at(old, *[i[q] - W[q] for q in range(nd)], i[nd]), val))

@contract(['G02', 'G05'], covers=[F + 'Grid.crop'], params=[dict(nd=1), dict(nd=2), dict(nd=3)], sym=False, weight=2)
def crop(I, nd):
    """cropping one axis to a range"""
    P = I.choose('P', [1, 2])
    active = I.flag('active')
    g, n, px, c, old = mk_grid(I, nd, P, data=active, nchi=6, units=True)
    U = units_of(g)
    a = I.choose('ax', list(range(nd)))
    lo = None if I.flag('nolo') else I.real('lo', step=0.125, span=8)
    hi = None if I.flag('nohi') else I.real('hi', step=0.125, span=8)
    cen = [c[a] - n[a] * px[a] / 2 + (k + 0.5) * px[a] for k in range(n[a])]
    keep = [k for k in range(n[a]) if (lo is None or cen[k] >= lo) and (hi is None or cen[k] <= hi)]
    inv = (lo is not None and hi is not None and hi <= lo)
    if not keep or inv or (lo is not None and hi is None and lo >= cen[-1] + px[a] / 2) or (hi is not None and lo is None and hi <= cen[0] - px[a] / 2):
        if I.raises(lambda: g.crop(a, lo, hi), ValueError):
            wf(I, g, n, px, c, P)
            if active: unchanged(I, 'refused_unchanged', g.grid, old)
            return
        I.fail('empty_crop_refused')
    g.crop(a, lo, hi)
    n2 = list(n); n2[a] = len(keep)
    c2 = list(c); c2[a] = c[a] - n[a] * px[a] / 2 + (keep[0] + len(keep) / 2) * px[a]
    if I.prop == 'G02': wf(I, g, n2, px, c2, P); units_are(I, 'cropped', g, U)
    elif active: data_eq(I, 'contents', g, n2, P, lambda *i: I.at(old, *[x + keep[0] if q == a else x for q, x in enumerate(i)]))

@contract(['G02'], covers=[F + 'Grid.scale_axis'], params=[dict(nd=1), dict(nd=2), dict(nd=3)])
def scale_axis(I, nd):
    """rescaling any axes by any positive factors"""
    g, n, px, c, _ = mk_grid(I, nd, 1, data=False, units=True, q=None if nd < 3 else [1])
    ax = I.choose('ax', AX[nd], None if nd < 3 else [1, 3, 6])
    scal = I.flag('scalar') if len(ax) > 1 else False
    f = [I.real('f%d' % j, gt=0, span=2) for j in range(1 if scal else len(ax))]
    if scal: f = f * len(ax)
    sc = I.flag('scalecenter')
    un = I.choose('newunits', ['same', None, 'longer_unit'] + ([['p%d' % j for j in range(len(ax))]] if len(ax) > 1 else []))
    oldu = [g.axunits[i] for i in range(nd)]
    g.scale_axis(ax, f[0] if scal else f, axunits=un, scalecenter=sc)
    px2 = list(px); c2 = list(c)
    for j, a in enumerate(ax):
        px2[a] = px[a] * f[j]
        if sc: c2[a] = c[a] * f[j]
    wf(I, g, n, px2, c2, 1)
    for i in range(nd):
        if i not in ax: e = oldu[i]
        elif un == 'same': e = oldu[i]
        else: e = un[ax.index(i)] if isinstance(un, list) else un
        I.prove('axunits', g.axunits[i] == e if e is not None else g.axunits[i] is None)
        I.prove('fourier_axunits', g.fourier_axunits[i] == e + '^-1' if e is not None else g.fourier_axunits[i] is None)

@contract(['G02', 'G05'], covers=[F + 'Grid.down_sample'], params=[dict(nd=1), dict(nd=2), dict(nd=3)], sym=False)
def down_sample(I, nd):
    """binning groups of cells"""
    P = I.choose('P', [1, 2]); active = I.flag('active')
    g, n, px, c, old = mk_grid(I, nd, P, data=active, nchi=7 if nd < 3 else 5, units=True)
    U = units_of(g)
    ax = I.choose('ax', AX[nd]); scal = I.flag('scalar') if len(ax) > 1 else False
    f = [I.int('f%d' % j, 1, chi=3) for j in range(1 if scal else len(ax))]
    if scal: f = f * len(ax)
    for j, a in enumerate(ax): I.assume(f[j] <= n[a])
    mode = I.choose('mode', ['average', 'sum'])
    arg = f[0] if scal or (len(f) == 1 and I.flag('asint')) else f
    g.down_sample(ax[0] if len(ax) == 1 and I.flag('axint') else ax, arg, mode)
    Fc = [1] * nd
    for j, a in enumerate(ax): Fc[a] = f[j]
    n2 = [n[i] // Fc[i] for i in range(nd)]
    if I.prop == 'G02':
        wf(I, g, n2, [px[i] * Fc[i] for i in range(nd)], [c[i] - n[i] * px[i] / 2 + n2[i] * Fc[i] * px[i] / 2 for i in range(nd)], P)
        units_are(I, 'sampled', g, U)
    elif active:
        cnt = 1
        for x in Fc: cnt *= x
        def exp(*i):
            s = I.sum(Fc, lambda *q: I.at(old, *[i[k] * Fc[k] + q[k] for k in range(nd)], i[nd]))
            return s / cnt if mode == 'average' else s
        data_eq(I, 'contents', g, n2, P, exp)

@contract(['G02', 'G05'], covers=[F + 'Grid.collapse_dimension'], params=[dict(nd=2), dict(nd=3)], weight=2)
def collapse(I, nd):
    """collapsing dimensions with or without weights, in place or not"""
    P = 2
    few = None if nd == 2 else [0]
    g, n, px, c, old = mk_grid(I, nd, P, fourier=I.prop == 'G02', units=True, q=[0] if I.prop == 'G05' else [1])
    U = units_of(g)
    axs = [a for a in AX[nd] if len(a) < nd]
    ax = I.choose('ax', axs, None if nd < 3 else [1, 3])
    mode = I.choose('mode', ['average', 'sum'])
    wk = I.choose('weights', ['none', '1d', 'full', 'props'], None if nd < 3 else [0, 1, 3])
    geo = I.prop == 'G02'
    ws = []
    for j, a in enumerate(ax):
        if wk == 'none': ws.append(None)
        elif wk == '1d': ws.append(I.array('w%d' % j, [n[a]], gt=0, span=3))
        elif wk == 'full': ws.append(I.array('w%d' % j, list(n), gt=0, span=3))
        else: ws.append(I.array('w%d' % j, list(n) + [P], gt=0, span=3))
    before = [I.snap(x) if x is not None else None for x in ws]
    inp = I.flag('in_place')
    warg = None if wk == 'none' else (ws[0] if len(ax) == 1 else list(ws))
    if len(ax) > 1 and isinstance(warg, list): ids = list(warg)
    r = g.collapse_dimension(ax[0] if len(ax) == 1 and I.flag('axint', few) else ax, in_place=inp, weights=warg, mode=mode)
    keep = [i for i in range(nd) if i not in ax]
    if inp: I.prove('returns_self', r is g)
    if geo:
        wf(I, r, [n[i] for i in keep], [px[i] for i in keep], [c[i] for i in keep], P)
        units_are(I, 'collapsed', r, U, keep)
        if not inp: wf(I, g, n, px, c, P, name='original'); units_are(I, 'original', g, U)
        return
    if not inp:
        I.prove('new_object', r is not g)
        unchanged(I, 'original_unchanged', g.grid, old)
    for j, x in enumerate(ws):
        if x is not None: unchanged(I, 'weights_unchanged', x, before[j])
    if isinstance(warg, list): I.prove('weight_list_unchanged', len(warg) == len(ids) and all(p is q for p, q in zip(warg, ids)))
    m = [n[i] for i in keep]
    def W(i, q):
        full = [None] * nd
        for k, v in zip(keep, i): full[k] = v
        for k, v in zip(ax, q): full[k] = v
        t = 1
        for j, a in enumerate(ax):
            if wk == '1d': t = t * I.at(ws[j], full[a])
            elif wk == 'full': t = t * I.at(ws[j], *full)
            elif wk == 'props': t = t * I.at(ws[j], *full, i[-1])
        return t, full
    ext = [n[a] for a in ax]
    def exp(*i):
        num = I.sum(ext, lambda *q: W(i, q)[0] * I.at(old, *W(i, q)[1], i[-1]))
        return num
    def den(*i): return I.sum(ext, lambda *q: I.real_of(W(i, q)[0]))
    I.shape_is('contents.shape', r.grid, m + [P])
    if mode == 'sum':
        data_eq(I, 'contents', r, m, P, exp)
    else:
        def chk(*i):
            d = den(*i)
            if I.sym: return I.Or(d == 0, I.eq(I.at(r.grid, *i), exp(*i) / d))
            return I.eq(I.at(r.grid, *i), exp(*i) / d, scale=30)
        I.forall('contents', m + [P], chk)

@contract(['G02', 'G05'], covers=[F + 'Grid.sum_properties', F + 'Grid.add_new_prop'], params=[dict(nd=1, P=3), dict(nd=2, P=2)])
def sum_properties(I, nd, P):
    """summing any subset of properties"""
    g, n, px, c, old = mk_grid(I, nd, P, units=True, fourier=True, power=True, q=None if nd == 1 else [0])
    props = I.choose('props', [None] + [list(s) for k in range(1, P + 1) for s in itertools.permutations(range(P), k)][:8])
    inp = I.flag('in_place')
    fl = [bool(x) for x in g.fourier_space]; pw = bool(g.is_power_spectrum); nobj = g.n_objects
    r = g.sum_properties(props, in_place=inp)
    sel = list(range(P)) if props is None else props
    tot = lambda i: sum_(I, [I.at(old, *i, p) for p in sel])
    if I.prop == 'G02':
        wf(I, r, n, px, c, P + 1 if inp else 1)
        I.prove('fourier_flags', [bool(x) for x in r.fourier_space] == fl and bool(r.is_power_spectrum) == pw)
        return
    if inp:
        I.prove('returns_self', r is g)
        data_eq(I, 'contents', g, n, P + 1, lambda *i: tot(i[:-1]) if _is(i[-1], P) else I.at(old, *i))
    else:
        data_eq(I, 'contents', r, n, 1, lambda *i: tot(i[:-1]))
        unchanged(I, 'original_unchanged', g.grid, old)

def sum_(I, xs):
    t = xs[0]
    for x in xs[1:]: t = t + x
    return t
def _is(a, b): return int(a) == b

@contract(['G02', 'G05'], covers=[F + 'Grid.add_new_prop'], params=[dict(nd=1), dict(nd=2)])
def add_new_prop(I, nd):
    """appending property planes"""
    P = 2
    active = I.flag('active')
    g, n, px, c, old = mk_grid(I, nd, P, units=True, data=active)
    if not active:
        g.add_new_prop()
        wf(I, g, n, px, c, P + 1)
        g.init_grid(); wf(I, g, n, px, c, P + 1)
        return
    k = I.choose('kind', ['none', 'plain', 'one', 'two'])
    K = 2 if k == 'two' else 1
    v = None if k == 'none' else I.array('v', list(n) + ([] if k == 'plain' else [K]))
    g.add_new_prop(v)
    if I.prop == 'G02': wf(I, g, n, px, c, P + K); return
    data_eq(I, 'contents', g, n, P + K, lambda *i: I.at(old, *i) if int(i[-1]) < P else (0 if k == 'none' else I.at(v, *i[:-1]) if k == 'plain' else I.at(v, *i[:-1], int(i[-1]) - P)))

@contract(['G06', 'G02'], covers=[F + 'Grid.copy', F + 'Grid.copy_axes'], params=[dict(nd=1, P=2), dict(nd=2, P=3), dict(nd=3, P=1)])
def copy(I, nd, P):
    """copies reproduce the grid and share nothing with it"""
    active = I.flag('active')
    g, n, px, c, old = mk_grid(I, nd, P, data=active, units=True, fourier=True, power=True, q=None if nd == 1 else [1])
    props = I.choose('props', [None] + [list(s) for k in range(1, P + 1) for s in itertools.permutations(range(P), k)][:8], None if nd == 1 else [0, 2, 4])
    nobj = g.n_objects
    h = g.copy(props)
    sel = list(range(P)) if props is None else props
    wf(I, h, n, px, c, len(sel))
    I.prove('fourier_flags', [bool(x) for x in h.fourier_space] == [bool(x) for x in g.fourier_space] and bool(h.is_power_spectrum) == bool(g.is_power_spectrum))
    if I.prop == 'G02': return
    I.prove('units', [str(x) for x in h.axunits] == [str(x) for x in g.axunits] and [str(x) for x in h.gridunits] == [str(g.gridunits[p]) for p in sel] and [str(x) for x in h.fourier_axunits] == [str(x) for x in g.fourier_axunits])
    I.prove('active', h.grid_active == active)
    if not active: return
    I.prove('n_objects', I.eq(h.n_objects, nobj))
    data_eq(I, 'contents', h, n, len(sel), lambda *i: I.at(old, *i[:-1], sel[int(i[-1])]))
    # independence, both ways
    def scribble(q):
        q.grid[...] = 7.5
        q.center_point[0] = q.center_point[0] + 1; q.side_length[0] = q.side_length[0] * 2; q.pixel_size[0] = q.pixel_size[0] * 2
        q.n_pixels[0] = q.n_pixels[0] + 1
        q.fourier_space[0] = not bool(q.fourier_space[0])
        for L in (q.axes, q.axes_centers, q.fourier_axes, q.fourier_axes_centers): L[0] += 1; L[-1] = L[-1] * 2
        q.n_objects = q.n_objects + 1
    fl = [bool(x) for x in g.fourier_space]
    first, second = (h, g) if I.flag('which') else (g, h)
    if second is g:
        scribble(h)
        wf(I, g, n, px, c, P, name='original'); unchanged(I, 'original.contents', g.grid, old)
        I.prove('original.flags', [bool(x) for x in g.fourier_space] == fl and I.eq(g.n_objects, nobj))
    else:
        scribble(g)
        wf(I, h, n, px, c, len(sel), name='copy')
        data_eq(I, 'copy.contents', h, n, len(sel), lambda *i: I.at(old, *i[:-1], sel[int(i[-1])]))
        I.prove('copy.flags', [bool(x) for x in h.fourier_space] == fl and I.eq(h.n_objects, nobj))

@contract(['G06', 'G02'], covers=[F + 'Grid.copy_axes'], params=[dict(nd=2)])
def copy_axes(I, nd):
    """same axes, any number of properties"""
    P = 2
    g, n, px, c, old = mk_grid(I, nd, P, units=True)
    m = I.choose('m', [1, 2, 3])
    h = g.copy_axes(m)
    wf(I, h, n, px, c, m)
    I.prove('inactive', not h.grid_active)
    I.prove('axunits', [str(x) for x in h.axunits] == [str(x) for x in g.axunits])
    unchanged(I, 'original_unchanged', g.grid, old)

@contract('G06', covers=[F + 'Grid.save', F + 'LoadGrid.__init__'], params=[dict(nd=1, P=2), dict(nd=2, P=1), dict(nd=3, P=2)], sym=False, weight=2)
def save_load(I, nd, P):
    """saving and loading reproduces the grid; saving never clobbers"""
    import os
    G = I.mod('simim.map.gridder')
    active = I.flag('active')
    g, n, px, c, old = mk_grid(I, nd, P, data=active, units=True, fourier=True, power=True, nchi=3)
    if active and I.flag('complex'): g.grid = g.grid + 1j * g.grid[::-1]; old = g.grid.copy()
    d = I.tmpdir()
    name = I.choose('name', ['a', 'a.npz', 'x.y', 'with space', '.hidden'])
    p = os.path.join(d, name); comp = I.flag('compress')
    nobj = g.n_objects
    import pathlib
    asp = I.flag('pathlib') and name.endswith('.npz')
    g.save(pathlib.Path(p) if asp else p, compress=comp)
    q = p if p.endswith('.npz') else p + '.npz'
    if not os.path.exists(q): q = p
    I.prove('file_written', os.path.exists(q))
    h = G.LoadGrid(q)
    wf(I, h, n, px, c, P)
    I.prove('flags', [bool(x) for x in h.fourier_space] == [bool(x) for x in g.fourier_space] and bool(h.is_power_spectrum) == bool(g.is_power_spectrum) and bool(h.grid_active) == active)
    I.prove('units', [str(x) for x in h.axunits] == [str(x) for x in g.axunits] and [str(x) for x in h.gridunits] == [str(x) for x in g.gridunits] and [str(x) for x in h.fourier_axunits] == [str(x) for x in g.fourier_axunits])
    if active:
        I.prove('n_objects', int(h.n_objects) == nobj)
        I.prove('contents', h.grid.shape == old.shape and h.grid.dtype == old.dtype and bool((h.grid == old).all()))
        I.prove('source_unchanged', bool((g.grid == old).all()))
    # clobbering
    before = open(q, 'rb').read()
    other = G.Grid(1, [0.], [1.], [1.]); other.init_grid()
    again = I.choose('again', ['same', 'ext', 'noext'])
    p2 = p if again == 'same' else (q if again == 'ext' else (q[:-4] if q.endswith('.npz') else q))
    I.prove('refuses_to_clobber', I.raises(lambda: other.save(p2, compress=I.flag('compress2'))))
    I.prove('file_untouched', open(q, 'rb').read() == before)
    I.prove('directory_untouched', len(os.listdir(d)) == 1)
    other.save(q, overwrite=True)
    h2 = G.LoadGrid(q)
    I.prove('overwritten', h2.n_dimensions == 1 and int(h2.n_properties) == 1)

# ------------------------------------------------------------------ G01
def cell_has(I, n, px, c, pos, k, idx, axes=None):
    """position k lies in the half-open bounds of cell idx"""
    axes = list(range(len(n))) if axes is None else axes
    t = []
    for j, i in enumerate(axes):
        lo = c[i] - n[i] * px[i] / 2 + idx[j] * px[i]
        x = I.at(pos, k, j)
        t += [lo <= x, x < lo + px[i]]
    return I.And(*t)
def in_grid(I, n, px, c, pos, k, axes=None):
    axes = list(range(len(n))) if axes is None else axes
    t = []
    for j, i in enumerate(axes):
        x = I.at(pos, k, j)
        t += [c[i] - n[i] * px[i] / 2 <= x, x < c[i] - n[i] * px[i] / 2 + n[i] * px[i]]
    return I.And(*t)

def mk_pos(I, name, N, c, ints=False, step=0.125, span=3):
    nd = len(c)
    if ints: return I.array(name, [N, nd], kind='i', lo=None if I.sym else -5, hi=None if I.sym else 5)
    if I.sym: return I.array(name, [N, nd])
    rel = I.array(name + '_rel', [N, nd], lo=-span, hi=span, step=step)
    return rel + I.np.array(c).reshape((1, nd))

def mk_vals(I, kind, N, P, name='vals', ints=False):
    """values argument and the value of object k for selected property number j"""
    if kind == 'none': return None, lambda k, j: 1
    if kind == '1d':
        v = I.array(name, [N], kind='i' if ints else 'f', fine=True); return v, lambda k, j: I.at(v, k)
    if kind == '2d1':
        v = I.array(name, [N, 1], fine=True); return v, lambda k, j: I.at(v, k, 0)
    v = I.array(name, [N, P], fine=True); return v, lambda k, j: I.at(v, k, j)

@contract('G01', covers=[F + 'Grid.add_from_cat'], params=[dict(nd=1, P=1), dict(nd=1, P=3), dict(nd=2, P=2), dict(nd=3, P=1), dict(nd=3, P=2)], weight=4)
def add_from_cat(I, nd, P):
    """objects are added to exactly their own cells, for exactly the selected properties"""
    g, n, px, c, old = mk_grid(I, nd, P)
    N = I.int('N', 1, chi=8)
    props = I.choose('props', [None] + [list(s) for k in range(1, P + 1) for s in itertools.permutations(range(P), k)][:6])
    sel = list(range(P)) if props is None else props
    kind = I.choose('values', ['none', '1d', '2d1'] + (['2dk'] if len(sel) > 1 else []))
    ints = I.flag('intpos')
    pos = mk_pos(I, 'pos', N, c, ints)
    v, val = mk_vals(I, kind, N, len(sel), ints=not I.sym and I.flag('intvals'))
    p0, v0 = I.snap(pos), (I.snap(v) if v is not None else None); nobj = g.n_objects
    parg = props if props is None or len(props) > 1 or I.flag('plist') else props[0]
    g.add_from_cat(pos, v, properties=parg)
    I.prove('n_properties', I.eq(g.n_properties, P))
    def exp(*i):
        p = int(i[-1])
        if p not in sel: return I.at(old, *i)
        j = sel.index(p)
        return I.at(old, *i) + I.sum([N], lambda k: I.ite(cell_has(I, n, px, c, p0, k, i), lambda: I.real_of(val(k, j)), 0))
    data_eq(I, 'cells', g, n, P, exp)
    I.prove('n_objects', I.eq(g.n_objects, nobj + I.sum([N], lambda k: I.ite(in_grid(I, n, px, c, p0, k), 1, 0))))
    unchanged(I, 'positions_unchanged', pos, p0)
    if v is not None: unchanged(I, 'values_unchanged', v, v0)

@contract('G01', covers=[F + 'Grid.add_from_cat', F + 'Grid.add_new_prop'], params=[dict(nd=1, P=2), dict(nd=2, P=1), dict(nd=3, P=1)], weight=2)
def add_from_cat_new(I, nd, P):
    """new_props appends planes and leaves the old ones alone"""
    g, n, px, c, old = mk_grid(I, nd, P, units=True)
    N = I.int('N', 0 if not I.sym else 1, chi=8)
    kind = I.choose('values', ['none', '1d', '2d1', '2dk']); K = 2 if kind == '2dk' else 1
    pos = mk_pos(I, 'pos', N, c); v, val = mk_vals(I, kind, N, K)
    p0 = I.snap(pos); v0 = I.snap(v) if v is not None else None; nobj = g.n_objects
    g.add_from_cat(pos, v, new_props=True, properties=None if I.flag('p') else 0)
    I.prove('n_properties', I.eq(g.n_properties, P + K)); I.prove('gridunits', I.eq(len(g.gridunits), P + K))
    def exp(*i):
        p = int(i[-1])
        if p < P: return I.at(old, *i)
        return I.sum([N], lambda k: I.ite(cell_has(I, n, px, c, p0, k, i), lambda: I.real_of(val(k, p - P)), 0))
    data_eq(I, 'cells', g, n, P + K, exp)
    I.prove('n_objects', I.eq(g.n_objects, nobj + I.sum([N], lambda k: I.ite(in_grid(I, n, px, c, p0, k), 1, 0))))
    unchanged(I, 'positions_unchanged', pos, p0)
    if v is not None: unchanged(I, 'values_unchanged', v, v0)

@contract('G01', covers=[F + 'Grid.add_from_cat'], params=[dict(nd=1), dict(nd=2)], weight=0.5)
def add_from_cat_empty(I, nd):
    """an empty catalogue changes no cell"""
    P = 2
    g, n, px, c, old = mk_grid(I, nd, P); nobj = g.n_objects
    new = I.flag('new')
    shape = I.choose('shape', ['flat', 'n0', 'list'])
    pos = [] if shape == 'list' else I.np.zeros(0) if shape == 'flat' else I.np.zeros((0, nd))
    vk = I.choose('vals', ['none', '1d', '2d'])
    v = None if vk == 'none' else I.np.zeros(0) if vk == '1d' else I.np.zeros((0, 2))
    K = 2 if vk == '2d' else 1
    g.add_from_cat(pos, v, new_props=new)
    I.prove('n_properties', I.eq(g.n_properties, P + K if new else P))
    data_eq(I, 'cells', g, n, P + K if new else P, lambda *i: I.at(old, *i) if int(i[-1]) < P else 0)
    I.prove('n_objects', I.eq(g.n_objects, nobj))

@contract('G01', covers=[F + 'Grid.add_from_cat'], params=[dict(nd=2)], weight=0.5)
def add_from_cat_refused(I, nd):
    """inactive or Fourier-space grids and unknown properties are refused and stay as they were"""
    P = 2
    what = I.choose('what', ['inactive', 'fourier', 'prop', 'ncol', 'len'])
    g, n, px, c, old = mk_grid(I, nd, P, data=what != 'inactive'); nobj = g.n_objects
    N = I.int('N', 1, chi=4)
    pos = mk_pos(I, 'pos', N, c)
    if what == 'fourier': g.fourier_space[I.choose('fax', [0, 1])] = True
    kw = {}
    if what == 'prop': kw['properties'] = I.choose('bad', [[2], [-1], [0, 5]])
    if what == 'ncol': kw['values'] = I.array('v', [N, 3])
    if what == 'len': kw['values'] = I.array('v', [N + 1])
    I.prove('refused', I.raises(lambda: g.add_from_cat(pos, **kw)))
    I.prove('n_objects', I.eq(g.n_objects, nobj))
    if what != 'inactive': unchanged(I, 'cells', g.grid, old)

@contract('G01', covers=[F + 'Gridder.__init__', F + 'gridder_function'], params=[dict(nd=1, P=1), dict(nd=2, P=2)], weight=1.5)
def gridder(I, nd, P):
    """a Gridder with an explicit extent holds its catalogue"""
    G = I.mod('simim.map.gridder')
    n = [I.int('n%d' % i, 1, chi=4) for i in range(nd)]; px = [I.real('px%d' % i, gt=0, span=1) for i in range(nd)]; c = [I.real('c%d' % i, span=4) for i in range(nd)]
    N = I.int('N', 1, chi=8)
    kind = I.choose('values', ['none', '1d', '2d1', '2dk'] if P > 1 else ['none', '1d', '2d1']); K = P if kind == '2dk' else 1
    ints = I.flag('intpos')
    pos = mk_pos(I, 'pos', N, c, ints); v, val = mk_vals(I, kind, N, K)
    p0 = I.snap(pos); v0 = I.snap(v) if v is not None else None
    side = [I.real_of(n[i]) * px[i] for i in range(nd)]
    fn = I.flag('function')
    if fn:
        grid, axes = G.gridder_function(pos, v, c, side, px)
        class _o: pass
        g = _o(); g.grid = grid
        for i in range(nd): I.forall('axes', [n[i] + 1], lambda k: I.eq(I.at(axes[i], k), c[i] - n[i] * px[i] / 2 + k * px[i], scale=S(I, c[i], n[i] * px[i])))
    else:
        g = G.Gridder(pos, v, c, side, px)
        I.prove('n_objects', I.eq(g.n_objects, I.sum([N], lambda k: I.ite(in_grid(I, n, px, c, p0, k), 1, 0))))
    data_eq(I, 'cells', g, n, K, lambda *i: I.sum([N], lambda k: I.ite(cell_has(I, n, px, c, p0, k, i), lambda: I.real_of(val(k, int(i[-1]))), 0)))
    unchanged(I, 'positions_unchanged', pos, p0)
    if v is not None: unchanged(I, 'values_unchanged', v, v0)

@contract('G01', covers=[F + 'Gridder.__init__'], params=[dict(nd=1), dict(nd=2), dict(nd=3)], weight=1.5, sym=False)
def gridder_auto(I, nd):
    """with no extent given every object lands in the grid"""
    G = I.mod('simim.map.gridder')
    N = I.int('N', 1, chi=8)
    pos = mk_pos(I, 'pos', N, [I.real('c%d' % i) for i in range(nd)], I.flag('ints'))
    px = I.choose('px', [1, 0.1, 0.3, 2.0, 0.37, 5, [0.5 + 0.25 * i for i in range(nd)]])
    v = I.array('v', [N], lo=1, hi=4)
    g = G.Gridder(pos, v, pixel_size=px)
    I.prove('every_object_counted', g.n_objects == N)
    I.prove('total', I.eq(g.grid.sum(), v.sum()))
    pxs = [float(px)] * nd if not isinstance(px, list) else px
    for i in range(nd):
        I.prove('cells_cover', bool((pos[:, i] >= g.axes[i][0] - 1e-9).all() and (pos[:, i] <= g.axes[i][-1] + 1e-9).all()))
        I.prove('pixel', I.eq(g.pixel_size[i], pxs[i]))
    for k in range(N):
        idx = [int(I.np.floor((pos[k, i] - g.axes[i][0]) / g.pixel_size[i] + (0))) for i in range(nd)]
    # content against the grid's own edges, away from rounding at the edges
    exp = I.np.zeros(g.grid.shape)
    ok = True
    for k in range(N):
        ix = []
        for i in range(nd):
            t = (pos[k, i] - g.axes[i][0]) / g.pixel_size[i]
            if abs(t - round(t)) < 1e-6: ok = False
            ix.append(int(I.np.floor(t)))
        if ok: exp[tuple(ix) + (0,)] += v[k]
    if ok: I.arr_eq('cells', g.grid, exp)

# ------------------------------------------------------------------ G03
@contract('G03', covers=[F + 'Grid.sample'], params=[dict(nd=1, P=1), dict(nd=1, P=3), dict(nd=2, P=2), dict(nd=3, P=1)], weight=3)
def sample(I, nd, P):
    """value of the containing cell, NaN outside"""
    g, n, px, c, old = mk_grid(I, nd, P)
    N = I.int('N', 1, chi=8)
    ints = I.flag('intpos')
    pos = mk_pos(I, 'pos', N, c, ints); p0 = I.snap(pos)
    props = I.choose('props', [None] + [list(s) for k in range(1, P + 1) for s in itertools.permutations(range(P), k)] + ([[1, 1, 0]] if P > 1 else []))
    sel = list(range(P)) if props is None else props
    parg = props if props is None or len(props) > 1 or I.flag('plist') else props[0]
    r = g.sample(pos, parg)
    I.shape_is('shape', r, [N, len(sel)])
    def chk(k, j):
        x = I.at(r, k, j)
        inb = in_grid(I, n, px, c, p0, k)
        if not I.sym:
            if not inb: return I.isnan(x)
            idx = [int(I.floor((p0[k, i] - c[i] + n[i] * px[i] / 2) / px[i])) for i in range(nd)]
            return cell_has(I, n, px, c, p0, k, idx) and I.eq(x, old[tuple(idx) + (sel[j],)])
        idx = [I.floor((I.at(p0, k, i) - c[i] + n[i] * px[i] / 2) / px[i]) for i in range(nd)]
        return I.implies(inb, lambda: I.And(*[I.And(q >= 0, q < m) for q, m in zip(idx, n)], I.Not(I.isnan(x)), lambda: I.eq(x, I.at(old, *idx, sel[int(j)]))))
    I.forall('values', [N, len(sel)], chk)
    if I.sym: I.forall('nan_outside', [N, len(sel)], lambda k, j: I.Or(in_grid(I, n, px, c, p0, k), I.isnan(I.at(r, k, j))))
    unchanged(I, 'grid_unchanged', g.grid, old); unchanged(I, 'positions_unchanged', pos, p0)

@contract('G03', covers=[F + 'Grid.sample'], params=[dict(nd=1), dict(nd=2)], weight=0.5)
def sample_empty(I, nd):
    """no positions: an empty table of the right width; unknown properties refused"""
    g, n, px, c, old = mk_grid(I, nd, 2)
    if I.flag('bad'):
        pos = mk_pos(I, 'pos', I.int('N', 1, chi=3), c)
        I.prove('unknown_property_refused', I.raises(lambda: g.sample(pos, I.choose('props', [[2], [-1], [0, 7]]))))
    else:
        r = g.sample(I.np.zeros((0, nd)), I.choose('props', [None, [1], [1, 0]]))
        I.prove('rows', I.eq(I.np.array(r).shape[0], 0))
    unchanged(I, 'grid_unchanged', g.grid, old)

# ------------------------------------------------------------------ G04
@contract('G04', covers=[F + 'Grid.add_from_pos_plus_array'], params=[dict(nd=2, P=1), dict(nd=2, P=2), dict(nd=3, P=1)], weight=3)
def add_from_pos_plus_array(I, nd, P):
    """each spectrum goes along the spectral axis of its own column"""
    g, n, px, c, old = mk_grid(I, nd, P)
    ax = I.choose('ax', [-1] + list(range(nd))); a = ax % nd
    tr = [i for i in range(nd) if i != a]
    N = I.int('N', 1, chi=6)
    new = I.flag('new')
    props = None if new else I.choose('props', [None] + [list(s) for k in range(1, P + 1) for s in itertools.permutations(range(P), k)])
    sel = list(range(P)) if props is None else props
    pos = mk_pos(I, 'pos', N, [c[i] for i in tr]); v = I.array('v', [N, n[a]])
    p0, v0 = I.snap(pos), I.snap(v); nobj = g.n_objects
    g.add_from_pos_plus_array(pos, v, ax=ax, new_prop=new, properties=props)
    Pn = P + 1 if new else P
    I.prove('n_properties', I.eq(g.n_properties, Pn))
    def exp(*i):
        p = int(i[-1])
        base = I.at(old, *i) if p < P else 0
        if (new and p < P) or (not new and p not in sel): return base
        cell = [i[q] for q in tr]
        return base + I.sum([N], lambda k: I.ite(cell_has(I, n, px, c, p0, k, cell, tr), lambda: I.at(v0, k, i[a]), 0))
    data_eq(I, 'cells', g, n, Pn, exp)
    I.prove('n_objects', I.eq(g.n_objects, nobj + I.sum([N], lambda k: I.ite(in_grid(I, n, px, c, p0, k, tr), 1, 0))))
    unchanged(I, 'positions_unchanged', pos, p0); unchanged(I, 'values_unchanged', v, v0)

@contract('G04', covers=[F + 'Grid.add_from_spec_func'], params=[dict(nd=2, P=1), dict(nd=3, P=2)], weight=3, shards=4)
def add_from_spec_func(I, nd, P):
    """spectra from a function: centres or differenced edges, chunked or looped"""
    g, n, px, c, old = mk_grid(I, nd, P)
    ax = I.choose('ax', [-1] + list(range(nd)), None if nd == 2 else [0, 2]); a = ax % nd
    tr = [i for i in range(nd) if i != a]
    N = I.int('N', 1, chi=6)
    new = I.flag('new'); cum = I.flag('cumulative'); loop = False if I.sym else I.flag('loop')
    fq = None if nd == 2 else [0]
    careful = I.flag('careful')
    props = None if new else I.choose('props', [None] + [[p] for p in range(P)])
    sel = list(range(P)) if props is None else props
    argk = I.choose('argk', ['2d', '1d', 'none'], fq)
    K = 2 if argk == '2d' else 1
    pos = mk_pos(I, 'pos', N, [c[i] for i in tr])
    args = None if argk == 'none' else I.array('args', [N, K] if argk == '2d' else [N])
    f = I.func('f', 1 + (0 if argk == 'none' else K))
    def spec(axis, par):
        x = axis.reshape((1, -1))
        if argk == 'none': return f(x) + I.np.zeros((par.shape[0], 1))
        return f(x, *[par[:, j].reshape((-1, 1)) for j in range(K)])
    if I.sym and careful:
        tot = 1
        for q in tr: tot = tot * n[q]
        if I.flag('twochunks'): I.assume(N > tot); I.assume(N <= 2 * tot)
        else: I.assume(N <= tot)
    p0 = I.snap(pos); a0 = I.snap(args) if args is not None else None; nobj = g.n_objects
    g.add_from_spec_func(pos, spec, args, spec_ax=ax, is_cumulative=cum, eval_as_loop=loop, careful_with_memory=careful, new_prop=new, properties=props)
    Pn = P + 1 if new else P
    I.prove('n_properties', I.eq(g.n_properties, Pn))
    A = lambda k: [] if argk == 'none' else [I.at(a0, k)] if argk == '1d' else [I.at(a0, k, j) for j in range(K)]
    lo = c[a] - n[a] * px[a] / 2
    def val(k, m):
        if cum: return f(lo + (m + 1) * px[a], *A(k)) - f(lo + m * px[a], *A(k))
        return f(lo + m * px[a] + px[a] / 2, *A(k))
    def exp(*i):
        p = int(i[-1])
        base = I.at(old, *i) if p < P else 0
        if (new and p < P) or (not new and p not in sel): return base
        cell = [i[q] for q in tr]
        return base + I.sum([N], lambda k: I.ite(cell_has(I, n, px, c, p0, k, cell, tr), lambda: val(k, i[a]), 0))
    data_eq(I, 'cells', g, n, Pn, exp)
    I.prove('n_objects', I.eq(g.n_objects, nobj + I.sum([N], lambda k: I.ite(in_grid(I, n, px, c, p0, k, tr), 1, 0))))
    unchanged(I, 'positions_unchanged', pos, p0)
    if args is not None: unchanged(I, 'arguments_unchanged', args, a0)

@contract('G04', covers=[F + 'Grid.add_from_spec_func', F + 'Grid.add_from_pos_plus_array'], params=[dict(nd=2), dict(nd=3)], weight=0.5)
def spec_empty(I, nd):
    """no objects: nothing but the requested new property"""
    g, n, px, c, old = mk_grid(I, nd, 1); nobj = g.n_objects
    new = I.flag('new')
    pos = I.choose('shape', [[], 'flat', 'n0'])
    pos = [] if pos == [] else I.np.zeros(0) if pos == 'flat' else I.np.zeros((0, nd - 1))
    if I.flag('func'): g.add_from_spec_func(pos, lambda a, p: 1 / 0, new_prop=new)
    else: g.add_from_pos_plus_array(pos, I.np.zeros((0, 3)), new_prop=new)
    I.prove('n_properties', I.eq(g.n_properties, 2 if new else 1))
    data_eq(I, 'cells', g, n, 2 if new else 1, lambda *i: I.at(old, *i) if int(i[-1]) == 0 else 0)
    I.prove('n_objects', I.eq(g.n_objects, nobj))
