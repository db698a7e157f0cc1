"""Convolution and point-spread kernels (G10)"""
import itertools
from vc.api import contract
from contracts.grid import mk_grid, wf, unchanged, units_of, units_are, F, S

CAX = {1: [[0]], 2: [[0], [1], [0, 1], [1, 0]], 3: [[0], [2], [0, 1], [1, 2], [2, 0], [0, 1, 2]]}

@contract('G10', covers=[F + 'Grid.convolve', F + 'Grid.pad', F + '_unpad'], params=[dict(nd=d, P=p) for d, p in ((1, 2), (2, 1), (2, 2), (3, 1))], weight=2)
def convolve(I, nd, P):
    """the direct sum around every cell, on the same grid, with or without padding, in place or not"""
    np = I.np; few = [0] if nd > 2 else None
    g, n, px, c, old = mk_grid(I, nd, P, nchi=4, units=True, q=[1]); U = units_of(g); nobj = g.n_objects
    lower = nd > 1 and I.flag('fewer_dimensions', quick=[0, 1] if P == 1 else [0])      # the kernel has fewer dimensions than the map
    sd = nd - 1 if lower else nd
    ax = [a for a in I.choose('ax', [a for a in CAX[nd] if max(a) < sd] + ['all'], quick=None if nd < 3 else [0, 2, -1]) ] if not lower or nd > 2 or I.flag('named', quick=[1]) else ['all']
    every = ax == list('all') or ax == ['all']
    axs = list(range(sd)) if every else ax
    one = I.flag('int_axis', quick=[0]) and not every and len(axs) == 1
    K = []; k1 = []
    for a in range(sd):
        if a in axs: K.append(I.choose('K%d' % a, [1, 2, 3, 4] if not I.sym else [1, 2, 3], quick=[2] if nd < 3 else [1])); k1.append(False)
        else: k1.append(I.flag('same_for_all%d' % a, quick=[a % 2])); K.append(1 if k1[-1] else n[a])
    Q = 1 if P == 1 or I.flag('one_kernel', quick=[0, 1]) else P
    G = I.mod('simim.map.gridder')
    s = G.Grid(Q, [0.0] * sd, [I.real_of(K[a]) * px[a] for a in range(sd)], [px[a] for a in range(sd)]); s.init_grid()
    kv = I.array('kernel', list(K) + [Q], fine=True); s.grid = kv; k0 = I.snap(kv)
    place = I.flag('in_place', quick=[1] if nd == 3 else None)
    pad = I.choose('pad', ['none', 'int', 'each'], quick=[0, 1] if nd == 1 else [0] if nd == 3 else [0, 2])
    w = None if pad == 'none' else I.choose('pad_by', [0, 1, 2], quick=[1]) if pad == 'int' else [I.choose('pad%d' % j, [0, 1, 2], quick=[(j + 1) % 3]) for j in range(len(axs))]
    r = g.convolve(s, None if every else axs[0] if one else axs, **({} if place and I.flag('default', quick=[1]) else {'in_place': place}), **({} if w is None else {'pad': w}))
    I.prove('in_place', (r is g) == place)
    wf(I, r, n, px, c, P); units_are(I, 'units', r, U); I.prove('n_objects', I.eq(r.n_objects, nobj))
    big = 0.0 if I.sym else float(abs(old).max()) * float(abs(k0).sum())
    def value(*i):
        p = i[nd]; q = p if Q > 1 else 0
        tot = 0
        for u in itertools.product(*[range(K[a]) for a in axs]):
            cell = list(i[:nd]); kk = [0 if k1[a] else cell[a] for a in range(sd)]
            for a, v in zip(axs, u): cell[a] = i[a] + (K[a] - 1) // 2 - v; kk[a] = v
            inside = I.And(*[I.And(cell[a] >= 0, cell[a] < n[a]) for a in axs])
            tot = tot + I.ite(inside, (lambda cell=cell, kk=kk: I.at(old, *cell, p) * I.at(k0, *kk, q)), 0.0)
        return I.eq(I.at(r.grid, *i), tot, scale=None if I.sym else 1 + big)
    I.shape_is('shape', r.grid, list(n) + [P]); I.forall('value', list(n) + [P], value)
    unchanged(I, 'kernel_unchanged', s.grid, k0)
    if not place: unchanged(I, 'map_unchanged', g.grid, old); wf(I, g, n, px, c, P, name='map')

@contract('G10', covers=[F + 'Grid.convolve'], weight=0.4)
def convolve_refused(I):
    """requests that make no sense are refused and leave the map as it was"""
    g, n, px, c, old = mk_grid(I, 2, 1); G = I.mod('simim.map.gridder')
    s = G.Grid(1, [0.0, 0.0], [1.0, 1.0], [1.0, 1.0]); s.init_grid(); place = I.flag('in_place')
    what = I.choose('what', ['axis', 'negative', 'pad', 'pad2', 'pad3', 'dims', 'inactive', 'kernel_inactive', 'fourier', 'fourier_other', 'power'])
    kw = {'axis': dict(ax=[2]), 'negative': dict(ax=[-1]), 'pad': dict(ax=[0], pad=[1, 1]), 'pad2': dict(pad=[1]), 'pad3': dict(ax=[1], pad=[0, 2])}.get(what, {})
    h = g
    if what == 'dims': s = G.Grid(1, [0.0] * 3, [1.0] * 3, [1.0] * 3); s.init_grid()
    if what == 'inactive': h = g.copy_axes()
    if what == 'kernel_inactive': s = s.copy_axes()
    if what == 'fourier': g.fourier_space[I.choose('which', [0, 1])] = True
    if what == 'fourier_other': g.fourier_space[1] = True; kw = dict(ax=[0])
    if what == 'power': g.is_power_spectrum = True
    I.prove('refused', I.raises(lambda: h.convolve(s, in_place=place, **kw), ValueError))
    I.shape_is('shape', g.grid, list(n) + [1]); unchanged(I, 'map_unchanged', g.grid, old)
    I.prove('pixels', I.And(*[I.eq(I.at(g.n_pixels, i), n[i]) for i in range(2)]))

def half(I, x, f):
    """a Gaussian of full width at half maximum f at offset x"""
    s = f / (2 * I.np.sqrt(2 * I.np.log(2)))
    return I.np.exp(-x ** 2 / (2 * s ** 2))

@contract('G10', covers=[F + 'PSF.__init__'], params=[dict(nd=1), dict(nd=2)])
def psf_values(I, nd):
    """a Gaussian of the stated full width along each axis, with unit peak or unit sum; six widths wide unless asked otherwise"""
    G = I.mod('simim.map.gridder'); np = I.np
    n = [I.int('n%d' % i, 1, chi=5) for i in range(nd)]; px = [I.real('px%d' % i, gt=0, span=1) for i in range(nd)]; fw = [I.real('fwhm%d' % i, gt=0, span=2) for i in range(nd)]
    norm = I.choose('norm', ['area', 'peak']); equal = nd > 1 and I.flag('scalars', quick=[0])
    if equal: n = [n[0]] * nd; px = [px[0]] * nd
    side = [I.real_of(n[i]) * px[i] for i in range(nd)]
    g = G.PSF(fw if nd > 1 or I.flag('list') else fw[0], px[0] if equal or (nd == 1 and I.flag('number')) else px, side_length=side[0] if equal else side, **({} if norm == 'area' and I.flag('default') else {'norm': norm}))
    wf(I, g, n, px, [0] * nd, 1); I.prove('active', g.grid_active)
    def at(*i):
        v = 1.0
        for a in range(nd): v = v * half(I, I.at(g.axes_centers[a], i[a]), fw[a])      # the centres are those of the geometry above
        return v
    if norm == 'peak': I.forall('value', n, lambda *i: I.eq(I.at(g.grid, *i, 0), at(*i)))
    else:
        tot = I.sum(n, at)      # a sum of exponentials: not zero
        I.forall('value', n, lambda *i: I.implies(I.Not(I.eq(tot, 0.0)), lambda: I.eq(I.at(g.grid, *i, 0), at(*i) / tot)) if I.sym else I.eq(I.at(g.grid, *i, 0), at(*i) / tot))

@contract('G10', covers=[F + 'PSF.__init__', F + 'SpectralPSF.__init__'], params=[dict(nd=1), dict(nd=2)], sym=False, weight=0.6)
def psf_spectral_values(I, nd):
    """at every spectral coordinate a Gaussian of the width scaled from the reference coordinate, each slice normalised by itself; default extents"""
    G = I.mod('simim.map.gridder'); np = I.np
    fw = [float(I.choose('fwhm%d' % i, [0.5, 1.0, 1.75])) for i in range(nd)]; px = [float(I.choose('px%d' % i, [0.25, 0.4, 0.5])) for i in range(nd)]; norm = I.choose('norm', ['area', 'peak'])
    if I.flag('plain'):
        g = G.PSF(fw, px, norm=norm)
        for a in range(nd): I.prove('six_widths', 6 * fw[a] - 1e-9 <= g.side_length[a] < 6 * fw[a] + px[a] + 1e-9)
        want = np.ones([1] * nd)
        for a in range(nd): want = want * half(I, g.axes_centers[a], fw[a]).reshape([-1 if b == a else 1 for b in range(nd)])
        if norm == 'area': want = want / want.sum()
        I.prove('value', g.grid.shape == want.shape + (1,) and bool(np.allclose(g.grid[..., 0], want, rtol=1e-9, atol=1e-300))); return
    m = I.int('m', 2, chi=4); d = I.real('d', gt=0, span=1); s0 = 2.0 + I.real('s0', gt=0, span=3); ref = s0 * I.choose('ref', [0.5, 0.75, 1.0, 1.25, 2.0]); exp = I.choose('exp', [None, 1, 2, 0.5, 0, -1])
    spec = s0 + np.arange(m) * d; keep = spec.copy(); n = [I.int('n%d' % i, 1, chi=5) for i in range(nd)]
    g = G.SpectralPSF(spec, ref, fw, px, side_length=[n[a] * px[a] for a in range(nd)], norm=norm, **({} if exp is None else {'exp': exp}))
    e = 1 if exp is None else exp
    wf(I, g, n + [m], px + [d], [0] * nd + [s0 + (m - 1) * d / 2], 1)
    want = np.ones([1] * (nd + 1))
    for a in range(nd):
        x = g.axes_centers[a].reshape([-1 if b == a else 1 for b in range(nd)] + [1])
        want = want * half(I, x, fw[a] * (ref / spec) ** e)
    I.assume(bool((want.sum(axis=tuple(range(nd))) > 1e-250).all()))      # a beam much narrower than a pixel and off its centres underflows to nothing
    if norm == 'area': want = want / want.sum(axis=tuple(range(nd)), keepdims=True)
    I.prove('value', g.grid.shape == want.shape + (1,) and bool(np.allclose(g.grid[..., 0], want, rtol=1e-9, atol=1e-300)))
    I.prove('inputs_unchanged', bool((spec == keep).all()))
