"""G09 gridding of catalogues: SnapHandler.grid and LCHandler.grid."""
from vc.api import contract
from contracts.handlers import scaled
from contracts.grid import data_eq
from contracts.sims import SIM, mksim, simhandler
from contracts.lightcone import lcfile

def clear(I, n, lo, px, x):
    """concrete values: no position so near a cell edge that rounding decides"""
    if not I.sym:
        t = (float(x) - float(lo)) / float(px)
        I.assume(abs(t - round(t)) > 1e-7 or (t == round(t) and float(px) * 4096 == int(float(px) * 4096) and float(x) * 4096 == int(float(x) * 4096)))

def gridded(I, g, n, lo, px, coord, vals, used, norm, N):
    """each cell holds norm times the sum of the values of the used objects in it"""
    P = len(vals)
    if not I.sym:
        for k in range(int(N)):
            for i in range(3): clear(I, n[i], lo[i], px[i], coord[i](k))
    for i in range(3):
        I.prove('cells', I.eq(g.n_pixels[i], n[i]))
        I.prove('cell_size', I.eq(g.pixel_size[i], px[i]))
        I.forall('edges', [n[i] + 1], lambda k: I.eq(I.at(g.axes[i], k), lo[i] + k * px[i], scale=None if I.sym else abs(float(lo[i])) + 20 * abs(float(px[i]))))
    def has(k, idx):
        return I.And(used(k), *[c for i in range(3) for c in (lo[i] + idx[i] * px[i] <= coord[i](k), coord[i](k) < lo[i] + idx[i] * px[i] + px[i])])
    data_eq(I, 'content', g, n, P, lambda *i: norm * I.sum([N], lambda k: I.ite(has(k, i), lambda: vals[int(i[-1])](k), 0)))

def cells(I, const, span):
    """cell sizes; constants in the proofs where the extent is a product of them (any size: see G01)"""
    if I.sym and const: return [0.5, 0.25, 2.0]
    return [I.real('px%d' % i, gt=0, step=0.25, span=span) for i in range(3)]

def select(I, H, mass, N):
    """an arbitrary selection by mass, or none; returns whether all objects are asked for, and which are used"""
    al = I.flag('use_all'); cut = I.flag('cut', quick=[1]); pmin = None
    if cut:
        pmin = I.real('pmin', lo=0, hi=6, step=0.5); H.set_property_range('mass', pmin=pmin, in_h_units=True)
    I.assume((N if al else H.inds_active.shape[0]) >= 1)       # an empty selection is refused by the Gridder
    return al, (lambda k: True) if al or not cut else (lambda k: I.at(mass, k) >= pmin)

@contract('G09', covers=['SnapHandler.grid', 'Gridder.__init__', 'Grid.add_from_cat'], params=[{'limits': 'given', 'nprops': 1}, {'limits': 'given', 'nprops': 2}, {'limits': 'box', 'nprops': 1}, {'limits': 'box', 'nprops': 2}])
def snapshot_grid(I, limits, nprops):
    """cells of a gridded snapshot hold the sums over the selected objects, in the units asked for"""
    h = I.real('h', gt=0, hi=1) if I.sym else I.choose('h', [0.5, 1.0, 0.75])
    d0 = I.flag('default', quick=[0]); req = I.choose('request', [None, True, False], quick=[1, 2]); u = d0 if req is None else req
    N = I.int('N', 1, chi=6)
    nn = [I.int('n%d' % i, 1, chi=4) for i in range(3)]; pxs = cells(I, False, 2)
    if limits == 'box':
        nn = [nn[0]] * 3; pxs = [pxs[0]] * 3
        side = I.real_of(nn[0]) * pxs[0]; box = side if u else side * h; lo = [0, 0, 0]
    else:
        lo = [I.real('lo%d' % i, span=4, step=0.25) for i in range(3)]; box = I.real('box', gt=0, step=0.5)
    pos = [I.array('pos%d' % i, (N,), lo=-2, step=0.125, span=6.0) for i in range(3)]; mass = I.array('mass', (N,), gt=0)
    v = I.array('v', (N,), fine=True); w = I.array('w', (N,), fine=True)
    props = {'mass': (mass, 'Msun/h', -1), 'v': (v, 'km/s', 0), 'w': (w, 'u', 2)}
    for i in range(3): props['pos_' + 'xyz'[i]] = (pos[i], 'Mpc/h', -1)
    mksim(I, [dict(index=7, redshift=0.5, redshift_min=0.0, redshift_max=1.0, props=props, cuts=[(1.0, 0)])], h, box)
    H = simhandler(I, in_h_units=d0).get_snap(7)
    al, used = select(I, H, mass, N)
    kw = {}
    if limits == 'given':
        for i in range(3):
            hi = lo[i] + nn[i] * pxs[i]; kw['xyz'[i] + 'lim'] = (hi, lo[i]) if i == 0 and I.flag('swapped', quick=[0]) else (lo[i], hi)
        kw['res'] = pxs if I.flag('res_list', quick=[1]) else I.np.array(pxs)
    else: kw['res'] = pxs[0]
    norm = I.choose('norm', [None, 'cell_volume', 'number'], quick=[1])
    f = 1
    if norm == 'number': f = kw['norm'] = I.real('norm_value', lo=-3, hi=3, step=0.25)
    elif norm: kw['norm'] = norm; f = 1 / (pxs[0] * pxs[1] * pxs[2])
    names = ['w', 'v'][:nprops]
    g = H.grid(*names, in_h_units=req, use_all_inds=al, **kw)
    coord = [lambda k, i=i: scaled(I, I.at(pos[i], k), h, -1, u) for i in range(3)]
    vals = [lambda k: scaled(I, I.at(w, k), h, 2, u), lambda k: I.at(v, k)][:nprops]
    gridded(I, g, nn, lo, pxs, coord, vals, used, f, N)

@contract('G09', covers=['SnapHandler.grid'], sym=False)
def snapshot_grid_default(I):
    """by default the grid is the whole box in a hundred cells a side, in the unit system of the call"""
    h = I.choose('h', [0.5, 1.0, 0.75]); d0 = I.flag('default'); req = I.choose('request', [None, True, False]); u = d0 if req is None else req
    N = I.int('N', 1, chi=8); box = 64.0
    pos = [I.array('pos%d' % i, (N,), lo=0, span=63.0, step=1 / 16) for i in range(3)]
    props = {'mass': (I.array('mass', (N,), gt=0), 'Msun/h', -1)}
    for i in range(3): props['pos_' + 'xyz'[i]] = (pos[i] + 1 / 32, 'Mpc/h', -1)
    mksim(I, [dict(index=7, redshift=0.5, redshift_min=0.0, redshift_max=1.0, props=props, cuts=[(1.0, 0)])], h, box)
    H = simhandler(I, in_h_units=d0).get_snap(7)
    g = H.grid('mass', in_h_units=req)
    side = box if u else box / h
    for i in range(3):
        I.prove('cells', g.n_pixels[i] == 100); I.prove('extent', I.eq(g.axes[i][0], 0, scale=side) and I.eq(g.axes[i][-1], side))
    m = props['mass'][0] * (1 if u else 1 / h)
    I.prove('total', I.eq(g.grid.sum(), m.sum()))
    for k in range(N):
        c = tuple(int(float(pos[i][k] + 1 / 32) / box * 100) for i in range(3))
        same = [q for q in range(N) if tuple(int(float(pos[i][q] + 1 / 32) / box * 100) for i in range(3)) == c]
        I.prove('place', I.eq(g.grid[c + (0,)], m[same].sum()))

@contract('G09', covers=['SnapHandler.grid', 'LCHandler.grid'], sym=False, params=[{'cone': False}, {'cone': True}])
def whole_cells(I, cone):
    """limits that are no whole number of cells apart are widened about their centre; the normalisation uses the cells' own volume"""
    h = I.choose('h', [0.5, 1.0, 0.75]); d0 = I.flag('default'); N = I.int('N', 1, chi=6)
    pos = [I.array('pos%d' % i, (N,), lo=0, span=4.0, step=1 / 16) for i in range(3)]; w = I.array('w', (N,), fine=True)
    if cone:
        I.mod('simim.galprops.galprops'); I.package_root(); P = I.mod('simim._paths')._SimIMPaths(); P._setuppath(I.tmpdir())
        lcfile(I, {'redshift': (pos[2], 'None', 0), 'ra': (pos[0] - 2, 'radians', 0), 'dec': (pos[1] - 2, 'radians', 0), 'mass': (w * 0 + 1, 'Msun/h', -1), 'w': (w, 'u', 2)}, h, 'box', 0.0, 4.0, 4.0, 1)
        H = I.mod('simim.lightcone.lchandler').LCHandler(SIM, 'cone', 0, in_h_units=d0); names = ['ralim', 'declim', 'zlim']; x = [pos[0] - 2, pos[1] - 2, pos[2]]
    else:
        props = {'mass': (w * 0 + 1, 'Msun/h', -1), 'w': (w, 'u', 2)}
        for i in range(3): props['pos_' + 'xyz'[i]] = (pos[i], 'Mpc/h', -1)
        mksim(I, [dict(index=7, redshift=0.5, redshift_min=0.0, redshift_max=1.0, props=props, cuts=[(1.0, 0)])], h, 4.0)
        H = simhandler(I, in_h_units=d0).get_snap(7); names = ['xlim', 'ylim', 'zlim']; x = [p * (1 if d0 else 1 / h) for p in pos]
    kw = {}; lims = []; px = []
    for i, n in enumerate(names):
        lo = I.real('lo%d' % i, lo=-2, hi=3, step=0.25); size = I.choose('cell%d' % i, [0.3, 0.7, 1.1]); ext = I.real('extent%d' % i, gt=0, hi=4, step=0.25)
        frac = ext / size - round(ext / size, 1); I.assume(abs(abs(frac) - 0.05) > 1e-6 and abs(ext / size - round(ext / size)) > 0.06)
        lims.append((lo, lo + ext)); px.append(size); kw[n] = lims[-1]
    g = H.grid('w', res=px, norm=None if cone else 'cell_volume', **kw)
    f = (1 if cone else 1 / (px[0] * px[1] * px[2])) * (1 if d0 else h * h)
    cells = [int(I.np.ceil((b - a) / s)) for (a, b), s in zip(lims, px)]
    start = [(a + b) / 2 - n * s / 2 for (a, b), s, n in zip(lims, px, cells)]
    for i in range(3):
        I.prove('cells', int(g.n_pixels[i]) == cells[i]); I.prove('edges', I.eq(g.axes[i][0], start[i], scale=8.0) and I.eq(g.axes[i][-1], start[i] + cells[i] * px[i], scale=8.0))
    want = I.np.zeros(cells)
    for k in range(N):
        q = [(float(x[i][k]) - start[i]) / px[i] for i in range(3)]
        I.assume(all(abs(t - round(t)) > 1e-7 for t in q))
        if all(0 <= t < n for t, n in zip(q, cells)): want[tuple(int(t) for t in q)] += f * float(w[k])
    I.prove('content', bool(I.np.allclose(g.grid[..., 0], want, rtol=1e-9, atol=1e-12)))

@contract('G09', covers=['LCHandler.grid'], params=[{'limits': 'given', 'freq': False}, {'limits': 'given', 'freq': True}, {'limits': 'field', 'freq': False}, {'limits': 'field', 'freq': True}])
def lightcone_grid(I, limits, freq):
    """cells of a gridded light cone: angles and redshift, or observed frequency, by default over the whole light cone"""
    I.mod('simim.galprops.galprops')
    I.package_root(); P = I.mod('simim._paths')._SimIMPaths(); P._setuppath(I.tmpdir())
    h = I.real('h', gt=0, hi=1) if I.sym else I.choose('h', [0.5, 1.0, 0.75])
    d0 = I.flag('default', quick=[0]); req = I.choose('request', [None, True, False], quick=[2]); u = d0 if req is None else req
    N = I.int('N', 1, chi=6)
    nn = [I.int('n%d' % i, 1, chi=4) for i in range(3)]; pxs = cells(I, limits == 'field', 1)
    nu = I.real('restfreq', gt=0, step=0.5, lo=16, hi=None if I.sym else 24) if freq else None
    aspect = 1
    if limits == 'field':
        if I.sym:                                               # extents that are whole numbers of cells
            aspect = I.choose('aspect', [0.5, 1]); angle = I.real_of(nn[0]) * pxs[0]; nn[1] = nn[0]
            if freq: z0, z1 = 0.0, 3.0; nu = I.real_of(nn[2]) * pxs[2] / (1 - 1 / 4)
            else: z0 = I.real('zmin', lo=0); z1 = z0 + I.real_of(nn[2]) * pxs[2]
        else: aspect = I.choose('aspect', [1, 0.5]); angle = I.choose('angle', [0.5, 1.0, 2.0]); z0 = I.choose('zmin', [0.0, 0.5, 1.0]); z1 = z0 + I.choose('dz', [0.5, 1.0, 2.0])
        sides = [angle, angle * aspect, (nu / (1 + z0) - nu / (1 + z1)) if freq else z1 - z0]
        lo = [-angle / 2, -angle * aspect / 2, nu / (1 + z1) if freq else z0]
        pxs = [pxs[0], pxs[0] * aspect, pxs[2]] if I.sym else [s / I.real_of(n) for s, n in zip(sides, nn)]
    else:
        angle, z0, z1 = 0.5, 0.0, 4.0
        lo = [I.real('lo%d' % i, span=2, step=0.25) for i in range(3)]
    shape = I.choose('shape', ['box', 'circle'], quick=[0])
    ra = I.array('ra', (N,), lo=-1, step=0.125, span=2.0); dec = I.array('dec', (N,), lo=-1, step=0.125, span=2.0); z = I.array('z', (N,), lo=0, step=0.125, span=4.0)
    mass = I.array('mass', (N,), gt=0); w = I.array('w', (N,), fine=True)
    lcfile(I, {'redshift': (z, 'None', 0), 'ra': (ra, 'radians', 0), 'dec': (dec, 'radians', 0), 'mass': (mass, 'Msun/h', -1), 'w': (w, 'u', 2)}, h, shape, z0, z1, angle, aspect)
    H = I.mod('simim.lightcone.lchandler').LCHandler(SIM, 'cone', 0, in_h_units=d0)
    al, used = select(I, H, mass, N)
    kw = {}
    if freq: kw['restfreq'] = nu
    if limits == 'given':
        for i, k in enumerate(['ralim', 'declim', 'zlim']): kw[k] = (lo[i], lo[i] + nn[i] * pxs[i])
    f = 1
    if I.flag('norm', quick=[1]): f = kw['norm'] = I.real('norm_value', lo=-3, hi=3, step=0.25)
    g = H.grid('w', in_h_units=req, use_all_inds=al, res=list(pxs), **kw)
    third = (lambda k: nu / (1 + I.at(z, k))) if freq else lambda k: I.at(z, k)
    gridded(I, g, nn, lo, pxs, [lambda k: I.at(ra, k), lambda k: I.at(dec, k), third], [lambda k: scaled(I, I.at(w, k), h, 2, u)], used, f, N)
