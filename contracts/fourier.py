"""Grid: Fourier transforms and power spectra (G07), spherical averages (G08)"""
import itertools, math
from vc.api import contract
from contracts.grid import mk_grid, wf, data_eq, unchanged, AX, F, S

def dft(I, data, nd, ax, flags, px, normalize):
    """reference transform by explicit DFT sums: zero frequency at index n//2, forward axes times the pixel size"""
    np = I.np
    out = np.array(data, dtype=complex)
    for a in ax:
        n = out.shape[a]; k = np.arange(n); f = (k - n // 2)
        if not flags[a]:
            M = np.exp(-2j * np.pi * np.outer(f, k) / n) * (px[a] if normalize else 1)
        else:
            M = np.exp(2j * np.pi * np.outer(k, f) / n) / n / (px[a] if normalize else 1)
        out = np.moveaxis(np.tensordot(M, out, axes=(1, a)), 0, a)
    return out

def close(I, name, a, b, tol=1e-8):
    np = I.np
    a, b = np.asarray(a), np.asarray(b)
    I.prove(name + '.shape', a.shape == b.shape, '%s %s' % (a.shape, b.shape))
    s = max(1.0, float(np.abs(b).max()) if b.size else 1)
    I.prove(name, bool(np.all(np.abs(a - b) <= tol * s)), lambda: 'largest difference %g of %g' % (float(np.abs(a - b).max()), s))

def cplx(I, g, old, tag=''):
    if not I.sym and I.flag('complex' + tag):
        g.grid = g.grid + 0.5j * I.np.flip(g.grid, axis=0); return I.snap(g.grid)
    return old

@contract('G07', covers=[F + 'Grid.fourier_transform'], params=[dict(nd=1, P=2), dict(nd=2, P=1), dict(nd=3, P=2)], sym=False, weight=2)
def fourier(I, nd, P):
    """transform, flags, normalisation, zero frequency, inversion"""
    g, n, px, c, old = mk_grid(I, nd, P, fourier=True, nchi=5)
    old = cplx(I, g, old)
    ax = I.choose('ax', AX[nd] + [None, 'int'])
    arg = 0 if ax == 'int' else ax
    axs = [0] if ax == 'int' else list(range(nd)) if ax is None else ax
    norm = I.flag('normalize')
    fl = [bool(x) for x in g.fourier_space]; nobj = g.n_objects
    call = (lambda: g.fourier_transform(arg)) if norm and I.flag('default') else (lambda: g.fourier_transform(arg, normalize=norm))
    call()
    I.prove('flags', [bool(x) for x in g.fourier_space] == [f != (i in axs) for i, f in enumerate(fl)])
    wf(I, g, n, px, c, P)
    close(I, 'transform', g.grid, dft(I, old, nd, axs, fl, px, norm))
    I.prove('n_objects', g.n_objects == nobj)
    # zero frequency sits where the Fourier axis says
    for a in axs:
        if not fl[a]: I.prove('zero_frequency', float(g.fourier_axes_centers[a][n[a] // 2]) == 0)
    call()
    I.prove('flags_restored', [bool(x) for x in g.fourier_space] == fl)
    close(I, 'inverse', g.grid, old)
    wf(I, g, n, px, c, P)

@contract('G07', covers=[F + 'Grid.fourier_transform'], params=[dict(nd=2, P=1), dict(nd=3, P=1)], sym=False)
def fourier_sequences(I, nd, P):
    """any sequence of transforms: the data depend only on which axes end up transformed"""
    g, n, px, c, old = mk_grid(I, nd, P, nchi=4)
    fl = [False] * nd
    for s in range(I.int('steps', 1, 4)):
        axs = I.choose('ax%d' % s, AX[nd])
        g.fourier_transform(axs)
        for a in axs: fl[a] = not fl[a]
        I.prove('flags', [bool(x) for x in g.fourier_space] == fl)
        close(I, 'data', g.grid, dft(I, old, nd, [a for a in range(nd) if fl[a]], [False] * nd, px, True))

@contract('G07', covers=[F + 'Grid.fourier_transform', F + 'Grid.power_spectrum'], params=[dict(nd=2)], sym=False, weight=0.4)
def fourier_refused(I, nd):
    """invalid axes, inactive grids and repeated power spectra are refused without changing anything"""
    g, n, px, c, old = mk_grid(I, nd, 1, fourier=True)
    fl = [bool(x) for x in g.fourier_space]
    what = I.choose('what', ['axis', 'negaxis', 'inactive', 'power', 'crossdims', 'crossprops', 'crossinactive'])
    G = I.mod('simim.map.gridder')
    if what in ('axis', 'negaxis'):
        b = [2] if what == 'axis' else [0, -1]
        ok = I.raises(lambda: g.fourier_transform(b), ValueError) and I.raises(lambda: g.power_spectrum(ax=b), ValueError)
    elif what == 'inactive':
        h = g.copy_axes(); ok = I.raises(lambda: h.fourier_transform(), ValueError) and I.raises(lambda: h.power_spectrum(), ValueError)
    elif what == 'power': g.is_power_spectrum = True; ok = I.raises(lambda: g.power_spectrum(), ValueError)
    elif what == 'crossdims':
        h = G.Grid(1, [0], [2], [1]); h.init_grid(); ok = I.raises(lambda: g.power_spectrum(h), ValueError)
    elif what == 'crossprops':
        g = G.Grid(2, [0, 0], [2, 2], [1, 1]); g.init_grid(); old = I.snap(g.grid); fl = [False] * 2
        h = G.Grid(3, [0, 0], [2, 2], [1, 1]); h.init_grid(); ok = I.raises(lambda: g.power_spectrum(h), ValueError)
    else: h = g.copy_axes(); ok = I.raises(lambda: g.power_spectrum(h), ValueError)
    I.prove('refused', ok)
    I.prove('flags', [bool(x) for x in g.fourier_space] == fl)
    unchanged(I, 'data', g.grid, old)

@contract('G07', covers=[F + 'Grid.power_spectrum'], params=[dict(nd=1), dict(nd=2), dict(nd=3)], sym=False, weight=3)
def power_spectrum(I, nd):
    """auto and cross power over any axes, from any mixture of spaces"""
    np = I.np
    cross = I.choose('cross', ['none', 'other', 'self'])
    P1, P2 = I.choose('P', [(1, 1), (2, 2), (1, 2), (2, 1)]) if cross == 'other' else (I.choose('P', [1, 2]), 1)
    g, n, px, c, old = mk_grid(I, nd, P1, fourier=True, nchi=4, units=True)
    old = cplx(I, g, old)
    h = None; hold = None
    if cross == 'other':
        h = g.copy_axes(P2); h.init_grid()
        h.grid = I.array('cross_data', list(n) + [P2]); hold = I.snap(h.grid)
        for i in range(nd): h.fourier_space[i] = I.flag('cfourier%d' % i)
        h.n_objects = 3
    elif cross == 'self': h = g
    ax = I.choose('ax', [None] + AX[nd]); axs = list(range(nd)) if ax is None else ax
    inp = I.flag('in_place'); norm = I.flag('normalize')
    fl = [bool(x) for x in g.fourier_space]; hfl = [bool(x) for x in h.fourier_space] if h is not None else None; nobj = g.n_objects
    r = g.power_spectrum(h, ax=ax, in_place=inp, normalize=norm)
    tr = [i for i in range(nd) if fl[i] != (i in axs)]
    X = dft(I, old, nd, tr, fl, px, norm)
    Y = X if cross != 'other' else dft(I, hold, nd, [i for i in range(nd) if hfl[i] != (i in axs)], hfl, px, norm)
    close(I, 'power', r.grid, (X * Y.conj()).real)
    I.prove('power_real', not np.iscomplexobj(r.grid))
    I.prove('power_flags', [bool(x) for x in r.fourier_space] == [i in axs for i in range(nd)] and bool(r.is_power_spectrum) and r.grid_active)
    I.prove('n_objects', r.n_objects == nobj)
    wf(I, r, n, px, c, max(P1, P2) if cross == 'other' else P1)
    if inp: I.prove('returns_self', r is g)
    else:
        I.prove('new_object', r is not g and not np.shares_memory(r.grid, g.grid))
        I.prove('not_power', not g.is_power_spectrum)
        I.prove('flags_restored', [bool(x) for x in g.fourier_space] == fl)
        close(I, 'data_restored', g.grid, old)
        wf(I, g, n, px, c, P1, name='original')
    if cross == 'other':
        I.prove('cross_flags_restored', [bool(x) for x in h.fourier_space] == hfl and not h.is_power_spectrum and h.n_objects == 3)
        close(I, 'cross_restored', h.grid, hold)

# ------------------------------------------------------------------ G08
def mk_avg(I, nd, P, nchi, fq=True):
    np = I.np
    g, n, px, c, old = mk_grid(I, nd, P, nchi=nchi)
    ax = I.choose('ax', [None] + AX[nd]); axs = list(range(nd)) if ax is None else ax
    four = I.flag('fourier') if fq else False
    if four:
        for a in axs: g.fourier_space[a] = True
    other = [i for i in range(nd) if i not in axs]
    if other and fq and I.flag('otherfourier'):
        for a in other: g.fourier_space[a] = True
    if any(g.fourier_space):
        k = I.choose('kind', ['complex', 'power', 'realdata'])
        if k == 'complex': g.grid = g.grid + 0.5j * np.flip(g.grid, axis=0)
        if k == 'power': g.is_power_spectrum = True
    return g, n, px, c, I.snap(g.grid), ax, axs, four

def axes_of(g, four): return g.fourier_axes_centers if four else g.axes_centers

@contract('G08', covers=[F + 'Grid.spherical_average'], params=[dict(nd=1, P=1), dict(nd=2, P=2), dict(nd=3, P=1)], sym=False, weight=3)
def shells(I, nd, P):
    """explicit shells: weighted mean, counts and deviation of exactly the cells in each shell"""
    np = I.np
    g, n, px, c, old, ax, axs, four = mk_avg(I, nd, P, 4 if nd < 3 else 3)
    if four:      # make the Fourier coordinates exact
        for i in range(nd): I.assume(n[i] in (1, 2, 4) and px[i] in (0.25, 0.5, 1.0, 2.0))
    ns = I.int('nshell', 1, 4)
    e0 = I.real('e0', lo=0, step=0.25, hi=2); edges = [e0]
    for s in range(ns): edges.append(edges[-1] + I.real('de%d' % s, gt=0, step=0.25, span=1.5))
    cen = None
    if I.flag('center'): cen = [I.real('cen%d' % i, step=0.25, span=4) for i in range(nd)]
    wk = I.choose('weights', ['none', 'full', 'nd', 'bcast'])
    w = None if wk == 'none' else I.array('w', list(n) + [P] if wk == 'full' else list(n) if wk == 'nd' else [1] * (nd - 1) + [n[-1]], gt=0, span=3)
    if wk == 'bcast' and nd > 1: w = w.reshape([1] * (nd - 1) + [n[-1], 1])
    w0 = None if w is None else I.snap(w)
    wfull = np.ones(tuple(n) + (P,)) if w is None else np.ones(tuple(n) + (P,)) * (w if w.ndim == nd + 1 else w.reshape(w.shape + (1,)))
    rs, rn, bs = I.flag('std'), I.flag('n'), I.flag('biased')
    out = g.spherical_average(ax=ax[0] if ax is not None and len(ax) == 1 and I.flag('axint') else ax, center=cen, shells=edges if I.flag('list') else np.array(edges), weights=w, return_std=rs, biased_std=bs, return_n=rn)
    I.prove('tuple_length', len(out) == 2 + rs + rn)
    avg = out[1]; cnt = out[2] if rn else None; std = out[-1] if rs else None
    keep = [i for i in range(nd) if i not in axs]
    shape = (ns,) + tuple(n[i] for i in keep) + (P,)
    I.prove('shape', avg.shape == shape and (cnt is None or cnt.shape == shape) and (std is None or std.shape == shape))
    X = axes_of(g, four)
    c0 = cen if cen is not None else ([0.0] * nd if four else [float(x) for x in c])
    I.arr_eq('axes.shells', out[0][0], np.array(edges))
    for q, i in enumerate(keep): I.arr_eq('axes.kept', out[0][1 + q], X[i])
    cells = {}
    for idx in itertools.product(*[range(m) for m in n]):
        r2 = sum((float(X[a][idx[a]]) - c0[a]) ** 2 for a in axs)
        for s in range(ns):
            if edges[s] ** 2 <= r2 < edges[s + 1] ** 2: cells.setdefault((s,) + tuple(idx[i] for i in keep), []).append(idx)
    for key in itertools.product(*[range(m) for m in shape[:-1]]):
        L = cells.get(key, [])
        for p in range(P):
            v = np.array([old[i + (p,)] for i in L]); ww = np.array([wfull[i + (p,)] for i in L])
            if rn: I.prove('counts', int(cnt[key + (p,)]) == len(L), lambda: '%r: %r expected %d' % (key, cnt[key + (p,)], len(L)))
            if not L: I.prove('empty_shell', bool(np.isnan(avg[key + (p,)]))); continue
            m = (v * ww).sum() / ww.sum()
            I.prove('mean', bool(abs(avg[key + (p,)] - m) <= 1e-9 * max(1, abs(v).max())), lambda: '%r %r expected %r' % (key, avg[key + (p,)], m))
            if rs and bs:
                e = math.sqrt(float((ww * abs(v - m) ** 2).sum() / ww.sum()))
                I.prove('std', bool(abs(std[key + (p,)] - e) <= 1e-6 * max(1, abs(v).max())), lambda: '%r expected %r' % (std[key + (p,)], e))
            if rs and not bs and len(L) > 1:
                e = math.sqrt(float((ww * abs(v - m) ** 2).sum() / (ww.sum() - (ww ** 2).sum() / ww.sum())))
                I.prove('std_unbiased', bool(abs(std[key + (p,)] - e) <= 1e-6 * max(1, abs(v).max())), lambda: '%r expected %r' % (std[key + (p,)], e))
    I.prove('grid_unchanged', bool(np.array_equal(g.grid, old)))
    if w is not None: I.prove('weights_unchanged', bool(np.array_equal(w, w0)))

@contract('G08', covers=[F + 'Grid.spherical_average'], params=[dict(nd=1), dict(nd=2), dict(nd=3)], sym=False, weight=2)
def auto_shells(I, nd):
    """automatic shells: every cell with positive distance is in exactly one shell"""
    np = I.np
    g, n, px, c, old, ax, axs, four = mk_avg(I, nd, 1, 6 if nd < 3 else 4)
    sc = I.choose('scale', [1, 0.1, 1 / 3, 7.3]); 
    if sc != 1: g.scale_axis(list(range(nd)), sc)
    cen = [I.real('cen%d' % i, step=0.25, span=4) for i in range(nd)] if I.flag('center') else None
    mode = I.choose('mode', ['linear', 'log']); ns = I.choose('ns', [None, 1, 2, 3, 7])
    X = axes_of(g, four)
    c0 = cen if cen is not None else ([0.0] * nd if four else [float(x) for x in g.center_point])
    R = np.zeros(tuple(n))
    for a in axs:
        sh = [1] * nd; sh[a] = n[a]; R = R + ((X[a] - c0[a]) ** 2).reshape(sh)
    R = np.sqrt(R)
    tiny = 1e-12 * max(1.0, float(R.max()))
    I.assume(float(R.max()) > 1e-6)
    I.assume(not np.any((R > 0) & (R < 1e-9)))
    axout, avg, cnt, std = g.spherical_average(ax=ax, center=cen, shells=ns if ns is None or not I.flag('npint') else np.int64(ns), binmode=mode, return_n=True, return_std=True)
    E = axout[0]
    I.prove('edges', len(E) == (ns or 10) + 1 and bool(np.all(np.diff(E) > 0)))
    want = int((R > 0).sum()) if mode == 'log' else R.size
    got = int(cnt.sum())
    I.prove('every_cell_counted', got == want if mode == 'linear' or R.min() > 0 else got >= want and got <= R.size, '%d of %d' % (got, want))
    I.prove('extremes', E[-1] >= R.max() and E[0] <= (R[R > 0].min() if mode == 'log' else R.min()) * (1 + 1e-12))
    near = (np.abs(R[..., None] - E[None]) < 1e-9 * R.max())
    b = np.digitize(R, E) - 1
    amb = np.any(near[..., 1:-1], axis=-1)
    if not amb.any():
        keep = [i for i in range(nd) if i not in axs]
        ex = np.zeros(cnt.shape); tot = np.zeros(cnt.shape, dtype=complex)
        for idx in np.ndindex(*n):
            s = b[idx]
            if near[idx + (0,)]: s = 0
            if near[idx + (-1,)]: s = len(E) - 2
            if 0 <= s < len(E) - 1:
                k = (s,) + tuple(idx[i] for i in keep) + (0,)
                ex[k] += 1; tot[k] += old[idx + (0,)]
        if R.min() > 0 or mode == 'linear': I.prove('counts', bool(np.array_equal(ex, cnt)))
        m = ex > 0
        if R.min() > 0 or mode == 'linear': I.prove('means', bool(np.all(np.abs(avg[m] - tot[m] / ex[m]) < 1e-8 * max(1, np.abs(old).max()))))

@contract('G08', covers=[F + 'Grid.spherical_average'], params=[dict(nd=2)], sym=False, weight=0.3)
def shells_refused(I, nd):
    """mixed spaces, unsorted shells and mismatched weights are refused"""
    np = I.np
    g, n, px, c, old = mk_grid(I, nd, 1)
    what = I.choose('what', ['mixed', 'unsorted', 'zero', 'weights', 'axis', 'center'])
    kw = dict(shells=[0, 1, 2])
    if what == 'mixed': g.fourier_space[I.choose('a', [0, 1])] = True
    if what == 'unsorted': kw['shells'] = I.choose('s', [[1, 0, 2], [0, 1, 1], [2, 1]])
    if what == 'zero': kw['shells'] = 0
    if what == 'weights': kw['weights'] = np.ones((n[0] + 1 if n[0] > 0 else 1, n[1] + 1))
    if what == 'axis': kw['ax'] = I.choose('ax', [[2], [-1]])
    if what == 'center': kw['center'] = [0.0]
    I.prove('refused', I.raises(lambda: g.spherical_average(**kw), ValueError))
    I.prove('grid_unchanged', bool(np.array_equal(g.grid, old)))
