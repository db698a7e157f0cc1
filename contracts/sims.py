"""S01 simulation-level lookups, S02 formatting of raw catalogues."""
from vc.api import contract
from contracts.handlers import scaled, check_read, same_set

SIM = 'TNG300-1'
META = [('index', 'i4'), ('redshift', 'f8'), ('redshift_min', 'f8'), ('redshift_max', 'f8'), ('time_start', 'f8'), ('time_end', 'f8'),
        ('distance_min', 'f8'), ('distance_max', 'f8'), ('transverse_distance_min', 'f8'), ('transverse_distance_max', 'f8')]

def table(I, rows, dtype):
    t = I.np.zeros(len(rows), dtype=dtype)
    for i, r in enumerate(rows):
        for k, v in r.items(): t[k][i] = v
    return t

def mksim(I, snaps, h, box, om=0.3, ob=0.05):
    """a formatted simulation; snaps: list of dict(index, redshift, redshift_min, ..., props={name: (values, units, exponent)}, cuts=[(min_mass, index)])"""
    I.mod('simim.galprops.galprops')
    I.package_root()
    P = I.mod('simim._paths')._SimIMPaths()
    root = I.tmpdir()
    P._setuppath(root); P._newsimpath(SIM)
    path = P.sims[SIM] + '/data.hdf5'
    with I.mod('h5py').File(path, 'w') as f:
        f.attrs['cosmo_h'] = h; f.attrs['cosmo_omega_matter'] = om; f.attrs['cosmo_omega_baryon'] = ob; f.attrs['cosmo_omega_lambda'] = 1 - om
        f.attrs['box_edge'] = box; f.attrs['number_snaps'] = len(snaps); f.attrs['name'] = SIM
        f.attrs['snapshots'] = table(I, [{k: v for k, v in s.items() if k not in ('props', 'cuts')} for s in snaps], META)
        for s in snaps:
            g = f.create_group('Snapshot %d' % s['index'])
            if 'cuts' in s: g.create_dataset('mass_cuts', data=table(I, [dict(min_mass=a, index=b) for a, b in s['cuts']], [('min_mass', 'f8'), ('index', 'i4')]))
            for k, (v, u, e) in s['props'].items():
                d = g.create_dataset(k, data=v); d.attrs['units'] = u; d.attrs['h dependence'] = e
    return path

def snapshots(I, k, props=True):
    """k snapshots with abutting redshift intervals, listed in the file by increasing or decreasing redshift"""
    h = I.real('h', gt=0, step=0.125, lt=2); box = I.real('box', gt=0, step=0.5)
    edges = [I.real('z0', lo=0, hi=2, nice=[0])]
    for j in range(k): edges.append(I.real('z%d' % (j + 1), gt=edges[-1], hi=None if I.sym else edges[-1] + 2))
    snaps = []
    for j in range(k):
        z = I.real('zsnap%d' % j, lo=edges[j], hi=edges[j + 1])
        n = I.int('n%d' % j, 0, chi=3)
        s = dict(index=[33, 50, 67, 99][k - 1 - j], redshift=z, redshift_min=edges[j], redshift_max=edges[j + 1], props={'mass': (I.array('mass%d' % j, (n,), gt=0), 'Msun/h', -1)})
        if props: s['props']['v'] = (I.array('v%d' % j, (n,), fine=True), 'km/s', 0)
        s['n'] = n
        snaps.append(s)
    if k > 1: I.assume(I.And(*[snaps[j]['redshift'] < snaps[j + 1]['redshift'] for j in range(k - 1)]))
    order = list(range(k))
    if I.flag('decreasing'): order.reverse()
    path = mksim(I, [{a: b for a, b in snaps[j].items() if a != 'n'} for j in order], h, box)
    return snaps, [snaps[j] for j in order], h, box, edges, path

def simhandler(I, **kw): return I.mod('simim.siminterface.simhandler').SimHandler(SIM, **kw)

@contract('S01', covers=['SimHandler.z_to_snap', 'SimHandler.get_snap_from_z', 'SimHandler.__init__', 'SimHandler.extract_snap_meta'], params=[{'k': 1}, {'k': 2}, {'k': 3}])
def redshift_lookup(I, k):
    """the snapshot whose interval contains z; outside the covered range it raises"""
    snaps, listed, h, box, edges, path = snapshots(I, k, props=False)
    H = simhandler(I)
    z = I.real('z', lo=-1, hi=8, nice=[0] + ([] if I.sym else edges))
    inside = I.And(z >= edges[0], z <= edges[-1])
    got = []
    refused = I.raises(lambda: got.append(H.z_to_snap(z)), ValueError)
    I.prove('refused', I.iff(refused, I.Not(inside)))
    if not refused:
        s = [x for x in snaps if x['index'] == int(got[0])]
        I.prove('known_snapshot', len(s) == 1)
        I.prove('interval', I.And(s[0]['redshift_min'] <= z, z <= s[0]['redshift_max']))
        sh = H.get_snap_from_z(z)
        I.prove('handle', I.And(I.eq(sh.redshift, s[0]['redshift']), sh.groupname == 'Snapshot %d' % s[0]['index']))

@contract('S01', covers=['SimHandler.get_snap', 'SimHandler.initialize_all_snaps', 'SimHandler.set_in_h_units', 'SnapHandler.__init__', 'SnapHandler.set_in_h_units', 'SimHandler.extract_snap_meta'])
def snapshot_handles(I):
    """handles carry their own snapshot's metadata, values and the simulation's unit default"""
    snaps, listed, h, box, edges, path = snapshots(I, 2)
    d0 = I.flag('default'); init = I.flag('init_snaps')
    H = simhandler(I, init_snaps=init, in_h_units=d0)
    I.prove('box', I.And(I.eq(H.box_edge_h, box), I.eq(H.box_edge_no_h * h, box), I.eq(H.box_edge, H.box_edge_h if d0 else H.box_edge_no_h)))
    if I.flag('switch'):
        d0 = not d0; H.set_in_h_units(d0)
        I.prove('switched_box', I.eq(H.box_edge, H.box_edge_h if d0 else H.box_edge_no_h))
    for s in snaps:
        m = H.extract_snap_meta(s['index'])
        I.prove('meta', I.And(I.eq(m['index'], s['index']), I.eq(m['redshift'], s['redshift']), I.eq(m['redshift_min'], s['redshift_min'])))
        sh = H.get_snap(s['index'])
        I.prove('redshift', I.And(I.eq(sh.redshift, s['redshift']), I.eq(sh.extra_props['redshift'], s['redshift'])))
        I.prove('unit_default', sh.default_in_h_units == d0)
        I.prove('snap_box', I.And(I.eq(sh.box_edge, H.box_edge), I.eq(sh.box_edge_h, box), I.eq(sh.box_edge_no_h * h, box), I.eq(sh.extra_props['box_edge'], H.box_edge)))
        I.prove('h', I.eq(sh.h, h))
        v, u, e = s['props']['mass']
        check_read(I, 'values', sh.return_property('mass'), v, h, e, d0)
        check_read(I, 'values_v', sh.return_property('v'), s['props']['v'][0], h, 0, d0)
    I.prove('unknown', I.raises(lambda: H.get_snap(7), ValueError))

@contract('S01', covers=['SimHandler.number_volumes'])
def number_of_volumes(I):
    snaps, listed, h, box, edges, path = snapshots(I, 1, props=False)
    d0 = I.flag('default'); H = simhandler(I, in_h_units=d0)
    v = I.real('volume', gt=0); req = I.choose('request', [None, True, False]); u = d0 if req is None else req
    edge = box if u else box / h
    I.prove('number', I.eq(H.number_volumes(v, in_h_units=req) * v, edge * edge * edge))

@contract('S01', covers=['SimHandler.get_mass_index'], params=[{'m': 1}, {'m': 2}, {'m': 4}])
def mass_lookup(I, m):
    """every object at least as massive as the limit lies before the returned row"""
    h = I.real('h', gt=0, step=0.125, lt=2); box = I.real('box', gt=0)
    n = I.int('n', 0, chi=6)
    cuts = [I.real('cut0', gt=0, hi=None if I.sym else 8, step=0.5)]
    for j in range(1, m): cuts.append(I.real('cut%d' % j, gt=0, lt=cuts[-1], step=0.25))
    idx = [I.int('index%d' % j, 0, n) for j in range(m)] if I.sym else None
    if I.sym:
        # precondition (established by SimCatalogs.format, S02): index j counts the objects of at least cut j
        mass = I.array('mass', (n,), gt=0, where=lambda i, v: I.And(*[I.iff(i < idx[j], v >= cuts[j]) for j in range(m)]))
    else:
        mass = I.np.sort(I.array('mass', (n,), gt=0, step=0.25))[::-1].copy()
        idx = [int((mass >= c).sum()) for c in cuts]
    snaps = [dict(index=7, redshift=0.5, redshift_min=0.0, redshift_max=1.0, props={'mass': (mass, 'Msun/h', -1)}, cuts=list(zip(cuts, idx)))]
    mksim(I, snaps, h, box)
    d0 = I.flag('default'); H = simhandler(I, in_h_units=d0)
    M = I.real('limit', gt=0, hi=12, step=0.25, nice=[] if I.sym else cuts)
    req = I.choose('request', [None, True, False]); u = d0 if req is None else req
    got = H.get_mass_index(M, 7, in_h_units=req)
    I.prove('range', I.And(got >= 0, got <= n))
    I.forall('all_before', (n,), lambda i: I.implies(scaled(I, I.at(mass, i), h, -1, u) >= M, lambda: i < got))
    I.prove('unknown', I.raises(lambda: H.get_mass_index(M, 8), ValueError))

@contract('S01', covers=['SimHandler.snap_stat', 'SimHandler.make_property', 'SimHandler.delete_property', 'SimHandler.set_property_range'])
def every_snapshot(I):
    """operations over all snapshots use each snapshot's own objects"""
    snaps, listed, h, box, edges, path = snapshots(I, 2)
    d0 = I.flag('default'); init = I.flag('init_snaps'); H = simhandler(I, init_snaps=init, in_h_units=d0)
    args = []
    def stat(mass): args.append(mass); return len(args)
    req = I.choose('request', [None, True, False])
    vals, zs = H.snap_stat(stat, ['mass'], give_args_in_h_units=req)
    I.prove('called', len(vals) == 2 and [int(x) for x in vals] == [1, 2])
    for j, s in enumerate(listed):
        I.prove('redshifts', I.eq(zs[j], s['redshift']))
        check_read(I, 'stat_argument', args[j], s['props']['mass'][0], h, -1, d0 if req is None else req)
    gp = I.mod('simim.galprops.galprops')
    write = I.flag('write') or not init
    H.make_property(gp.Prop('w', lambda v: v * 2 + 1, ['v']), write=write)
    for s in snaps:
        got = H.get_snap(s['index']).return_property('w')
        I.shape_is('made_shape', got, (s['n'],))
        I.forall('made', (s['n'],), lambda i: I.eq(I.at(got, i), I.at(s['props']['v'][0], i) * 2 + 1))
    if write:
        H.delete_property('w')
        for s in snaps: I.prove('deleted', not simhandler(I).get_snap(s['index']).has_property('w'))

@contract('S01', covers=['SimHandler.set_property_range', 'SimHandler.snap_stat', 'SimHandler.make_property', 'SimHandler.get_snap'])
def selections_everywhere(I):
    """a range cut over the simulation selects in every snapshot, in the units asked for, and stays until the next one"""
    snaps, listed, h, box, edges, path = snapshots(I, 2)
    d0 = I.flag('default'); req = I.choose('request', [None, True, False], quick=[0, 2]); u = d0 if req is None else req
    if not I.flag('init_snaps', quick=[1]):
        I.prove('refused', I.raises(lambda: simhandler(I, in_h_units=d0).set_property_range('mass', pmin=1.0), ValueError)); return
    H = simhandler(I, init_snaps=True, in_h_units=d0)
    lo = I.real('pmin', gt=0, hi=6, step=0.5); hi = I.real('pmax', lo=lo, hi=None if I.sym else 9, step=0.5)
    second = I.choose('second', ['none', 'within', 'anew', 'all'], quick=[1, 3])
    H.set_property_range('mass', pmin=lo, pmax=hi, in_h_units=req)
    v0 = I.real('vmin', lo=-3, hi=3, step=0.5)
    if second == 'within': H.set_property_range('v', pmin=v0, reset=False)
    elif second == 'anew': H.set_property_range('v', pmax=v0)
    elif second == 'all': H.set_property_range()
    al = I.flag('use_all', quick=[0])
    def used(s, k):
        m = scaled(I, I.at(s['props']['mass'][0], k), h, -1, u); w = I.at(s['props']['v'][0], k)
        return {'none': I.And(lo <= m, m <= hi), 'within': I.And(lo <= m, m <= hi, v0 <= w), 'anew': w <= v0, 'all': True}[second] if not al else True
    args = []
    def stat(a, b, c=0): args.append((a, c)); return b
    vals, zs = H.snap_stat(stat, ['a', 'b'], kw_remap={'a': 'v', 'b': 'redshift'}, other_kws={'c': 4.5}, use_all_inds=al)
    I.prove('called', len(args) == 2 and len(vals) == 2 and all(c == 4.5 for a, c in args))
    gp = I.mod('simim.galprops.galprops'); write = I.flag('write', quick=[0])
    H.make_property(gp.Prop('w', lambda q, c: q * c, ['q']), rename='z', kw_remap={'q': 'v'}, other_kws={'c': 3.0}, use_all_inds=al, write=write)
    for j, s in enumerate(listed):
        I.prove('redshift', I.And(I.eq(zs[j], s['redshift']), I.eq(vals[j], s['redshift'])))
        n = s['n']; a = args[j][0]; sh = H.get_snap(s['index'])
        I.prove('given', I.eq(a.shape[0], I.sum([n], lambda k: I.ite(used(s, k), 1, 0))))
        act = sh.inds_active
        if not al:
            I.prove('active', I.And(I.eq(sh.nhalos_active, a.shape[0]), I.eq(act.shape[0], a.shape[0])))
            I.forall('given_values', (a.shape[0],), lambda k: I.And(used(s, I.at(act, k)), I.eq(I.at(a, k), I.at(s['props']['v'][0], I.at(act, k)))))
        else: I.forall('all_values', (n,), lambda k: I.eq(I.at(a, k), I.at(s['props']['v'][0], k)))
        got = sh.return_property('z', use_all_inds=True)
        I.shape_is('made_shape', got, (n,))
        I.forall('made', (n,), lambda k: I.ite(used(s, k), lambda: I.eq(I.at(got, k), 3 * I.at(s['props']['v'][0], k)), lambda: I.isnan(I.at(got, k))))

@contract('S01', covers=['SimHandler.make_property', 'SimHandler.delete_property', 'SimHandler.initialize_all_snaps'], shards=2)
def simulation_properties(I):
    """saved properties are replaced or removed only when that was asked for, and the original fields never"""
    snaps, listed, h, box, edges, path = snapshots(I, 2)
    init = I.flag('init_snaps'); H = simhandler(I, init_snaps=init)
    gp = I.mod('simim.galprops.galprops')
    def prop(c, nm=('w',)):
        if len(nm) == 1: return gp.Prop(nm[0], lambda v: v * c, ['v'], h_dependence=0, units='u')
        return gp.MultiProp(list(nm), lambda v: [v * c + i for i in range(len(nm))], ['v'], h_dependence=[0] * len(nm), units=['u'] * len(nm))
    def stored(nm, f):
        F = simhandler(I)
        for s in snaps:
            x = F.get_snap(s['index']).return_property(nm, in_h_units=True)
            I.shape_is('stored_shape', x, (s['n'],)); I.forall('stored', (s['n'],), lambda k: I.eq(I.at(x, k), f(s, k)))
    def v(s, k): return I.at(s['props']['v'][0], k)
    two = I.flag('two')
    if two:
        H.make_property(prop(2, ('w', 'w2')), rename=['a', 'b'], write=True)
        stored('a', lambda s, k: 2 * v(s, k)); stored('b', lambda s, k: 2 * v(s, k) + 1)
        I.prove('not_original_name', all(not simhandler(I).get_snap(s['index']).has_property(x) for s in snaps for x in ('w', 'w2')))
    else:
        H.make_property(prop(2), rename='a', write=True); stored('a', lambda s, k: 2 * v(s, k))
    what = I.choose('then', ['again', 'overwrite', 'original', 'delete', 'delete_original', 'wrong_names', 'in_memory', 'unknown'])
    two_names = ['a', 'b'] if two else ['a']; p5 = prop(5, ('w', 'w2') if two else ('w',))
    keep = True
    if what == 'again':
        I.prove('refused', I.raises(lambda: H.make_property(p5, rename=two_names, write=True), ValueError))
    elif what == 'overwrite':
        H.make_property(p5, rename=two_names, write=True, overwrite=True); keep = False
        stored('a', lambda s, k: 5 * v(s, k))
        if two: stored('b', lambda s, k: 5 * v(s, k) + 1)
    elif what == 'original':
        I.prove('refused', I.raises(lambda: H.make_property(prop(5), rename=['mass'], write=True, overwrite=True), ValueError))
    elif what == 'delete':
        H.delete_property(*two_names); keep = False
        for s in snaps: I.prove('deleted', all(not simhandler(I).get_snap(s['index']).has_property(x) and not H.get_snap(s['index']).has_property(x) for x in two_names))
    elif what == 'delete_original':
        I.prove('refused', I.raises(lambda: H.delete_property(*(('a', 'v') if I.flag('order') else ('v', 'a'))), ValueError))
    elif what == 'wrong_names':
        I.prove('refused', I.raises(lambda: H.make_property(p5, rename=['c', 'd', 'e'], write=True), ValueError))
        I.prove('nothing_written', all(not simhandler(I).get_snap(s['index']).has_property(x) for s in snaps for x in ('c', 'd', 'e')))
    elif what == 'in_memory':
        if init:
            H.make_property(gp.Prop('m', lambda v: v + 1, ['v'])); I.prove('refused', I.raises(lambda: H.make_property(gp.Prop('m', lambda v: v + 2, ['v']), write=True), ValueError))
            for s in snaps:
                x = H.get_snap(s['index']).return_property('m'); I.forall('memory_kept', (s['n'],), lambda k: I.eq(I.at(x, k), v(s, k) + 1))
                I.prove('not_written', not simhandler(I).get_snap(s['index']).has_property('m'))
    elif what == 'unknown':
        if not init: I.prove('refused', I.raises(lambda: H.make_property(prop(5, ('y',)), rename=['y']), ValueError))
        else: I.prove('once', I.raises(lambda: H.initialize_all_snaps(), ValueError))
    if keep: stored('a', lambda s, k: 2 * v(s, k))
    for s in snaps:
        check_read(I, 'mass_kept', simhandler(I).get_snap(s['index']).return_property('mass', in_h_units=True), s['props']['mass'][0], h, -1, True)
        check_read(I, 'v_kept', simhandler(I).get_snap(s['index']).return_property('v', in_h_units=True), s['props']['v'][0], h, 0, True)

# ------------------------------------------------------------------------------------------------ S02
def raw_snapshot(I, k, h):
    """an unformatted snapshot: row number, mass, vector position, two other fields"""
    n = I.int('rows%d' % k, 0, chi=7)
    return dict(n=n, id=I.np.arange(n), mass=I.array('rawmass%d' % k, (n,), gt=0, step=0.5, span=4), pos=I.array('rawpos%d' % k, (n, 3)),
                vel=I.array('rawvel%d' % k, (n, 3)), age=I.array('rawage%d' % k, (n,)), star=I.array('rawstar%d' % k, (n,)))

MSCALE = 1e10
def catalog(I, metas, raw, h, snaps='all', fields=None, loaded=None, late=False):
    """a SimCatalogs subclass of the documented shape for the raw snapshots (index -> raw)"""
    R = I.mod('simim.siminterface._rawsiminterface')
    class Cat(R.SimCatalogs):
        def __init__(self):
            self.allsnaps = I.np.array(sorted(raw))
            super().__init__(SIM, snaps=snaps)
            self.metadata = dict(cosmo_h=h, cosmo_omega_matter=0.3, cosmo_omega_baryon=0.05, box_edge=100.0, number_snaps=len(metas), name=SIM)
            self.snap_meta = table(I, metas, META); self.h = h
            self.basic_fields = {'M': [('mass', 'f', 'Msun/h', -1)], 'P': [('pos_x', 'f', 'Mpc/h', -1), ('pos_y', 'f', 'Mpc/h', -1), ('pos_z', 'f', 'Mpc/h', -1)]}
            if late: self.basic_fields = {'P': self.basic_fields['P'], 'M': self.basic_fields['M']}
            self.dm_fields = {'ID': [('id', 'i', 'none', 0)], 'V': [('vx', 'f', 'km/s', 0), ('none_1', 'f', 'km/s', 0), ('vz', 'f', 'pc/s', 2)], 'A': [('age', 'f', 'Gyr/h', -1)]}
            self.matter_fields = {'S': [('star', 'f', 'Msun/h', -1)]}
            self.transform_keys = {'M': lambda x, h: x * MSCALE, 'A': lambda x, h: x * h, 'P': lambda x, h: x / 8}
        def _loader(self, path, snapshot, fields):
            r = raw[int(snapshot)]
            if loaded is not None: loaded.append(int(snapshot))
            keys = {'ID': 'id', 'M': 'mass', 'P': 'pos', 'V': 'vel', 'A': 'age', 'S': 'star'}
            return {f: r[keys[f]].copy() for f in fields}, r['n']
    return Cat()

def check_formatted(I, nm, f, idx, r, h, other=('id', 'vx', 'vz', 'age', 'star'), light=False):
    """one snapshot of the file holds every raw row once, in decreasing order of mass"""
    g = f['Snapshot %d' % idx]; n = r['n']
    same_set(I, nm + 'fields', g.keys(), ['mass', 'mass_cuts', 'pos_x', 'pos_y', 'pos_z'] + list(other))
    d = {k: g[k][:] for k in g.keys() if k != 'mass_cuts'}
    for k in d: I.prove(nm + 'rows', I.eq(d[k].shape[0], n), k)
    units = dict(mass=('Msun/h', -1), pos_x=('Mpc/h', -1), pos_y=('Mpc/h', -1), pos_z=('Mpc/h', -1), id=('none', 0), vx=('km/s', 0), vz=('pc/s', 2), age=('Gyr/h', -1), star=('Msun/h', -1))
    for k in d: I.prove(nm + 'units', g[k].attrs['units'] == units[k][0] and g[k].attrs['h dependence'] == units[k][1], k)
    M = d['mass']
    I.forall(nm + 'mass_decreases', (n,), lambda i: I.implies(i + 1 < n, lambda: I.at(M, i) >= I.at(M, i + 1)))
    cuts = g['mass_cuts'][:]
    I.prove(nm + 'cut_table', cuts.shape[0] == 141)
    for j in () if light else (0, 1, 70, 139, 140): I.prove(nm + 'cut_value', abs(float(cuts['min_mass'][j]) / 10 ** (20 - 0.1 * j) - 1) < 1e-5)
    for j in () if light else I.rows(cuts['index']):
        c = cuts['min_mass'][j]; x = cuts['index'][j]
        I.prove(nm + 'cut_range', I.And(x >= 0, x <= n))
        I.forall(nm + 'cut_counts', (n,), lambda i: I.iff(i < x, I.at(M, i) >= c))
    if 'id' not in d: return d
    ID = d['id']
    I.forall(nm + 'id_range', (n,), lambda i: I.And(I.at(ID, i) >= 0, I.at(ID, i) < n))
    I.forall(nm + 'each_once', (n, n), lambda i, j: I.implies(I.eq(I.at(ID, i), I.at(ID, j)), lambda: I.eq(i, j)))
    src = dict(mass=lambda p: I.at(r['mass'], p) * MSCALE, pos_x=lambda p: I.at(r['pos'], p, 0) / 8, pos_y=lambda p: I.at(r['pos'], p, 1) / 8, pos_z=lambda p: I.at(r['pos'], p, 2) / 8,
               vx=lambda p: I.at(r['vel'], p, 0), vz=lambda p: I.at(r['vel'], p, 2), age=lambda p: I.at(r['age'], p) * h, star=lambda p: I.at(r['star'], p))
    for k in d:
        if k != 'id' and not (light and k not in ('mass', 'vx')): I.forall(nm + 'row_' + k, (n,), lambda i: I.eq32(I.at(d[k], i), src[k](I.at(ID, i))))
    return d

def set_root(I):
    I.package_root(); P = I.mod('simim._paths')._SimIMPaths(); root = I.tmpdir(); P._setuppath(root); P._newsimpath(SIM)
    return P.sims[SIM] + '/data.hdf5'

def metas_of(idxs): return [dict(index=i, redshift=float(100 - i) / 8, redshift_min=float(99 - i) / 8, redshift_max=float(101 - i) / 8) for i in idxs]

@contract('S02', covers=['SimCatalogs.format', 'SimCatalogs.__init__'], params=[{'basic': False}, {'basic': True}], shards=2)
def format_new(I, basic):
    """every loaded object is in the file once, rows together, by decreasing mass, with the right cut table"""
    path = set_root(I); h = I.real('h', gt=0, step=0.125, lt=2)
    r = raw_snapshot(I, 0, h); keep = {k: I.snap(v) if k != 'n' else v for k, v in r.items()}
    setup = I.choose('setup', ['plain', 'empty_file', 'unknown_snapshot', 'mass_last'])
    if setup == 'empty_file': I.mod('h5py').File(path, 'w').close()
    ask = [5, 6] if setup == 'unknown_snapshot' else 'all'
    C = catalog(I, metas_of([5]), {5: r}, h, late=setup == 'mass_last', snaps=ask)
    C.format(basic=basic)
    with I.mod('h5py').File(path, 'r') as f:
        same_set(I, 'groups', f.keys(), ['Snapshot 5'])
        d = check_formatted(I, '', f, 5, keep, h, () if basic else ('id', 'vx', 'vz', 'age', 'star'))
        I.prove('meta', I.And(I.eq(f.attrs['cosmo_h'], h), f.attrs['box_edge'] == 100.0, f.attrs['snapshots'].shape[0] == 1, I.eq(f.attrs['snapshots']['index'][0], 5)))

@contract('S02', covers=['SimCatalogs.format'], params=[{'remake': False, 'over': False}, {'remake': False, 'over': True}, {'remake': True, 'over': False}, {'remake': True, 'over': True}], shards=2)
def format_again(I, remake, over):
    """adding to a file keeps, replaces or adds snapshots as asked"""
    path = set_root(I); h = I.real('h', gt=0, step=0.125, lt=2)
    first = I.choose('first', [[5], [5, 9]], quick=[0]); second = I.choose('second', [[9], [5, 9], [5]], quick=[0, 1])
    basic1 = I.flag('basic1', quick=[0]); basic2 = I.flag('basic2', quick=[1])
    r1 = {5: raw_snapshot(I, 0, h), 9: raw_snapshot(I, 1, h)}; r2 = {5: raw_snapshot(I, 2, h), 9: raw_snapshot(I, 3, h)}
    catalog(I, metas_of([5, 9]), r1, h, snaps=first).format(basic=basic1)
    loaded = []
    catalog(I, metas_of([5, 9]), r2, h, snaps=second, loaded=loaded).format(remake=remake, overwrite=over, basic=basic2)
    full = ('id', 'vx', 'vz', 'age', 'star')
    have = {k: r1 for k in first}
    todo = second if remake or over else [k for k in second if k not in first]
    if remake: have = {}
    for k in todo: have[k] = r2
    I.prove('loaded', sorted(loaded) == sorted(todo), '%r %r' % (loaded, todo))
    fields = full if not (basic2 if remake else basic1) else ()
    with I.mod('h5py').File(path, 'r') as f:
        same_set(I, 'groups', f.keys(), ['Snapshot %d' % k for k in have])
        t = f.attrs['snapshots']
        I.prove('table', [int(x) for x in t['index']] == sorted(have), repr([int(x) for x in t['index']]))
        for j, k in enumerate(sorted(have)): I.prove('table_row', float(t['redshift'][j]) == float(100 - k) / 8, k)
        I.prove('number', int(f.attrs['number_snaps']) == len(have))
        for k in sorted(have): check_formatted(I, 's%d.' % k, f, k, have[k][k], h, fields, light=I.sym)

@contract('S02', covers=['SimCatalogs.format'], sym=False)
def format_many(I):
    """the same for snapshots of many objects"""
    path = set_root(I); h = 0.5; n = I.choose('n', [200, 3000, 40000, 70000]); rng = I.np.random.RandomState(I.int('seed', 0, chi=999))
    r = dict(n=n, id=I.np.arange(n), mass=10 ** rng.uniform(-3, 4, n), pos=rng.rand(n, 3), vel=rng.rand(n, 3), age=rng.rand(n), star=rng.rand(n))
    catalog(I, metas_of([5]), {5: r}, h).format()
    with I.mod('h5py').File(path, 'r') as f:
        g = f['Snapshot 5']; M = g['mass'][:]; ID = g['id'][:]
        I.prove('each_once', bool((I.np.sort(ID) == I.np.arange(n)).all())); I.prove('mass_decreases', bool((M[1:] <= M[:-1]).all()))
        I.prove('mass', bool((M == (r['mass'] * MSCALE).astype('f')[ID]).all()))
        for k, x in dict(pos_y=r['pos'][:, 1] / 8, vz=r['vel'][:, 2], age=r['age'] * h, star=r['star']).items(): I.prove('row_' + k, bool((g[k][:] == x.astype(g[k].dtype)[ID]).all()))
        c = g['mass_cuts'][:]
        I.prove('cuts', all(int(i) == int((M >= m).sum()) for m, i in zip(c['min_mass'], c['index'])))
