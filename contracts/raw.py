"""S03 readers of downloaded catalogues, S04 metadata of snapshots, S05 downloading and removing raw files."""
import itertools
from vc.api import contract

class Response:
    def __init__(self, data=None, text=None): self.data = data; self.text = text; self.ok = True; self.status_code = 200
    def json(self): return self.data
    def raise_for_status(self): pass

class Web:
    """stands for the requests module: answers are looked up by the end of the address"""
    def __init__(self, pages): self.pages = pages; self.asked = []
    def get(self, url, params=None, headers=None, **k):
        self.asked.append(str(url))
        for end, r in self.pages:
            if str(url).rstrip('/').endswith(end): return r() if callable(r) else r
        raise RuntimeError('no such page: %s' % url)

def root_for(I, sim):
    I.package_root(); P = I.mod('simim._paths')._SimIMPaths(); root = I.tmpdir(); P._setuppath(root); P._newsimpath(sim)
    return P.sims[sim]

def close(I, a, b, rel=1e-5, res=1e-3): return I.near(a, b, rel * abs(b) + res) if not I.sym else I.eq(a, b)

def check_table(I, t, idx, zs, h, om, ob):
    """one row per snapshot, earliest first; intervals abut at equal cosmic age and reach from the first snapshot to today"""
    u = I.mod('astropy.units'); C = I.mod('astropy.cosmology')
    cosmo = C.FlatLambdaCDM(H0=100 * h * u.km / u.s / u.Mpc, Om0=om, Ob0=ob, Tcmb0=2.7255 * u.K)
    n = len(idx)
    I.prove('rows', t.shape[0] == n, '%r rows for snapshots %r' % (t.shape, idx))
    age = lambda z: cosmo.age(z).value
    for i in range(n):
        I.prove('index', I.eq(t['index'][i], idx[i]))
        I.prove('redshift', I.eq32(t['redshift'][i], zs[i]))
        I.prove('contains', I.And(t['redshift_min'][i] <= t['redshift'][i], t['redshift'][i] <= t['redshift_max'][i]))
        if i + 1 < n:
            I.prove('abut', I.And(I.eq(t['redshift_min'][i], t['redshift_max'][i + 1]), I.eq(t['time_end'][i], t['time_start'][i + 1]),
                                  I.eq(t['distance_min'][i], t['distance_max'][i + 1]), I.eq(t['transverse_distance_min'][i], t['transverse_distance_max'][i + 1])))
            mid = (age(zs[i]) + age(zs[i + 1])) / 2
            I.prove('middle_time', close(I, t['time_end'][i], mid))
            I.prove('middle_redshift', close(I, age(t['redshift_min'][i]), mid))
        for e, w in (('min', 'end'), ('max', 'start')):
            z = t['redshift_' + e][i]
            I.prove('time_of_redshift', close(I, t['time_' + w][i], age(z)))
            d = cosmo.comoving_distance(z).value * h
            I.prove('distance_of_redshift', I.And(close(I, t['distance_' + e][i], d, res=1e-2), close(I, t['transverse_distance_' + e][i], d, res=1e-2)))
    I.prove('first', I.And(I.eq32(t['redshift_max'][0], zs[0]), I.eq(t['redshift_min'][n - 1], 0), I.eq(t['distance_min'][n - 1], 0)))

def falling(I, k):
    zs = [I.real('z0', lo=0, hi=None if I.sym else 8, nice=[0])]
    for j in range(1, k):
        # distinct snapshots of a simulation are well separated on the scale of single precision
        z = I.real('z%d' % j, gt=zs[-1], hi=None if I.sym else zs[-1] + 3)
        zs.append(z)
    return zs[::-1]

ILL = 'TNG300-1'
@contract('S04', covers=['IllustrisCatalogs.download_meta', 'Snapshot.__init__', 'Snapshot.dif_snap', 'Snapshot.dif_lowerz_snap', 'Snapshot.dif_higherz_snap', 'SimCatalogs.__init__'],
          params=[{'k': 1}, {'k': 2}, {'k': 3}, {'k': 4}])
def illustris_table(I, k):
    """Illustris/TNG: the web interface may list the snapshots in any order and more of them than requested"""
    root_for(I, ILL)
    M = I.mod('simim.siminterface.illustris')
    nums = [3, 7, 8, 50][:k]; zs = falling(I, k)
    h = I.real('h', gt=0, lt=2, step=0.125, nice=[0.5]); om = I.real('om', gt=0, lt=1, step=0.125); ob = 0.0 if I.sym else om / 8
    if not I.sym: om = min(max(om, 0.1), 0.75); ob = om / 8; h = min(max(h, 0.25), 1.5)
    box = I.real('box', gt=0)
    perms = list(itertools.permutations(range(k))); order = I.choose('listed', perms if k < 4 else perms[::5], quick=[0, 2, 3] if k > 2 else None)
    subs = [list(range(k))] + [[j for j in range(k) if j != d] for d in range(k) if k > 1]
    want = I.choose('requested', subs, quick=[0, 1, 2])
    sim = dict(name=ILL, boxsize=box, num_snapshots=k, cosmology='x', omega_0=om, omega_L=1 - om, omega_B=ob, hubble=h, num_files_groupcat=5)
    snaps = [dict(number=nums[j], redshift=zs[j]) for j in order]
    I.patch(M, 'requests', Web([('/snapshots', Response(snaps)), ('/' + ILL, Response(sim))]))
    c = M.IllustrisCatalogs(ILL, 'key', snaps=[nums[j] for j in want])
    c.download_meta()
    idx = [nums[j] for j in want]; zw = [zs[j] for j in want]
    check_table(I, c.snap_meta, idx, zw, h, om, ob)
    again = M.IllustrisCatalogs(ILL, 'key', snaps=[nums[j] for j in want])
    for x in (c, again):
        I.prove('box', I.And(I.eq(x.box_edge * 1000, box), I.eq(x.h, h), I.eq(x.metadata['cosmo_omega_matter'], om), I.eq(x.metadata['cosmo_omega_baryon'], ob), x.metadata['groupcat_number_files'] == 5))
    check_table(I, again.snap_meta, idx, zw, h, om, ob)

# ------------------------------------------------------------------------------------------------ UniverseMachine, Uchuu
SCALES = ['0.055623', '0.125000', '0.3625', '0.506185', '0.75', '0.994717', '1.000000']
UM = {'UniverseMachine-BolshoiPlanck': 'txt', 'UniverseMachine-SMDPL': 'bin', 'UniverseMachine-MDPL2': 'bin'}
UMBOX = {'UniverseMachine-BolshoiPlanck': 250, 'UniverseMachine-SMDPL': 400, 'UniverseMachine-MDPL2': 1000}
ZS = ['z12p0', 'z9p48', 'z6p13', 'z3p05', 'z2p0', 'z0p49', 'z0p00']

def page(names): return '<html> <title>Index of /files</title> ' + ' '.join('<tr><td><a href="%s">%s</a> 12-Mar-2019 ' % (n, n) for n in names) + '<a href="other.txt">other</a> </html>'

def um_files(I, sim, k):
    """k files on the web page, in any order; returns names from the earliest on"""
    ch = sorted(I.choose('scales', list(itertools.combinations(range(len(SCALES)), k))))
    if sim in UM: names = ['sfr_catalog_%s.%s' % (SCALES[c], UM[sim]) for c in ch]; zs = [1 / float(SCALES[c]) - 1 for c in ch]
    else: names = ['Uchuu_UM_%s_data1.h5' % ZS[c] for c in ch]; zs = [float(ZS[c][1:].replace('p', '.')) for c in ch]
    perms = list(itertools.permutations(range(k)))
    return names, zs, I.choose('listed', perms)

def um_catalog(I, sim, names, order, snaps):
    mod = 'simim.siminterface.' + ('universemachine' if sim in UM else 'uchuu'); M = I.mod(mod)
    listing = [names[j] for j in order]
    if sim not in UM: listing = [n for j in order for n in (names[j].replace('data1', 'data3'), names[j], names[j].replace('data1', 'data2'))]
    I.patch(M, 'requests', Web([('', Response(text=page(listing)))]))
    return M, getattr(M, 'UniversemachineCatalogs' if sim in UM else 'UchuuCatalogs')(sim, snaps=snaps)

ALLUM = sorted(UM) + ['UniverseMachine-uchuu']
@contract('S04', covers=['UniversemachineCatalogs.__init__', 'UniversemachineCatalogs.download_meta', 'UchuuCatalogs.__init__', 'UchuuCatalogs.download_meta'],
          params=[{'sim': s} for s in ALLUM], sym=False, note='file names are concrete strings; all orders of up to four listed files are tried')
def universemachine_table(I, sim):
    """numbers run from the earliest file to the latest whatever the order of the web listing, also when the listing was saved earlier"""
    path = root_for(I, sim)
    k = I.choose('files', [1, 2, 3, 4]); names, zs, order = um_files(I, sim, k)
    want = I.choose('requested', [list(range(k))] + [[j for j in range(k) if j != d] for d in range(k) if k > 1])
    if I.flag('listing_saved'): I.np.save(path + '/web_paths.npy', I.np.array([names[j] for j in (order if sim in UM else range(k))]))
    M, c = um_catalog(I, sim, names, order, want)
    I.prove('files', [str(c.web_files[j]) for j in range(k)] == names, '%r, should be %r' % (list(c.web_files), names))
    c.download_meta()
    M, again = um_catalog(I, sim, names, order, want)
    for x in (c, again):
        m = x.metadata
        om, ob, h, box = (0.307, 0.048, 0.678, UMBOX[sim]) if sim in UM else (0.3089, 0.0486, 0.6775, 2000)
        I.prove('cosmology', (m['cosmo_omega_matter'], m['cosmo_omega_baryon'], m['cosmo_h'], m['box_edge'], m['number_snaps']) == (om, ob, h, box, k))
        I.prove('h_box', x.h == h and x.box_edge == box)
        check_table(I, x.snap_meta, want, [zs[j] for j in want], h, om, ob)

# ------------------------------------------------------------------------------------------------ S03
class Over:
    """division by a constant, written as a factor"""
    def __init__(self, c): self.c = c
    def __rmul__(self, v): return v / self.c
def illustris_fields(dark):
    """raw name -> (names and units in the file, number of components, factor to the stated units)"""
    X = lambda *n, u, e, c=1.0: ([(x, u, e) for x in n], c)
    kpc = Over(1000.0)
    F = dict(SubhaloPos=X('pos_x', 'pos_y', 'pos_z', u='Mpc/h', e=-1, c=kpc), SubhaloHalfmassRad=X('r_hm', u='Mpc/h', e=-1, c=kpc), SubhaloMass=X('mass', u='Msun/h', e=-1, c=1e10),
             SubhaloVel=X('v_x', 'v_y', 'v_z', u='km/s', e=0), SubhaloCM=X('cm_x', 'cm_y', 'cm_z', u='Mpc/h', e=-1, c=kpc), SubhaloMassInMaxRad=X('mass_maxr', u='Msun/h', e=-1, c=1e10),
             SubhaloSpin=X('spin_x', 'spin_y', 'spin_z', u='Mpc/h km/s', e=-1, c=kpc), SubhaloVelDisp=X('vdisp', u='km/s', e=0), SubhaloVmax=X('vmax', u='km/s', e=0), SubhaloVmaxRad=X('r_vmax', u='Mpc/h', e=-1, c=kpc))
    if dark: return F
    t = lambda s: [x + s for x in ('m_gas', 'm_dm', 'none', 'm_tracers', 'm_stars_wind', 'm_bh')]
    F.update(SubhaloFlag=X('flag', u='none', e=0), SubhaloBHMass=X('bhmass', u='Msun/h', e=-1, c=1e10), SubhaloBHMdot=X('bhmdot', u='Msun/h / (Gyr/h)', e=0, c=1e10 / 0.978),
             SubhaloGasMetallicity=X('met', u='None', e=0), SubhaloGasMetallicityHalfRad=X('met_hr', u='None', e=0), SubhaloGasMetallicityMaxRad=X('met_maxr', u='None', e=0),
             SubhaloMassType=X(*t(''), u='Msun/h', e=-1, c=1e10), SubhaloMassInHalfRad=X('mass_hr', u='Msun/h', e=-1, c=1e10), SubhaloMassInHalfRadType=X(*t('_hr'), u='Msun/h', e=-1, c=1e10),
             SubhaloMassInMaxRadType=X(*t('_maxr'), u='Msun/h', e=-1, c=1e10), SubhaloMassInRad=X('mass_2hr', u='Msun/h', e=-1, c=1e10), SubhaloMassInRadType=X(*t('_2hr'), u='Msun/h', e=-1, c=1e10),
             SubhaloSFR=X('sfr', u='Msun/yr', e=0), SubhaloSFRinHalfRad=X('sfr_hr', u='Msun/yr', e=0), SubhaloSFRinMaxRad=X('sfr_maxr', u='Msun/yr', e=0), SubhaloSFRinRad=X('sfr_2hr', u='Msun/yr', e=0),
             SubhaloStarMetallicity=X('met_stellar', u='None', e=0), SubhaloStarMetallicityHalfRad=X('met_stellar_hr', u='None', e=0), SubhaloStarMetallicityMaxRad=X('met_stellar_maxr', u='None', e=0),
             SubhaloStellarPhotometrics=X(*['phot_' + b for b in 'UBVKgriz'], u='mag', e=0))
    el = ['H', 'He', 'C', 'N', 'O', 'Ne', 'Mg', 'Si', 'Fe', 'Other']
    for s, q in (('', ''), ('HalfRad', '_hr'), ('MaxRad', '_maxr')): F['SubhaloGasMetalFractions' + s] = X(*['met' + x + q for x in el], u='None', e=0)
    return F

def illustris_meta(I, path, snap, nfiles, h):
    from contracts.sims import table, META
    m = dict(name='x', box_edge=75.0, number_snaps=1, cosmo_name='x', cosmo_omega_matter=0.3, cosmo_omega_lambda=0.7, cosmo_omega_baryon=0.05, cosmo_h=h, groupcat_number_files=nfiles)
    I.np.save(path + '/meta.npy', m)
    I.np.save(path + '/meta_snaps.npy', table(I, [dict(index=s, redshift=1.0, redshift_min=0.5, redshift_max=1.0) for s in snap], META))

def illustris_chunks(I, path, snap, fields, nfiles, style, empty_first=False):
    """writes the chunk files of one snapshot; returns the number of objects and the chunks of every field"""
    os = I.mod('os'); h5 = I.mod('h5py')
    os.makedirs(path + '/raw/groups_%03d' % snap)
    ns = [I.int('n%d_%d' % (snap, c), 1 if c == 0 else 0, chi=3) for c in range(nfiles)]
    tot = ns[0]
    for x in ns[1:]: tot = tot + x
    parts = {f: [] for f in fields}
    for c in range(nfiles):
        with h5.File(path + '/raw/groups_%03d/%s%03d.%d.hdf5' % (snap, style, snap, c), 'w') as f:
            hd = f.create_group('Header'); hd.attrs['Nsubgroups_Total'] = tot; hd.attrs['Nsubgroups_ThisFile'] = ns[c]; hd.attrs['NumFiles'] = nfiles
            hd.attrs['Ngroups_Total'] = 7; hd.attrs['Ngroups_ThisFile'] = 2
            g = f.create_group('Subhalo')
            for q, (comp, fac) in fields.items():
                # several fields share one array, shifted, to keep the number of inputs down
                if q == 'SubhaloFlag': a = I.array('flag%d_%d' % (snap, c), (ns[c],), kind='i', lo=0, hi=1)
                else: a = I.array('%s%d_%d' % (q, snap, c), (ns[c],) if len(comp) == 1 else (ns[c], len(comp)), step=0.25)
                parts[q].append(a); g.create_dataset(q, data=a)
            g.create_dataset('SubhaloUnused', data=I.np.zeros((ns[c],)))
    return tot, ns, parts

def chunk_value(I, ns, chunks, i, *j):
    """element i of the chunks laid end to end"""
    if not I.sym:
        for n, a in zip(ns, chunks):
            if i < n: return a[(i,) + j]
            i = i - n
    c = ns[0]
    r = I.at(chunks[-1], i - sum(ns[:-1]), *j) if len(ns) > 1 else I.at(chunks[0], i, *j)
    starts = [0]
    for n in ns: starts.append(starts[-1] + n)
    for q in range(len(ns) - 2, -1, -1): r = I.ite(i < starts[q + 1], I.at(chunks[q], i - starts[q], *j), r)
    return r

LIGHT = ['SubhaloPos', 'SubhaloMass', 'SubhaloFlag', 'SubhaloSFR']
@contract('S03', covers=['_loadObjects', '_loadSubhalos', '_gcPath', 'IllustrisCatalogs._loader'], params=[{'files': f} for f in (1, 2, 3)])
def illustris_chunked(I, files):
    """the chunks of a snapshot are laid end to end, the rows of every field together"""
    path = root_for(I, ILL); illustris_meta(I, path, [7, 12], files, 0.5)
    F = illustris_fields(False); fields = {f: F[f] for f in LIGHT}
    style = I.choose('style', ['groups_', 'fof_subhalo_tab_'])
    tot, ns, parts = illustris_chunks(I, path, 12, fields, files, style)
    M = I.mod('simim.siminterface.illustris'); c = M.IllustrisCatalogs(ILL, 'key', snaps=[12])
    ask = I.choose('fields', [LIGHT, LIGHT[::-1], ['SubhaloMass', 'SubhaloPos']])
    got, n = c._loader(path=path + '/raw/', snapshot=12, fields=ask)
    I.prove('number', I.eq(n, tot))
    I.prove('fields', sorted(got) == sorted(ask))
    for f in ask:
        d = len(fields[f][0])
        I.shape_is('shape', got[f], (tot,) if d == 1 else (tot, d))
        for j in range(d):
            jj = () if d == 1 else (j,)
            I.forall('value_' + f, (tot,), lambda i: I.eq(I.at(got[f], i, *jj), chunk_value(I, ns, parts[f], i, *jj)))

def check_stored(I, path, snap, spec, row_of, n, value, skip=()):
    """every field of the specification is stored for every object with its stated unit and in that unit"""
    from contracts.handlers import same_set
    with I.mod('h5py').File(path + '/data.hdf5', 'r') as f:
        g = f['Snapshot %d' % snap]
        names = [c[0] for q, (comp, fac) in spec.items() for c in comp if c[0][:4] != 'none']
        same_set(I, 'fields', [k for k in g.keys() if k != 'mass_cuts'], names)
        for q, (comp, fac) in spec.items():
            for j, (nm, unit, e) in enumerate(comp):
                if nm[:4] == 'none': continue
                I.prove('units', g[nm].attrs['units'] == unit and g[nm].attrs['h dependence'] == e, '%s is labelled %s, %s' % (nm, g[nm].attrs['units'], g[nm].attrs['h dependence']))
                d = g[nm][:]
                I.prove('rows', I.eq(d.shape[0], n), nm)
                for i in range(n):
                    v = value(q, i, j, len(comp)) * fac; w = d[row_of[i]]; t = 1e-6 * I.ite(v < 0, -v, v)
                    I.prove('stored_' + nm, I.And(w >= v - t, w <= v + t))

@contract('S03', covers=['IllustrisCatalogs.__init__', 'SimCatalogs.format'], params=[{'sim': s} for s in ('TNG300-1', 'TNG100-1-Dark', 'Illustris-3')])
def illustris_units(I, sim):
    """every field of an Illustris/TNG catalogue is stored under its name in the units stated for it"""
    path = root_for(I, sim); h = I.real('h', gt=0, lt=2, step=0.125); illustris_meta(I, path, [7, 12], 1, h)
    F = illustris_fields(sim.endswith('Dark'))
    if sim.startswith('Illustris'): F = {k: v for k, v in F.items() if k != 'SubhaloFlag' and 'Fractions' not in k}
    os = I.mod('os'); h5 = I.mod('h5py'); n = 1 if I.sym else I.int('n', 1, 3)
    os.makedirs(path + '/raw/groups_007')
    raw = {q: I.array(q, (n,) if len(c) == 1 else (n, len(c)), step=0.25, gt=0, kind='i' if q == 'SubhaloFlag' else 'f') for q, (c, fac) in F.items()}
    if not I.sym: raw['SubhaloMass'] = I.np.array([3.0, 1.5, 8.0])[:n]
    keep = {q: I.snap(v) for q, v in raw.items()}
    with h5.File(path + '/raw/groups_007/fof_subhalo_tab_007.0.hdf5', 'w') as f:
        hd = f.create_group('Header'); hd.attrs['Nsubgroups_Total'] = n; hd.attrs['Nsubgroups_ThisFile'] = n; hd.attrs['NumFiles'] = 1
        g = f.create_group('Subhalo')
        for q in F: g.create_dataset(q, data=raw[q])
    M = I.mod('simim.siminterface.illustris'); c = M.IllustrisCatalogs(sim, 'key', snaps=[7])
    c.format()
    rank = {1: [0], 2: [0, 1], 3: [1, 2, 0]}[n]
    check_stored(I, path, 7, F, rank, n, lambda q, i, j, d: I.at(keep[q], i) if d == 1 else I.at(keep[q], i, j))

def um_fields(sim, h):
    """raw name -> (names and units in the file, factor to the stated units)"""
    X = lambda *n, u, e, c=1.0: ([(x, u, e) for x in n], c)
    asc = sim == 'UniverseMachine-BolshoiPlanck'
    if sim in UM:
        F = dict(m=X('mass', u='Msun/h', e=-1, c=h if asc else 1.0), id=X('halo_id', u='None', e=0), descid=X('descendent_id', u='None', e=0), upid=X('parent_id', u='None', e=0), v=X('vmax', u='km/s', e=0),
                 mp=X('mass_peak', u='Msun/h', e=-1, c=h if asc else 1.0), vmp=X('vmax_peak', u='km/s', e=0), r=X('r', u='Mpc/h', e=-1, c=Over(1000.0)), rank1=X('Rank1', u='None', e=0))
        if asc: F.update({a: X('pos_' + a, u='Mpc/h', e=-1) for a in 'xyz'}); F.update({'v' + a: X('v_' + a, u='km/s', e=0) for a in 'xyz'}); F['obs_ssfr'] = X('ssfr_obs', u='?', e=0); F['smhm'] = X('stellar_to_halo_mass_ratio', u='None', e=0)
        else: F['pos'] = ([('pos_' + a, 'Mpc/h', -1) for a in 'xyz'] + [('v_' + a, 'km/s', 0) for a in 'xyz'], 1.0); F['a_uv'] = X('uv_attenuation', u='mag', e=0)
    else:
        F = {a: X('pos_' + a, u='Mpc/h', e=-1) for a in 'xyz'}; F.update({'v' + a: X('v_' + a, u='km/s', e=0) for a in 'xyz'})
        F.update(Mvir=X('mass', u='Msun/h', e=-1), id=X('halo_id', u='None', e=0), desc_id=X('descendent_id', u='None', e=0), upid=X('parent_id', u='None', e=0), vmax=X('vmax', u='km/s', e=0),
                 Mpeak=X('mass_peak', u='Msun/h', e=-1), Vmax_Mpeak=X('vmax_peak', u='km/s', e=0), A_UV=X('uv_attenuation', u='mag', e=0))
    F.update(sm=X('m_stars', u='Msun/h', e=-1, c=h), icl=X('icl', u='Msun/h', e=-1, c=h), sfr=X('sfr', u='Msun/yr', e=0), obs_sm=X('m_stars_obs', u='Msun/h', e=-1, c=h), obs_sfr=X('sfr_obs', u='Msun/yr', e=0), obs_uv=X('phot_uv_obs', u='mag', e=0))
    return F

ASCII = 'id descid upid flags uparent_dist x y z vx vy vz m v mp vmp r rank1 rank2 ra rarank sm icl sfr obs_sm obs_sfr obs_ssfr smhm obs_uv'.split()
# the record layout published with the binary catalogues
BINARY = [('id', 'i8'), ('descid', 'i8'), ('upid', 'i8'), ('flags', 'i4'), ('uparent_dist', 'f4'), ('pos', 'f4', (6,)), ('vmp', 'f4'), ('lvmp', 'f4'), ('mp', 'f4'), ('m', 'f4'), ('v', 'f4'), ('r', 'f4'), ('rank1', 'f4'),
          ('rank2', 'f4'), ('ra', 'f4'), ('rarank', 'f4'), ('a_uv', 'f4'), ('sm', 'f4'), ('icl', 'f4'), ('sfr', 'f4'), ('obs_sm', 'f4'), ('obs_sfr', 'f4'), ('obs_uv', 'f4'), ('empty', 'f4')]
INTS = ('id', 'descid', 'upid', 'flags', 'desc_id')

def um_write(I, path, names, k, sim, n):
    """the raw file(s) of snapshot k; returns the raw columns"""
    np = I.np; raw = {}
    cols = ASCII if sim == 'UniverseMachine-BolshoiPlanck' else [b[0] for b in BINARY] if sim in UM else [c for c in um_fields(sim, 1.0)]
    for c in cols:
        if c == 'flags': raw[c] = I.array('flags%d' % k, (n,), kind='i', elems=None if I.sym else [0, 16, 130, 144, 48, 1], lo=0, hi=255)
        elif c == 'id': raw[c] = np.arange(n)
        elif c in INTS: raw[c] = I.array('%s%d' % (c, k), (n,), kind='i', lo=-1, hi=50)
        elif c in ('m', 'Mvir') and not I.sym: raw[c] = I.array('%s%d' % (c, k), (n,), gt=0, step=0.25, span=50.0)
        else: raw[c] = I.array('%s%d' % (c, k), (n, 6) if c == 'pos' else (n,), step=0.25, span=500.0)
    f = path + '/raw/' + names[k]
    if sim == 'UniverseMachine-BolshoiPlanck':
        if not I.sym:
            with open(f, 'w') as o:
                o.write('#' + ' '.join(cols) + '\n# comment\n')
                for i in range(n): o.write(' '.join('%d' % raw[c][i] if c in INTS else '%.6f' % raw[c][i] for c in cols) + '\n')
    elif sim in UM:
        if not I.sym:
            a = np.zeros(n, dtype=np.dtype(BINARY, align=True))
            for c in cols: a[c] = raw[c]
            a.tofile(f)
    else:
        g = {1: ['id', 'upid', 'Mvir', 'sm', 'icl', 'sfr', 'obs_sm', 'obs_sfr', 'obs_uv'], 2: ['x', 'y', 'z'], 3: ['desc_id', 'vx', 'vy', 'vz', 'Mpeak', 'Vmax_Mpeak', 'vmax', 'A_UV']}
        for d in g:
            with I.mod('h5py').File(f.replace('data1', 'data%d' % d), 'w') as o:
                for c in g[d]: o.create_dataset(c, data=raw[c])
    return raw

def um_setup(I, sim, want):
    path = root_for(I, sim); k = 3; names = ['sfr_catalog_%s.%s' % (x, UM[sim]) for x in ('0.125000', '0.506185', '1.000000')] if sim in UM else ['Uchuu_UM_%s_data1.h5' % z for z in ('z9p48', 'z2p0', 'z0p49')]
    order = I.choose('listed', [(0, 1, 2), (2, 0, 1)]) if not I.sym else (0, 1, 2)
    I.mod('os').makedirs(path + '/raw')
    h = I.real('h', gt=0, lt=2, step=0.125)
    illustris_meta(I, path, list(range(k)), 1, h)
    return path, names, order, h

@contract('S03', covers=['UniversemachineCatalogs._ascii_loader', 'UniversemachineCatalogs._bin_loader', 'UchuuCatalogs._loader', 'UniversemachineCatalogs.__init__', 'UchuuCatalogs.__init__', 'SimCatalogs.format'],
          params=[{'sim': s} for s in ALLUM], sym=False, note='real files of up to five objects, any order of the web listing')
def universemachine_formatted(I, sim):
    """the objects of the right file, without the excluded ones, in the box, every field in its stated units"""
    path, names, order, h = um_setup(I, sim, None)
    snap = I.choose('snap', [0, 1, 2]); raws = {}
    for k in (snap, (snap + 1) % 3): raws[k] = um_write(I, path, names, k, sim, I.int('n%d' % k, 1, chi=5))
    M, c = um_catalog(I, sim, names, order, [snap])
    I.prove('files', [str(x) for x in c.web_files] == names)
    c.format()
    raw = raws[snap]; F = um_fields(sim, h)
    rows = [i for i in range(len(raw['id'])) if sim not in UM or UM[sim] == 'txt' or not int(raw['flags'][i]) & 16]
    box = 75.0
    with I.mod('h5py').File(path + '/data.hdf5', 'r') as f:
        ids = [int(x) for x in f['Snapshot %d' % snap]['halo_id'][:]] if rows else []
    I.prove('objects', sorted(ids) == sorted(rows), '%r, should be %r' % (sorted(ids), sorted(rows)))
    def val(q, i, j, d):
        v = raw[q][rows[i]] if d == 1 else raw[q][rows[i], j]
        return v % box if q == 'pos' and j < 3 else v
    if rows: check_stored(I, path, snap, F, [ids.index(r) for r in rows], len(rows), val)

@contract('S03', covers=['UniversemachineCatalogs._ascii_loader', 'UniversemachineCatalogs._bin_loader', 'UchuuCatalogs._loader'], params=[{'sim': s} for s in ('UniverseMachine-BolshoiPlanck', 'UniverseMachine-SMDPL', 'UniverseMachine-uchuu')])
def universemachine_read(I, sim):
    """reading a snapshot returns every object that is not excluded once, its fields together, positions in the box"""
    path, names, order, h = um_setup(I, sim, None)
    M, c = um_catalog(I, sim, names, order, [1])
    n = I.int('n', 1, chi=5); raw = um_write(I, path, names, 1, sim, n)
    if I.sym: records(I, path + '/raw/' + names[1], raw, sim)
    F = um_fields(sim, h); fields = list(F)
    if I.flag('backwards'): fields = fields[::-1]
    got, num = c._loader(path=path + '/raw/', snapshot=1, fields=fields)
    I.prove('fields', sorted(got) == sorted(fields))
    binary = sim in UM and UM[sim] == 'bin'
    keep = (lambda i: (I.at(raw['flags'], i) // 16) % 2 == 0) if binary else (lambda i: True)
    I.prove('number', I.eq(num, I.sum((n,), lambda i: I.ite(keep(i), 1, 0))))
    ids = got['id']; box = 75.0
    I.forall('all_kept', (n,), lambda i: I.implies(keep(i), lambda: I.contains(ids, i)))
    for f in fields:
        d = len(F[f][0])
        I.shape_is('shape', got[f], (num,) if d == 1 else (num, d))
        for j in range(d):
            jj = () if d == 1 else (j,)
            def same(i):
                r = I.at(ids, i); v = I.at(raw[f], r, *jj); w = I.at(got[f], i, *jj)
                if not (binary and f == 'pos' and j < 3): return I.eq32(v, w)
                q = (v - w) / box
                return I.And(w >= 0, w <= box if not I.sym else w < box, I.eq32(w - v % box if I.sym else w, 0 if I.sym else v % box))
            I.forall('value_' + f, (num,), same)
    I.forall('excluded', (num,), lambda i: keep(I.at(ids, i)))
    I.forall('once', (num, num), lambda i, j: I.implies(I.eq(I.at(ids, i), I.at(ids, j)), lambda: I.eq(i, j)))

def records(I, file, raw, sim):
    """assumed contract of np.fromfile and np.loadtxt: the records of the file, read with the right layout"""
    want = [(c, 'i' if c in INTS else 'f') for c in ASCII] if sim == 'UniverseMachine-BolshoiPlanck' else [(b[0], b[1]) for b in BINARY]
    def read(f, dtype=None, **k):
        if I.mod('os').path.abspath(f) != file: raise FileNotFoundError(f)
        if [(x, I.np.dtype(t)) for x, t in dtype.fields_] != [(x, I.np.dtype(t)) for x, t in want]: raise ValueError('not the layout of the file: %r' % (dtype.fields_,))
        return I.np.RecArr({c: raw[c].copy() for c in raw}, dtype)
    I.patch(I.np, 'fromfile', read); I.patch(I.np, 'loadtxt', read)

# ------------------------------------------------------------------------------------------------ S05
class Removals:
    """stands in for everything that removes files: records the absolute paths, removes nothing"""
    def __init__(self, I, state):
        import os, shutil, subprocess, pathlib, shlex
        self.got = []; self.state = state; self.at = []; self.other = []
        def rec(p, *a, **k): self.got.append(os.path.abspath(os.fspath(p))); self.at.append(state())
        def command(c, *a, **k):
            w = shlex.split(c) if isinstance(c, str) else [str(x) for x in c]
            if w and os.path.basename(w[0]) == 'rm':
                for x in w[1:]:
                    if not x.startswith('-'): rec(x)
            else: self.other.append(w)
            return 0
        for m, names in ((os, ('remove', 'unlink', 'rmdir', 'removedirs')), (shutil, ('rmtree',)), (pathlib.Path, ('unlink', 'rmdir'))):
            for n in names: I.patch(m, n, rec)
        I.patch(os, 'system', command); I.patch(os, 'popen', command)
        for n in ('run', 'call', 'check_call', 'check_output', 'Popen'): I.patch(subprocess, n, command)

def listing(root):
    import os
    r = {}
    for d, ds, fs in os.walk(root):
        for x in ds: r[os.path.join(d, x)] = None
        for x in fs:
            with open(os.path.join(d, x), 'rb') as f: r[os.path.join(d, x)] = f.read()
    return r

ALLSIMS = ALLUM + [ILL]
ANSWERS = [['y'], ['n'], ['', 'yes', 'y'], ['Y', 'n'], ['no', 'n']]
def odd_root(I, sim):
    """the simulation's data lie in a directory with an awkward name"""
    I.package_root(); P = I.mod('simim._paths')._SimIMPaths(); os = I.mod('os')
    root = I.tmpdir() + '/' + I.choose('root', ['data', 'my data', "it's", 'a;b $x', '-r x', 'a *'])
    os.makedirs(root); P._setuppath(root); P._newsimpath(sim)
    return P.sims[sim]

def raw_tree(I, path, sim, names, snaps):
    """raw files of the snapshots, with bystanders; returns the raw files of every snapshot"""
    os = I.mod('os'); own = {}
    os.makedirs(path + '/raw', exist_ok=True)
    for k in snaps:
        if sim == ILL:
            own[k] = [path + '/raw/groups_%03d' % k]
            os.makedirs(own[k][0], exist_ok=True)
            fs = [own[k][0] + '/fof_subhalo_tab_%03d.0.hdf5' % k]
        elif sim in UM: own[k] = fs = [path + '/raw/' + names[k]]
        else: own[k] = fs = [path + '/raw/' + names[k].replace('data1', 'data%d' % d) for d in range(1, 13)]
        for f in fs:
            if not os.path.exists(f):
                with open(f, 'w') as o: o.write('raw')
    return own

@contract('S05', covers=['SimCatalogs.clean_raw', 'SimCatalogs.format', 'IllustrisCatalogs._get_rawsnapfiles', 'UniversemachineCatalogs._get_rawsnapfiles', 'UchuuCatalogs._get_rawsnapfiles'], params=[{'sim': s} for s in ALLSIMS],
          sym=False, note='removals are recorded by stand-ins, in a scratch directory')
def removal(I, sim):
    """raw files are removed only when the user agreed, only those of the simulation (of the snapshots just written), and nothing else"""
    os = I.mod('os'); path = odd_root(I, sim); h = 0.5; ks = [0, 1, 2]
    names = ['sfr_catalog_%s.%s' % (x, UM[sim]) for x in ('0.125000', '0.506185', '1.000000')] if sim in UM else ['Uchuu_UM_%s_data1.h5' % z for z in ('z9p48', 'z2p0', 'z0p49')]
    illustris_meta(I, path, ks, 1, h)
    own = raw_tree(I, path, sim, names, ks)
    with open(path + '/raw/notes.txt', 'w') as o: o.write('x')
    snaps = I.choose('snaps', [[1], [0, 2], [0, 1, 2]])
    if sim == ILL: M = I.mod('simim.siminterface.illustris'); c = M.IllustrisCatalogs(sim, 'key', snaps=snaps)
    else: M, c = um_catalog(I, sim, names, (0, 1, 2), snaps)
    R = I.mod('simim.siminterface._rawsiminterface')
    def complete():
        if not os.path.exists(path + '/data.hdf5'): return []
        with I.mod('h5py').File(path + '/data.hdf5', 'r') as f: return [int(g.split()[-1]) for g in f if 'mass' in f[g] and 'sm_done' in f[g]]
    rem = Removals(I, complete); ans = I.choose('answers', ANSWERS)
    before = listing(path)
    if I.flag('clean'):
        shown = I.answers(R, ans)
        c.clean_raw()
        I.prove('asked', len(shown) == len(ans))
        I.prove('only_raw', rem.got == ([path + '/raw'] if ans[-1] == 'y' else []), '%r' % rem.got)
        I.prove('nothing_else', listing(path) == before and not rem.other)
        return
    # format with removal on the way; the loader and fields are those of a small catalogue
    from contracts.handlers import same_set
    c.basic_fields = {'P': [('pos_x', 'f', 'Mpc/h', -1), ('pos_y', 'f', 'Mpc/h', -1), ('pos_z', 'f', 'Mpc/h', -1)], 'M': [('mass', 'f', 'Msun/h', -1)]}
    c.dm_fields = {'S': [('sm_done', 'f', 'x', 0)]}; c.matter_fields = {}; c.transform_keys = {}
    n = I.int('n', 0, 3); seen = []
    def load(path, snapshot, fields):
        seen.append((int(snapshot), len(rem.got))); return {'P': I.np.zeros((n, 3)), 'M': I.np.ones(n) * 1e9, 'S': I.np.ones(n)}, n
    c._loader = load
    real, check = I.flag('realtime'), I.flag('check')
    old = I.choose('existing', [None, [1]])
    if old:
        d = M.IllustrisCatalogs(sim, 'key', snaps=old) if sim == ILL else um_catalog(I, sim, names, (0, 1, 2), old)[1]
        d.basic_fields, d.dm_fields, d.matter_fields, d.transform_keys, d._loader = c.basic_fields, c.dm_fields, {}, {}, load
        d.format(); seen.clear()
        I.prove('not_asked_for', rem.got == [])
    before = listing(path)
    shown = I.answers(R, ans if real and check else [])
    c.format(realtime_clean_raw=real, realtime_clean_raw_check=check)
    go = not (real and check) or ans[-1] == 'y'
    todo = [k for k in snaps if not old or k not in old] if go else []
    I.prove('formatted', [k for k, x in seen] == todo, '%r, should be %r' % (seen, todo))
    want = [f for k in todo for f in own[k]] if real else []
    I.prove('removed', sorted(set(rem.got)) == sorted(want), '%r, should be %r' % (sorted(set(rem.got)), sorted(want)))
    for p, done in zip(rem.got, rem.at): I.prove('written_first', any(p in own[k] and k in done for k in todo), p)
    for (k, cnt), nx in zip(seen, seen[1:] + [(None, len(rem.got))]): I.prove('own_snapshot', all(p in own[k] for p in rem.got[cnt:nx[1]]))
    after = listing(path)
    I.prove('nothing_else', all(after.get(k, 0) == v for k, v in before.items() if k != path + '/data.hdf5') and not rem.other and set(after) - set(before) <= {path + '/data.hdf5'})

@contract('S05', covers=['UniversemachineCatalogs.download', 'UchuuCatalogs.download', 'IllustrisCatalogs.download'], params=[{'sim': s} for s in ALLSIMS], sym=False, note='transfers are recorded by stand-ins')
def download(I, sim):
    """every requested snapshot that is missing is fetched to the place where the reader looks for it; files that are there stay"""
    import shlex
    os = I.mod('os'); path = odd_root(I, sim); ks = [0, 1, 2]; nfiles = I.int('files', 1, 3)
    names = ['sfr_catalog_%s.%s' % (x, UM[sim]) for x in ('0.125000', '0.506185', '1.000000')] if sim in UM else ['Uchuu_UM_%s_data1.h5' % z for z in ('z9p48', 'z2p0', 'z0p49')]
    if sim == ILL or I.flag('have_meta'): illustris_meta(I, path, ks, nfiles, 0.5)
    have = I.choose('have', [[], [1], [0, 2], [0, 1, 2]]); snaps = I.choose('snaps', [[1], [0, 2], [0, 1, 2]]); redo = I.flag('redownload')
    df = I.choose('datafiles', [[1, 2, 3], [1], [2, 4, 12]])
    if have: raw_tree(I, path, sim, names, have)
    part = [s for s in ks if s not in have] if I.flag('partial') else []      # an earlier download was interrupted
    there = set((s, d) for s in have for d in range(1, 13))
    if part and sim == ILL:
        for s in part: os.makedirs(path + '/raw/groups_%03d' % s)
    elif part and sim not in UM:
        os.makedirs(path + '/raw', exist_ok=True)
        for s in part:
            there.add((s, 2))
            with open(path + '/raw/' + names[s].replace('data1', 'data2'), 'w') as o: o.write('raw')
    before = listing(path); got = []; tries = I.int('lost', 0, 2)
    if sim == ILL:
        M = I.mod('simim.siminterface.illustris'); c = M.IllustrisCatalogs(sim, 'key', snaps=snaps); left = [tries]
        def command(cmd):
            w = shlex.split(cmd); d = w[w.index('-P') + 1]; url = [x for x in w if x.startswith('http')][0]
            I.prove('one_target', w[0] == 'wget' and len([x for x in w if x.startswith('http')]) == 1)
            s = int(url.split('groupcat-')[1].split('/')[0]); got.append((s, d)); I.prove('simulation', '/%s/' % sim in url)
            n = nfiles if left[0] == 0 else nfiles - 1
            if left[0]: left[0] -= 1
            for j in range(n):
                with open(d + '/fof_subhalo_tab_%03d.%d.hdf5' % (s, j), 'w') as o: o.write('new')
        I.patch(os, 'system', command)
        c.download(redownload=redo)
        want = [s for s in snaps if redo or s not in have]
        I.prove('fetched', sorted(set(got)) == [(s, path + '/raw/groups_%03d' % s) for s in want], '%r' % got)
        for s in snaps: I.prove('present', all(os.path.exists(path + '/raw/groups_%03d/fof_subhalo_tab_%03d.%d.hdf5' % (s, s, j)) for j in range(nfiles if s in want else 1)))
    else:
        M, c = um_catalog(I, sim, names, I.choose('listed', [(0, 1, 2), (2, 0, 1)]), snaps)
        def fetch(url, f):
            got.append((str(url), os.path.abspath(f)))
            with open(f, 'w') as o: o.write('new')
        I.patch(M, 'urlretrieve', fetch)
        if sim in UM: c.download(redownload=redo)
        else: c.download(redownload=redo, datafiles=df)
        base = c.webpage
        if sim in UM: want = [(base + names[s], path + '/raw/' + names[s]) for s in snaps if redo or s not in have]
        else: want = [(base + ('SFR/' if d <= 3 else 'SFH/') + names[s].replace('data1', 'data%d' % d), path + '/raw/' + names[s].replace('data1', 'data%d' % d)) for s in snaps for d in df if redo or (s, d) not in there]
        I.prove('fetched', sorted(got) == sorted(want), '%r, should be %r' % (got, want))
        for u, f in want: I.prove('present', os.path.exists(f))
        I.prove('metadata', os.path.exists(path + '/meta.npy') and os.path.exists(path + '/meta_snaps.npy'))
    after = listing(path)
    mine = set(f for s in snaps for f in [path + '/raw/groups_%03d' % s]) if sim == ILL else set(f for u, f in want)
    I.prove('kept', all(after.get(k, 0) == v for k, v in before.items() if not any(k == m or k.startswith(m + '/') for m in mine)))
