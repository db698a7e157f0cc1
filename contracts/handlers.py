"""H01 little-h conversion, H02 active selection, H03 property life cycle.

A catalogue file with arbitrary contents is created through h5py (in the proofs: the assumed contract
of h5py in vc/stubs.py), the real Handler is constructed on it and driven through its public methods.
The abstract state of the handler is kept beside it: per property the values on disk and in memory."""
from vc.api import contract
import itertools

EXPS = [0, -1, 1, -2, 3]

def mkfile(I, props, h, n, name='cat'):
    """props: name -> (array, units, h exponent)"""
    h5 = I.mod('h5py')
    path = I.tmpdir() + '/' + name + '.hdf5'
    with h5.File(path, 'w') as f:
        f.attrs['cosmo_h'] = h
        g = f.create_group('Catalog')
        for k, (v, u, e) in props.items():
            d = g.create_dataset(k, data=v)
            d.attrs['units'] = u
            d.attrs['h dependence'] = e
    return path

def handler(I, path, in_h=False):
    return I.mod('simim._handlers').Handler(path, 'Test', 'Catalog', in_h)

def same_set(I, name, got, want):
    got = list(got)
    I.prove(name, sorted(got) == sorted(want), 'have %r, should be %r' % (sorted(got), sorted(want)))

def scaled(I, v, h, e, h_units):
    """value in the requested units of a stored value v"""
    if h_units or e == 0: return v
    return v * I.pow(h, e)

def check_read(I, nm, got, vals, h, e, h_units):
    I.shape_is(nm + '.shape', got, vals.shape)
    I.forall(nm, vals.shape, lambda *i: I.eq(I.at(got, *i), scaled(I, I.at(vals, *i), h, e, h_units)))

# ------------------------------------------------------------------------------------------------ H01
@contract('H01', covers=['Handler.return_property', 'Handler.set_in_h_units', 'Handler.load_property'])
def read_units(I):
    """reading: stored value times h**exponent, or as stored; the call's choice wins over the default"""
    n = I.int('n', 0, chi=4); h = I.real('h', gt=0, step=0.125, lt=2)
    e = I.choose('exp', EXPS); kind = I.choose('kind', ['f', 'i'])
    v = I.array('v', (n,), kind=kind); mass = I.array('mass', (n,), gt=0)
    path = mkfile(I, {'mass': (mass, 'Msun/h', -1), 'x': (v, 'u', e)}, h, n)
    d0 = I.flag('default0'); H = handler(I, path, d0)
    if I.flag('switch'): d0 = not d0; H.set_in_h_units(d0)
    if I.flag('loaded'): H.load_property('x')
    req = I.choose('request', [None, True, False])
    got = H.return_property('x', in_h_units=req)
    check_read(I, 'value', got, v, h, e, d0 if req is None else req)
    got = H.return_property('mass', use_all_inds=True, in_h_units=req)
    check_read(I, 'mass', got, mass, h, -1, d0 if req is None else req)
    # the catalogue itself does not change, and the results belong to the caller
    got = H.return_property('x', in_h_units=True)
    if kind == 'f': got *= 2; got += 1
    check_read(I, 'unchanged', H.return_property('x', in_h_units=True), v, h, e, True)
    check_read(I, 'unchanged_other', H.return_property('x', in_h_units=False), v, h, e, False)

def mk_fn(args, n_out, single, extra=None, kept=None):
    """records the arguments it is called with and returns n_out arrays made from them, which it keeps"""
    def fn(**kw):
        args.append(dict(kw))
        a, b = kw['a'], kw['b']
        s = kw['scale'] if extra else 1
        outs = [a * 2 + b * s, b - a, a * 1.5 + 1][:n_out]
        if kept is not None: kept.append(outs)
        return outs[0] if single else outs
    return fn

@contract('H01', covers=['MultiProp.evaluate_all', 'MultiProp.evaluate', 'Prop', 'MultiProp.__init__', 'Handler.make_property'], params=[{'n_out': 1}, {'n_out': 2}, {'n_out': 3}], shards=2)
def derived_units(I, n_out):
    """a derived property gets its inputs in the units it asks for, and its result reads back in its own units"""
    n = I.int('n', 1, chi=3); h = I.real('h', gt=0, step=0.125, lt=2)
    ea = I.choose('exp_a', [-1, 2, 0], quick=[0, 1]); eb = I.choose('exp_b', [1, 0])
    va = I.array('va', (n,)); vb = I.array('vb', (n,)); mass = I.array('mass', (n,), gt=0)
    path = mkfile(I, {'mass': (mass, 'Msun/h', -1), 'a': (va, 'u', ea), 'b': (mass, 'v', 3), 'other': (vb, 'w', eb)}, h, n)
    H = handler(I, path, I.flag('default'))
    gp = I.mod('simim.galprops.galprops')
    give = I.flag('give_args_in_h_units'); ret = I.flag('function_return_in_h_units')
    same_e = n_out > 1 and I.flag('one_exponent_for_all')
    oexp = [I.choose('out_exp%d' % k, [-2, 1, 0], quick=[0, 2] if n_out == 1 else [k % 3]) for k in range(1 if same_e else n_out)]
    kwonly = I.flag('extra_argument', quick=[1]); scale = 0.5
    args = []; kept = []; fn = mk_fn(args, n_out, n_out == 1, extra=kwonly, kept=kept)
    names = ['p', 'w', 'k'][:n_out] # not in alphabetical order
    if n_out == 1 and I.flag('use_Prop'):
        P = gp.Prop('p', fn, ['a', 'b'], give_args_in_h_units=give, function_return_in_h_units=ret, units='U0', h_dependence=oexp[0])
    else:
        P = gp.MultiProp(names, fn, ['a', 'b'], give_args_in_h_units=give, function_return_in_h_units=ret, units=['U%d' % k for k in range(len(oexp))], h_dependence=oexp)
    rename = I.flag('rename')
    nn = ['q%d' % k for k in range(n_out)] if rename else names
    H.make_property(P, rename=nn if rename else None, kw_remap={'b': 'other'}, other_kws={'scale': scale} if kwonly else {})
    I.prove('called_once', len(args) == 1)
    check_read(I, 'argument_a', args[0]['a'], va, h, ea, give)
    check_read(I, 'argument_b', args[0]['b'], vb, h, eb, give)
    A = lambda i: scaled(I, I.at(va, i), h, ea, give); B = lambda i: scaled(I, I.at(vb, i), h, eb, give)
    s = scale if kwonly else 1
    outs = [lambda i: A(i) * 2 + B(i) * s, lambda i: B(i) - A(i), lambda i: A(i) * 1.5 + 1]
    for k in range(n_out):
        e = oexp[0] if same_e else oexp[k]
        I.shape_is('kept_shape_%d' % k, kept[0][k], (n,))
        I.forall('kept_%d' % k, (n,), lambda i: I.eq(I.at(kept[0][k], i), outs[k](i))) # what the function returned stays its own
        got = H.return_property(nn[k], in_h_units=ret)
        I.forall('result_%d' % k, (n,), lambda i: I.eq(I.at(got, i), outs[k](i)))
        oth = H.return_property(nn[k], in_h_units=not ret)
        I.forall('result_other_units_%d' % k, (n,), lambda i: I.eq(I.at(oth, i) if ret else I.at(got, i), outs[k](i) * I.pow(h, e) if ret else I.at(oth, i) * I.pow(h, e)))
        I.prove('units_%d' % k, H.properties_units[nn[k]] == ('U0' if same_e else 'U%d' % k))

@contract('H01', covers=['Handler.eval_stat', 'Handler.make_property', 'MultiProp.evaluate_all'])
def stat_units(I):
    """statistics get their arguments in the requested units; h is available as an argument; the caller's dictionaries stay as they are"""
    n = I.int('n', 1, chi=3); h = I.real('h', gt=0, step=0.125, lt=2); ea = I.choose('exp_a', [-1, 2, 0])
    va = I.array('va', (n,)); mass = I.array('mass', (n,), gt=0)
    path = mkfile(I, {'mass': (mass, 'Msun/h', -1), 'a': (va, 'u', ea)}, h, n)
    d0 = I.flag('default'); H = handler(I, path, d0)
    args = []
    def stat(**kw): args.append(kw); return 17
    other = {'z': 3}; remap = {'x': 'a', 'hub': 'h'}
    req = I.choose('request', [None, True, False])
    r = H.eval_stat(stat, ['mass', 'x', 'hub'], kw_remap=remap, other_kws=other, give_args_in_h_units=req)
    u = d0 if req is None else req
    I.prove('returned', r == 17 and len(args) == 1)
    I.prove('arguments', sorted(args[0]) == ['hub', 'mass', 'x', 'z'] and args[0]['z'] == 3)
    check_read(I, 'arg_mass', args[0]['mass'], mass, h, -1, u)
    check_read(I, 'arg_x', args[0]['x'], va, h, ea, u)
    I.prove('arg_h', I.eq(args[0]['hub'], h))
    I.prove('caller', other == {'z': 3} and remap == {'x': 'a', 'hub': 'h'})

@contract('H01', covers=['Handler.make_property', 'Handler.write_property', 'Handler.return_property'])
def units_round_trip(I):
    """the conversion survives writing to disk and reopening"""
    n = I.int('n', 1, chi=3); h = I.real('h', gt=0, step=0.125, lt=2); e = I.choose('exp', [-1, 2, 0] + ([] if I.sym else [0.5, -1.5]))
    va = I.array('va', (n,)); mass = I.array('mass', (n,), gt=0)
    path = mkfile(I, {'mass': (mass, 'Msun/h', -1), 'a': (va, 'u', 0)}, h, n)
    H = handler(I, path, I.flag('default'))
    gp = I.mod('simim.galprops.galprops')
    P = gp.Prop('p', lambda a: a + 1, ['a'], units='U', h_dependence=e)
    H.make_property(P, write_to_disk=True, unload_to_disk=I.flag('unload'))
    I.forall('same_object', (n,), lambda i: I.eq(I.at(H.return_property('p', in_h_units=False), i), I.at(va, i) + 1))
    G = handler(I, path, I.flag('default2'))
    got = G.return_property('p', in_h_units=False)
    I.forall('reopened', (n,), lambda i: I.eq(I.at(got, i), I.at(va, i) + 1))
    I.prove('units', G.properties_units['p'] == 'U' and G.properties_h_dependence['p'] == e)
    # other values in other units in memory only: dropping them brings back those of the file
    G.make_property(gp.Prop('p', lambda a: a * 2, ['a'], units='V', h_dependence=1, function_return_in_h_units=True), overwrite=True)
    got = G.return_property('p', in_h_units=False)
    I.forall('memory', (n,), lambda i: I.eq(I.at(got, i), scaled(I, I.at(va, i) * 2, h, 1, False)))
    if I.flag('load'): G.load_property('p')
    else: G.unload_property('p')
    got = G.return_property('p', in_h_units=False)
    I.forall('back', (n,), lambda i: I.eq(I.at(got, i), I.at(va, i) + 1))
    I.prove('units_back', G.properties_units['p'] == 'U' and G.properties_h_dependence['p'] == e)

# ------------------------------------------------------------------------------------------------ H02
def sel_setup(I, nprops=2):
    n = I.int('n', 0, chi=6); h = I.real('h', gt=0, step=0.125, lt=2)
    mass = I.array('mass', (n,), gt=0); x = I.array('x', (n,), lo=-2, hi=2, step=0.5)
    path = mkfile(I, {'mass': (mass, 'Msun/h', -1), 'x': (x, 'u', 2)}, h, n)
    d0 = I.flag('default')
    return n, h, mass, x, path, d0, handler(I, path, d0)

def do_cut(I, H, k, h, mass, x, d0, members, quick=None):
    """one range cut or reset; members(i) -> condition, returns the new membership"""
    if I.flag('reset_all%d' % k, quick=[0] if k or quick else None):
        H.set_property_range()
        return lambda i: True
    which = I.choose('prop%d' % k, ['x', 'mass'], quick=[(k + bool(quick)) % 2]); vals, e = (x, 2) if which == 'x' else (mass, -1)
    lims = I.choose('lims%d' % k, ['both', 'min', 'max', 'none'], quick=[0, 1] if k == 0 and not quick else [0])
    kw = {}
    lo = hi = None
    if lims in ('both', 'min'): lo = kw['pmin'] = I.real('pmin%d' % k, lo=-3, hi=3, step=0.5)
    if lims in ('both', 'max'): hi = kw['pmax'] = I.real('pmax%d' % k, lo=-3, hi=6, step=0.5)
    req = I.choose('units%d' % k, [None, True, False], quick=[2] if quick else [0, 2]); u = d0 if req is None else req
    reset = I.flag('reset%d' % k)
    H.set_property_range(which, reset=reset, in_h_units=req, **kw)
    def cut(i):
        v = scaled(I, I.at(vals, i), h, e, u)
        return I.And(lo is None or v >= lo, hi is None or v <= hi)
    return cut if reset else (lambda i: I.And(members(i), cut(i)))

def check_selection(I, H, n, member, nm=''):
    """the active objects are exactly the members, in catalogue order"""
    act = H.inds_active
    I.prove(nm + 'count', I.eq(H.nhalos_active, act.shape[0]))
    I.prove(nm + 'number', I.eq(H.nhalos_active, I.sum((n,), lambda i: I.ite(member(i), 1, 0))))
    I.forall(nm + 'in_range', act.shape, lambda j: I.And(I.at(act, j) >= 0, I.at(act, j) < n))
    I.forall(nm + 'only_members', act.shape, lambda j: member(I.at(act, j)))
    I.forall(nm + 'catalogue_order', (act.shape[0],), lambda j: I.implies(j + 1 < act.shape[0], lambda: I.at(act, j) < I.at(act, j + 1)))
    I.forall(nm + 'all_members', (n,), lambda i: I.implies(member(i), lambda: I.contains(act, i)))

@contract('H02', covers=['Handler.set_property_range', 'Handler.return_property'], params=[{'n_cuts': 1}, {'n_cuts': 2}], weight=2)
def cuts(I, n_cuts):
    """after any sequence of cuts exactly the objects in all ranges since the last reset are active"""
    n, h, mass, x, path, d0, H = sel_setup(I)
    m = lambda i: True
    for k in range(n_cuts): m = do_cut(I, H, k, h, mass, x, d0, m)
    check_selection(I, H, n, m)
    got = H.return_property('x', in_h_units=True); act = H.inds_active
    I.shape_is('read_shape', got, act.shape)
    I.forall('read', act.shape, lambda j: I.eq(I.at(got, j), I.at(x, I.at(act, j))))
    al = H.return_property('x', use_all_inds=True, in_h_units=True)
    I.shape_is('read_all_shape', al, (n,))
    I.forall('read_all', (n,), lambda i: I.eq(I.at(al, i), I.at(x, i)))
    G = handler(I, path, d0)
    al = G.return_property('mass', in_h_units=True)
    I.shape_is('disk_shape', al, (n,))
    I.forall('disk', (n,), lambda i: I.eq(I.at(al, i), I.at(mass, i)))

@contract('H02', covers=['Handler.set_property_range'], sym=False)
def cut_histories(I):
    """longer sequences of cuts"""
    n, h, mass, x, path, d0, H = sel_setup(I)
    m = lambda i: True
    for k in range(I.int('cuts', 2, 5)):
        m = do_cut(I, H, k, h, mass, x, d0, m)
        check_selection(I, H, n, m)

@contract('H02', covers=['Handler.make_property', 'Handler.eval_stat', 'MultiProp.evaluate_all'])
def selection_used(I):
    """derived properties and statistics see the active objects in order; inactive ones become NaN"""
    n, h, mass, x, path, d0, H = sel_setup(I)
    m = do_cut(I, H, 0, h, mass, x, d0, lambda i: True)
    gp = I.mod('simim.galprops.galprops')
    args = []; kind = I.choose('result', ['float', 'int', 'bool'], quick=[0])
    def fn(x):
        args.append(x)
        return x * 2 + 1 if kind == 'float' else (x > 0) if kind == 'bool' else I.np.floor(x * 2).astype(int)
    f1 = lambda v: v * 2 + 1 if kind == 'float' else (I.ite(v > 0, 1, 0)) if kind == 'bool' else I.floor(v * 2)
    al = I.flag('use_all')
    P = gp.Prop('p', fn, ['x'], give_args_in_h_units=True)
    H.make_property(P, use_all_inds=al)
    act = H.inds_active
    if al:
        I.shape_is('arg_shape', args[0], (n,)); I.forall('arg', (n,), lambda i: I.eq(I.at(args[0], i), I.at(x, i)))
    else:
        I.shape_is('arg_shape', args[0], act.shape); I.forall('arg', act.shape, lambda j: I.eq(I.at(args[0], j), I.at(x, I.at(act, j))))
    got = H.return_property('p', use_all_inds=True)
    I.shape_is('shape', got, (n,))
    I.forall('values', (n,), lambda i: I.ite(I.Or(al, m(i)), lambda: I.eq(I.at(got, i), f1(I.at(x, i))), lambda: I.isnan(I.at(got, i))))
    got = H.return_property('p')
    I.shape_is('active_shape', got, act.shape)
    I.forall('active', act.shape, lambda j: I.eq(I.at(got, j), f1(I.at(x, I.at(act, j)))))
    out = []
    H.eval_stat(lambda x: out.append(x), ['x'], use_all_inds=al, give_args_in_h_units=True)
    if al:
        I.shape_is('stat_shape', out[0], (n,)); I.forall('stat', (n,), lambda i: I.eq(I.at(out[0], i), I.at(x, i)))
    else:
        I.shape_is('stat_shape', out[0], act.shape); I.forall('stat', act.shape, lambda j: I.eq(I.at(out[0], j), I.at(x, I.at(act, j))))
    check_selection(I, H, n, m, nm='after_')

@contract('H02', covers=['Handler.make_property', 'Handler.set_property_range'])
def remade(I):
    """cuts on a property made for some objects leave out the others, and remaking it forgets their values"""
    n, h, mass, x, path, d0, H = sel_setup(I)
    m = do_cut(I, H, 0, h, mass, x, d0, lambda i: True, quick=True)
    gp = I.mod('simim.galprops.galprops')
    al = I.flag('use_all')
    H.make_property(gp.Prop('p', lambda x: x * 2, ['x'], give_args_in_h_units=True, function_return_in_h_units=True), use_all_inds=al)
    has = lambda i: I.Or(al, m(i))
    lo = I.real('lo', lo=-4, hi=4, step=0.5); hi = I.real('hi', lo=-4, hi=6, step=0.5); reset = I.flag('and', quick=[0])
    H.set_property_range('p', pmin=lo, pmax=hi, reset=reset)
    p = lambda i: I.at(x, i) * 2
    m2 = lambda i: I.And(reset or m(i), has(i), p(i) >= lo, p(i) <= hi)
    check_selection(I, H, n, m2, nm='nan_')
    on_disk = I.flag('on_disk', quick=[0]) if al else False
    if on_disk: H.write_property('p')
    H.make_property(gp.Prop('p', lambda x: x * 3, ['x'], give_args_in_h_units=True, function_return_in_h_units=True), overwrite=True)
    if I.flag('again', quick=[0]): # the kind of number follows the new values
        H.unload_property('p')
        H.make_property(gp.Prop('p', lambda x: I.np.floor(x).astype(int), ['x'], give_args_in_h_units=True, function_return_in_h_units=True), overwrite=True)
        H.make_property(gp.Prop('p', lambda x: x * 3, ['x'], give_args_in_h_units=True, function_return_in_h_units=True), overwrite=True)
    got = H.return_property('p', use_all_inds=True)
    I.forall('remade', (n,), lambda i: I.ite(m2(i), lambda: I.eq(I.at(got, i), I.at(x, i) * 3), lambda: I.isnan(I.at(got, i))))
    act = H.inds_active
    got = H.return_property('p')
    I.forall('remade_active', act.shape, lambda j: I.eq(I.at(got, j), I.at(x, I.at(act, j)) * 3))

@contract('H02', covers=['Handler.make_property'])
def no_write_of_restricted(I):
    """values of a restricted selection are never written to disk"""
    n, h, mass, x, path, d0, H = sel_setup(I)
    m = do_cut(I, H, 0, h, mass, x, d0, lambda i: True)
    gp = I.mod('simim.galprops.galprops')
    P = gp.Prop('p', lambda x: x, ['x'])
    every = I.eq(H.nhalos_active, n)
    refused = I.raises(lambda: H.make_property(P, write_to_disk=True), ValueError)
    I.prove('refused', I.iff(refused, I.Not(every)))
    G = handler(I, path)
    I.prove('disk', G.has_property('p') == (not refused))

# ------------------------------------------------------------------------------------------------ H03
NAMES = ['a', 'b']

class Model:
    """what should be on disk and in memory: name -> (values, units, exponent)"""
    def __init__(self, disk): self.disk = dict(disk); self.mem = {}; self.gen = []
    def known(self): return sorted(set(self.disk) | set(self.mem))
    def current(self, k): return self.mem[k] if k in self.mem else self.disk[k]

def state_setup(I, quick_names=None):
    """a handler in an arbitrary reachable state: every combination of on disk / in memory / made here for each name"""
    n = I.int('n', 0, chi=3); h = I.real('h', gt=0, step=0.125, lt=2)
    mass = I.array('mass', (n,), gt=0)
    disk = {'mass': (mass, 'Msun/h', -1)}
    st = {}
    for k in NAMES:
        st[k] = I.choose('state_' + k, ['absent', 'disk', 'loaded', 'overwritten', 'made', 'made_written', 'made_written_unloaded'],
                         quick=[0, 1, 2, 3, 4, 5, 6] if k == 'a' else [0, 1, 3])
        if st[k] in ('disk', 'loaded', 'overwritten'): disk[k] = (I.array('disk_' + k, (n,)), 'D' + k, 1)
    path = mkfile(I, disk, h, n)
    H = handler(I, path, False)
    M = Model(disk)
    gp = I.mod('simim.galprops.galprops')
    for k in NAMES:
        if st[k] == 'loaded': H.load_property(k); M.mem[k] = M.disk[k]
        if st[k] in ('overwritten', 'made', 'made_written', 'made_written_unloaded'):
            v = I.array('mem_' + k, (n,))
            H.make_property(gp.Prop(k, lambda mass: v, ['mass'], units='M' + k, h_dependence=2, function_return_in_h_units=True), overwrite=True)
            M.mem[k] = (v, 'M' + k, 2)
            if st[k] != 'overwritten': M.gen.append(k)
        if st[k].startswith('made_written'):
            H.write_property(k); M.disk[k] = M.mem[k]
        if st[k] == 'made_written_unloaded': H.unload_property(k); del M.mem[k]
    return n, h, path, H, M

def check_state(I, H, M, n, h, path, nm=''):
    same_set(I, nm + 'known', H.extract_keys('any'), M.known())
    same_set(I, nm + 'loaded', H.extract_keys('loaded'), M.mem)
    same_set(I, nm + 'saved', H.extract_keys('saved'), M.disk)
    same_set(I, nm + 'generated', H.extract_keys('generated'), M.gen)
    for k in NAMES + ['mass', 'missing']:
        I.prove(nm + 'has_property', H.has_property(k) == (k in M.known()), k)
        I.prove(nm + 'has_loaded', H.has_loaded(k) == (k in M.mem), k)
        if k not in M.known():
            I.prove(nm + 'unknown_refused', I.raises(lambda: H.return_property(k), ValueError), k); continue
        v, u, e = M.current(k)
        for hu in (True, False): check_read(I, nm + 'read', H.return_property(k, use_all_inds=True, in_h_units=hu), v, h, e, hu)
        if k in NAMES:
            for al in (True, False):
                got = H.return_property(k, use_all_inds=al, in_h_units=True); got[:] = 0
            check_read(I, nm + 'own_copy', H.return_property(k, in_h_units=True), v, h, e, True) # what was handed out belongs to the caller
        I.prove(nm + 'units', H.properties_units[k] == u and H.properties_h_dependence[k] == e, '%s: %r %r' % (k, H.properties_units[k], H.properties_h_dependence[k]))
    h5 = I.mod('h5py')
    with h5.File(path, 'r') as f:
        g = f['Catalog']
        same_set(I, nm + 'on_disk', g.keys(), M.disk)
        for k in M.disk:
            v, u, e = M.disk[k]
            I.arr_eq(nm + 'disk_values', g[k][:], v)
            I.prove(nm + 'disk_units', g[k].attrs['units'] == u and g[k].attrs['h dependence'] == e, k)

def one_op(I, H, M, n, k, quick=None):
    gp = I.mod('simim.galprops.galprops')
    op = I.choose('op%d' % k, ['load', 'unload', 'make', 'write', 'delete', 'write2', 'multi'])
    name = I.choose('name%d' % k, NAMES + ['missing'], quick=[0, 2]) if op in ('load', 'unload', 'write', 'delete') else NAMES[0]
    if op == 'load':
        if name in M.disk: H.load_property(name); M.mem[name] = M.disk[name]
        else: I.prove('load_refused', I.raises(lambda: H.load_property(name), ValueError))
    elif op == 'unload':
        H.unload_property(name)
        M.mem.pop(name, None)
        if name in M.gen and name not in M.disk: M.gen.remove(name)
    elif op in ('make', 'multi'):
        names = NAMES if op == 'multi' else [I.choose('made%d' % k, NAMES, quick=[0])]
        vs = [I.array('new%d_%s' % (k, x), (n,)) for x in names]
        ow = I.flag('overwrite%d' % k)
        wr = I.flag('write%d' % k); owd = wr and I.flag('overwrite_disk%d' % k); ud = wr and I.flag('unload%d' % k, quick=[1])
        P = gp.MultiProp(list(names), lambda mass: list(vs) if len(vs) > 1 else vs[0], ['mass'], units=['N%d%s' % (k, x) for x in names], h_dependence=[-1 + 4 * j for j in range(len(names))], function_return_in_h_units=True)
        thunk = lambda: H.make_property(P, overwrite=ow, write_to_disk=wr, overwrite_to_disk=owd, unload_to_disk=ud)
        if any(x in M.known() for x in names) and not ow:
            I.prove('make_refused', I.raises(thunk, ValueError)); return
        bad = wr and not owd and any(x in M.disk for x in names)
        if bad: I.prove('overwrite_disk_refused', I.raises(thunk, ValueError))
        else: thunk()
        new = {x: (v, 'N%d%s' % (k, x), -1 + 4 * j) for j, (x, v) in enumerate(zip(names, vs))}
        for x in names:
            if x not in M.known(): M.gen.append(x)
        M.mem.update(new)
        if wr and not bad:
            M.disk.update(new)
            if ud:
                for x in names: del M.mem[x]
    elif op in ('write', 'write2'):
        names = NAMES if op == 'write2' else [name]
        ow = I.flag('overwrite%d' % k)
        thunk = lambda: H.write_property(*names, overwrite=ow)
        if any(x not in M.mem for x in names) or (not ow and any(x in M.disk for x in names)):
            I.prove('write_refused', I.raises(thunk, ValueError)); return
        thunk()
        for x in names: M.disk[x] = M.mem[x]
    elif op == 'delete':
        if name not in M.disk: I.prove('delete_refused', I.raises(lambda: H.delete_property(name), ValueError)); return
        H.delete_property(name)
        M.disk.pop(name); M.mem.pop(name, None)
        if name in M.gen: M.gen.remove(name)

@contract('H03', covers=['Handler.__init__', 'Handler.load_property', 'Handler.unload_property', 'Handler.make_property', 'Handler.write_property', 'Handler.delete_property', 'Handler.extract_keys',
                         'Handler.has_property', 'Handler.has_loaded', 'Handler.return_property'], weight=2, shards=8)
def step(I):
    """from an arbitrary reachable state every operation leads to the state it should, in the lists, in memory and on disk"""
    n, h, path, H, M = state_setup(I)
    one_op(I, H, M, n, 0)
    check_state(I, H, M, n, h, path)

@contract('H03', covers=['Handler (histories)'], sym=False, weight=3)
def history(I):
    """longer histories, checked after every operation, and by a handler opened afresh at the end"""
    n, h, path, H, M = state_setup(I)
    for k in range(I.int('ops', 2, 7)):
        one_op(I, H, M, n, k)
        check_state(I, H, M, n, h, path)
    G = handler(I, path); M2 = Model(M.disk)
    check_state(I, G, M2, n, h, path, nm='reopened.')

@contract('H03', covers=['Handler.write_property'], sym=False)
def write_dtype(I):
    """a requested data type applies to the file only and keeps the values up to that type's precision"""
    n = I.int('n', 0, 4); v = I.array('v', (n,)); mass = I.array('mass', (n,), gt=0)
    path = mkfile(I, {'mass': (mass, 'Msun/h', -1)}, 0.7, n); H = handler(I, path)
    gp = I.mod('simim.galprops.galprops')
    dt = I.choose('dtype', [None, 'f4', 'f2', float]); ud = I.flag('unload')
    H.make_property(gp.Prop('p', lambda mass: v, ['mass']), write_to_disk=True, dtype_to_disk=dt, unload_to_disk=ud)
    I.arr_eq('values', H.return_property('p'), v)
    with I.mod('h5py').File(path, 'r') as f:
        I.prove('dtype', f['Catalog']['p'].dtype == I.np.dtype(dt or float))
        I.arr_eq('disk', f['Catalog']['p'][:], v)
    I.prove('loaded', H.has_loaded('p') == (not ud))
