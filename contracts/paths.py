"""R01 path registry.  Path strings are built from uninterpreted tokens (in the proofs) joined by the
separators listed in SEPS; the registry files live in a virtual (proofs) or scratch (real code) directory."""
from vc.api import contract

SEPS = ['', ' ', '  ', '\t', ' # ', '=', ':', ',']
KINDS = ['sim', 'lc', 'prop']

def some_path(I, name, d, exists=None):
    """an absolute, normalised path with awkward characters; made as a directory when it should exist"""
    os = I.mod('os')
    lead = I.choose(name + '_lead', ['', ' ', '$HOME', '~', '%s', '{}', '#', '.', "'", '\\'], quick=[0])
    sep = I.choose(name + '_sep', SEPS)
    sub = I.flag(name + '_sub', quick=[1])
    p = d + '/' + lead + I.string(name + '_a') + sep + I.string(name + '_b')
    if sub:
        p += '/' + I.string(name + '_c') + sep + I.string(name + '_d') + lead
    if I.flag(name + '_link', quick=[0]) and not os.path.exists(p):
        # a link to a directory somewhere else
        os.makedirs(os.path.dirname(p), exist_ok=True); os.makedirs(d + '/elsewhere', exist_ok=True); os.symlink(d + '/elsewhere', p)
        return p
    if exists is None or exists: os.makedirs(p, exist_ok=True)
    return p

def dicts(P): return {'sim': P.sims, 'lc': P.lcs, 'prop': P.props}

def check(I, nm, P, want, root):
    I.prove(nm + '.root', P.root == root, '%r, should be %r' % (P.root, root))
    for k in KINDS:
        I.prove(nm + '.' + k, dict(dicts(P)[k]) == want[k], '%r, should be %r' % (dict(dicts(P)[k]), want[k]))

def setup(I):
    m = I.mod('simim._paths'); d = I.package_root()
    P = m._SimIMPaths()
    none = {k: {} for k in KINDS}
    I.prove('initially_empty', P.root is None and dicts(P) == none)
    for k in KINDS:
        if k == 'sim': I.prove('no_root', I.raises(lambda: P._newsimpath('x', d), ValueError))
    root = some_path(I, 'root', d)
    P._setuppath(root)
    return m, d, P, root

@contract('R01', covers=['_SimIMPaths.__init__', '_SimIMPaths._load_paths', '_SimIMPaths._setuppath', '_SimIMPaths._newsimpath', '_SimIMPaths._newlcpath', '_SimIMPaths._newproppath', '_checkload_path_file', '_checkload_root_file'],
          params=[{'kind': k} for k in KINDS])
def register_reload(I, kind):
    """one registration, on top of an arbitrary existing registry, survives a reload and leaves the others alone"""
    m, d, P, root = setup(I)
    want = {k: {} for k in KINDS}
    # an arbitrary existing registry: two entries of this kind, one of each other kind
    for k in KINDS:
        f = {'sim': P._newsimpath, 'lc': P._newlcpath, 'prop': P._newproppath}[k]
        for j in range(2 if k == kind else 1):
            key = I.string('key_%s%d' % (k, j)) if k != kind or j == 0 else 'A-1_x'
            if key in want[k]: I.assume(False)
            p = d + '/' + I.string('old_%s%d' % (k, j)) + ' ' + I.string('old2_%s%d' % (k, j)); I.mod('os').makedirs(p, exist_ok=True)
            f(key, p); want[k][key] = p
    check(I, 'before', P, want, root)
    f = {'sim': P._newsimpath, 'lc': P._newlcpath, 'prop': P._newproppath}[kind]
    how = I.choose('how', ['new', 'replace', 'keep', 'replace_unasked', 'auto', 'prompt'])
    key = 'A-1_x' if how in ('replace', 'keep', 'replace_unasked') else I.string('newkey')
    if how in ('new', 'auto', 'prompt') and key in want[kind]: I.assume(False)
    p = None
    if how == 'auto':
        f(key); p = root + '/simim_resources/' + {'sim': 'simulations', 'lc': 'lightcones', 'prop': 'galprops'}[kind] + '/' + key
        I.prove('auto_made', I.mod('os').path.isdir(p))
    else:
        p = some_path(I, 'new', d)
        if how == 'new': f(key, p)
        elif how == 'prompt':
            shown = I.answers(m, [p]); f(key, None); I.prove('asked', len(shown) == 1)
        elif how == 'replace': I.answers(m, ['what', 'y']); f(key, p)
        elif how == 'keep': I.answers(m, ['n']); f(key, p)
        else: I.answers(m, []); f(key, p, checkoverwrite=False)
    if how != 'keep': want[kind][key] = p
    check(I, 'memory', P, want, root)
    check(I, 'reloaded', m._SimIMPaths(), want, root)

@contract('R01', covers=['_SimIMPaths._setuppath', '_SimIMPaths._load_paths'])
def new_root(I):
    """choosing another root switches to that root's own registry; the first one is still there afterwards"""
    m, d, P, root = setup(I)
    a = d + '/' + I.string('dir') + ' ' + I.string('dir2'); I.mod('os').makedirs(a)
    P._newsimpath('S', a)
    second = d + '/second ' + I.string('second'); I.mod('os').makedirs(second)
    keep = I.flag('keep')
    I.answers(m, ['n' if keep else 'y'])
    P._setuppath(second)
    one = {'sim': {'S': a}, 'lc': {}, 'prop': {}}; none = {k: {} for k in KINDS}
    check(I, 'after', P, one if keep else none, root if keep else second)
    Q = m._SimIMPaths()
    check(I, 'reloaded', Q, one if keep else none, root if keep else second)
    if keep: pass
    else:
        Q._newsimpath('S', second); I.answers(m, ['y']); Q._setuppath(root)
        check(I, 'back', m._SimIMPaths(), one, root)
    I.answers(m, ['y'])
    I.prove('missing_root', I.raises(lambda: m._SimIMPaths()._setuppath(d + '/none/such'), NameError))
    check(I, 'unchanged', m._SimIMPaths(), one, root)

@contract('R01', covers=['setupsimim', '_SimIMPaths._setuppath'])
def asking(I):
    """setting up with questions: the root is the path that was typed, once it is confirmed; otherwise everything stays as it was"""
    m = I.mod('simim._paths'); d = I.package_root(); os = I.mod('os'); none = {k: {} for k in KINDS}
    first = I.flag('first'); want, root = none, None
    if not first:
        root = some_path(I, 'root', d); P = m._SimIMPaths(); P._setuppath(root)
        a = d + '/' + I.string('dir') + ' ' + I.string('dir2'); os.makedirs(a); P._newlcpath('S', a)
        want = {'sim': {}, 'lc': {'S': a}, 'prop': {}}
    how = I.choose('how', ['yes', 'no', 'missing', 'keep'])
    new = d + '/chosen ' + I.string('new'); replace = [] if first else ['what', 'y']
    if how != 'missing': os.makedirs(new)
    if how == 'keep': I.assume(not first)
    direct = how != 'missing' and I.flag('direct'); P = m._SimIMPaths()
    shown = I.answers(m, ([] if direct else [new]) + {'yes': replace + ['?', 'y'], 'no': replace + ['', 'n'], 'missing': [], 'keep': ['n', 'y']}[how])
    if how == 'missing': I.prove('missing_root', I.raises(m.setupsimim, NameError))
    else:
        if direct: P._setuppath(new, confirm_with_user=True)
        else: m.setupsimim()
        I.prove('asked', len(shown) == 3 - direct + (2 if not first and how != 'keep' else 0), str(shown))
    for Q in [m._SimIMPaths()] + ([P] if direct else []):
        if how == 'yes': check(I, 'new', Q, none, new)
        else: check(I, 'kept', Q, want, root)

@contract('R01', covers=['_SimIMPaths (histories)'], sym=False)
def history(I):
    """any sequence of registrations, reloads and answers"""
    m, d, P, root = setup(I)
    want = {k: {} for k in KINDS}
    for j in range(I.int('ops', 1, 8)):
        kind = I.choose('kind%d' % j, KINDS)
        key = I.choose('key%d' % j, ['A', 'AB', 'A-1', 'b.c', 'A_2'])
        if I.flag('reload%d' % j): P = m._SimIMPaths()
        p = some_path(I, 'p%d' % j, d)
        rel = I.flag('relative%d' % j)
        if rel:
            import os
            os.chdir(d); q = p[len(d) + 1:]
        else: q = p
        keep = I.flag('keep%d' % j)
        I.answers(m, (['', 'no', 'Y?'] if I.flag('unclear%d' % j) else []) + ['n' if keep else 'y'] if key in want[kind] else [])
        {'sim': P._newsimpath, 'lc': P._newlcpath, 'prop': P._newproppath}[kind](key, q)
        if not (keep and key in want[kind]): want[kind][key] = p
        check(I, 'memory', P, want, root); check(I, 'reloaded', m._SimIMPaths(), want, root)
