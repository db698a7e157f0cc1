"""Symbolic stand-ins (assumed contracts) for external modules.

h5py: a file is a tree of groups and data sets held in memory.  Assumed: keys are listed in alphabetical
order, create_dataset and [...] copy, an existing name cannot be created again, attributes are returned as
they were stored, a data set written with a data type holds the values cast to it (float precisions are not
distinguished)."""
from . import core, snp
from .core import *
from .core import kind_name
from .arr import A, asarr, Storage
import types as _types, warnings as _w
class types:
    class ModuleType(_types.ModuleType):
        """a stubbed module: names without a contract are unsupported when used"""
        def __getattr__(self, n):
            if n.startswith('__'): raise AttributeError(n)
            from .loader import StubObj
            return StubObj(self.__name__ + '.' + n)

class H5Attrs(dict):
    def create(self, k, v): self[k] = v

class H5Dataset:
    def __init__(self, data):
        self.data = data; self.attrs = H5Attrs()
    @property
    def shape(self): return self.data.shape
    @property
    def dtype(self): return self.data.dtype
    @property
    def ndim(self): return self.data.ndim
    @property
    def size(self): return self.data.size
    def slen(self): return self.data.slen()
    def __getitem__(self, k):
        if k == (): return self.data.copy()
        return self.data[k].copy() if isinstance(self.data[k], A) else self.data[k]
    def __setitem__(self, k, v): self.data[k] = v
    def _to_symarr(self): return self.data.copy()

class H5Group:
    def __init__(self): self.items_ = {}; self.attrs = H5Attrs()
    def keys(self): return sorted(self.items_)
    def __iter__(self): return iter(self.keys())
    def __len__(self): return len(self.items_)
    def __contains__(self, k): 
        try: self[k]; return True
        except KeyError: return False
    def __getitem__(self, k):
        o = self
        for p in k.strip('/').split('/'):
            if not isinstance(o, H5Group) or p not in o.items_: raise KeyError("Unable to open object '%s'" % k)
            o = o.items_[p]
        return o
    def __delitem__(self, k):
        if k not in self.items_: raise KeyError(k)
        del self.items_[k]
    def create_group(self, k):
        if k in self.items_: raise ValueError('Unable to create group (name already exists)')
        self.items_[k] = H5Group(); return self.items_[k]
    def require_group(self, k): return self.items_[k] if k in self.items_ else self.create_group(k)
    def create_dataset(self, k, shape=None, dtype=None, data=None, **kw):
        if k in self.items_: raise ValueError('Unable to create dataset (name already exists)')
        if data is None: d = snp.zeros(shape, dtype or 'f4')
        else:
            d = data.copy() if isinstance(data, snp.RecArr) else asarr(data).copy()
            if isinstance(d, snp.RecArr): self.items_[k] = H5Dataset(d); return self.items_[k]
            if d.kind == 'O': raise Unsupported('object data in hdf5')
            if dtype is not None: d = d.astype(dtype)
        self.items_[k] = H5Dataset(d); return self.items_[k]

import posixpath, builtins, copy as _copy
CWD = '/sym/cwd'

class VPath(str):
    """what importlib.resources.files returns"""
    def joinpath(self, *a): return VPath(posixpath.join(str(self), *[str(x) for x in a]))
    def __truediv__(self, o): return self.joinpath(o)

class TextFile:
    def __init__(self, fs, path, mode):
        self.fs, self.path, self.mode = fs, path, mode
        if 'r' in mode and '+' not in mode:
            if path not in fs.ent: raise FileNotFoundError(path)
            self.text = fs.ent[path]; self.pos = 0
            if not isinstance(self.text, str): raise Unsupported('text read of a binary file')
        else:
            fs.need_parent(path)
            if 'w' in mode or path not in fs.ent: fs.ent[path] = ''
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def close(self): pass
    def flush(self): pass
    def write(self, t):
        if self.mode.startswith('r') and '+' not in self.mode: raise OSError('not writable')
        self.fs.ent[self.path] += t; return builtins.len(t)
    def writelines(self, ls):
        for l in ls: self.write(l)
    def read(self): t = self.text[self.pos:]; self.pos = builtins.len(self.text); return t
    def readlines(self): return self.read().splitlines(True)
    def readline(self):
        ls = self.text[self.pos:].splitlines(True)
        if not ls: return ''
        self.pos += builtins.len(ls[0]); return ls[0]
    def __iter__(self): return iter(self.readlines())

class NpzFile:
    def __init__(self, d): self.d = d; self.files = list(d)
    def __getitem__(self, k):
        v = self.d[k]; return v.copy() if hasattr(v, 'copy') else v
    def __contains__(self, k): return k in self.d
    def keys(self): return list(self.d)
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def close(self): pass

class ObjArr:
    """0-dimensional object array (np.save of a dictionary)"""
    def __init__(self, o): self.o = o
    def item(self): return self.o

class VFS:
    """an empty virtual file system: assumed contract of os, open, np.save/np.load and h5py.File"""
    def __init__(self): self.reset()
    def reset(self):
        self.ent = {'/': None, '/sym': None, CWD: None, '/sym/home': None, '/sym/pkg': None, '/sym/pkg/simim': None, '/sym/pkg/simim/resources': None, '/sym/data': None}
        self.commands = []
    def norm(self, p): 
        p = p.__fspath__() if not isinstance(p, str) and hasattr(p, '__fspath__') else str(p)
        return posixpath.normpath(p if p.startswith('/') else posixpath.join(CWD, p))
    def need_parent(self, p):
        if self.ent.get(posixpath.dirname(p), 1) is not None: raise FileNotFoundError(p)
    def exists(self, p): return self.norm(p) in self.ent
    def isdir(self, p): return self.ent.get(self.norm(p), 1) is None
    def isfile(self, p): return self.exists(p) and not self.isdir(p)
    def mkdir(self, p, mode=None):
        q = self.norm(p)
        if q in self.ent: raise FileExistsError(q)
        self.need_parent(q); self.ent[q] = None
    def makedirs(self, p, mode=None, exist_ok=False):
        q = self.norm(p)
        if q in self.ent:
            if exist_ok: return
            raise FileExistsError(q)
        d = posixpath.dirname(q)
        if d not in self.ent: self.makedirs(d)
        self.mkdir(q)
    def listdir(self, p='.'):
        q = self.norm(p)
        if not self.isdir(q): raise FileNotFoundError(q)
        return [posixpath.basename(x) for x in self.ent if x != '/' and posixpath.dirname(x) == q]
    def remove(self, p):
        q = self.norm(p)
        if not self.isfile(q): raise FileNotFoundError(q)
        del self.ent[q]
    def rename(self, a, b):
        a, b = self.norm(a), self.norm(b)
        if a not in self.ent: raise FileNotFoundError(a)
        self.ent[b] = self.ent.pop(a)
    def system(self, cmd):
        """only `rm -r PATH` is understood; other commands are recorded"""
        self.commands.append(cmd)
        import shlex
        w = shlex.split(cmd)
        if w[:2] == ['rm', '-r'] and builtins.len(w) == 3:
            q = self.norm(w[2])
            for x in list(self.ent):
                if x == q or x.startswith(q + '/'): del self.ent[x]
            return 0
        raise Unsupported('os.system')
    def open(self, p, mode='r', *a, **k):
        if 'b' in mode: raise Unsupported('binary file')
        if isinstance(p, int): raise Unsupported('open')
        return TextFile(self, self.norm(p), mode)
    # numpy files
    def freeze(self, v):
        if isinstance(v, (A, snp.RecArr)): return v.copy()
        if isinstance(v, dict): return ObjArr(_deep(v))
        return asarr(v).copy()
    def npsave(self, p, v, **k):
        q = self.norm(p)
        if not q.endswith('.npy'): q += '.npy'
        self.need_parent(q)
        self.ent[q] = ('npy', self.freeze(v))
    def npsavez(self, p, **kw):
        q = self.norm(p)
        if not q.endswith('.npz'): q += '.npz'
        self.need_parent(q)
        self.ent[q] = ('npz', {k: self.freeze(v) for k, v in kw.items()})
    def npload(self, p, allow_pickle=False, **k):
        q = self.norm(p)
        if q not in self.ent: raise FileNotFoundError(q)
        e = self.ent[q]
        if not isinstance(e, tuple): raise ValueError('not a numpy file')
        if e[0] == 'npy': return ObjArr(_deep(e[1].o)) if isinstance(e[1], ObjArr) else e[1].copy()
        return NpzFile(e[1])
    def modules(self, real_os):
        fs = self
        path = types.ModuleType('os.path')
        for n in ('join', 'basename', 'dirname', 'split', 'splitext', 'normpath', 'isabs', 'sep', 'commonprefix', 'commonpath'): setattr(path, n, getattr(posixpath, n))
        def join(*a):
            r = posixpath.join(*[str(x) for x in a]); return r
        path.join = join
        path.abspath = path.realpath = fs.norm
        path.expanduser = lambda p: '/sym/home' + p[1:] if str(p) == '~' or str(p).startswith('~/') else p
        path.exists, path.isdir, path.isfile = fs.exists, fs.isdir, fs.isfile
        path.sep = '/'
        os = types.ModuleType('os'); os.path = path; os.sep = '/'
        os.mkdir, os.makedirs, os.listdir, os.remove, os.unlink, os.rename, os.replace, os.system = fs.mkdir, fs.makedirs, fs.listdir, fs.remove, fs.remove, fs.rename, fs.rename, fs.system
        os.environ = {}; os.getcwd = lambda: CWD; os.fspath = str; os.name = 'posix'
        os.getpid = lambda: 1
        res = types.ModuleType('importlib.resources'); res.files = lambda pkg: VPath('/sym/pkg/' + str(pkg).replace('.', '/'))
        imp = types.ModuleType('importlib'); imp.resources = res
        m = types.ModuleType('h5py')
        class File(H5Group):
            def __init__(self, p, mode='r', **k):
                q = fs.norm(p)
                if mode in ('r', 'r+') and q not in fs.ent: raise FileNotFoundError(q)
                if mode in ('w-', 'x') and q in fs.ent: raise FileExistsError(q)
                if mode == 'w' or q not in fs.ent:
                    fs.need_parent(q); fs.ent[q] = H5Group()
                root = fs.ent[q]
                if not isinstance(root, H5Group): raise OSError('not an hdf5 file')
                self.items_ = root.items_; self.attrs = root.attrs; self.mode = mode
            def __enter__(self): return self
            def __exit__(self, *a): return False
            def close(self): pass
            def flush(self): pass
            def create_group(self, k):
                if self.mode == 'r': raise ValueError('No write intent on file')
                return H5Group.create_group(self, k)
        m.File = File; m.Group = H5Group; m.Dataset = H5Dataset; m.__version__ = '3'
        sh = types.ModuleType('shutil')
        def rmtree(p, *a, **k):
            q = fs.norm(p)
            if not fs.isdir(q): raise FileNotFoundError(q)
            for x in list(fs.ent):
                if x == q or x.startswith(q + '/'): del fs.ent[x]
        def copyfile(a, b):
            a, b = fs.norm(a), fs.norm(b)
            if fs.isdir(b): b = posixpath.join(b, posixpath.basename(a))
            if not fs.isfile(a): raise FileNotFoundError(a)
            fs.need_parent(b); fs.ent[b] = fs.ent[a]
            return b
        sh.rmtree = rmtree; sh.copy = sh.copyfile = sh.copy2 = copyfile; sh.move = fs.rename
        return {'shutil': sh, 'os': os, 'os.path': path, 'importlib': imp, 'importlib.resources': res, 'h5py': m}

def _deep(v):
    if isinstance(v, dict): return {k: _deep(x) for k, x in v.items()}
    if isinstance(v, list): return [_deep(x) for x in v]
    if isinstance(v, (A, snp.RecArr)): return v.copy()
    return v

def install(ld):
    import os as real_os
    ld.fs = VFS()
    ld.ext.update(ld.fs.modules(real_os))
    ld.bi['open'] = ld.fs.open
    snp.save = ld.fs.npsave; snp.savez = snp.savez_compressed = ld.fs.npsavez; snp.load = ld.fs.npload

def reset(ld): ld.fs.reset()

# ------------------------------------------------------------------------------------------------ astropy
class Unit:
    def __init__(self, dims): self.dims = {k: v for k, v in dims.items() if v}
    def _c(self, o, s):
        d = dict(self.dims)
        for k, v in o.dims.items(): d[k] = d.get(k, 0) + s * v
        return Unit(d)
    def __mul__(self, o): return self._c(o, 1) if isinstance(o, Unit) else Quantity(o, self)
    def __rmul__(self, o): return Quantity(o, self)
    def __truediv__(self, o): return self._c(o, -1)
    def __rtruediv__(self, o): return Quantity(o, Unit({k: -v for k, v in self.dims.items()}))
    def __pow__(self, n): return Unit({k: v * n for k, v in self.dims.items()})
    def __eq__(self, o): return isinstance(o, Unit) and self.dims == o.dims
    __hash__ = None
    def is_equivalent(self, o): return self == o
    __array_priority__ = 3000
class Quantity:
    """a value with a unit; only equal units are ever compared or converted"""
    __array_priority__ = 3000; __array_ufunc__ = None
    def __init__(self, value, unit): self.value = value; self.unit = unit
    def to(self, u):
        if self.unit != u: raise Unsupported('unit conversion')
        return self
    def to_value(self, u): return self.to(u).value
    def __mul__(self, o):
        if isinstance(o, Unit): return Quantity(self.value, self.unit * o)
        if isinstance(o, Quantity): return Quantity(self.value * o.value, self.unit * o.unit)
        return Quantity(self.value * o, self.unit)
    def __rmul__(self, o): return Quantity(o * self.value, self.unit)
    def __truediv__(self, o):
        if isinstance(o, Unit): return Quantity(self.value, self.unit / o)
        if isinstance(o, Quantity): return Quantity(self.value / o.value, self.unit / o.unit)
        return Quantity(self.value / o, self.unit)
    def __add__(self, o): return Quantity(self.value + o.to_value(self.unit), self.unit)
    def __sub__(self, o): return Quantity(self.value - o.to_value(self.unit), self.unit)
    def __getitem__(self, k): return Quantity(self.value[k], self.unit)

class Cosmology:
    """assumed: a flat cosmology is a function of its four parameters; the comoving distance is 0 at z=0 and
    strictly increases with redshift, the age strictly decreases, the transverse distance is the comoving
    distance and the comoving volume is that of a sphere of that radius"""
    def __init__(self, H0, Om0, Ob0=None, Tcmb0=0, **k):
        self.H0 = H0; self.h = H0.value / 100 if isinstance(H0, Quantity) else H0 / 100
        self.Om0 = Om0; self.Ob0 = Ob0; self.Tcmb0 = Tcmb0
        self._par = [x.value if isinstance(x, Quantity) else x for x in (H0, Om0, Ob0 if Ob0 is not None else 0, Tcmb0)]
        self._par = [real_term(x.item() if isinstance(x, A) else x) for x in self._par]
    def __eq__(self, o):
        if not isinstance(o, Cosmology): return False
        from .core import mkB
        return mkB(z3.And(*[a == b for a, b in zip(self._par, o._par)]))
    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r
    __hash__ = object.__hash__
    def _f(self, name, z, sign, zero):
        f = z3.Function(name, *([z3.RealSort()] * 6))
        P = self._par
        def one(v):
            t = real_term(v); y = f(t, *P)
            e = core.E
            if zero is not None: e.fact(f(z3.RealVal(0), *P) == zero, key=(name, 'zero') + tuple(p.get_id() for p in P))
            if not core.has_bv(t):
                seen = e.__dict__.setdefault('cosmo_seen', {}).setdefault((name, e.stats['paths']) + tuple(p.get_id() for p in P), [])
                if zero is not None: e.fact(z3.And((t > 0) == (y > zero), (t < 0) == (y < zero)), key=(name, 'sgn', y.get_id()))
                for o in seen[-12:]:
                    if o.get_id() != t.get_id():
                        a, b = (f(o, *P), y) if sign > 0 else (y, f(o, *P))
                        e.fact(z3.And((o < t) == (a < b), (o == t) == (a == b)), key=(name, 'mono', o.get_id(), t.get_id()) + tuple(p.get_id() for p in P))
                if all(o.get_id() != t.get_id() for o in seen): seen.append(t); core._keep.append(t)
            return mkR(y)
        if isinstance(z, Quantity): z = z.value
        if isinstance(z, (A, list, tuple)):
            from .arr import unop
            return unop(asarr(z), one, 'f')
        return one(z)
    def comoving_distance(self, z): return Quantity(self._f('comoving_distance', z, 1, z3.RealVal(0)), units.Mpc)
    comoving_transverse_distance = comoving_distance
    def comoving_volume(self, z):
        d = self.comoving_distance(z).value
        return Quantity(d * d * d * (4 * snp.pi / 3), units.Mpc ** 3)
    def age(self, z): return Quantity(self._f('age', z, -1, None), units.Gyr)
    def luminosity_distance(self, z): return Quantity(self.comoving_distance(z).value * (1 + z), units.Mpc)
    def angular_diameter_distance(self, z): return Quantity(self.comoving_distance(z).value / (1 + z), units.Mpc)

units = types.ModuleType('astropy.units')
for _u in ('km', 's', 'Mpc', 'K', 'Gyr', 'm', 'rad', 'sr', 'Jy', 'Hz', 'GHz', 'solMass', 'yr', 'um', 'AA'): setattr(units, _u, Unit({_u: 1}))

def z_at_value(func, v, **k):
    c = func.__self__; name = func.__name__
    if name not in ('comoving_distance', 'comoving_transverse_distance', 'age'): raise Unsupported('z_at_value')
    g = z3.Function('z_at_' + ('age' if name == 'age' else 'distance'), *([z3.RealSort()] * 6))
    z = g(real_term(v.value), *c._par)
    y = func(mkR(z)).value
    if name == 'age': core.E.fact(real_term(y) == real_term(v.value))
    else: core.E.fact(z3.Implies(real_term(v.value) >= 0, z3.And(real_term(y) == real_term(v.value), z >= 0)))
    return mkR(z)

def astropy_modules():
    cos = types.ModuleType('astropy.cosmology'); cos.FlatLambdaCDM = Cosmology; cos.z_at_value = z_at_value
    top = types.ModuleType('astropy'); top.cosmology = cos; top.units = units
    return {'astropy': top, 'astropy.cosmology': cos, 'astropy.units': units}
_install0 = install
def install(ld):
    _install0(ld); ld.ext.update(astropy_modules())

# ------------------------------------------------------------------------------------------------ scipy.signal
def fftconvolve(in1, in2, mode='full', axes=None):
    """assumed: linear convolution (zero outside) along the axes, broadcasting along the others; mode 'same' returns the
    central part with the shape of the first argument"""
    a, b = asarr(in1), asarr(in2)
    if mode != 'same' or a.kind == 'c' or b.kind == 'c': raise Unsupported('fftconvolve mode')
    if a.ndim != b.ndim: raise ValueError('in1 and in2 should have the same dimensionality')
    if any(d is not None for d in a.dom + b.dom): raise Unsupported('fftconvolve of selections')
    nd = a.ndim
    ax = list(range(nd)) if axes is None else [int(x) % nd for x in (list(asarr(axes).cells()) if not isinstance(axes, int) else [axes])]
    if len(set(ax)) != len(ax): raise ValueError('all axes must be unique')
    from .arr import dim_is1, dim_eq
    shape = list(a.shape)
    for k in range(nd):
        if k in ax or dim_is1(b.shape[k]): continue
        if dim_is1(a.shape[k]): shape[k] = b.shape[k]
        elif not dim_eq(a.shape[k], b.shape[k]): raise ValueError('incompatible shapes for in1 and in2')
    fa, fb = a.fz(), b.fz()
    def val(*i):
        def body(us):
            ia = list(i); ib = list(i); g = []
            for k in range(nd):
                if k in ax:
                    u = us[ax.index(k)]; ib[k] = u
                    ia[k] = i[k] + (b.shape[k] - 1) // 2 - u
                    g += [ia[k] >= 0, ia[k] < a.shape[k]]
                else:
                    if dim_is1(a.shape[k]): ia[k] = 0
                    if dim_is1(b.shape[k]): ib[k] = 0
            g = land(*g)
            if isinstance(g, bool): return real_term(fa(*ia) * fb(*ib)) if g else z3.RealVal(0)
            with core.E.under(g): v = fa(*ia) * fb(*ib)
            return real_term(ite(g, v, 0.0))
        return mkR(core.E.make_sum([int_term(b.shape[k]) for k in ax], body, z3.RealSort()))
    return A(shape, Storage(val, 'f'))
_install1 = install
def install(ld):
    _install1(ld)
    sig = types.ModuleType('scipy.signal'); sig.fftconvolve = fftconvolve
    ld.ext['scipy.signal'] = sig

# ------------------------------------------------------------------------------------------------ scipy.special
_install2 = install
def install(ld):
    _install2(ld)
    import math
    sp = types.ModuleType('scipy.special')
    for n, py in (('erf', math.erf), ('erfc', math.erfc), ('gamma', math.gamma)): setattr(sp, n, snp._uf(n, py))
    ld.ext['scipy.special'] = sp
