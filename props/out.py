"""Stand-ins for the libraries that write output files; they record what they are given"""
import posixpath
from props.common import *
from props import fakefs


class Rec:
    """records of file writers: path -> (kind, content)"""

    def __init__(self, env, missing=()):
        self.env, self.files, self.missing = env, {}, set(missing)
        self.warned = []
        self.fs = fakefs.FS(env)
        self.fs.extra = {'__import__': None}
        del self.fs.extra['__import__']
        self.fs.install()
        fs = self.fs
        M = lambda n, **k: fakefs.Mod(env, n, **k)

        def put(p, kind, content):
            p = fs.norm(p)
            env.check('directory-exists', posixpath.dirname(p) in fs.nodes and fs.nodes[posixpath.dirname(p)] is None)
            env.check('written-once', p not in self.files)
            self.files[p] = (kind, content)
        self.put = put

        def savemat(p, d, appendmat=True, **k):
            p = p.path if isinstance(p, fakefs.File) else str(p)
            put(p if p.endswith('.mat') or not appendmat else p + '.mat', 'mat', dict(d))
        sio = M('scipy.io', savemat=savemat)
        env.stub('scipy', M('scipy', io=sio))
        env.stub('scipy.io', sio)

        def dump(obj, f, *a, **k):
            put(f.path, 'pickle', obj)
            self.binary(f)

        class Pickled(bytes):
            pass

        def dumps(obj, *a, **k):
            r = Pickled(b'pickle')
            r.obj = obj
            return r
        fs.on_write = lambda f, b: dump(b.obj, f) if isinstance(b, Pickled) else None
        env.stub('pickle', M('pickle', dump=dump, dumps=dumps, HIGHEST_PROTOCOL=5, DEFAULT_PROTOCOL=4))
        self.h5, self.evtk = self.mk_h5(M, put), self.mk_evtk(M, put)
        if 'h5' in self.missing:
            self.block('h5py')
        else:
            env.stub('h5py', self.h5)
        if 'vtr' in self.missing:
            self.block('pyevtk')
            self.block('pyevtk.hl')
        else:
            env.stub('pyevtk', M('pyevtk', hl=self.evtk))
            env.stub('pyevtk.hl', self.evtk)
        self.flopy = Flopy(self)
        if 'mf' in self.missing:
            self.block('flopy')
        else:
            env.stub('flopy', self.flopy)
        import warnings as W
        self.warnmod = M('warnings', warn=lambda m, *a, **k: self.warned.append(str(m)), formatwarning=W.formatwarning,
                         simplefilter=lambda *a, **k: None, filterwarnings=lambda *a, **k: None)
        for n in ('Warning', 'UserWarning', 'ImportWarning'):
            setattr(self.warnmod, n, getattr(__import__('builtins'), n))
        env.stub('warnings', self.warnmod)

    def binary(self, f):
        self.env.check('binary-mode', 'b' in f.mode)

    def block(self, name):
        self.env.stub(name, Missing(name))

    def mk_h5(self, M, put):
        env = self.env
        class H5:
            def __init__(self, p, mode='r', *a, **k):
                self.p, self.d, self.mode = str(p), {}, mode

            def create_dataset(self, name, shape=None, dtype=None, data=None, **k):
                if name in self.d:
                    raise ValueError('name already exists')
                if data is None:
                    data = env.np.zeros(shape, dtype=dtype or 'f8')
                elif dtype is not None:
                    data = env.np.asarray(data).astype(dtype)
                digits = k.get('scaleoffset')
                if digits is not None and digits is not True and env.np.asarray(data).dtype.kind == 'f':
                    data = env.np.round(data, digits)
                self.d[name] = data
                return data

            def __setitem__(self, name, data):
                self.create_dataset(name, data=data)

            def close(self):
                if self.d is not None:
                    put(self.p, 'h5', self.d)
                self.d = None

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()
        return M('h5py', File=H5)

    def mk_evtk(self, M, put):
        def gridToVTK(path, x, y, z, cellData=None, pointData=None, **k):
            put(str(path) + '.vtr', 'vtr', dict(x=x, y=y, z=z, cell=dict(cellData or {}), point=dict(pointData or {})))
            return str(path) + '.vtr'
        return M('pyevtk.hl', gridToVTK=gridToVTK)

    def numpy(self):
        """to be called once the program may be loaded"""
        def savez(p, *a, **k):
            p = str(p)
            d = {'arr_%d' % i: v for i, v in enumerate(a)}
            d.update(k)
            self.put(p if p.endswith('.npz') else p + '.npz', 'npz', d)
        self.env.npfunc('savez_compressed', savez)
        self.env.npfunc('savez', savez)

        def savetxt(p, X, fmt='%.18e', delimiter=' ', newline='\n', header='', footer='', comments='# ', **k):
            p = p.path if isinstance(p, fakefs.File) else str(p)
            self.put(p, 'txt', dict(rows=X, fmt=fmt, delimiter=delimiter, header=header, footer=footer))
        self.env.npfunc('savetxt', savetxt)


class Missing:
    def __init__(self, name):
        self.__dict__['n'] = name

    def __getattr__(self, a):
        raise ImportError("No module named '%s'" % self.n)


# positional parameters of the packages the program passes by position
ORDER = {'Modflow': ['modelname', 'namefile_ext', 'version', 'exe_name'],
         'ModflowDis': ['model', 'nlay', 'nrow', 'ncol', 'nper', 'delr', 'delc', 'laycbd', 'top', 'botm'],
         'ModflowBas': ['model', 'ibound', 'strt', 'ifrefm', 'ixsec', 'ichflg', 'stoper', 'hnoflo'],
         'ModflowLpf': ['model', 'laytyp', 'layavg', 'chani', 'layvka', 'laywet', 'ipakcb', 'hdry', 'iwdflg', 'wetfct',
                        'iwetit', 'ihdwet', 'hk', 'hani', 'vka'],
         'MFSimulation': ['sim_name', 'version', 'exe_name', 'sim_ws'],
         'MFModel': ['simulation', 'model_type', 'modelname'],
         'ModflowGwf': ['simulation', 'modelname']}


class Obj:
    def __init__(self, fl, kind, kw):
        self.__dict__.update(fl=fl, kind=kind, kw=kw, name=kw.get('modelname', kind))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: self.fl.calls.append((n, self))


class Args(dict):
    """arguments given to a package"""
    env = None

    def __missing__(self, k):
        self.env.fail('argument-given', k)
        raise KeyError(k)


class Flopy:
    def __init__(self, rec):
        self.__dict__.update(rec=rec, pkgs=[], calls=[])

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n[:1].islower():
            return self
        return lambda *a, **k: self.make(n, a, k)

    def make(self, n, a, k):
        order = ORDER.get(n) or ['model']
        assert len(a) <= len(order), 'positional arguments of ' + n
        kw = Args(zip(order, a))
        kw.env = self.rec.env
        assert not set(kw) & set(k)
        kw.update(k)
        if n == 'ModflowIms' and any(x.endswith('hclose') for x in kw):
            self.rec.env.fail('solver-options', 'names that flopy does not accept')
        o = Obj(self, n, kw)
        self.pkgs.append(o)
        return o

    def all(self, kind):
        return [o.kw for o in self.pkgs if o.kind == kind]

    def one(self, kind):
        r = self.all(kind)
        self.rec.env.check('one-' + kind, len(r) == 1)
        return r[0] if len(r) == 1 else None


def same_array(env, label, got, want, shape, tol=1e-7):
    """got: array, want: nested list"""
    if not hasattr(got, 'shape') or tuple(got.shape) != tuple(shape):
        env.fail(label, 'shape')
        return
    for c in box(shape):
        env.check_eq(label, got[c], at(want, c), tol)


def per(v, i):
    """value number i of a scalar or list"""
    return v[i] if hasattr(v, '__len__') else v
