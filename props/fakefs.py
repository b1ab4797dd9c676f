"""File system stand-ins: nothing the program does reaches the real file system"""
import configparser
import fnmatch
import io
import os as _os
import pathlib as _pathlib
import posixpath
import types


def unsupported(env, what):
    if env.symbolic:
        from symx.core import Unsupported
    else:
        from symx.concenv import Unsupported
    raise Unsupported('file system: ' + what)


class Mod(types.ModuleType):
    def __init__(self, env, name, /, **kw):
        super().__init__(name)
        self.__dict__.update(kw)
        self.__dict__['_env'] = env

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        unsupported(self._env, '%s.%s' % (self.__name__, n))


class File(io.StringIO):
    def __init__(self, fs, path, mode, text=''):
        super().__init__(text if 'w' not in mode else '')
        self.fs, self.path, self.mode = fs, path, mode
        if 'a' in mode:
            self.seek(0, 2)

    def write(self, s):
        if isinstance(s, (bytes, bytearray)):
            getattr(self.fs, 'on_write', lambda f, b: None)(self, s)
            s = bytes(s).decode('latin-1')
        return super().write(s)

    def close(self):
        if not self.closed and ('w' in self.mode or 'a' in self.mode or 'x' in self.mode or '+' in self.mode):
            self.fs.nodes[self.path] = self.getvalue()
        super().close()


class Link:
    def __init__(self, target):
        self.target = target

    def __eq__(self, o):
        return isinstance(o, Link) and o.target == self.target

    __hash__ = None


class Entry:
    def __init__(self, fs, path):
        self.fs, self.path, self.name = fs, path, posixpath.basename(path)

    def __fspath__(self):
        return self.path

    def is_dir(self, follow_symlinks=True):
        return self.fs.isdir(self.path) and (follow_symlinks or not self.is_symlink())

    def is_file(self, follow_symlinks=True):
        return self.fs.isfile(self.path) and (follow_symlinks or not self.is_symlink())

    def is_symlink(self):
        return self.fs.islink(self.path)


class Entries(list):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


class FS:
    """nodes: path -> None for a directory, text for a file, Link for a symbolic link"""

    def __init__(self, env, cwd='/w'):
        self.env = env
        self.cwd = cwd
        self.nodes = {'/': None}
        self.log = []
        self.mkdirs(cwd)
        fs = self

        class Path(_pathlib.PurePosixPath):
            def _k(self):
                return fs.norm(str(self))

            def resolve(self, strict=False):
                return type(self)(fs.real(str(self)))

            def absolute(self):
                return type(self)(posixpath.join(fs.cwd, str(self)))

            def expanduser(self):
                return self

            @classmethod
            def cwd(cls):
                return cls(fs.cwd)

            def exists(self):
                return fs.real(str(self)) in fs.nodes

            def is_dir(self):
                return fs.isdir(str(self))

            def is_file(self):
                return fs.isfile(str(self))

            def is_symlink(self):
                return fs.islink(str(self))

            def mkdir(self, mode=0o777, parents=False, exist_ok=False):
                fs.mkdir(self._k(), parents, exist_ok)

            def unlink(self, missing_ok=False):
                fs.unlink(self._k(), missing_ok)

            def rmdir(self):
                fs.rmdir(self._k())

            def iterdir(self):
                return iter([self / n for n in fs.listdir(self._k())])

            def glob(self, pat):
                if '/' in pat or '**' in pat:
                    unsupported(fs.env, 'glob ' + pat)
                return iter([self / n for n in fs.listdir(self._k()) if fnmatch.fnmatchcase(n, pat)])

            def rglob(self, pat):
                if '/' in pat or '**' in pat:
                    unsupported(fs.env, 'rglob ' + pat)
                pre = fs.real(str(self)).rstrip('/') + '/'
                return iter([type(self)(k) for k in sorted(fs.nodes) if k.startswith(pre) and
                             fnmatch.fnmatchcase(posixpath.basename(k), pat)])

            def touch(self, mode=0o666, exist_ok=True):
                with fs.open(self._k(), 'a'):
                    pass

            def rename(self, to):
                fs.rename(self._k(), to)
                return type(self)(to)

            replace = rename

            def symlink_to(self, to, target_is_directory=False):
                fs.nodes[self._k()] = Link(fs.norm(to))

            def samefile(self, o):
                return fs.real(str(self)) == fs.real(str(o))

            def open(self, mode='r', *a, **k):
                return fs.open(self._k(), mode)

            def read_text(self, *a, **k):
                with fs.open(self._k()) as f:
                    return f.read()

            def write_text(self, s, *a, **k):
                with fs.open(self._k(), 'w') as f:
                    f.write(s)
                return len(s)

            def __fspath__(self):
                return str(self)
        self.Path = Path

    def norm(self, p):
        p = str(p)
        if not p.startswith('/'):
            p = self.cwd + '/' + p
        p = posixpath.normpath(p)
        # links on the way are followed, the last part is not
        head, tail = posixpath.split(p)
        if tail and any(isinstance(v, Link) for v in self.nodes.values()):
            head = self.real(head)
            p = posixpath.join(head, tail)
        return p

    def real(self, p):
        p = str(p)
        if not p.startswith('/'):
            p = self.cwd + '/' + p
        p = posixpath.normpath(p)
        for _ in range(20):
            parts, q = p.strip('/').split('/'), ''
            for i, part in enumerate(parts):
                q += '/' + part
                if isinstance(self.nodes.get(q), Link):
                    p = posixpath.normpath(posixpath.join(self.nodes[q].target, *parts[i + 1:]))
                    break
            else:
                return p
        raise OSError(40, 'Too many levels of symbolic links', p)

    def isdir(self, p):
        return self.nodes.get(self.real(p), '') is None

    def isfile(self, p):
        return isinstance(self.nodes.get(self.real(p)), str)

    def islink(self, p):
        return isinstance(self.nodes.get(self.norm(p)), Link)

    def rename(self, a, b):
        a, b = self.norm(a), self.norm(b)
        if a not in self.nodes:
            raise FileNotFoundError(2, 'No such file or directory', a)
        if self.nodes.get(b, '') is None and (self.nodes[a] is not None or self.listdir(b)):
            raise OSError(39, 'Directory not empty', b)
        self.log.append(('rename', a, b))
        for k in [k for k in self.nodes if k == a or k.startswith(a.rstrip('/') + '/')]:
            self.nodes[b + k[len(a):]] = self.nodes.pop(k)

    def move(self, a, b, *x, **k):
        if self.isdir(b):
            b = posixpath.join(str(b), posixpath.basename(self.norm(a)))
        self.rename(a, b)
        return str(b)

    def scandir(self, p='.'):
        return Entries(Entry(self, posixpath.join(str(p), n)) for n in self.listdir(p))

    def walk(self, top, topdown=True, onerror=None, followlinks=False):
        names = self.listdir(top)
        dirs = [n for n in names if self.isdir(posixpath.join(str(top), n))]
        files = [n for n in names if n not in dirs]
        if topdown:
            yield str(top), dirs, files
        for d in dirs:
            if followlinks or not self.islink(posixpath.join(str(top), d)):
                yield from self.walk(posixpath.join(str(top), d), topdown, onerror, followlinks)
        if not topdown:
            yield str(top), dirs, files

    def mkdirs(self, p):
        q = ''
        for part in self.norm(p).strip('/').split('/'):
            q += '/' + part
            self.nodes.setdefault(q, None)

    def mkdir(self, p, parents=False, exist_ok=False):
        p = self.norm(p)
        if p in self.nodes:
            if exist_ok and self.isdir(p):
                return
            raise FileExistsError(17, 'File exists', p)
        par = self.real(posixpath.dirname(p))
        if par not in self.nodes:
            if not parents:
                raise FileNotFoundError(2, 'No such file or directory', p)
            self.mkdir(par, True, True)
        self.log.append(('mkdir', p))
        self.nodes[p] = None

    def listdir(self, p='.'):
        p = self.real(p)
        if p not in self.nodes:
            raise FileNotFoundError(2, 'No such file or directory', p)
        if self.nodes[p] is not None:
            raise NotADirectoryError(20, 'Not a directory', p)
        pre = p.rstrip('/') + '/'
        return [k[len(pre):] for k in self.nodes if k.startswith(pre) and '/' not in k[len(pre):] and k != p]

    def unlink(self, p, missing_ok=False):
        p = self.norm(p)
        if p not in self.nodes:
            if missing_ok:
                return
            raise FileNotFoundError(2, 'No such file or directory', p)
        if self.nodes[p] is None:
            raise IsADirectoryError(21, 'Is a directory', p)
        self.log.append(('unlink', p))
        del self.nodes[p]

    def rmdir(self, p):
        p = self.norm(p)
        if self.islink(p):
            raise NotADirectoryError(20, 'Not a directory', p)
        if self.listdir(p):
            raise OSError(39, 'Directory not empty', p)
        self.log.append(('rmdir', p))
        del self.nodes[p]

    def rmtree(self, p, ignore_errors=False, *a, **k):
        p = self.norm(p)
        if p not in self.nodes:
            if ignore_errors:
                return
            raise FileNotFoundError(2, 'No such file or directory', p)
        if self.islink(p) or self.nodes[p] is not None:
            if ignore_errors:
                return
            if self.islink(p):
                raise OSError('Cannot call rmtree on a symbolic link')
            raise NotADirectoryError(20, 'Not a directory', p)
        self.log.append(('rmtree', p))
        for k in [k for k in self.nodes if k == p or k.startswith(p.rstrip('/') + '/')]:
            del self.nodes[k]

    def open(self, p, mode='r', *a, **k):
        p = self.real(p)
        if 'r' in mode:
            if p not in self.nodes:
                raise FileNotFoundError(2, 'No such file or directory', p)
        elif posixpath.dirname(p) not in self.nodes:
            raise FileNotFoundError(2, 'No such file or directory', p)
        elif 'x' in mode and p in self.nodes:
            raise FileExistsError(17, 'File exists', p)
        if p in self.nodes and self.nodes[p] is None:
            raise IsADirectoryError(21, 'Is a directory', p)
        if 'r' not in mode:
            self.log.append(('write', p))
        f = File(self, p, mode, self.nodes.get(p) or '')
        if 'w' in mode or 'x' in mode:
            self.nodes[p] = ''
        return f

    def copy(self, a, b, *x, **k):
        b = self.real(b)
        if b in self.nodes and self.nodes[b] is None:
            b += '/' + posixpath.basename(self.norm(a))
        with self.open(a) as f:
            t = f.read()
        with self.open(b, 'w') as f:
            f.write(t)
        return b

    def install(self):
        env, fs = self.env, self
        fs_ = lambda p: str(p)
        path = Mod(env, 'os.path', join=lambda *a: posixpath.join(*map(fs_, a)), sep='/',
                   basename=lambda p: posixpath.basename(fs_(p)), dirname=lambda p: posixpath.dirname(fs_(p)),
                   split=lambda p: posixpath.split(fs_(p)), splitext=lambda p: posixpath.splitext(fs_(p)),
                   abspath=lambda p: posixpath.normpath(posixpath.join(fs.cwd, fs_(p))), realpath=self.real, normpath=lambda p: posixpath.normpath(fs_(p)),
                   exists=lambda p: fs.real(p) in fs.nodes, lexists=lambda p: fs.norm(p) in fs.nodes,
                   isfile=self.isfile, isdir=self.isdir, islink=self.islink, expanduser=fs_,
                   samefile=lambda a, b: fs.real(a) == fs.real(b), relpath=lambda p, start='.': posixpath.relpath(fs.real(p), fs.real(start)),
                   commonpath=posixpath.commonpath,
                   isabs=lambda p: fs_(p).startswith('/'))
        osm = Mod(env, 'os', path=path, listdir=self.listdir, sep='/', linesep='\n', name='posix', curdir='.',
                  mkdir=lambda p, *a, **k: fs.mkdir(p),
                  makedirs=lambda p, mode=0o777, exist_ok=False: fs.mkdir(p, True, exist_ok),
                  remove=self.unlink, unlink=self.unlink, rmdir=self.rmdir, walk=self.walk,
                  scandir=self.scandir, rename=self.rename, replace=self.rename, getcwd=lambda: fs.cwd,
                  fspath=lambda p: str(p), PathLike=_os.PathLike, environ=dict())
        env.stub('os', osm)
        env.stub('os.path', path)
        env.stub('pathlib', Mod(env, 'pathlib', Path=self.Path, PosixPath=self.Path, PurePath=_pathlib.PurePosixPath,
                                PurePosixPath=_pathlib.PurePosixPath))
        env.stub('shutil', Mod(env, 'shutil', rmtree=self.rmtree, copy=self.copy, copyfile=self.copy,
                               copy2=self.copy, move=self.move))

        def mkdtemp(*a, **k):
            p = '/tmp/tmp%d' % len([1 for x in fs.log if x[0] == 'mkdtemp'])
            fs.log.append(('mkdtemp', p))
            fs.mkdirs(p)
            return p
        env.stub('tempfile', Mod(env, 'tempfile', mkdtemp=mkdtemp, gettempdir=lambda: '/tmp'))
        cps = {n: getattr(configparser, n) for n in dir(configparser) if not n.startswith('__')}

        class ConfigParser(configparser.ConfigParser):
            def read(self, filenames, encoding=None):
                if isinstance(filenames, (str, _pathlib.PurePath)):
                    filenames = [filenames]
                ok = []
                for f in filenames:
                    t = fs.nodes.get(fs.real(f))
                    if not isinstance(t, str):
                        continue
                    if encoding == 'utf-8-sig' and t.startswith('\ufeff'):
                        t = t[1:]
                    self.read_file(io.StringIO(t), source=str(f))
                    ok.append(f)
                return ok
        cps['ConfigParser'] = ConfigParser
        env.stub('configparser', Mod(env, 'configparser', **cps))
        env.stub('builtins', dict({'open': self.open}, **self.extra))
        return self

    extra = {}
