"""files in memory: open(), os, os.path, tempfile, shutil and PIL.Image for the
symbolic side.  Names are concrete; texts may hold number tokens."""
import os
import posixpath
from . import shims
from .values import Unsupported, SArr, SStr


def _name(f):
    if not isinstance(f, str):
        raise Unsupported('file name that is not a text')
    return posixpath.normpath(f)


class File:
    def __init__(self, fs, path, mode):
        self.fs, self.path, self.mode, self.closed, self.pos = fs, path, mode, False, 0
        self.name = path

    def write(self, s):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        if 'r' in self.mode and '+' not in self.mode:
            raise OSError('not writable')
        if not isinstance(s, (str, bytes)):
            if isinstance(s, SStr):
                raise Unsupported('writing an opaque text')
            raise TypeError('write() argument must be str')
        if isinstance(s, bytes) != ('b' in self.mode):
            raise TypeError('write() argument of the wrong type')
        self.fs.files[self.path] += s
        return len(s)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def read(self, n=-1):
        s = self.fs.files[self.path][self.pos:]
        if n is not None and n >= 0:
            s = s[:n]
        self.pos += len(s)
        return s

    def readlines(self):
        return self.read().splitlines(True)

    def readline(self):
        l = self.fs.files[self.path][self.pos:].splitlines(True)
        self.pos += len(l[0]) if l else 0
        return l[0] if l else ''

    def __iter__(self):
        return iter(self.readlines())

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True
        return False


class Image:
    """what PIL.Image.fromarray() gives"""

    def __init__(self, fs, a, mode):
        self.fs, self.a, self.mode = fs, a, mode

    def save(self, path, format=None, **k):
        p = _name(path)
        self.fs.parent(p)
        self.fs.files[p] = b''
        self.fs.saved.append((p, self.a))

    def convert(self, mode=None, *a, **k):
        if mode in (None, self.mode):
            return self
        raise Unsupported('conversion of an image')


class VFS:
    def __init__(self, w):
        self.root = '/scratch/disk'
        self.files, self.dirs, self.saved, self.n = {}, {'/', '/scratch', self.root}, [], 0
        w.builtins['open'] = self.open
        o = w.external('os')
        o.makedirs, o.mkdir, o.listdir, o.remove = self.makedirs, self.mkdir, self.listdir, self.remove
        o.unlink = self.remove
        p = o.path
        p.isfile = lambda f: not isinstance(f, bytes) and _name(f) in self.files
        p.isdir = lambda f: not isinstance(f, bytes) and _name(f) in self.dirs
        p.exists = lambda f: not isinstance(f, bytes) and (_name(f) in self.files or _name(f) in self.dirs)
        p.abspath = lambda f: _name(f if f.startswith('/') else '/scratch/' + f)
        fs = self

        class TemporaryDirectory:
            def __init__(self, *a, **k):
                self.name = fs.mkdtemp()

            def cleanup(self):
                pass

            def __enter__(self):
                return self.name

            def __exit__(self, *a):
                return False
        w.ext['tempfile'] = shims.mod('tempfile', TemporaryDirectory=TemporaryDirectory, mkdtemp=self.mkdtemp)
        im = shims.mod('PIL.Image', fromarray=self.fromarray)
        from . import sxml, ext
        self.rendered, self.figures = [], []
        w.ext['jinja2'] = ext.jinja(self.rendered)
        w.ext['shutil'] = ext.shutil(self)
        ext.matplotlib(w, lambda: self.figures, lambda: self)
        et = sxml.module(self)
        w.ext['lxml'] = shims.mod('lxml', etree=et)
        w.ext['lxml.etree'] = et
        w.ext['PIL'] = shims.mod('PIL', Image=im)
        w.ext['PIL.Image'] = im

    def reset(self):
        self.files, self.dirs, self.saved, self.n = {}, {'/', '/scratch', self.root}, [], 0
        del self.rendered[:], self.figures[:]

    def parent(self, p):
        if posixpath.dirname(p) not in self.dirs:
            raise FileNotFoundError(2, 'No such file or directory', p)

    def mkdtemp(self, *a, **k):
        self.n += 1
        d = '/scratch/tmp%d' % self.n
        self.dirs.add(d)
        return d

    def open(self, f, mode='r', *a, **k):
        f = _name(f)
        if 'r' in mode:
            if f not in self.files:
                raise FileNotFoundError(2, 'No such file or directory', f)
        elif 'x' in mode and f in self.files:
            raise FileExistsError(17, 'File exists', f)
        else:
            self.parent(f)
            if 'a' not in mode or f not in self.files:
                self.files[f] = b'' if 'b' in mode else ''
        return File(self, f, mode)

    def mkdir(self, d, *a, **k):
        d = _name(d)
        if d in self.dirs or d in self.files:
            raise FileExistsError(17, 'File exists', d)
        self.parent(d)
        self.dirs.add(d)

    def makedirs(self, d, mode=0o777, exist_ok=False):
        d = _name(d)
        if d in self.files or d in self.dirs:
            if exist_ok and d in self.dirs:
                return
            raise FileExistsError(17, 'File exists', d)
        while d not in self.dirs:
            self.dirs.add(d)
            d = posixpath.dirname(d)

    def listdir(self, d='.'):
        d = _name(d)
        return [x[len(d) + 1:] for x in sorted(set(self.files) | self.dirs)
                if x.startswith(d + '/') and '/' not in x[len(d) + 1:]]

    def remove(self, f):
        f = _name(f)
        if f not in self.files:
            raise FileNotFoundError(2, 'No such file or directory', f)
        del self.files[f]

    def text(self, f):
        return self.files[_name(f)]

    def fromarray(self, a, mode=None):
        if not isinstance(a, SArr):
            raise Unsupported('image of something that is not an array')
        return Image(self, a.copy(), mode)
