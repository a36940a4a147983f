"""jinja2, shutil and matplotlib for the symbolic side: recorders.

A template remembers what it was rendered with; a figure remembers where it
was saved; axes remember the curves drawn on them."""
import os
import posixpath
from . import shims
from .values import Unsupported, PDict
from .vfs import _name


class Template:
    def __init__(self, rec, name):
        self.rec, self.name = rec, name

    def render(self, *a, **k):
        if a:
            k = dict(list(a[0].items()), **k)
        self.rec.append((self.name, k))
        return 'text of ' + self.name


class Undefined:
    pass


def jinja(rec):
    class Environment:
        def __init__(self, *a, **k):
            self.options = k
            self.filters = PDict()
            self.globals = PDict()
            self.tests = PDict()

        def get_template(self, name, *a, **k):
            return Template(rec, name)

        select_template = get_template
    return shims.mod('jinja2', Environment=Environment, FileSystemLoader=lambda *a, **k: ('loader', a),
                     Undefined=Undefined, Template=Template)


def shutil(fs):
    def copytree(src, dst, *a, **k):
        src, dst = _name(src), _name(dst)
        if dst in fs.dirs and not k.get('dirs_exist_ok'):
            raise FileExistsError(17, 'File exists', dst)
        fs.makedirs(dst, exist_ok=True)
        if os.path.isdir(src):
            for f in os.listdir(src):
                fs.files[posixpath.join(dst, f)] = ''
        return dst

    def copy(src, dst, *a, **k):
        src, dst = _name(src), _name(dst)
        if src not in fs.files:
            raise FileNotFoundError(2, 'No such file or directory', src)
        p = posixpath.join(dst, posixpath.basename(src)) if dst in fs.dirs else dst
        fs.files[p] = fs.files[src]
        return p

    def rmtree(d, *a, **k):
        d = _name(d)
        fs.files = {p: v for p, v in fs.files.items() if not p.startswith(d + '/')}
        fs.dirs = {p for p in fs.dirs if p != d and not p.startswith(d + '/')}
    return shims.mod('shutil', copytree=copytree, copy=copy, copyfile=copy, copy2=copy, rmtree=rmtree)


def matplotlib(w, saved, fs):
    """modules of matplotlib whose figures note where they are saved"""
    class Figure:
        def __init__(self, *a, **k):
            self.canvas = None

        def savefig(self, f, *a, **k):
            p = _name(f)
            fs().parent(p)
            fs().files[p] = b''
            saved().append((p, self))

    class FigureCanvas:
        def __init__(self, figure=None, *a, **k):
            if figure is not None:
                figure.canvas = self
            self.figure = figure

        def print_figure(self, f, *a, **k):
            self.figure.savefig(f)
    fm = shims.mod('matplotlib.figure', Figure=Figure)
    bp = shims.mod('matplotlib.backends.backend_pdf', FigureCanvas=FigureCanvas, FigureCanvasPdf=FigureCanvas)
    be = shims.mod('matplotlib.backends', backend_pdf=bp)
    m = shims.mod('matplotlib', figure=fm, backends=be, use=lambda *a, **k: None)
    for n, x in (('matplotlib', m), ('matplotlib.figure', fm), ('matplotlib.backends', be),
                 ('matplotlib.backends.backend_pdf', bp)):
        w.ext[n] = x
    return m
