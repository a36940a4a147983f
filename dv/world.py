"""The repository's modules, transformed and loaded for symbolic execution.

Every run reads the source files of /repo/src/emva1288 as they are."""
import builtins as B
import os
import types
from . import terms as tm
from . import engine as eng
from . import snp
from . import shims
from . import runtime
from .engine import Unsupported
from .transform import transform
from .values import PList, PDict, SStr, SNum

SRC = os.environ.get('DV_SRC', '/repo/src')
_code = {}


class ElementTree:
    pass


def _ordered(*a, **k):
    return shims.OrderedDict_(*a, **k)


def os_module():
    p = shims.mod('os.path', join=os_join, dirname=lambda s: _str(os.path.dirname, s, 'dirname'),
                  basename=lambda s: _str(os.path.basename, s, 'basename'), sep='/',
                  normpath=lambda s: _str(os.path.normpath, s, 'normpath'),
                  abspath=lambda s: _str(os.path.abspath, s, 'abspath'),
                  splitext=lambda s: _str(os.path.splitext, s, 'splitext'))
    return shims.mod('os', path=p, sep='/', linesep='\n')


def _str(f, s, nm):
    if isinstance(s, str):
        return f(s)
    return SStr(tm.app(nm, s.t, sort='O'))


def os_join(*a):
    if all(isinstance(x, str) for x in a):
        return os.path.join(*a)
    from .values import sterm
    return SStr(tm.app('pathjoin', *[sterm(x) for x in a], sort='O'))


class World:
    """one fresh copy of the package"""

    def __init__(self, overrides=None):
        self.mods = {}
        self.ext = {}
        self.overrides = overrides or {}
        self.stub = {}
        self.builtins = dict(vars(B))
        self.builtins.update(shims.BUILTINS)
        self.builtins['__import__'] = self.imp
        self.builtins['DV__'] = runtime.RT
        self.files = set()

        def no_open(*a, **k):
            raise Unsupported('open()')
        self.builtins['open'] = no_open

    def external(self, name):
        m = self.ext.get(name)
        if m is not None:
            return m
        if name in self.overrides:
            m = self.overrides[name]
        elif name == 'numpy':
            m = snp.module()
        elif name == 'logging':
            m = shims.logging_module()
        elif name == 'os':
            m = os_module()
        elif name == 'collections':
            m = shims.mod('collections', OrderedDict=shims.OrderedDict_)
        elif name == 'scipy.ndimage':
            m = shims.mod(name, convolve=shims.convolve)
        elif name == 'scipy.optimize':
            m = shims.mod(name, leastsq=shims.leastsq)
        elif name == 'warnings':
            m = shims.mod(name, warn=lambda *a, **k: None, simplefilter=lambda *a, **k: None,
                          filterwarnings=lambda *a, **k: None)
        elif name in ('math', 'copy', 'itertools', 'functools'):
            m = getattr(self, '_' + name)()
        elif name == 'pprint':
            m = shims.mod(name, pformat=lambda *a, **k: SStr(tm.var('pprint', 'O')), pprint=lambda *a, **k: None)
        elif name == '__future__':
            import __future__ as m
        elif name in ('typing', 'numbers', 're', 'posixpath'):
            m = B.__import__(name)
        else:
            m = types.ModuleType(name)

            def lazy(k, name=name):
                if k.startswith('__'):
                    raise AttributeError(k)
                return snp._Missing(name + '.' + k)
            m.__getattr__ = lazy
        self.ext[name] = m
        return m

    def _math(self):
        n = self.external('numpy')
        return shims.mod('math', sqrt=n.sqrt, floor=lambda x: shims.int_(n.floor(x)), pi=n.pi, exp=n.exp, log10=n.log10,
                         ceil=lambda x: shims.int_(n.ceil(x)), isnan=n.isnan, log=n.log, sin=n.sin, cos=n.cos,
                         pow=lambda a, b: shims.float_(a) ** b, fabs=shims.abs_, fsum=shims.sum_)

    def _copy(self):
        def cp(x):
            if isinstance(x, (PList, PDict)) or hasattr(x, 'copy'):
                return x.copy()
            return x
        return shims.mod('copy', copy=cp)

    def _itertools(self):
        return shims.mod('itertools', chain=lambda *a: PList(segs=[s for x in a for s in shims.as_segs(x)]))

    def _functools(self):
        import functools
        return shims.mod('functools', wraps=functools.wraps, reduce=functools.reduce, partial=functools.partial)

    # ------------------------------------------------------------- import
    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__'].split('.')
            base = pkg[:len(pkg) - level + 1]
            name = '.'.join(base + ([name] if name else []))
        if name == 'emva1288' or name.startswith('emva1288.'):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not f.startswith('_') and f not in m.__dict__ and self.path(name + '.' + f):
                        self.load(name + '.' + f)
                return m
            return self.load('emva1288')
        m = self.external(name)
        if not fromlist and '.' in name:
            return self.external(name.split('.')[0])
        return m

    def path(self, name):
        p = os.path.join(SRC, *name.split('.'))
        if os.path.isfile(p + '.py'):
            return p + '.py'
        p = os.path.join(p, '__init__.py')
        return p if os.path.isfile(p) else None

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        parent = name.rpartition('.')[0]
        if parent == 'emva1288' and (self.path(name) or '').endswith('__init__.py'):
            self.load(parent)
            return self.package(name)
        if parent:
            self.load(parent) if parent == 'emva1288' else self.package(parent)
        if name in self.mods:
            return self.mods[name]
        m = types.ModuleType(name)
        p = self.path(name)
        if p is None:
            raise ImportError(name)
        m.__file__ = p
        m.__package__ = name if p.endswith('__init__.py') else parent
        self.mods[name] = m
        m.__dict__['__builtins__'] = self.builtins
        if name not in ('emva1288',) and not (p.endswith('__init__.py')):
            code = compiled(name, p)
            exec(code, m.__dict__)
        elif name == 'emva1288':
            m.__dict__['__standard_version__'] = '4.0'
            m.__path__ = [os.path.dirname(p)]
        if parent:
            setattr(self.mods[parent], name.rpartition('.')[2], m)
        return m

    def package(self, name):
        """a package whose __init__ is not run (it only re-exports)"""
        m = self.mods.get(name)
        if m is None:
            m = types.ModuleType(name)
            m.__package__ = name
            m.__file__ = self.path(name)
            m.__dict__['__builtins__'] = self.builtins
            self.mods[name] = m
            lazy = {'emva1288.process': {'Data1288': 'data', 'LoadImageData': 'loader', 'Results1288': 'results',
                                         'ParseEmvaDescriptorFile': 'parser', 'Plotting1288': 'plotting'},
                    'emva1288.camera': {'Camera': 'camera'},
                    'emva1288.report': {}}.get(name, {})

            def ga(k, name=name, lazy=lazy):
                if k in lazy:
                    return getattr(self.load(name + '.' + lazy[k]), k)
                raise AttributeError(k)
            m.__getattr__ = ga
            self.mods[name] = m
            setattr(self.load('emva1288'), name.rpartition('.')[2], m)
        return m


def compiled(name, path):
    c = _code.get(path)
    if c is None:
        with open(path, encoding='utf-8') as f:
            src = f.read()
        c = _code[path] = transform(src, name, path)
    return c
