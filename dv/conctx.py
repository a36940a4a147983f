"""The contract interface on the real code: inputs are drawn (or taken from a
counterexample), postconditions are evaluated in floating point."""
import importlib
import json
import math
import random
import numpy as np
from fractions import Fraction


class Skip(Exception):
    """the drawn input is outside the contract's precondition"""


class Failed(Exception):
    def __init__(self, name, detail=''):
        Exception.__init__(self, name)
        self.name, self.detail = name, detail


RTOL = 1e-6
ATOL = 1e-9


class ConCtx:
    is_sym = False
    cut = False

    def __init__(self, rng, given=None, small=False):
        self.rng, self.given = rng, given or {}
        self.drawn = {}
        self.undo = []
        self.checked = 0
        self.small = None
        self.trivial = True

    def close(self):
        for u in reversed(self.undo):
            u()
        self.undo = []

    # ---------------------------------------------------------- inputs
    def _in(self, name, gen, conv):
        if name in self.given and self.given[name] is not None:
            v = conv(self.given[name])
        else:
            v = gen()
        self.drawn[name] = v
        return v

    def size(self, name, lo=1, hi=None, rand=None):
        lo = int(lo)
        hi_ = rand[1] if rand else (min(int(hi), lo + 6) if hi is not None else lo + 6)
        lo_ = rand[0] if rand else lo
        return self._in(name, lambda: self.rng.randint(lo_, hi_), int)

    def int(self, name, lo=None, hi=None, rand=None):
        a = rand[0] if rand else (int(lo) if lo is not None else -20)
        b = rand[1] if rand else (int(hi) if hi is not None else max(a, 0) + 40)

        def g():
            r = self.rng.random()
            if r < 0.12:
                return a
            if r < 0.24:
                return b
            if b - a > 1000 and r < 0.5:
                return min(b, a + self.rng.randint(0, 20))
            return self.rng.randint(a, b)
        return self._in(name, g, int)

    def real(self, name, lo=None, hi=None, pos=False, rand=None):
        if callable(rand):
            return self._in(name, lambda: float(rand(self.rng)), lambda v: float(Fraction(v)))
        a = rand[0] if rand else (float(lo) if lo is not None else (0.0 if pos else -50.0))
        b = rand[1] if rand else (float(hi) if hi is not None else a + 100.0)

        def g():
            for _ in range(20):
                r = self.rng.random()
                if r < 0.15:
                    x = float(round(self.rng.uniform(a, b)))
                elif r < 0.25 and lo is not None:
                    x = a
                elif r < 0.3 and hi is not None:
                    x = b
                else:
                    x = self.rng.uniform(a, b)
                if a <= x <= b and not (pos and x <= 0):
                    return x
            return (a + b) / 2
        return self._in(name, g, lambda v: float(Fraction(v)))

    def bool(self, name):
        return self._in(name, lambda: self.rng.random() < 0.5, bool)

    def choice(self, name, options):
        k = self._in(name, lambda: self.rng.randrange(len(options)), int)
        return options[k]

    def number_text(self, value, comma=False):
        if isinstance(value, int):
            return str(value)
        s = self.rng.choice([repr(float(value)), '%.17g' % value])
        return s.replace('.', ',') if comma else s

    def file(self, name, text):
        import tempfile
        import shutil
        import os
        d = tempfile.mkdtemp(prefix='dv_')
        self.undo.append(lambda: shutil.rmtree(d, ignore_errors=True))
        p = os.path.join(d, name)
        with open(p, 'w') as f:
            f.write(text)
        return p

    def files(self, names):
        import tempfile
        import shutil
        import os
        d = tempfile.mkdtemp(prefix='dv_')
        self.undo.append(lambda: shutil.rmtree(d, ignore_errors=True))
        for n in names:
            p = os.path.join(d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w'):
                pass
        return d

    def texts(self):
        pass

    def disk(self):
        import tempfile
        import shutil
        import PIL.Image
        d = tempfile.mkdtemp(prefix='dv_')
        self.undo.append(lambda: shutil.rmtree(d, ignore_errors=True))
        self._saved = []
        real = PIL.Image.Image.save

        def save(im, fp, *a, **k):
            r = real(im, fp, *a, **k)
            self._saved.append(str(fp))
            return r
        self.patch_attr(PIL.Image.Image, 'save', save)
        return d

    def number(self, text):
        return float(text)

    def listing(self, d):
        import os
        return sorted(os.path.relpath(os.path.join(x, f), d) for x, _d, fs in os.walk(d) for f in fs)

    def put(self, path, text):
        import os
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            f.write(text)

    def content(self, path):
        with open(path) as f:
            return f.read()

    def saved_images(self):
        import PIL.Image
        return [(p, np.asarray(PIL.Image.open(p))) for p in self._saved]

    def nan(self):
        return self.rng.choice([np.nan, float('nan'), np.float64('nan'), -np.float64('nan')])

    def rendered(self):
        if not hasattr(self, '_rendered'):
            import jinja2
            out = self._rendered = []

            class Template:
                def __init__(self, name):
                    self.name = name

                def render(self, *a, **k):
                    out.append((self.name, dict(*a, **k)))
                    return 'text of ' + self.name
            self.patch_attr(jinja2.Environment, 'get_template', lambda env, name, *a, **k: Template(name))
        return self._rendered

    def figures(self):
        if not hasattr(self, '_figures'):
            import matplotlib.figure
            out = self._figures = []

            def savefig(fig, f, *a, **k):
                open(f, 'w').close()
                out.append((str(f), fig))
            self.patch_attr(matplotlib.figure.Figure, 'savefig', savefig)
        return self._figures

    def pyplot(self):
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        from . import windows
        w = windows.Windows()
        self.patch_attr(plt, 'figure', w.figure)
        self.patch_attr(plt, 'show', w.show)
        return w

    def filter(self, renderer, name):
        return renderer.filters[name]

    def string(self, name, alphabet=None):
        al = alphabet or 'abcXYZ_019'
        return self._in(name, lambda: ''.join(self.rng.choice(al) for _ in range(self.rng.randint(1, 8))), str)

    def array(self, name, shape, dtype='float64', lo=None, hi=None, rand=None):
        shape = tuple(int(s) for s in (shape if isinstance(shape, tuple) else (shape,)))
        dt = np.dtype(dtype)
        given = self.given.get(name)
        n = int(np.prod(shape)) if shape else 1
        if dt.kind == 'b':
            vals = [self.rng.random() < 0.3 for _ in range(n)]
        elif dt.kind in 'iu':
            ii = np.iinfo(dt)
            a = int(lo) if lo is not None else ii.min
            b = int(hi) if hi is not None else ii.max
            if rand:
                a, b = max(a, rand[0]), min(b, rand[1])
            mode = self.rng.random()
            if mode < 0.15:
                w = self.rng.randint(a, b)
                vals = [w] * n
            elif mode < 0.45:
                c = self.rng.randint(a, b)
                vals = [min(b, max(a, c + self.rng.randint(-5, 5))) for _ in range(n)]
            elif mode < 0.6:
                vals = [self.rng.choice((a, b, self.rng.randint(a, b))) for _ in range(n)]
            else:
                vals = [self.rng.randint(a, b) for _ in range(n)]
        else:
            a = float(lo) if lo is not None else -50.0
            b = float(hi) if hi is not None else max(a, 0) + 100.0
            if rand:
                a, b = rand
            vals = [(float(round(self.rng.uniform(a, b))) if self.rng.random() < 0.2 else self.rng.uniform(a, b))
                    for _ in range(n)]
            vals = [min(b, max(a, x)) for x in vals]
        if given is not None:
            import itertools
            for k, ix in enumerate(itertools.product(*[range(s) for s in shape])):
                v = given.get(','.join(map(str, ix)))
                if v is not None:
                    vals[k] = bool(v) if dt.kind == 'b' else (int(v) if dt.kind in 'iu' else float(Fraction(v)))
        r = np.array(vals, dtype=dt).reshape(shape)
        self.drawn[name] = r.copy()
        return r

    def masked(self, data, mask):
        return np.ma.array(data, mask=mask)

    def seq(self, name, n, dtype='float64', lo=None, hi=None, rand=None):
        return self.array(name, (n,), dtype, lo, hi, rand)

    def from_fn(self, shape, f, dtype='float64'):
        shape = tuple(int(s) for s in (shape if isinstance(shape, tuple) else (shape,)))
        r = np.zeros(shape, dtype=dtype)
        for ix in np.ndindex(*shape):
            r[ix] = f(*ix)
        return r

    def increasing(self, a):
        if a.ndim == 2:
            given = any(self.drawn[k].shape == a.shape and k in self.given for k in self.drawn
                        if isinstance(self.drawn[k], np.ndarray))
            if not given:
                a.sort(axis=1)
                for r in a:
                    for i in range(1, len(r)):
                        if not r[i] > r[i - 1]:
                            r[i] = r[i - 1] + self.rng.randint(1, 3)
                self._redraw(a)
            if not np.all(np.diff(a, axis=1) > 0):
                raise Skip()
            return
        s = np.unique(a)
        if len(s) != len(a):
            if all(x not in self.given for x in self.drawn):
                if a.dtype.kind == 'f':
                    a[:] = np.sort(a)
                    for i in range(1, len(a)):
                        if not a[i] > a[i - 1]:
                            a[i] = a[i - 1] + self.rng.uniform(0.1, 3)
                    self._redraw(a)
                    return
            raise Skip()
        if not all(x in self.given for x in self.drawn):
            a.sort()
            self._redraw(a)
        elif not np.all(np.diff(a) > 0):
            raise Skip()

    def _redraw(self, a):
        for k in reversed(list(self.drawn)):
            v = self.drawn[k]
            if isinstance(v, np.ndarray) and v.shape == a.shape:
                self.drawn[k] = a.copy()
                return

    def dict(self, d=(), **kw):
        r = dict(d)
        r.update(kw)
        return r

    def mapping(self, n, key, val):
        ks = [key(i) for i in range(int(n))]
        ks = [k.item() if isinstance(k, np.generic) else k for k in ks]
        order = list(range(int(n)))
        d = {}
        for i in order:
            if ks[i] in d:
                raise Skip()
            d[ks[i]] = val(i)
        return d

    def mapping_plus(self, pairs, n, key, val):
        d = dict(pairs)
        m = self.mapping(n, key, val)
        if set(d) & set(m):
            raise Skip()
        d.update(m)
        return d

    def pylist(self, n, f):
        return [f(i) for i in range(int(n))]

    def new(self, mod, cls, **attrs):
        k = getattr(self.mod(mod), cls)
        o = object.__new__(k)
        for a, v in attrs.items():
            o.__dict__[a] = v
        return o

    def mod(self, name):
        return importlib.import_module('emva1288.' + name)

    def cls(self, mod, name):
        return getattr(self.mod(mod), name)

    def patch(self, mod, name, val):
        return getattr(self.mod(mod), name)

    def patch_both(self, mod, name, val):
        m = self.mod(mod)
        return self.patch_attr(m, name, val)

    def patch_attr(self, obj, name, val):
        old = getattr(obj, name)
        setattr(obj, name, val)
        self.undo.append(lambda: setattr(obj, name, old))
        return old

    def loop_invariant(self, function, names, f):
        pass

    def name_large(self, limit=60):
        pass

    # ------------------------------------------------------------- run
    def call(self, f, *a, **k):
        try:
            return f(*a, **k)
        except (Skip, Failed):
            raise
        except Exception as x:
            raise Failed('no exception', '%s: %s' % (type(x).__name__, x))

    def outcome(self, f, *a, **k):
        try:
            return ('ok', f(*a, **k))
        except (Skip, Failed):
            raise
        except Exception as x:
            return ('exc', x)

    def assume(self, c):
        if not c:
            raise Skip()

    def ensure(self, name, c):
        self.checked += 1
        if not bool(c):
            raise Failed(name, getattr(self, 'last', ''))

    def lemma(self, name, c):
        pass

    def at(self, a, *i):
        x = a[tuple(int(x) for x in i)] if not isinstance(a, list) else a[int(i[0])]
        return x.item() if isinstance(x, np.generic) else x

    def elem(self, x, *i):
        x = np.asarray(x)
        k = i[len(i) - x.ndim:]
        return x[tuple(0 if n == 1 else int(j) for n, j in zip(x.shape, k))]

    def masked_at(self, a, *i):
        return bool(np.ma.getmaskarray(a)[tuple(int(x) for x in i)])

    def data_at(self, a, *i):
        return np.ma.getdata(a)[tuple(int(x) for x in i)]

    def item(self, l, i):
        return l[int(i)]

    def len(self, x):
        return len(x)

    def shape(self, a):
        return a.shape

    def eq(self, a, b, scale=None, tol=None):
        try:
            if isinstance(a, str) or isinstance(b, str):
                r = a == b
            elif a is None or b is None:
                r = a is b
            else:
                x, y = complex(a) if isinstance(a, complex) else float(a), float(b)
                if x != x or y != y:
                    r = (x != x) and (y != y)
                else:
                    t = tol if tol is not None else RTOL
                    m = max(abs(x), abs(y), abs(float(scale)) if scale is not None else 0.0)
                    r = abs(x - y) <= t * m + ATOL
        except TypeError:
            r = False
        if not r:
            self.last = '%r differs from expected %r' % (a, b)
        return r

    def exact(self, a, b, scale=None, tol=None):
        r = a is b or bool(a == b)
        if not r:
            self.last = '%r differs from expected %r' % (a, b)
        return r

    def same(self, a, b):
        if isinstance(a, np.ma.MaskedArray) or isinstance(b, np.ma.MaskedArray):
            return a.shape == b.shape and bool(np.all(np.ma.getmaskarray(a) == np.ma.getmaskarray(b))) and \
                bool(np.all(np.ma.getdata(a) == np.ma.getdata(b)))
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            a_, b_ = np.asarray(a), np.asarray(b)
            return a_.shape == b_.shape and bool(np.array_equal(a_, b_, equal_nan=a_.dtype.kind == 'f'))
        if isinstance(a, dict) and isinstance(b, dict):
            return list(a) == list(b) and all(self.same(a[k], b[k]) for k in a)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
            return True
        return bool(a == b)

    def same_object(self, a, b):
        return a is b

    def snapshot(self, a):
        import copy
        return copy.deepcopy(a)

    def sum(self, n, f):
        r = 0
        for i in range(int(n)):
            x = f(i)
            r = r + (x.item() if isinstance(x, np.generic) else x)
        return r

    def squares(self, dims, f):
        return sum(f(*ix) ** 2 for ix in np.ndindex(*[int(d) for d in dims]))

    def count(self, n, f):
        return sum(1 for i in range(int(n)) if f(i))

    def amax(self, a):
        return np.ma.max(a).item()

    def amin(self, a):
        return np.ma.min(a).item()

    def max(self, n, f):
        return max(f(i) for i in range(int(n)))

    def min(self, n, f):
        return min(f(i) for i in range(int(n)))

    def forall(self, n, f):
        return all(bool(f(i)) for i in range(int(n)))

    def exists(self, n, f):
        return any(bool(f(i)) for i in range(int(n)))

    def forall_range(self, lo, hi, f):
        return all(bool(f(i)) for i in range(int(lo), int(hi)))

    def exists_range(self, lo, hi, f):
        return any(bool(f(i)) for i in range(int(lo), int(hi)))

    def max2(self, a, b):
        return max(a, b)

    def min2(self, a, b):
        return min(a, b)

    def ite(self, c, a, b):
        return a if c else b

    def land(self, *cs):
        return all(bool(c) for c in cs)

    def lor(self, *cs):
        return any(bool(c) for c in cs)

    def lnot(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b() if callable(b) else b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def decide(self, c):
        return bool(c)

    def sqrt(self, x):
        return math.sqrt(x) if x >= 0 else float('nan')

    def square(self, x):
        return x * x

    def div(self, a, b):
        if b == 0:
            raise Skip()
        return (a.item() if isinstance(a, np.generic) else a) / (b.item() if isinstance(b, np.generic) else b)

    def floordiv(self, a, b):
        return int(a) // int(b)

    def mod_(self, a, b):
        return int(a) % int(b)

    def floor(self, x):
        return math.floor(x)

    def trunc(self, x):
        return math.trunc(x)

    def pow2(self, x):
        return 2.0 ** float(x)

    def exp(self, x):
        return math.exp(x)

    def log10(self, x):
        return math.log10(x) if x > 0 else float('nan')

    def log2(self, x):
        return math.log2(x) if x > 0 else float('nan')

    def cos(self, x):
        return math.cos(x)

    def cos2pi(self, k, j, n):
        return math.cos(2 * math.pi * ((int(k) * int(j)) % int(n)) / int(n))

    def sin2pi(self, k, j, n):
        return math.sin(2 * math.pi * ((int(k) * int(j)) % int(n)) / int(n))

    def abs(self, x):
        return abs(x)

    def round_to(self, x, n):
        return round(x, n)

    pi = math.pi

    def q(self, a, b=1):
        return float(Fraction(a) / Fraction(b))

    def isnan(self, x):
        try:
            return bool(np.isnan(x))
        except TypeError:
            return False

    def isnum(self, x):
        return isinstance(x, (int, float, np.number)) and not self.isnan(x)

    def is_int(self, x):
        if isinstance(x, np.ndarray):
            return x.dtype.kind in 'iu'
        return isinstance(x, (int, np.integer)) and not isinstance(x, bool)

    def dtype(self, a):
        return a.dtype.name

    def mro(self, R):
        return R.__mro__[:-1]

    def keys(self, d):
        return list(d.keys())

    def has(self, d, k):
        return k in d

    def values_list(self, l):
        return list(l)

    def text(self, s):
        return s if isinstance(s, str) else None

    def isinstance(self, x, kind):
        k = {'int': (int, np.integer), 'float': (float, np.floating), 'str': str, 'dict': dict, 'list': list,
             'bool': (bool, np.bool_), 'array': np.ndarray, 'masked': np.ma.MaskedArray, 'none': type(None)}[kind]
        if kind == 'int' and isinstance(x, bool):
            return False
        return isinstance(x, k)

    def note(self, *a):
        pass

    def value(self, x):
        return x

    def trust(self, s):
        pass


def jsonable(v):
    if isinstance(v, np.ndarray):
        return {'shape': list(v.shape), 'dtype': str(v.dtype),
                'data': [jsonable(x) for x in v.ravel().tolist()[:4000]]}
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, Fraction):
        return str(v)
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    return repr(v)
