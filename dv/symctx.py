"""The contract interface in the verifier: inputs are symbols, postconditions
become obligations."""
import re
import types
from fractions import Fraction
from . import terms as tm
from . import engine as eng
from . import snp
from . import shims
from . import runtime
from . import values as V
from .engine import Unsupported, Infeasible
from .terms import ZERO, ONE, TRUE, FALSE
from .values import (SNum, SNaN, NAN, SBool, SStr, SArr, PList, PDict, PSet, Seg, Fam, OptSeg, SIter, mkbool, mknum,
                     lift, is_num, bterm, vmerge)
from .runtime import RT, veq


def T_(x):
    return lift(x).t


_SHIM = re.compile(r"'(SNum|SArr|MArr|SBool|SStr|PList|PDict|PSet|SIter|SNaN|Slot|Havoc|Fraction)'")
_CALL = re.compile(r"unexpected keyword argument|positional argument|multiple values for")


def own_fault(x):
    """the exception comes from the verifier's own models, not from the code"""
    if isinstance(x, (RecursionError, MemoryError, AssertionError, NotImplementedError)):
        return True
    if isinstance(x, (AttributeError, NameError)):
        o = getattr(x, 'obj', None)
        if o is not None and not isinstance(o, types.ModuleType):
            m = type(o).__module__ if not isinstance(o, type) else o.__module__
            if m.startswith('dv.'):
                return True
        if isinstance(o, types.ModuleType) and not o.__name__.startswith('emva1288'):
            return True
    if isinstance(x, TypeError) and (_SHIM.search(str(x)) or _CALL.search(str(x))):
        return True
    tb = x.__traceback__
    f = None
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    if f and '/dv/' in f and isinstance(x, (AttributeError, NameError, UnboundLocalError)):
        return True
    return False


def _own(x):
    if own_fault(x):
        raise Unsupported('outside the models: %s: %s' % (type(x).__name__, str(x)[:160])) from x


class SymCtx:
    is_sym = True

    def __init__(self, e, world, small=None):
        self.e, self.w, self.small = e, world, small
        self.inputs = {}
        e.annot = []
        e.text = {}
        e.tokens = {}
        e.joins = {}
        e.text_mode = False
        self.notes = []

    # ---------------------------------------------------------- inputs
    def size(self, name, lo=1, hi=None, rand=None):
        if self.small is not None:
            if name not in self.small:
                raise Unsupported('no small value for %s' % name)
            v = self.small[name]
            self.inputs[name] = ('const', v)
            return v
        return self.int(name, lo, hi)

    def int(self, name, lo=None, hi=None, rand=None):
        t = tm.var(name, 'I')
        self.inputs[name] = ('I', t)
        if lo is not None:
            self.e.assume(tm.le(T_(lo), t))
        if hi is not None:
            self.e.assume(tm.le(t, T_(hi)))
        if lo is not None or hi is not None:
            self.e.ranges[name] = (lo, hi)
        return SNum(t, 'i')

    def real(self, name, lo=None, hi=None, pos=False, rand=None):
        t = tm.var(name, 'R')
        self.inputs[name] = ('R', t)
        if pos:
            self.e.assume(tm.lt(ZERO, t))
        if lo is not None:
            self.e.assume(tm.le(T_(lo), t))
        if hi is not None:
            self.e.assume(tm.le(t, T_(hi)))
        return SNum(t, 'f')

    def bool(self, name):
        t = tm.var(name, 'B')
        self.inputs[name] = ('B', t)
        return mkbool(t)

    def choice(self, name, options):
        t = tm.var(name, 'I')
        self.inputs[name] = ('I', t)
        self.e.assume(tm.land(tm.le(ZERO, t), tm.lt(t, tm.const(len(options)))))
        for k, o in enumerate(options[:-1]):
            if self.e.branch(tm.eq(t, tm.const(k))):
                return o
        return options[-1]

    def number_text(self, value, comma=False):
        """a text that denotes the number value (with a decimal comma).  The
        program sees the text; converting it gives the symbolic value."""
        self._texts = getattr(self, '_texts', 0) + 1
        v = lift(value)
        if v.kind == 'i':
            s = str(770000 + self._texts)
            self.e.text[s] = v
            return s
        s = '%d.5' % (770000 + self._texts)
        self.e.text[s] = v
        return s.replace('.', ',') if comma else s

    def file(self, name, text):
        """the file of this name holds the text"""
        fs = self.__dict__.setdefault('_files', {})
        path = '/scratch/dir/' + name
        fs[path] = text

        def op(f, mode='r', *a, **k):
            if not isinstance(f, str) or f not in fs:
                raise FileNotFoundError(2, 'No such file')
            if 'w' in mode or 'a' in mode or 'b' in mode:
                raise Unsupported('open() for writing')
            import io
            return io.StringIO(fs[f])
        self.w.builtins['open'] = op
        return path

    def files(self, names):
        """a directory that holds files of these names"""
        d = '/scratch/images'
        have = {d + '/' + n for n in names}
        for n in names:
            while '/' in n:
                n = n.rpartition('/')[0]
                have.add(d + '/' + n)
        dirs = {d} | {x.rpartition('/')[0] for x in have}
        m = self.w.external('os').path

        def known(f):
            if not isinstance(f, str):
                raise Unsupported('file test on a symbolic name')
            import os
            return os.path.normpath(f)
        m.isfile = lambda f: known(f) in have and known(f) not in dirs
        m.exists = lambda f: known(f) in have or known(f) in dirs
        m.isdir = lambda f: known(f) in dirs
        return d

    def texts(self):
        """numbers written as text are tokens that read back as the numbers"""
        self.e.text_mode = True

    def disk(self):
        """a directory in which the program may create files"""
        from . import vfs
        self.texts()
        v = getattr(self.w, 'vfs', None)
        if v is None:
            v = self.w.vfs = vfs.VFS(self.w)
        v.reset()
        self.vfs = v
        return self.vfs.root

    def number(self, text):
        """the number a text denotes"""
        return shims.float_.make(text)

    def listing(self, d):
        """the files below the directory"""
        return sorted(p[len(d) + 1:] for p in self.vfs.files if p.startswith(d + '/'))

    def put(self, path, text):
        """a file that was there before"""
        self.vfs.makedirs(path.rsplit('/', 1)[0], exist_ok=True)
        self.vfs.files[path] = text

    def content(self, path):
        """the text of a file"""
        return self.vfs.text(path)

    def saved_images(self):
        """what was saved as an image: path and values, in order"""
        return list(self.vfs.saved)

    def nan(self):
        return NAN

    def rendered(self):
        """what templates were rendered with, in order: (name, arguments)"""
        return self.vfs.rendered

    def figures(self):
        """what was saved as a figure, in order: (path, figure)"""
        return self.vfs.figures

    def pyplot(self):
        """the windows opened by pyplot"""
        from . import windows
        w = windows.Windows()
        for n in ('matplotlib', 'matplotlib.pyplot'):
            old = self.w.ext.get(n)
            self.e.log(lambda n=n, old=old: self.w.ext.__setitem__(n, old) if old is not None else self.w.ext.pop(n, None))
        m = shims.mod('matplotlib.pyplot', figure=w.figure, show=w.show)
        self.w.ext['matplotlib'] = shims.mod('matplotlib', pyplot=m)
        self.w.ext['matplotlib.pyplot'] = m
        return w

    def filter(self, renderer, name):
        return renderer.filters[name]

    def string(self, name, alphabet=None):
        t = tm.var(name, 'O')
        self.inputs[name] = ('O', t)
        return SStr(t)

    def array(self, name, shape, dtype='float64', lo=None, hi=None, rand=None):
        dt = snp.as_dtype(dtype)
        shape = tuple(T_(s) for s in (shape if isinstance(shape, tuple) else (shape,)))
        sort = 'B' if dt.kind == 'b' else ('I' if dt.kind in 'iu' else 'R')
        if dt.kind in 'iu' and lo is None:
            lo = 0 if dt.kind == 'u' else -2 ** (dt.bits - 1)
        if dt.kind in 'iu' and hi is None:
            hi = 2 ** dt.bits - 1 if dt.kind == 'u' else 2 ** (dt.bits - 1) - 1
        self.inputs[name] = ('A', name, shape, dt.name, sort)
        a = SArr.new(lambda *i: tm.app(name, *i, sort=sort), shape, dt, name)
        if (lo is not None or hi is not None) and dt.kind != 'b':
            def rng(*i):
                x = tm.app(name, *i, sort=sort)
                c = []
                if lo is not None:
                    c.append(tm.le(T_(lo), x))
                if hi is not None:
                    c.append(tm.le(x, T_(hi)))
                return tm.land(*c)
            self._quant(shape, rng)
            self.e.ranges[name] = (lo, hi)
        return a

    def _quant(self, shape, rng):
        if all(s.k == 'c' for s in shape):
            import itertools
            for ix in itertools.product(*[range(int(s.a)) for s in shape]):
                self.e.assume(rng(*[tm.const(i) for i in ix]))
            return
        vs = [tm.fresh_ivar() for _ in shape]
        b = rng(*vs)
        for v, n in reversed(list(zip(vs, shape))):
            b = tm.forall_range(v, ZERO, n, b)
        self.e.assume(b)

    def masked(self, data, mask):
        """numpy masked array of data and mask (True = ignored)"""
        return snp.ma.array(data, mask=mask)

    def seq(self, name, n, dtype='float64', lo=None, hi=None, rand=None):
        return self.array(name, (n,), dtype, lo, hi)

    def from_fn(self, shape, f, dtype='float64'):
        """array defined elementwise from other values"""
        def el(*i):
            r = f(*[mknum(x, 'i') for x in i])
            return bterm(r) if snp.as_dtype(dtype).kind == 'b' else T_(r)
        return SArr.new(el,
                        tuple(T_(s) for s in (shape if isinstance(shape, tuple) else (shape,))), snp.as_dtype(dtype))

    def increasing(self, a):
        """assume a strictly increasing sequence"""
        n = a._shape[-1]
        if len(a._shape) == 2:
            rng = lambda *i: tm.implies(tm.lt(i[1], tm.sub(n, ONE)), tm.lt(a.at(*i), a.at(i[0], tm.add(i[1], ONE))))
            self._quant(a._shape, rng)
            if n.k != 'c':
                r, i, j = tm.fresh_ivar(), tm.fresh_ivar(), tm.fresh_ivar()
                self.e.assume(tm.forall_range(r, ZERO, a._shape[0], tm.forall_range(i, ZERO, n, tm.forall_range(
                    j, tm.add(i, ONE), n, tm.lt(a.at(r, i), a.at(r, j))))))
            return
        if n.k == 'c':
            for i in range(1, int(n.a)):
                self.e.assume(tm.lt(a.at(tm.const(i - 1)), a.at(tm.const(i))))
            return
        i, j = tm.fresh_ivar(), tm.fresh_ivar()
        self.e.assume(tm.forall_range(i, ZERO, n, tm.forall_range(j, tm.add(i, ONE), n, tm.lt(a.at(i), a.at(j)))))
        k = tm.fresh_ivar()
        self.e.assume(tm.forall_range(k, ONE, n, tm.lt(a.at(tm.sub(k, ONE)), a.at(k))))

    def dict(self, d=(), **kw):
        r = PDict.of(d.items() if hasattr(d, 'items') else d)
        for k, v in kw.items():
            r[k] = v
        return r

    def mapping(self, n, key, val):
        """dict with n entries key(i): val(i); the keys must be distinct"""
        n = T_(n)
        if n.k == 'c':
            return PDict([(key(i), val(i)) for i in range(int(n.a))])
        return PDict([Fam(n, lambda i: key(mknum(i, 'i')), lambda i: val(mknum(i, 'i')))])

    def mapping_plus(self, pairs, n, key, val):
        """dict of the pairs followed by n entries key(i): val(i)"""
        n = T_(n)
        if n.k == 'c':
            return PDict(list(pairs) + [(key(i), val(i)) for i in range(int(n.a))])
        return PDict(list(pairs) + [Fam(n, lambda i: key(mknum(i, 'i')), lambda i: val(mknum(i, 'i')))])

    def pylist(self, n, f):
        n = T_(n)
        if n.k == 'c':
            return PList([f(i) for i in range(int(n.a))])
        return PList(segs=[Seg(n, lambda i: f(mknum(i, 'i')))])

    def new(self, mod, cls, **attrs):
        k = getattr(self.mod(mod), cls)
        o = object.__new__(k)
        runtime.birth(o)
        for a, v in attrs.items():
            o.__dict__[a] = v
        return o

    @property
    def cut(self):
        """callees are checked at the call and replaced by their contract (all
        sizes); the instances of fixed size run the whole code"""
        return self.small is None

    def mod(self, name):
        return self.w.load('emva1288.' + name)

    def cls(self, mod, name):
        return getattr(self.mod(mod), name)

    def patch(self, mod, name, val):
        m = self.mod(mod)
        old = getattr(m, name, None)
        if old is None:
            raise Unsupported('%s has no %s' % (mod, name))
        setattr(m, name, val)
        self.e.log(lambda: setattr(m, name, old))
        return old

    def patch_attr(self, obj, name, val):
        own = name in vars(obj)
        old = getattr(obj, name, None)
        setattr(obj, name, val)
        self.e.log(lambda: setattr(obj, name, old) if own else delattr(obj, name))
        return old

    def patch_both(self, mod, name, val):
        return self.patch(mod, name, val)

    def loop_invariant(self, function, names, f):
        """annotation: before iteration k of the loop in the function, f(k, state)
        holds; names: the loop's variables and their kinds ('i' or 'f').  Used
        where no closed form of the state is found."""
        self.e.annot.append((function, names, f))

    # ------------------------------------------------------------- run
    def name_large(self, limit=60):
        """give large scalars a name (a cut); definitions are used on demand"""
        self.e.name_large = limit

    def call(self, f, *a, **k):
        """call code under contract; it must not raise"""
        try:
            return f(*a, **k)
        except Exception as x:
            _own(x)
            self.e.oblige('no exception (%s: %s)' % (type(x).__name__, str(x)[:80]), FALSE, 'exc')
            raise Infeasible()

    def outcome(self, f, *a, **k):
        """('ok', value) or ('exc', exception)"""
        try:
            return ('ok', f(*a, **k))
        except Exception as x:
            _own(x)
            return ('exc', x)

    # --------------------------------------------------------- formulas
    def assume(self, c):
        self.e.assume(bterm(c))

    def ensure(self, name, c):
        self.e.oblige(name, bterm(c), 'post')

    def lemma(self, name, c):
        """prove, then use"""
        t = bterm(c)
        self.e.oblige('lemma ' + name, t, 'lemma')
        self.e.assume(t)

    def at(self, a, *i):
        if isinstance(a, PList):
            return a.get(T_(i[0]))
        t = a.at(*[T_(x) for x in i])
        if t is V.NANT:
            return NAN
        return a._scalar(t) if t.sort != 'N' else SNum(t, 'i' if a.dtype.kind in 'iub' else 'f')

    def elem(self, x, *i):
        """element of x stretched to the index"""
        if is_num(x):
            return x
        k = i[len(i) - x.ndim:]
        return self.at(x, *[j if self.e.decide(tm.lt(T_(j), n)) is True else 0 if self.e.branch(tm.eq(n, tm.ONE)) else j
                            for n, j in zip(x._shape, k)])

    def masked_at(self, a, *i):
        return mkbool(a.mask_.at(*[T_(x) for x in i])) if a.masked else False

    def data_at(self, a, *i):
        return SNum(a.at(*[T_(x) for x in i]), 'f')

    def item(self, l, i):
        if isinstance(l, tuple):
            return l[i]
        if isinstance(l, SArr):
            return self.at(l, i)
        return l.get(T_(i))

    def len(self, x):
        return shims.len_(x)

    def shape(self, a):
        return a.shape

    def eq(self, a, b, scale=None, tol=None):
        if isinstance(a, SNaN) or isinstance(b, SNaN):
            return isinstance(a, SNaN) and isinstance(b, SNaN)
        if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
            return a == b
        if a is None or b is None:
            return a is b
        if not is_num(a) and not (isinstance(a, SArr) and a.ndim == 0):
            return False
        return mkbool(tm.eq(T_(a), T_(b)))

    exact = eq

    def same(self, a, b):
        """structural equality of two values"""
        o = []
        try:
            veq(a, b, o)
        except V.Unmergeable:
            return False
        return mkbool(tm.land(*o))

    def same_object(self, a, b):
        return a is b

    def snapshot(self, a):
        if isinstance(a, SArr):
            r = a.copy_()
            if a.masked:
                r = snp.MArr.wrap(r, a.mask_.copy_())
            return r
        if isinstance(a, PList):
            return PList(segs=list(a.segs))
        if isinstance(a, PDict):
            return PDict([(x if isinstance(x, Fam) else (x[0], self.snapshot(x[1]))) for x in a.ent])
        return a

    def _body(self, n, f):
        """generic value of f(i): merged over its paths"""
        v = tm.fresh_ivar()
        self.e.mute += 1
        try:
            outs = RT.generic(v, n, lambda: f(mknum(v, 'i')))
        finally:
            self.e.mute -= 1
        return v, outs

    def sum(self, n, f):
        n = T_(n)
        if n.k == 'c':
            r = 0
            for i in range(int(n.a)):
                r = r + f(i)
            return r
        v, outs = self._body(n, f)
        x = runtime.merge_values(outs)
        if isinstance(x, (SBool, bool)):
            x = mknum(tm.ind(bterm(x)), 'i')
        x = lift(x)
        return mknum(tm.mk_sum(v, n, x.t), x.kind)

    def squares(self, dims, f):
        """the sum of f(i,...)**2 over the dimensions; it is not negative"""
        def s(ix, rest):
            if not rest:
                return self.square(f(*ix))
            return self.sum(rest[0], lambda i: s(ix + (i,), rest[1:]))
        r = lift(s((), tuple(dims)))
        self.e.assume(tm.le(ZERO, r.t))
        return mknum(r.t, r.kind)

    def count(self, n, f):
        return self.sum(n, lambda i: self.ite(f(i), 1, 0))

    def _ext(self, op, n, f):
        n = T_(n)
        v, outs = self._body(n, f)
        x = lift(runtime.merge_values(outs))
        return mknum(tm.mk_red(op, v, n, x.t), x.kind)

    def max(self, n, f):
        return self._ext('max', n, f)

    def min(self, n, f):
        return self._ext('min', n, f)

    def amax(self, a):
        """largest unmasked element of an array (numpy's definition)"""
        return snp.amax(a)

    def amin(self, a):
        return snp.amin(a)

    def _q(self, kind, n, f):
        n = T_(n)
        if n.k == 'c':
            l = [bterm(f(i)) for i in range(int(n.a))]
            return mkbool(tm.land(*l) if kind == 'all' else tm.lor(*l))
        v, outs = self._body(n, f)
        if not outs:
            return kind == 'all'
        if kind == 'all':
            b = tm.land(*[tm.implies(c, bterm(x)) for c, x in outs])
            return mkbool(tm.forall_range(v, ZERO, n, b))
        b = tm.lor(*[tm.land(c, bterm(x)) for c, x in outs])
        return mkbool(tm.exists_range(v, ZERO, n, b))

    def forall(self, n, f):
        return self._q('all', n, f)

    def exists(self, n, f):
        return self._q('any', n, f)

    def forall_range(self, lo, hi, f):
        return self.forall(self.max2(hi - lo, 0), lambda i: f(i + lo))

    def exists_range(self, lo, hi, f):
        return self.exists(self.max2(hi - lo, 0), lambda i: f(i + lo))

    def max2(self, a, b):
        return mknum(V.simp_ite(tm.lt(T_(a), T_(b)), T_(b), T_(a)), lift(a).kind)

    def min2(self, a, b):
        return mknum(V.simp_ite(tm.lt(T_(a), T_(b)), T_(a), T_(b)), lift(a).kind)

    def ite(self, c, a, b):
        return vmerge(bterm(c), a, b)

    def land(self, *cs):
        return mkbool(tm.land(*[bterm(c) for c in cs]))

    def lor(self, *cs):
        return mkbool(tm.lor(*[bterm(c) for c in cs]))

    def lnot(self, c):
        return mkbool(tm.lnot(bterm(c)))

    def implies(self, a, b):
        if callable(b):
            if bterm(a) is FALSE:
                return True
            b = b()
        return mkbool(tm.implies(bterm(a), bterm(b)))

    def iff(self, a, b):
        return mkbool(tm.iff(bterm(a), bterm(b)))

    def decide(self, c):
        """case split"""
        return self.e.branch(bterm(c))

    def sqrt(self, x):
        return mknum(tm.sqrt(T_(x)), 'f')

    def square(self, x):
        return x * x

    def div(self, a, b):
        return mknum(tm.div(T_(a), T_(b)), 'f')

    def floordiv(self, a, b):
        return mknum(V.floordiv_t(T_(a), T_(b)), 'i')

    def mod_(self, a, b):
        return mknum(V.mod_t(T_(a), T_(b)), 'i')

    def floor(self, x):
        return mknum(tm.floor(T_(x)), 'i')

    def trunc(self, x):
        """rounded towards zero"""
        return mknum(snp.trunc_t(T_(x)), 'i')

    def pow2(self, x):
        return mknum(V.pow_t(tm.const(2), T_(x)), 'f')

    def exp(self, x):
        return snp.exp(x if isinstance(x, SNum) else SNum(T_(x), 'f'))

    def log10(self, x):
        return snp.log10(SNum(T_(x), 'f'))

    def log2(self, x):
        return snp.log2(SNum(T_(x), 'f'))

    def cos(self, x):
        return snp.cos(SNum(T_(x), 'f'))

    def cos2pi(self, k, j, n):
        """cos(2 pi k j / n)"""
        return mknum(tm.app('cos2pi', T_(k), T_(j), T_(n)), 'f')

    def sin2pi(self, k, j, n):
        return mknum(tm.app('sin2pi', T_(k), T_(j), T_(n)), 'f')

    def abs(self, x):
        return mknum(V.simp_abs(T_(x)), lift(x).kind)

    def round_to(self, x, n):
        return V.num_round(x, n)

    @property
    def pi(self):
        return SNum(snp.PI, 'f')

    def q(self, a, b=1):
        """exact rational constant"""
        return SNum(tm.const(Fraction(a) / Fraction(b)), 'f')

    def isnan(self, x):
        return isinstance(x, SNaN) or (isinstance(x, SNum) and x.t is V.NANT) or (
            isinstance(x, SArr) and x.ndim == 0 and x.at() is V.NANT)

    def isnum(self, x):
        return is_num(x) and not self.isnan(x)

    def is_int(self, x):
        """an exact integer"""
        if isinstance(x, SArr):
            return x.dtype.kind in 'iu'
        return is_num(x) and lift(x).kind == 'i'

    def dtype(self, a):
        return a.dtype.name

    def mro(self, R):
        return R.__mro__[:-1] if isinstance(R, type) else [R]

    def keys(self, d):
        c = d.keys().concrete() if isinstance(d, PDict) else list(d.keys())
        if c is None:
            raise Unsupported('keys of a symbolic dict')
        return c

    def has(self, d, k):
        return k in d

    def values_list(self, l):
        c = l.concrete() if isinstance(l, PList) else list(l)
        if c is None:
            raise Unsupported('symbolic list')
        return c

    def text(self, s):
        """a Python string, or None"""
        return s if isinstance(s, str) else None

    def isinstance(self, x, kind):
        return {'int': shims.int_.check, 'float': shims.float_.check, 'str': shims.str_.check,
                'dict': shims.dict_.check, 'list': shims.list_.check, 'bool': shims.bool_.check,
                'array': lambda o: isinstance(o, SArr), 'masked': lambda o: isinstance(o, SArr) and o.masked,
                'none': lambda o: o is None}[kind](x)

    def note(self, *a):
        import os
        if os.environ.get('DV_TRACE'):
            import traceback
            print('NOTE', *a)
            for x in a:
                if isinstance(x, BaseException):
                    traceback.print_exception(x)

    def value(self, x):
        return x

    def trust(self, s):
        self.e.notes.add(s)
