"""Symbolic values with Python's interfaces."""
import re
from fractions import Fraction
from . import terms as tm
from . import engine as eng
from .engine import Unsupported, Infeasible
from .terms import T, ZERO, ONE, TRUE, FALSE


def E():
    return eng.E


# ------------------------------------------------------------------ numbers
class SNum:
    """a number (kind 'i' python/numpy integer, 'f' floating point)"""
    __slots__ = ('t', 'kind')
    __array_priority__ = 1000

    def __init__(self, t, kind=None):
        self.t = t
        self.kind = kind or ('i' if t.isint else 'f')

    def __repr__(self):
        return 'SNum(%s)' % tm.show(self.t)

    def _bin(self, o, f, kind=None, rev=False):
        a, b = self, o
        if isinstance(o, SNaN):
            return NAN
        if isinstance(o, PList) and self.kind == 'f':
            # a numpy scalar turns the list into an array
            from . import snp
            nm = {tm.add: 'add', tm.sub: 'sub', tm.mul2: 'mul', tm.div: 'div'}.get(f)
            if nm is None:
                return NotImplemented
            o = snp.asarray(o)
            return snp.binop(nm, o, self) if rev else snp.binop(nm, self, o)
        if not is_num(o):
            return NotImplemented
        b = lift(o)
        x, y = (b, self) if rev else (self, b)
        k = kind or ('i' if x.kind == 'i' and y.kind == 'i' else 'f')
        return mknum(f(x.t, y.t), k)

    def __add__(self, o):
        return self._bin(o, tm.add)

    def __radd__(self, o):
        return self._bin(o, tm.add, rev=True)

    def __sub__(self, o):
        return self._bin(o, tm.sub)

    def __rsub__(self, o):
        return self._bin(o, tm.sub, rev=True)

    def __mul__(self, o):
        return self._bin(o, tm.mul2)

    def __rmul__(self, o):
        return self._bin(o, tm.mul2, rev=True)

    def __truediv__(self, o):
        r = self._bin(o, tm.div, 'f')
        return r

    def __rtruediv__(self, o):
        return self._bin(o, tm.div, 'f', rev=True)

    def __floordiv__(self, o):
        return self._bin(o, floordiv_t)

    def __rfloordiv__(self, o):
        return self._bin(o, floordiv_t, rev=True)

    def __mod__(self, o):
        return self._bin(o, mod_t)

    def __rmod__(self, o):
        return self._bin(o, mod_t, rev=True)

    def __pow__(self, o):
        return num_pow(self, o)

    def __rpow__(self, o):
        return num_pow(o, self)

    def __neg__(self):
        return mknum(tm.neg(self.t), self.kind)

    def __pos__(self):
        return self

    def __abs__(self):
        return mknum(simp_abs(self.t), self.kind)

    def _cmp(self, o, f):
        if isinstance(o, SNaN):
            return False
        if not is_num(o):
            return NotImplemented
        return mkbool(f(self.t, lift(o).t))

    def __lt__(self, o):
        return self._cmp(o, tm.lt)

    def __le__(self, o):
        return self._cmp(o, tm.le)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: tm.lt(b, a))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: tm.le(b, a))

    def __eq__(self, o):
        if isinstance(o, SNaN):
            return False
        if not is_num(o):
            if isinstance(o, SArr):
                return NotImplemented
            return False
        return mkbool(tm.eq(self.t, lift(o).t))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash(('SNum', self.t.id if self.t.k != 'c' else self.t.a))

    def __bool__(self):
        return E().branch(tm.ne(self.t, ZERO))

    def __index__(self):
        if self.t.k == 'c' and self.t.a.denominator == 1:
            return int(self.t.a)
        raise Unsupported('symbolic value used as a concrete index: %s' % tm.show(self.t)[:80])

    def __int__(self):
        return self.__index__() if self.t.isint else int(self.t.a)

    def __float__(self):
        if self.t.k == 'c':
            return float(self.t.a)
        raise Unsupported('symbolic value used as a concrete float')

    def __round__(self, n=None):
        return num_round(self, n)

    def __floor__(self):
        return mknum(tm.floor(self.t), 'i')

    # numpy scalar interface
    @property
    def dtype(self):
        from . import snp
        return snp.int64 if self.kind == 'i' else snp.float64
    shape = ()
    ndim = 0
    size = 1

    def astype(self, dt):
        from . import snp
        return snp.cast_scalar(self, dt)

    def item(self):
        return self

    def mean(self, *a, **k):
        return self

    def sum(self, *a, **k):
        return self

    def max(self, *a, **k):
        return self

    def min(self, *a, **k):
        return self

    def std(self, *a, **k):
        return mknum(ZERO, 'f')

    def copy(self):
        return self

    def tolist(self):
        return self

    def is_integer(self):
        return mkbool(tm.eq(self.t, tm.floor(self.t)))

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return mknum(ZERO, self.kind)

    def conjugate(self):
        return self


class SNaN:
    """the single not-a-number value"""
    def _n(self, *a):
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _n
    __truediv__ = __rtruediv__ = __pow__ = __rpow__ = __neg__ = __abs__ = __floordiv__ = _n

    def _f(self, o):
        return False
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = _f

    def __ne__(self, o):
        return True

    def __hash__(self):
        return 7

    def __bool__(self):
        return True

    def __repr__(self):
        return 'nan'


NAN = SNaN()


class SBool:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return E().branch(self.t)

    def __and__(self, o):
        b = lift_bool(o)
        return NotImplemented if b is None else mkbool(tm.land(self.t, b))
    __rand__ = __and__

    def __or__(self, o):
        b = lift_bool(o)
        return NotImplemented if b is None else mkbool(tm.lor(self.t, b))
    __ror__ = __or__

    def __xor__(self, o):
        b = lift_bool(o)
        return NotImplemented if b is None else mkbool(tm.lnot(tm.iff(self.t, b)))

    def __invert__(self):
        return mkbool(tm.lnot(self.t))

    def __eq__(self, o):
        b = lift_bool(o)
        if b is None:
            if is_num(o):
                return mknum(tm.ind(self.t), 'i') == o
            return False
        return mkbool(tm.iff(self.t, b))

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash(('SBool', self.t.id))

    def _num(self):
        return mknum(tm.ind(self.t), 'i')

    def __add__(self, o):
        return self._num() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __mul__(self, o):
        return self._num() * o
    __rmul__ = __mul__

    def __repr__(self):
        return 'SBool(%s)' % tm.show(self.t)

    def any(self):
        return self

    def all(self):
        return self


def mkbool(t):
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    return SBool(t)


def mknum(t, kind=None):
    if t.k == 'c' and kind == 'i' and t.a.denominator == 1:
        return int(t.a)
    if eng.E is not None and eng.E.name_large and kind != 'i':
        t = eng.E.name_term(t)
    return SNum(t, kind)


def is_num(o):
    return isinstance(o, (SNum, int, float, Fraction, SBool, bool)) and not isinstance(o, SNaN)


def lift(o):
    if isinstance(o, SNum):
        return o
    if isinstance(o, bool):
        return SNum(ONE if o else ZERO, 'i')
    if isinstance(o, int):
        return SNum(tm.const(o), 'i')
    if isinstance(o, float):
        return SNum(tm.const(o), 'f')
    if isinstance(o, Fraction):
        return SNum(tm.const(o), 'f')
    if isinstance(o, SBool):
        return SNum(tm.ind(o.t), 'i')
    if isinstance(o, SArr) and o.ndim == 0:
        return SNum(o.at(), o.dtype.kind if o.dtype.kind in 'if' else 'f')
    raise TypeError('not a number: %r' % (o,))


def lt_(o):
    return lift(o).t


def lift_bool(o):
    if isinstance(o, SBool):
        return o.t
    if isinstance(o, bool):
        return tm.boolc(o)
    return None


def bterm(o):
    """boolean term of a truth value (never forks)"""
    if isinstance(o, SBool):
        return o.t
    if isinstance(o, bool):
        return tm.boolc(o)
    if isinstance(o, SNum):
        return tm.ne(o.t, ZERO)
    if isinstance(o, T) and o.sort == 'B':
        return o
    if isinstance(o, int):
        return tm.boolc(bool(o))
    if isinstance(o, SArr) and o.ndim == 0:
        x = o.at()
        return x if x.sort == 'B' else tm.ne(x, ZERO)
    raise Unsupported('truth value of %r' % type(o))


def simp_ite(c, a, b):
    """ite with the condition decided when the path condition decides it"""
    if a is b:
        return a
    d = E().decide(c)
    if d is True:
        return a
    if d is False:
        return b
    return tm.ite(c, a, b)


def simp_abs(x):
    if x.k == 'c':
        return tm.const(abs(x.a))
    return tm.absv(x)


def floordiv_t(a, b):
    if a.k == 'c' and b.k == 'c' and b.a != 0:
        return tm.const(a.a // b.a)
    if b is ONE and a.isint:
        return a
    q = tm.fdiv(a, b)
    if b.k != 'c' and a.isint and b.isint and E() is not None:
        _fdiv_facts(a, b, q)
    return q


def _fdiv_facts(a, b, q):
    """0 <= a < h*b and 0 < b: 0 <= floor(a/b) < h, for a declared range of a"""
    if a.k not in ('app', 'v') or a.a[0] not in E().ranges:
        return
    lo, hi = E().ranges[a.a[0]]
    if lo is None or hi is None:
        return
    top = tm.add(lift(hi).t, ONE)
    m = tm.mons(top)
    if len(m) != 1:
        return
    (mo, c), = m.items()
    if c != 1 or not any(x is b for x, _e in mo):
        return
    h = tm.div(top, b)
    if not h.isint:
        h = tm.mono_term(tuple((x, e - (1 if x is b else 0)) for x, e in mo if x is not b or e > 1))
    if tm.mul2(h, b) is not top:
        return
    pre = tm.land(tm.le(ZERO, a), tm.lt(a, top), tm.lt(ZERO, b))
    E().assume(tm.implies(pre, tm.land(tm.le(ZERO, q), tm.lt(q, h))))


def mod_t(a, b):
    if a.k == 'c' and b.k == 'c' and b.a != 0:
        return tm.const(a.a % b.a)
    if a.isint and b.k == 'c' and b.a == 1:
        return ZERO
    return tm.mod(a, b)


def num_pow(a, b):
    a, b = lift(a), lift(b)
    k = 'i' if a.kind == 'i' and b.kind == 'i' else 'f'
    return mknum(pow_t(a.t, b.t), k)


def pow_t(a, b):
    if b.k == 'c':
        if b.a.denominator == 1 and abs(b.a) <= 64:
            n = int(b.a)
            r = tm.power(a, abs(n))
            return r if n >= 0 else tm.inv(r)
        if b.a == Fraction(1, 2):
            return tm.sqrt(a)
    if a.k == 'c' and a.a == 2:
        # 2**(x+c) = 2^c * 2**x
        c = tm.const_part(b)
        if c.denominator == 1 and abs(c) <= 4096:
            rest = tm.sub(b, tm.const(c))
            return tm.scale(tm.app('pow2', rest), Fraction(2) ** int(c)) if rest is not ZERO \
                else tm.const(Fraction(2) ** int(c))
        return tm.app('pow2', b)
    return tm.app('pow', a, b)


def num_round(x, n=None):
    x = lift(x)
    if n is None:
        return mknum(tm.app('rint', x.t, sort='I'), 'i')
    nt = lt_(n)
    if nt.k == 'c':
        f = Fraction(10) ** int(nt.a)
        return mknum(tm.scale(tm.app('rint', tm.scale(x.t, f), sort='I'), 1 / f), x.kind)
    f = tm.app('pow10', nt)
    return mknum(tm.mul2(tm.app('rint', tm.mul2(x.t, f), sort='I'), tm.inv(f)), 'f')


# ------------------------------------------------------------------ strings
class SStr:
    """an opaque string: a term of sort O"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SStr(%s)' % tm.show(self.t)

    def __eq__(self, o):
        if isinstance(o, (SStr, str)):
            return mkbool(tm.oeq(self.t, sterm(o)))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash(('SStr', self.t.id))

    def __add__(self, o):
        return scat(self, o)

    def __radd__(self, o):
        return scat(o, self)

    def __mod__(self, o):
        return sfmt('%', self, o)

    def __bool__(self):
        return E().branch(tm.lnot(tm.oeq(self.t, tm.strc(''))))

    def __format__(self, spec):
        raise Unsupported('format of symbolic string')

    def __str__(self):
        raise Unsupported('str() of symbolic string')

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('method %s of a symbolic string' % name)

    def strip(self, *a):
        return SStr(tm.app('strip', self.t, *[sterm(x) for x in a], sort='O'))

    def lower(self):
        return SStr(tm.app('lower', self.t, sort='O'))

    def replace(self, a, b):
        return SStr(tm.app('replace', self.t, sterm(a), sterm(b), sort='O'))

    def encode(self, *a):
        return self

    def startswith(self, p):
        return mkbool(tm.app('startswith', self.t, sterm(p), sort='B'))


def sterm(o):
    if isinstance(o, SStr):
        return o.t
    if isinstance(o, str):
        return tm.strc(o)
    if isinstance(o, SNum):
        return tm.app('str', o.t, sort='O')
    if is_num(o):
        return tm.app('str', lt_(o), sort='O')
    if o is None:
        return tm.strc('None')
    if isinstance(o, bytes):
        return tm.strc(repr(o))
    raise Unsupported('string of %r' % type(o))


def scat(a, b):
    pa, pb = _cat_parts(sterm(a)), _cat_parts(sterm(b))
    return mkcat(pa + pb)


def _cat_parts(t):
    if t.k == 'app' and t.a[0] == 'cat':
        return list(t.a[1])
    return [t]


def mkcat(parts):
    out = []
    for p in parts:
        if p.k == 's' and p.a == '':
            continue
        if out and p.k == 's' and out[-1].k == 's':
            out[-1] = tm.strc(out[-1].a + p.a)
        else:
            out.append(p)
    if not out:
        return ''
    if len(out) == 1:
        return out[0].a if out[0].k == 's' else SStr(out[0])
    return SStr(tm.app('cat', *out, sort='O'))


_PLAIN = re.compile(r'\d*(\.\d+)?[dfFeEgG]').fullmatch


def fmt_value(spec, v, conv=''):
    """format one value; concrete values really are formatted"""
    if isinstance(v, (str, int)) and not isinstance(v, bool):
        if conv == '%':
            return ('%' + spec) % v
        return format(v, spec)
    if isinstance(v, SNum) and E().text_mode:
        return fmt_token(spec, v)
    if isinstance(v, SNum):
        if spec in ('', 's', 'r') or spec in ('d', 'i') and v.kind == 'i':
            return SStr(tm.app('str', v.t, sort='O'))
        if _PLAIN(spec):
            # % and format() agree on these
            conv = ''
        return SStr(tm.app('fmt', tm.strc(conv + spec), v.t, sort='O'))
    if isinstance(v, SStr):
        if spec in ('', 's'):
            return v
        return SStr(tm.app('fmt', tm.strc(conv + spec), v.t, sort='O'))
    if v is None or isinstance(v, (bool, float, tuple)):
        if conv == '%':
            return ('%' + spec) % (v,)
        return format(v, spec) if not isinstance(v, tuple) else str(v)
    return SStr(tm.app('fmt', tm.strc(conv + spec), tm.strc('<%s>' % type(v).__name__), sort='O'))


def fmt_token(spec, v):
    """the text of a number: a token that converts back to the number the text
    shows (rounded where the format rounds)"""
    import re
    m = re.fullmatch(r'(.?[<>^])?([-+ #0]*)(\d+)?(?:\.(\d+))?([a-zA-Z]?)', spec)
    if not m or (m.group(5) and m.group(5) not in 'srdifFgGeE'):
        raise Unsupported('format %r of a symbolic number' % spec)
    align, flags, width, prec, ty = m.groups()
    if ty in ('d', 'i'):
        if v.kind != 'i':
            from . import snp
            v = mknum(snp.trunc_t(v.t), 'i')
    elif ty in ('f', 'F') or (prec and ty not in ('s', 'r')):
        p = int(prec) if prec is not None else 6
        if ty in ('f', 'F'):
            v = SNum(lift(num_round(SNum(v.t, 'f'), p)).t, 'f')
        else:
            v = SNum(tm.app('fmt' + (ty.lower() or 'g') + str(p), v.t, sort='R'), 'f')
    v = lift(v)
    if any('!' in (x.a if isinstance(x.a, str) else x.a[0]) for x in v.t.fv if x.k == 'v'):
        # depends on a bound index: a text that is a function of the number
        if width:
            raise Unsupported('padded text of an element')
        return SStr(tm.app('numtext' + v.kind, v.t, sort='O'))
    k = (v.kind == 'i', v.t.id)
    e = E()
    if v.kind == 'i' and v.t.k == 'c':
        s = str(int(v.t.a))
        e.tokens[k] = s
    s = e.tokens.get(k)
    if s is None:
        s = str(880000 + len(e.tokens)) + ('' if v.kind == 'i' else '.5')
        e.tokens[k] = s
        e.text[s] = v
    a = {'<': str.ljust, '^': str.center}.get((align or '>')[-1], str.rjust)
    if width and not (align and len(align) > 1):
        if not align and '-' in flags:
            a = str.ljust
        s = a(s, int(width))
    return s


def sfmt(kind, template, args):
    import re
    if isinstance(template, SStr):
        return SStr(tm.app('fmt%', template.t, sort='O'))
    if isinstance(args, PDict) or isinstance(args, dict):
        return SStr(tm.app('fmt%', tm.strc(template), sort='O'))
    if not isinstance(args, tuple):
        args = (args,)
    if all(isinstance(a, (str, int, bool)) or a is None for a in args):
        return template % args
    parts, k, pos = [], 0, 0
    for m in re.finditer(r'%(?:%|([-#0 +]*(?:\d*|\*)(?:\.(?:\d+|\*))?)([diouxXeEfFgGcrs]))', template):
        if '%' in template[pos:m.start()]:
            raise Unsupported('format %r' % template)
        parts.append(tm.strc(template[pos:m.start()]))
        pos = m.end()
        if m.group(0) == '%%':
            parts.append(tm.strc('%'))
            continue
        flags = m.group(1)
        while '*' in flags:
            if k >= len(args):
                raise TypeError('not enough arguments for format string')
            if not is_num(args[k]) or lift(args[k]).t.k != 'c' or lift(args[k]).kind != 'i':
                raise Unsupported('symbolic width of a format')
            flags = flags.replace('*', str(int(lift(args[k]).t.a)), 1)
            k += 1
        if k >= len(args):
            raise TypeError('not enough arguments for format string')
        v = args[k]
        k += 1
        spec = flags + m.group(2)
        if spec == 's':
            spec = ''
        if isinstance(v, SArr) or isinstance(v, (PList, PDict)):
            if m.group(2) not in 'rs':
                raise TypeError('bad format')
        if m.group(2) in 'dixXou' and isinstance(v, (SStr, str)):
            raise TypeError('%d format: a number is required')
        parts.extend(_cat_parts(sterm(fmt_value(spec, v, '%' if spec else ''))))
    parts.append(tm.strc(template[pos:]))
    if '%' in template[pos:]:
        raise Unsupported('format %r' % template)
    if k < len(args):
        raise TypeError('not all arguments converted during string formatting')
    return mkcat(parts)


# ------------------------------------------------------------------- arrays
class DT:
    """numpy dtype"""
    def __init__(self, name, kind, bits):
        self.name, self.kind, self.bits = name, kind, bits
        self.type = self
        self.itemsize = bits // 8
        self.char = name

    def __repr__(self):
        return self.name

    def __str__(self):
        return self.name

    def __eq__(self, o):
        from . import snp
        try:
            return snp.as_dtype(o).name == self.name
        except Exception:
            return False

    def __hash__(self):
        return hash(self.name)

    def __call__(self, x=0):
        from . import snp
        return snp.cast_scalar(x, self)


class Buf:
    __slots__ = ('fn', 'shape', 'dtype', 'label', 'writes', 'born', 'frozen')

    def __init__(self, fn, shape, dtype, label=None):
        self.fn, self.shape, self.dtype, self.label = fn, shape, dtype, label
        self.writes = 0
        self.born = eng.tick()
        self.frozen = False


def memo(fn):
    cache = {}

    def g(*idx):
        k = tuple(i.id for i in idx)
        r = cache.get(k)
        if r is None:
            r = fn(*idx)
            cache[k] = r
        return r
    return g


def dim(x):
    """shape entry as a term"""
    if isinstance(x, T):
        return x
    return lift(x).t


def dimval(t):
    return mknum(t, 'i')


def same_dim(a, b):
    if a is b:
        return True
    return bool(E().branch(tm.eq(a, b)))


class SArr:
    """n-dimensional array: a view of a buffer (index terms -> element term)"""
    __array_priority__ = 2000
    masked = False

    def __init__(self, buf, view=None, shape=None, dtype=None):
        self.buf = buf
        if view is None:
            view = tuple(('dim', k, ZERO, 1) for k in range(len(buf.shape)))
            shape = buf.shape
        self.view = view
        self._shape = tuple(shape)
        self.orig = None       # for ravelled arrays: the n-d original
        self.cplx = False

    # ------------------------------------------------------------ basics
    @staticmethod
    def new(fn, shape, dtype, label=None):
        return SArr(Buf(memo(fn), tuple(dim(s) for s in shape), dtype, label))

    @property
    def dtype(self):
        return self.buf.dtype

    @property
    def shape(self):
        return tuple(dimval(s) for s in self._shape)

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        return dimval(tm.mul(*self._shape) if self._shape else ONE)

    def base_index(self, idx):
        out = []
        for v in self.view:
            if v[0] == 'fix':
                out.append(v[1])
            else:
                _, k, start, step = v
                x = idx[k]
                if step != 1:
                    x = tm.scale(x, step)
                out.append(tm.add(start, x) if start is not ZERO else x)
        return out

    def at(self, *idx):
        return self.buf.fn(*self.base_index(idx))

    def snap(self):
        """the current contents as an immutable function of the indices"""
        fn, view = self.buf.fn, self.view
        me = SArr(Buf(fn, self.buf.shape, self.buf.dtype), view, self._shape)
        return me.at

    def copy_(self, dtype=None, fn=None):
        f = fn or self.snap()
        r = SArr.new(f, self._shape, dtype or self.dtype)
        r.orig = self.orig if fn is None else None
        return r

    def __repr__(self):
        return 'SArr(shape=%s, %s, %s)' % ([tm.show(s) for s in self._shape], self.dtype, self.buf.label)

    def __len__(self):
        s = self._shape[0]
        if s.k == 'c':
            return int(s.a)
        raise Unsupported('len of symbolic array used concretely')

    def __bool__(self):
        if self.ndim == 0 or all(s.k == 'c' and s.a == 1 for s in self._shape):
            x = self.at(*([ZERO] * self.ndim))
            return E().branch(x if x.sort == 'B' else tm.ne(x, ZERO))
        if any(s.k == 'c' and s.a == 0 for s in self._shape):
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    def __iter__(self):
        n = self._shape[0]
        if n.k == 'c':
            return iter([self[i] for i in range(int(n.a))])
        raise Unsupported('iteration over symbolic array')

    def __hash__(self):
        raise TypeError('unhashable type: numpy.ndarray')

    # ---------------------------------------------------------- indexing
    def _norm_index(self, i, n):
        """integer index with Python's negative indices; IndexError paths"""
        t = lift(i).t
        if not t.isint:
            raise IndexError('only integers, slices are valid indices')
        e = E()
        if t.k == 'c' and t.a < 0:
            t = tm.add(n, t)
        elif t.k != 'c':
            if e.branch(tm.lt(t, ZERO)):
                t = tm.add(n, t)
        if not e.branch(tm.land(tm.le(ZERO, t), tm.lt(t, n))):
            raise IndexError('index out of bounds')
        return t

    def _parse(self, key):
        """-> list of ('fix', t) | ('rng', start, len, step) | ('new',) per dim"""
        if not isinstance(key, tuple):
            key = (key,)
        n_real = sum(1 for k in key if k is not None and k is not Ellipsis)
        out = []
        d = 0
        if Ellipsis in [k for k in key if k is None or k is Ellipsis]:
            i = [j for j, k in enumerate(key) if k is Ellipsis][0]
            key = key[:i] + (slice(None),) * (self.ndim - n_real) + key[i + 1:]
            key = tuple(k for k in key if k is not Ellipsis)
        else:
            key = key + (slice(None),) * (self.ndim - n_real)
        if sum(1 for k in key if k is not None) > self.ndim:
            raise IndexError('too many indices for array')
        for k in key:
            if k is None:
                out.append(('new',))
                continue
            n = self._shape[d]
            d += 1
            if isinstance(k, SArr) and k.ndim == 0:
                k = mknum(k.at(), 'i')
            if isinstance(k, (slice, SSlice)):
                start, ln, step = norm_slice(k, n)
                out.append(('rng', start, ln, step))
            elif is_num(k) and not isinstance(k, (bool, SBool)):
                out.append(('fix', self._norm_index(k, n)))
            else:
                raise Unsupported('index of type %s' % type(k).__name__)
        return out

    def _subview(self, spec):
        """apply parsed spec to this view"""
        shape, m, d, k = [], {}, 0, 0
        for s in spec:
            if s[0] == 'new':
                shape.append(ONE)
                k += 1
                continue
            if s[0] == 'fix':
                m[d] = ('fix', s[1])
            else:
                m[d] = ('rng', k, s[1], s[3])
                shape.append(s[2])
                k += 1
            d += 1
        view = []
        for v in self.view:
            if v[0] == 'fix':
                view.append(v)
                continue
            _, dd, start, step = v
            w = m[dd]
            if w[0] == 'fix':
                view.append(('fix', tm.add(start, tm.scale(w[1], step))))
            else:
                _, kk, st, sp = w
                view.append(('dim', kk, tm.add(start, tm.scale(st, step)), step * sp))
        return tuple(view), tuple(shape)

    def _is_fancy(self, key):
        ks = key if isinstance(key, tuple) else (key,)
        return any(isinstance(k, (PList, list)) or (isinstance(k, SArr) and k.ndim > 0) for k in ks)

    def __getitem__(self, key):
        if self.cplx:
            raise Unsupported('complex indexing')
        if self._is_fancy(key):
            from . import snp
            return snp.fancy_get(self, key)
        spec = self._parse(key)
        view, shape = self._subview(spec)
        if not shape and all(s[0] == 'fix' for s in spec):
            r = SArr(self.buf, view, ())
            return self._scalar(r.at())
        r = self._mk(view, shape)
        return r

    def _mk(self, view, shape):
        return SArr(self.buf, view, shape)

    def _scalar(self, t):
        if t.sort == 'B':
            return mkbool(t)
        if t.sort == 'O':
            return SStr(t)
        return mknum_np(t, 'i' if self.dtype.kind in 'iub' else 'f')

    def __setitem__(self, key, val):
        if self._is_fancy(key):
            from . import snp
            return snp.fancy_set(self, key, val)
        spec = self._parse(key)
        view, shape = self._subview(spec)
        tgt = SArr(self.buf, view, shape)
        tgt.assign(val)

    def assign(self, val):
        """write val (broadcast) into this view of the buffer"""
        from . import snp
        if getattr(val, 'cplx', False) or isinstance(val, snp.CArr):
            raise Unsupported('complex assignment')
        shape = self._shape
        if isinstance(val, SArr):
            vf, vs = val.snap(), val._shape
        elif is_num(val):
            t = lift(val).t if not isinstance(val, (SBool, bool)) else bterm(val)
            if isinstance(val, (SBool, bool)) and self.dtype.kind != 'b':
                t = tm.ind(t)
            vf, vs = (lambda *i, t=t: t), ()
        elif isinstance(val, SNaN):
            t = NANT
            vf, vs = (lambda *i, t=t: t), ()
        elif isinstance(val, (PList, list, tuple)):
            a = snp.array(val)
            vf, vs = a.snap(), a._shape
        else:
            raise Unsupported('assignment of %s' % type(val).__name__)
        # drop leading ones, broadcast
        while len(vs) > len(shape):
            if not same_dim(vs[0], ONE):
                raise ValueError('could not broadcast input array')
            vf, vs = (lambda *i, f=vf: f(ZERO, *i)), vs[1:]
        off = len(shape) - len(vs)
        sel = []
        for k, s in enumerate(vs):
            if s is ONE and shape[off + k] is not ONE:
                sel.append(None)
            else:
                if not same_dim(s, shape[off + k]):
                    raise ValueError('could not broadcast input array from shape')
                sel.append(off + k)
        src = val.dtype if isinstance(val, SArr) else (snp.float64 if is_num(val) and lift(val).kind == 'f' else snp.int64)
        conv = snp.caster(src, self.dtype, implicit=True)

        def at_view(*i):
            return conv(vf(*[ZERO if s is None else i[s] for s in sel]))
        old = self.buf.fn
        view = self.view
        full = all(v[0] == 'dim' and v[2] is ZERO and v[3] == 1 for v in view) and \
            all(self._shape[v[1]] is self.buf.shape[j] for j, v in enumerate(view))

        def newfn(*b):
            cond = []
            idx = [None] * len(shape)
            for j, v in enumerate(view):
                if v[0] == 'fix':
                    cond.append(tm.eq(b[j], v[1]))
                    continue
                _, k, start, step = v
                d = tm.sub(b[j], start)
                if step == 1:
                    x = d
                elif step == -1:
                    x = tm.neg(d)
                else:
                    raise Unsupported('strided write')
                idx[k] = x
                if not full:
                    if not (start is ZERO and step == 1):
                        cond.append(tm.le(ZERO, x))
                    if shape[k] is not self.buf.shape[j]:
                        cond.append(tm.lt(x, shape[k]))
            for k in range(len(idx)):
                if idx[k] is None:
                    idx[k] = ZERO
            new = at_view(*idx)
            if not cond:
                return new
            return tm.ite(tm.land(*cond), new, old(*b))
        self._write(memo(newfn))

    def _write(self, fn):
        buf = self.buf
        if buf.frozen:
            raise Unsupported('write to an element of a symbolic container')
        old = buf.fn
        e = E()
        buf.fn = fn
        buf.writes += 1
        touched(buf)

        def undo():
            buf.fn = old
            buf.writes -= 1
        e.log(undo, buf.born)

    # --------------------------------------------------------- arithmetic
    def _op(self, o, name, rev=False):
        from . import snp
        return snp.binop(name, o, self) if rev else snp.binop(name, self, o)

    def __add__(self, o):
        return self._op(o, 'add')

    def __radd__(self, o):
        return self._op(o, 'add', True)

    def __sub__(self, o):
        return self._op(o, 'sub')

    def __rsub__(self, o):
        return self._op(o, 'sub', True)

    def __mul__(self, o):
        return self._op(o, 'mul')

    def __rmul__(self, o):
        return self._op(o, 'mul', True)

    def __truediv__(self, o):
        return self._op(o, 'div')

    def __rtruediv__(self, o):
        return self._op(o, 'div', True)

    def __floordiv__(self, o):
        return self._op(o, 'fdiv')

    def __rfloordiv__(self, o):
        return self._op(o, 'fdiv', True)

    def __mod__(self, o):
        return self._op(o, 'mod')

    def __pow__(self, o):
        return self._op(o, 'pow')

    def __rpow__(self, o):
        return self._op(o, 'pow', True)

    def __lt__(self, o):
        return self._op(o, 'lt')

    def __le__(self, o):
        return self._op(o, 'le')

    def __gt__(self, o):
        return self._op(o, 'gt')

    def __ge__(self, o):
        return self._op(o, 'ge')

    def __eq__(self, o):
        return self._op(o, 'eq')

    def __ne__(self, o):
        return self._op(o, 'ne')

    def __and__(self, o):
        return self._op(o, 'and')
    __rand__ = __and__

    def __or__(self, o):
        return self._op(o, 'or')
    __ror__ = __or__

    def __neg__(self):
        from . import snp
        return snp.unop('neg', self)

    def __abs__(self):
        from . import snp
        return snp.unop('abs', self)

    def __invert__(self):
        from . import snp
        return snp.unop('not', self)

    def inplace(self, name, o):
        from . import snp
        r = snp.binop(name, self, o)
        if isinstance(r, snp.CArr):
            raise Unsupported('complex in place')
        if r.dtype.kind == 'f' and self.dtype.kind in 'iu':
            raise TypeError('Cannot cast ufunc output from float64 to int64 with casting rule same_kind')
        if len(r._shape) != len(self._shape):
            raise ValueError('non-broadcastable output operand')
        self.assign(r)
        return self

    def __iadd__(self, o):
        return self.inplace('add', o)

    def __isub__(self, o):
        return self.inplace('sub', o)

    def __imul__(self, o):
        return self.inplace('mul', o)

    def __itruediv__(self, o):
        return self.inplace('div', o)

    def __ifloordiv__(self, o):
        return self.inplace('fdiv', o)

    def __ipow__(self, o):
        return self.inplace('pow', o)

    # ------------------------------------------------------------ methods
    def __getattr__(self, name):
        if name.startswith('__') or name in ('orig', 'buf', 'view', '_shape', 'cplx'):
            raise AttributeError(name)
        from . import snp
        f = snp.METHODS.get(name)
        if f is None:
            raise Unsupported('ndarray.%s' % name)
        return lambda *a, **k: f(self, *a, **k)

    @property
    def T(self):
        return self.transpose()

    @property
    def flat(self):
        from . import snp
        return snp.ravel(self)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        from . import snp
        return snp.zeros_like(self)


NANT = tm.var('NaN', 'R')


def mknum_np(t, kind):
    """numpy scalars keep being symbolic objects even when constant (they have
    methods such as astype)"""
    return SNum(t, kind)


TOUCH = []


def touched(obj):
    for s in TOUCH:
        s[id(obj)] = obj


class SSlice:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


def norm_slice(s, n):
    """(start, length, step) of slice s on a dimension of size n"""
    step = s.step
    if step is None:
        step = 1
    st = lift(step).t
    if st.k != 'c':
        raise Unsupported('symbolic slice step')
    step = int(st.a)
    e = E()

    def clip(x, default, lo, hi):
        if x is None:
            return default
        t = lift(x).t
        if not t.isint:
            raise TypeError('slice indices must be integers')
        if t.k == 'c':
            if t.a < 0:
                t = tm.add(n, t)
        else:
            d = e.decide(tm.lt(t, ZERO))
            if d is True:
                t = tm.add(n, t)
            elif d is None:
                if e.branch(tm.lt(t, ZERO)):
                    t = tm.add(n, t)
        t = simp_ite(tm.lt(t, lo), lo, t)
        t = simp_ite(tm.lt(hi, t), hi, t)
        return t
    if step > 0:
        a = clip(s.start, ZERO, ZERO, n)
        b = clip(s.stop, n, ZERO, n)
        ln = tm.sub(b, a)
        if step > 1:
            ln = tm.floor(tm.div(tm.add(ln, tm.const(step - 1)), tm.const(step)))
        ln = simp_ite(tm.lt(ln, ZERO), ZERO, ln)
        return a, ln, step
    m1 = tm.const(-1)
    nm = tm.sub(n, ONE)
    a = clip(s.start, nm, m1, nm)
    b = clip(s.stop, m1, m1, nm)
    ln = tm.sub(a, b)
    if step < -1:
        ln = tm.floor(tm.div(tm.add(ln, tm.const(-step - 1)), tm.const(-step)))
    ln = simp_ite(tm.lt(ln, ZERO), ZERO, ln)
    return a, ln, step


# -------------------------------------------------------------- containers
class Seg:
    """a piece of a sequence: n elements fn(0..n-1)"""
    __slots__ = ('n', 'fn', 'items', 'cond')

    def __init__(self, n, fn, items=None):
        self.n, self.fn, self.items = n, fn, items


class FlatSeg:
    """concatenation over i<m of sequences seq(i) (lists of segments)"""
    __slots__ = ('m', 'seq')

    def __init__(self, m, seq):
        self.m, self.seq = m, seq


class OptSeg:
    """elements present only when a condition holds (conditional append)"""
    __slots__ = ('m', 'cond', 'fn')

    def __init__(self, m, cond, fn):
        self.m, self.cond, self.fn = m, cond, fn


def items_seg(items):
    items = list(items)

    def fn(i):
        if i.k == 'c':
            return items[int(i.a)]
        r = items[-1]
        for k in range(len(items) - 2, -1, -1):
            r = vmerge(tm.eq(i, tm.const(k)), items[k], r)
        return r
    return Seg(tm.const(len(items)), fn, items)


class PList:
    """list: a cell holding a sequence of segments"""

    def __init__(self, items=(), segs=None):
        self.segs = segs if segs is not None else ([items_seg(items)] if len(items) else [])
        self.born = eng.tick()

    # -- helpers
    frozen = False

    def _set(self, segs):
        if self.frozen:
            raise Unsupported('mutation of an element of a symbolic container')
        old = self.segs
        self.segs = segs
        touched(self)

        def undo():
            self.segs = old
        E().log(undo, self.born) if E() is not None else None

    def concrete(self):
        """python list of the items, or None"""
        out = []
        for s in self.segs:
            if isinstance(s, Seg) and s.items is not None:
                out.extend(s.items)
            elif isinstance(s, Seg) and s.n.k == 'c':
                out.extend(s.fn(tm.const(i)) for i in range(int(s.n.a)))
            else:
                return None
        return out

    def length(self):
        return seglen(self.segs)

    def __len__(self):
        c = self.length()
        if c.k == 'c':
            return int(c.a)
        raise Unsupported('len of a symbolic list used concretely')

    def __bool__(self):
        return E().branch(tm.ne(self.length(), ZERO))

    def get(self, t):
        return seqget(self.segs, t)

    def __getitem__(self, i):
        if isinstance(i, (slice, SSlice)):
            c = self.concrete()
            if c is not None and all(x is None or (is_num(x) and lift(x).t.k == 'c') for x in (i.start, i.stop, i.step)):
                f = lambda x: None if x is None else int(lift(x).t.a)
                return PList(c[f(i.start):f(i.stop):f(i.step)])
            n = self.length()
            st, ln, step = norm_slice(i, n)
            segs = self.segs
            return PList(segs=[Seg(ln, lambda k: seqget(segs, tm.add(st, tm.scale(k, step))))])
        if isinstance(i, (PList, SArr)) or not is_num(i):
            raise TypeError('list indices must be integers or slices')
        t = lift(i).t
        if not t.isint:
            raise TypeError('list indices must be integers')
        n = self.length()
        e = E()
        if t.k == 'c' and t.a < 0:
            t = tm.add(n, t)
        elif t.k != 'c' and e.branch(tm.lt(t, ZERO)):
            t = tm.add(n, t)
        if not e.branch(tm.land(tm.le(ZERO, t), tm.lt(t, n))):
            raise IndexError('list index out of range')
        return self.get(t)

    def __setitem__(self, i, v):
        c = self.concrete()
        if c is None or not isinstance(i, int):
            raise Unsupported('assignment into a symbolic list')
        c = list(c)
        c[i] = v
        self._set([items_seg(c)])

    def append(self, v):
        segs = list(self.segs)
        if segs and isinstance(segs[-1], Seg) and segs[-1].items is not None:
            segs[-1] = items_seg(segs[-1].items + [v])
        else:
            segs.append(items_seg([v]))
        self._set(segs)

    def extend(self, it):
        o = as_segs(it)
        self._set(self.segs + o)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        return PList(segs=self.segs + as_segs(o))

    def __radd__(self, o):
        return PList(segs=as_segs(o) + self.segs)

    def __mul__(self, k):
        c = self.concrete()
        if isinstance(k, SNum):
            if c is not None and len(c) == 1:
                return PList(segs=[Seg(k.t, lambda i: c[0])])
            raise Unsupported('symbolic list repetition')
        return PList(segs=self.segs * k)
    __rmul__ = __mul__

    def pop(self, i=-1):
        c = self.concrete()
        if c is not None:
            if not c:
                raise IndexError('pop from empty list')
            c = list(c)
            v = c.pop(int(lift(i).t.a))
            self._set([items_seg(c)] if c else [])
            return v
        n = self.length()
        if not E().branch(tm.lt(ZERO, n)):
            raise IndexError('pop from empty list')
        segs = self.segs
        if i == -1:
            v = seqget(segs, tm.sub(n, ONE))
            self._set([Seg(tm.sub(n, ONE), lambda k: seqget(segs, k))])
            return v
        if i == 0:
            v = seqget(segs, ZERO)
            self._set([Seg(tm.sub(n, ONE), lambda k: seqget(segs, tm.add(k, ONE)))])
            return v
        raise Unsupported('pop at an index')

    def insert(self, i, v):
        c = self.concrete()
        if c is None:
            if i == 0:
                self._set([items_seg([v])] + self.segs)
                return
            raise Unsupported('insert into a symbolic list')
        c = list(c)
        c.insert(i, v)
        self._set([items_seg(c)])

    def clear(self):
        self._set([])

    def reverse(self):
        c = self.concrete()
        if c is not None:
            self._set([items_seg(c[::-1])] if c else [])
            return
        n, segs = self.length(), self.segs
        self._set([Seg(n, lambda k: seqget(segs, tm.sub(tm.sub(n, ONE), k)))])

    def sort(self, **kw):
        from . import shims
        self._set(shims.sorted_(self, **kw).segs)

    def copy(self):
        return PList(segs=list(self.segs))

    def count(self, v):
        c = self.concrete()
        if c is None:
            raise Unsupported('count on a symbolic list')
        return sum(1 for x in c if bool(x == v))

    def index(self, v):
        c = self.concrete()
        if c is None:
            raise Unsupported('index on a symbolic list')
        for k, x in enumerate(c):
            if x == v:
                return k
        raise ValueError('not in list')

    def remove(self, v):
        c = self.concrete()
        if c is None:
            raise Unsupported('remove on a symbolic list')
        k = self.index(v)
        c = list(c)
        del c[k]
        self._set([items_seg(c)] if c else [])

    def __iter__(self):
        c = self.concrete()
        if c is None:
            raise Unsupported('iteration over a symbolic list')
        return iter(list(c))

    def __contains__(self, v):
        return bool(seq_contains(self.segs, v))

    def __eq__(self, o):
        if not isinstance(o, (PList, list)):
            return False
        a, b = self.concrete(), (o.concrete() if isinstance(o, PList) else o)
        if a is None or b is None:
            raise Unsupported('comparison of symbolic lists')
        return len(a) == len(b) and all(bool(x == y) for x, y in zip(a, b))

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None

    def __repr__(self):
        c = self.concrete()
        return 'PList(%r)' % (c if c is not None else self.segs,)


class PTuple:
    pass


def seglen1(s):
    if isinstance(s, Seg):
        return s.n
    if isinstance(s, FlatSeg):
        v = tm.fresh_ivar()
        return tm.mk_sum(v, s.m, seglen(s.seq(v)))
    if isinstance(s, OptSeg):
        v = tm.fresh_ivar()
        return tm.mk_sum(v, s.m, tm.ind(s.cond(v)))
    raise AssertionError


def flat_position(s, rel):
    """(outer, inner) when rel is  sum of the first T lengths + p  literally"""
    v = tm.fresh_ivar()
    ln = seglen(s.seq(v))
    e = E()
    if v not in ln.fv:
        if ln.k == 'c' and ln.a == 1:
            return rel, ZERO
        # constant length: T * ln + p
        for mo, c in tm.mons(rel).items():
            pass
        return None
    cands = set()
    for mo in tm.mons(rel):
        for a, _ in mo:
            if a.k == 'sum':
                cands.add(a.a[0])
    cands.add(ZERO)
    for T_ in list(cands):
        for d in (0, 1, -1):
            T1 = tm.add(T_, tm.const(d))
            p = tm.sub(rel, tm.mk_sum(v, T1, ln))
            g = tm.land(tm.le(ZERO, T1), tm.lt(T1, s.m), tm.le(ZERO, p), tm.lt(p, tm.subst(ln, {v: T1})))
            if g is not FALSE and e.entails(g):
                return T1, p
    return None


def seglen(segs):
    return tm.add(ZERO, *[seglen1(s) for s in segs])


def seqget(segs, t):
    """element at index term t (assumed in range)"""
    e = E()
    off = ZERO
    for k, s in enumerate(segs):
        n = seglen1(s)
        rel = tm.sub(t, off) if off is not ZERO else t
        last = k == len(segs) - 1
        if last or e.branch(tm.lt(rel, n)):
            if isinstance(s, Seg):
                if s.items is not None:
                    if rel.k == 'c':
                        return s.items[int(rel.a)]
                    if len(s.items) == 1:
                        return s.items[0]
                return s.fn(rel)
            if isinstance(s, FlatSeg):
                hit = flat_position(s, rel)
                if hit is not None:
                    return seqget(s.seq(hit[0]), hit[1])
                # (outer, inner) position of rel: skolem functions
                i = e.fresh('seg', 'I')
                j = e.fresh('pos', 'I')
                v = tm.fresh_ivar()
                inner = s.seq(i)
                e.assume(tm.land(tm.le(ZERO, i), tm.lt(i, s.m), tm.le(ZERO, j), tm.lt(j, seglen(inner)),
                                 tm.eq(rel, tm.add(tm.mk_sum(v, i, seglen(s.seq(v))), j))))
                return seqget(inner, j)
            i = e.fresh('opt', 'I')
            v = tm.fresh_ivar()
            e.assume(tm.land(tm.le(ZERO, i), tm.lt(i, s.m), s.cond(i),
                             tm.eq(rel, tm.mk_sum(v, i, tm.ind(s.cond(v))))))
            return s.fn(i)
        off = tm.add(off, n)
    raise IndexError('empty sequence')


def as_segs(it):
    if isinstance(it, PList):
        return list(it.segs)
    s = sym_iter(it)
    if s is None:
        l = list(it)
        return [items_seg(l)] if l else []
    n, fn = s
    return [Seg(n, fn)]


def seq_contains(segs, v):
    """boolean term/SBool: v among the elements"""
    cond = []
    for s in segs:
        if isinstance(s, Seg) and s.items is not None:
            for x in s.items:
                cond.append(eq_term(x, v))
        elif isinstance(s, Seg):
            k = tm.fresh_ivar()
            u = unify_index(s, v)
            if u is not None and E().entails(tm.land(tm.le(ZERO, u), tm.lt(u, s.n))):
                return True
            cond.append(tm.exists_range(k, ZERO, s.n, eq_term(s.fn(k), v)))
        else:
            raise Unsupported('membership in nested sequence')
    return mkbool(tm.lor(*cond))


def unify_index(seg, v):
    """index term i with seg.fn(i) == v syntactically, or None"""
    tv = vterm(v)
    if tv is None:
        return None
    k = tm.var('?u', 'I')
    try:
        pat = vterm(seg.fn(k))
    except Exception:
        return None
    if pat is None:
        return None
    r = match(pat, tv, k)
    return r


def match(pat, t, k):
    if pat is k:
        return t if t.sort == 'N' and t.isint else None
    if k not in pat.fv:
        return None
    if pat.k == 'app' and t.k == 'app' and pat.a[0] == t.a[0] and len(pat.a[1]) == len(t.a[1]):
        r = None
        for p, x in zip(pat.a[1], t.a[1]):
            if k in p.fv:
                m = match(p, x, k)
                if m is None or (r is not None and r is not m):
                    return None
                r = m
            elif p is not x:
                return None
        return r
    if pat.sort == 'N':
        l = tm.lin_in(pat, k)
        if l is not None and abs(l[0]) == 1 and t.sort == 'N':
            return tm.scale(tm.sub(t, l[1]), l[0])
        # affine in a single application
        for mo, c in tm.mons(pat).items():
            if len(mo) == 1 and k in mo[0][0].fv and mo[0][1] == 1 and mo[0][0].k == 'app':
                rest = tm.sub(pat, tm.from_mons({mo: c}))
                if k in rest.fv or (rest is ZERO and c == 1):
                    return None
                return match(mo[0][0], tm.scale(tm.sub(t, rest), 1 / c), k)
    return None


def vterm(v):
    """term of an atomic value"""
    if isinstance(v, SNum):
        return v.t
    if isinstance(v, bool):
        return None
    if isinstance(v, (int, float, Fraction)):
        return lift(v).t
    if isinstance(v, (SStr, str)):
        return sterm(v)
    return None


def eq_term(a, b):
    """a == b as a boolean term (atomic values)"""
    if a is b:
        return TRUE
    ta, tb = vterm(a), vterm(b)
    if ta is not None and tb is not None:
        if ta.sort != tb.sort:
            return FALSE
        return tm.eq(ta, tb)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return FALSE
        return tm.land(*[eq_term(x, y) for x, y in zip(a, b)])
    r = (a == b)
    return bterm(r)


class Fam:
    """a family of dictionary entries keyfn(i) -> valfn(i), i<n, distinct keys"""
    __slots__ = ('n', 'key', 'val', 'cond')

    def __init__(self, n, key, val, cond=None):
        self.n, self.key, self.val, self.cond = n, key, val, cond


class PDict:
    """dict: insertion-ordered entries; each a concrete (key, value) pair or a
    family of entries"""
    ordered = False

    frozen = False

    def __init__(self, entries=()):
        self.ent = list(entries)
        self.born = eng.tick()

    @staticmethod
    def of(pairs):
        d = PDict()
        for k, v in pairs:
            d[k] = v
        return d

    def _set(self, ent):
        if self.frozen:
            raise Unsupported('mutation of an element of a symbolic container')
        old = self.ent
        self.ent = ent
        touched(self)

        def undo():
            self.ent = old
        if E() is not None:
            E().log(undo, self.born)

    def is_concrete(self):
        return not any(isinstance(e, Fam) for e in self.ent)

    def length(self):
        out = []
        for e in self.ent:
            if isinstance(e, Fam):
                if e.cond is None:
                    out.append(e.n)
                else:
                    v = tm.fresh_ivar()
                    out.append(tm.mk_sum(v, e.n, tm.ind(e.cond(v))))
            else:
                out.append(ONE)
        return tm.add(ZERO, *out)

    def __len__(self):
        n = self.length()
        if n.k == 'c':
            return int(n.a)
        raise Unsupported('len of a symbolic dict used concretely')

    def __bool__(self):
        return E().branch(tm.ne(self.length(), ZERO))

    def find(self, k):
        """('ent', pos) | ('fam', pos, index term) | None; forks"""
        try:
            hash(k)
        except TypeError:
            raise TypeError('unhashable type')
        # exact hits first
        for p, e in enumerate(self.ent):
            if not isinstance(e, Fam):
                ek = e[0]
                if ek is k or (type(ek) is type(k) and isinstance(k, (str, int)) and ek == k):
                    return ('ent', p)
                if isinstance(ek, SNum) and isinstance(k, SNum) and ek.t is k.t:
                    return ('ent', p)
        for p, e in enumerate(self.ent):
            if isinstance(e, Fam):
                u = unify_index(Seg(e.n, e.key), k)
                if u is not None:
                    g = tm.land(tm.le(ZERO, u), tm.lt(u, e.n), e.cond(u) if e.cond else TRUE)
                    if E().entails(g):
                        return ('fam', p, u)
        for p, e in enumerate(self.ent):
            if not isinstance(e, Fam):
                c = eq_term(e[0], k)
                if c is FALSE:
                    continue
                if E().branch(c):
                    return ('ent', p)
            else:
                i = tm.fresh_ivar()
                c = eq_term(e.key(i), k)
                if c is FALSE:
                    continue
                if e.cond is not None:
                    c = tm.land(c, e.cond(i))
                ex = tm.exists_range(i, ZERO, e.n, c)
                if E().branch(ex):
                    w = E().fresh('at', 'I')
                    E().assume(tm.land(tm.le(ZERO, w), tm.lt(w, e.n), tm.subst(c, {i: w})))
                    return ('fam', p, w)
        return None

    def __contains__(self, k):
        return self.find(k) is not None

    def __getitem__(self, k):
        f = self.find(k)
        if f is None:
            raise KeyError(k)
        e = self.ent[f[1]]
        return e[1] if f[0] == 'ent' else e.val(f[2])

    def get(self, k, d=None):
        f = self.find(k)
        if f is None:
            return d
        e = self.ent[f[1]]
        return e[1] if f[0] == 'ent' else e.val(f[2])

    def __setitem__(self, k, v):
        f = self.find(k)
        ent = list(self.ent)
        if f is None:
            ent.append((k, v))
        elif f[0] == 'ent':
            ent[f[1]] = (ent[f[1]][0], v)
        else:
            fam = ent[f[1]]
            u = f[2]
            old = fam.val
            ent[f[1]] = Fam(fam.n, fam.key, lambda i: vmerge(tm.eq(i, u), v, old(i)), fam.cond)
        self._set(ent)

    def setdefault(self, k, d=None):
        f = self.find(k)
        if f is None:
            ent = list(self.ent)
            ent.append((k, d))
            self._set(ent)
            return d
        e = self.ent[f[1]]
        return e[1] if f[0] == 'ent' else e.val(f[2])

    def __delitem__(self, k):
        f = self.find(k)
        if f is None:
            raise KeyError(k)
        if f[0] != 'ent':
            raise Unsupported('deletion from a symbolic dict')
        ent = list(self.ent)
        del ent[f[1]]
        self._set(ent)

    def pop(self, k, *d):
        f = self.find(k)
        if f is None:
            if d:
                return d[0]
            raise KeyError(k)
        if f[0] != 'ent':
            raise Unsupported('pop from a symbolic dict')
        v = self.ent[f[1]][1]
        del_ = list(self.ent)
        del del_[f[1]]
        self._set(del_)
        return v

    def update(self, o=(), **kw):
        if isinstance(o, PDict):
            for e in o.ent:
                if isinstance(e, Fam):
                    if self.ent:
                        raise Unsupported('update with a symbolic dict')
                    self._set(list(self.ent) + [e])
                else:
                    self[e[0]] = e[1]
        else:
            if hasattr(o, 'items'):
                o = o.items()
            for k, v in o:
                self[k] = v
        for k, v in kw.items():
            self[k] = v

    def copy(self):
        d = type(self)()
        d.ent = list(self.ent)
        return d

    def _segs(self, what):
        """segments of the keys, values or items (values only when needed)"""
        g = {'keys': lambda e, i: e.key(i), 'values': lambda e, i: e.val(i),
             'items': lambda e, i: (e.key(i), e.val(i))}[what]
        c = {'keys': lambda e: e[0], 'values': lambda e: e[1], 'items': lambda e: (e[0], e[1])}[what]
        out = []
        for e in self.ent:
            if isinstance(e, Fam):
                if e.cond is not None:
                    out.append(OptSeg(e.n, e.cond, lambda i, e=e: g(e, i)))
                else:
                    out.append(Seg(e.n, lambda i, e=e: g(e, i)))
            else:
                if out and isinstance(out[-1], Seg) and out[-1].items is not None:
                    out[-1] = items_seg(out[-1].items + [c(e)])
                else:
                    out.append(items_seg([c(e)]))
        return out

    def keys(self):
        return PView(self, self._segs('keys'), 'keys')

    def values(self):
        return PView(self, self._segs('values'), 'values')

    def items(self):
        return PView(self, self._segs('items'), 'items')

    def __iter__(self):
        return iter(self.keys())

    def __eq__(self, o):
        raise Unsupported('comparison of dicts')
    __hash__ = None

    def __or__(self, o):
        d = self.copy()
        d.update(o)
        return d

    def __repr__(self):
        return 'PDict(%r)' % (self.ent,)


class PView(PList):
    """keys()/values()/items() of a dict"""
    def __init__(self, d, segs, kind):
        PList.__init__(self, segs=segs)
        self.d, self.kind = d, kind

    def __contains__(self, v):
        if self.kind == 'keys':
            return v in self.d
        return PList.__contains__(self, v)

    def __and__(self, o):
        return PSet.of(self) & PSet.of(o)

    def __or__(self, o):
        return PSet.of(self) | PSet.of(o)

    def __xor__(self, o):
        return PSet.of(self) ^ PSet.of(o)

    def __sub__(self, o):
        return PSet.of(self) - PSet.of(o)


class PSet:
    """set: elements without duplicates are the distinct values of segs"""

    frozen = False

    def __init__(self, segs=()):
        self.segs = list(segs)
        self.born = eng.tick()

    @staticmethod
    def of(it):
        s = PSet()
        if isinstance(it, PSet):
            s.segs = list(it.segs)
            return s
        distinct = isinstance(it, PView) and it.kind == 'keys'
        segs = as_segs(it)
        if distinct:
            s.segs = segs
            return s
        for g in segs:
            if isinstance(g, Seg) and g.items is not None:
                for x in g.items:
                    s.add(x)
            else:
                if s.segs or len(segs) > 1:
                    raise Unsupported('set of a symbolic sequence')
                s.segs = [g]
                s.dups = True
        return s
    dups = False

    def _set(self, segs):
        if self.frozen:
            raise Unsupported('mutation of an element of a symbolic container')
        old = self.segs
        self.segs = segs
        touched(self)

        def undo():
            self.segs = old
        if E() is not None:
            E().log(undo, self.born)

    def concrete(self):
        if self.dups:
            return None
        return PList(segs=self.segs).concrete()

    def add(self, v):
        hash(v)
        if not isinstance(self, PSet):
            raise TypeError
        if bool(seq_contains(self.segs, v)):
            return
        segs = list(self.segs)
        if segs and segs[-1].items is not None:
            segs[-1] = items_seg(segs[-1].items + [v])
        else:
            segs.append(items_seg([v]))
        self._set(segs)

    def update(self, it):
        for x in it:
            self.add(x)

    def discard(self, v):
        c = self.concrete()
        if c is None:
            raise Unsupported('discard')
        self._set([items_seg([x for x in c if not bool(mkbool(eq_term(x, v)))])])

    def length(self):
        if self.dups:
            s = self.segs[0]
            v = tm.fresh_ivar()
            if not isinstance(s, Seg) or type(s.fn(v)) is not SNum:
                raise Unsupported('size of a set of symbolic values')
            from . import snp
            return snp.UniqueArr(snp.new(lambda i: s.fn(i).t, (s.n,), snp.float64)).size_t
        return seglen(self.segs)

    def __len__(self):
        n = self.length()
        if n.k == 'c':
            return int(n.a)
        raise Unsupported('len of a symbolic set')

    def __bool__(self):
        return E().branch(tm.ne(seglen(self.segs), ZERO))

    def __contains__(self, v):
        return bool(seq_contains(self.segs, v))

    def __iter__(self):
        c = self.concrete()
        if c is None:
            raise Unsupported('iteration over a symbolic set')
        return iter(c)

    def pop(self):
        c = self.concrete()
        if c is not None:
            if not c:
                raise KeyError('pop from an empty set')
            self._set([items_seg(c[1:])] if len(c) > 1 else [])
            return c[0]
        n = seglen(self.segs)
        if not E().branch(tm.lt(ZERO, n)):
            raise KeyError('pop from an empty set')
        i = E().fresh('popped', 'I')
        E().assume(tm.land(tm.le(ZERO, i), tm.lt(i, n)))
        v = seqget(self.segs, i)
        self._set([Seg(ONE, lambda k: Poison('set after pop'))])
        return v

    def _two(self, o):
        a, b = self.concrete(), PSet.of(o).concrete()
        if a is None or b is None:
            raise Unsupported('set operation on symbolic sets')
        return a, b

    def __or__(self, o):
        a, b = self._two(o)
        s = PSet()
        for x in a + b:
            s.add(x)
        return s
    union = __or__

    def __and__(self, o):
        a, b = self._two(o)
        s = PSet()
        for x in a:
            if any(bool(mkbool(eq_term(x, y))) for y in b):
                s.add(x)
        return s
    intersection = __and__

    def __sub__(self, o):
        a, b = self._two(o)
        s = PSet()
        for x in a:
            if not any(bool(mkbool(eq_term(x, y))) for y in b):
                s.add(x)
        return s
    difference = __sub__

    def __xor__(self, o):
        return (self - o) | (PSet.of(o) - self)
    symmetric_difference = __xor__

    def __eq__(self, o):
        return not (self ^ PSet.of(o))
    __hash__ = None


class Poison:
    def __init__(self, why):
        self.why = why

    def __getattr__(self, n):
        raise Unsupported('use of an unknown value: ' + self.__dict__.get('why', ''))


# ---------------------------------------------------------------- iterables
class SRange:
    def __init__(self, *a):
        if len(a) == 1:
            a = (0, a[0], 1)
        elif len(a) == 2:
            a = (a[0], a[1], 1)
        st = [lift(x) for x in a]
        if any(x.kind != 'i' for x in st):
            raise TypeError("'float' object cannot be interpreted as an integer")
        self.start, self.stop = st[0].t, st[1].t
        if st[2].t.k != 'c':
            raise Unsupported('symbolic range step')
        self.step = int(st[2].t.a)
        n = tm.sub(self.stop, self.start)
        if self.step < 0:
            n = tm.neg(n)
        s = abs(self.step)
        if s != 1:
            n = tm.floor(tm.div(tm.add(n, tm.const(s - 1)), tm.const(s)))
        self.n = simp_ite(tm.lt(n, ZERO), ZERO, n)

    def elem(self, i):
        return mknum(tm.add(self.start, tm.scale(i, self.step)), 'i')

    def length(self):
        return self.n

    def __iter__(self):
        if self.n.k == 'c':
            return iter([self.elem(tm.const(i)) for i in range(int(self.n.a))])
        raise Unsupported('iteration over a symbolic range')

    def __len__(self):
        if self.n.k == 'c':
            return int(self.n.a)
        raise Unsupported('len of a symbolic range')

    def __contains__(self, v):
        t = lift(v).t
        if abs(self.step) != 1:
            raise Unsupported('membership in a strided range')
        return bool(mkbool(tm.land(tm.le(self.start, t), tm.lt(t, self.stop))))

    def __getitem__(self, i):
        return PList(segs=[Seg(self.n, self.elem)])[i]


class SIter:
    """lazy symbolic iterable (enumerate/zip/map/reversed...)"""
    def __init__(self, n, fn):
        self.n, self.fn = n, fn

    def __iter__(self):
        if self.n.k == 'c':
            return iter([self.fn(tm.const(i)) for i in range(int(self.n.a))])
        raise Unsupported('iteration over a symbolic sequence')

    def length(self):
        return self.n


def sym_iter(x):
    """(n, element function) for iterables of symbolic length, else None"""
    if isinstance(x, SRange):
        return None if x.n.k == 'c' else (x.n, x.elem)
    if isinstance(x, SIter):
        return None if x.n.k == 'c' else (x.n, x.fn)
    if isinstance(x, PList):
        if x.concrete() is not None:
            return None
        segs = x.segs
        return seglen(segs), (lambda i: seqget(segs, i))
    if isinstance(x, PSet):
        if x.concrete() is not None:
            return None
        if x.dups:
            raise Unsupported('iteration over a set with possible duplicates')
        segs = x.segs
        return seglen(segs), (lambda i: seqget(segs, i))
    if isinstance(x, PDict):
        return sym_iter(x.keys())
    if isinstance(x, SArr):
        if x.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        n = x._shape[0]
        if n.k == 'c':
            return None
        return n, (lambda i: row(x, i))
    return None


def row(x, i):
    """x[i] for an index term known to be in range"""
    spec = [('fix', i)] + [('rng', ZERO, s, 1) for s in x._shape[1:]]
    view, shape = x._subview(spec)
    if not shape:
        return x._scalar(SArr(x.buf, view, ()).at())
    return x._mk(view, shape)


def iter_any(x):
    """(n term, fn) for any iterable"""
    s = sym_iter(x)
    if s is not None:
        return s
    l = list(x)
    return tm.const(len(l)), (lambda i: items_seg(l).fn(i))


# ------------------------------------------------------- merge / substitute
class Unmergeable(Exception):
    pass


def vmerge(c, a, b):
    """value that is a when c holds and b otherwise"""
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return mkbool(tm.ite(c, bterm(a), bterm(b)))
    if is_num(a) and is_num(b):
        la, lb = lift(a), lift(b)
        k = 'i' if la.kind == 'i' and lb.kind == 'i' else 'f'
        return mknum(tm.ite(c, la.t, lb.t), k)
    if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
        if isinstance(a, str) and a == b:
            return a
        return SStr(tm.ite(c, sterm(a), sterm(b)))
    if isinstance(a, SArr) and isinstance(b, SArr) and type(a) is type(b):
        if a.ndim != b.ndim:
            raise Unmergeable()
        for x, y in zip(a._shape, b._shape):
            if x is not y and not E().entails(tm.eq(x, y)):
                raise Unmergeable()
        fa, fb = a.snap(), b.snap()
        from . import snp
        return SArr.new(lambda *i: tm.ite(c, fa(*i), fb(*i)), a._shape, snp.promote(a.dtype, b.dtype))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(vmerge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, PDict) and isinstance(b, PDict) and a.is_concrete() and b.is_concrete():
        if len(a.ent) == len(b.ent) and all(eq_term(x[0], y[0]) is TRUE for x, y in zip(a.ent, b.ent)):
            d = type(a)()
            d.ent = [(x[0], vmerge(c, x[1], y[1])) for x, y in zip(a.ent, b.ent)]
            return d
    if isinstance(a, PList) and isinstance(b, PList):
        ca, cb = a.concrete(), b.concrete()
        if ca is not None and cb is not None and len(ca) == len(cb):
            return PList([vmerge(c, x, y) for x, y in zip(ca, cb)])
    try:
        if type(a) is type(b) and not isinstance(a, (SArr, PList, PDict)) and a == b:
            return a
    except Exception:
        pass
    raise Unmergeable('%s / %s' % (type(a).__name__, type(b).__name__))


def vsubst(v, m):
    """substitute index variables in a value"""
    return vmap(v, lambda t: tm.subst(t, m))


def vmap(v, fn):
    """the value with fn applied to its terms; mutable parts become frozen
    copies"""
    if isinstance(v, SNum):
        return mknum_like(fn(v.t), v)
    if isinstance(v, SBool):
        return mkbool(fn(v.t))
    if isinstance(v, SStr):
        t = fn(v.t)
        return t.a if t.k == 's' else SStr(t)
    if isinstance(v, SArr):
        from . import snp
        if isinstance(v, snp.Selected):
            k = vmap(v.keep, fn)
            return snp.Selected(vmap(v.plain(), fn), k)
        f = v.snap()

        def g(*idx):
            tmp = [tm.fresh_ivar() for _ in idx]
            r = fn(f(*tmp))
            return tm.subst(r, dict(zip(tmp, idx)))
        if isinstance(v, snp.IdxArr):
            c = v.cond

            def cc(i):
                t = tm.fresh_ivar()
                return tm.subst(fn(c(t)), {t: i})
            r = snp.IdxArr(Buf(memo(g), tuple(fn(x) for x in v._shape), v.dtype))
            r.cond, r.n, r.two = cc, fn(v.n), v.two
            return r
        r = SArr.new(g, [fn(x) for x in v._shape], v.dtype)
        r.buf.frozen = True
        if v.masked:
            r = snp.MArr.wrap(r, vmap(v.mask_, fn))
        if v.orig is not None:
            r.orig = vmap(v.orig, fn)
        return r
    if isinstance(v, tuple):
        return tuple(vmap(x, fn) for x in v)
    if isinstance(v, PList):
        r = PList(segs=[smap(s, fn) for s in v.segs])
        r.frozen = True
        return r
    if isinstance(v, PDict):
        d = type(v)()
        d.ordered = v.ordered
        d.ent = [dmap(e, fn) for e in v.ent]
        d.frozen = True
        return d
    if isinstance(v, PSet):
        r = PSet([smap(s, fn) for s in v.segs])
        r.dups = v.dups
        r.frozen = True
        return r
    from . import snp
    if isinstance(v, snp.CArr):
        return snp.CArr(vmap(v.re, fn), vmap(v.im, fn))
    if isinstance(v, (SIter, SRange)):
        return SIter(fn(v.n), gmap(v.fn if isinstance(v, SIter) else v.elem, fn))
    if v is None or isinstance(v, (str, int, float, bool, Fraction, SNaN, bytes, type, Poison)):
        return v
    if type(v).__module__.startswith('emva1288') and hasattr(v, '__dict__'):
        o = object.__new__(type(v))
        for k, x in v.__dict__.items():
            o.__dict__[k] = vmap(x, fn)
        eng.frozen_objs[id(o)] = o
        return o
    return v


def mknum_like(t, v):
    return SNum(t, v.kind)


def smap(s, fn):
    if isinstance(s, Seg):
        if s.items is not None:
            return items_seg([vmap(x, fn) for x in s.items])
        return Seg(fn(s.n), gmap(s.fn, fn))
    if isinstance(s, FlatSeg):
        q = s.seq

        def seq(i):
            t = tm.fresh_ivar()
            return [ssub1(smap(x, fn), {t: i}) for x in q(t)]
        return FlatSeg(fn(s.m), seq)

    def cond(i):
        t = tm.fresh_ivar()
        return tm.subst(fn(s.cond(t)), {t: i})
    return OptSeg(fn(s.m), cond, gmap(s.fn, fn))


def ssub1(s, m):
    return smap(s, lambda t: tm.subst(t, m))


def gmap(f, fn):
    def g(i):
        t = tm.fresh_ivar()
        return vsubst(vmap(f(t), fn), {t: i})
    return g


def dmap(e, fn):
    if isinstance(e, Fam):
        c = e.cond

        def cond(i):
            t = tm.fresh_ivar()
            return tm.subst(fn(c(t)), {t: i})
        return Fam(fn(e.n), gmap(e.key, fn), gmap(e.val, fn), cond if c else None)
    return (vmap(e[0], fn), vmap(e[1], fn))
