"""numpy for symbolic arrays: the assumed contracts of the numpy operations.

Every function here states what the verifier assumes numpy computes.  Floating
point numbers are real numbers, 64-bit integers are mathematical integers
(overflow is a separate obligation where a contract asks for it), narrower
integers wrap.
"""
from fractions import Fraction
import builtins as B
import types
from . import terms as tm
from . import engine as eng
from . import smt
from .engine import Unsupported
from .terms import ZERO, ONE, TRUE, FALSE, T
from .values import (SNum, SNaN, NAN, SBool, SStr, SArr, Buf, DT, PList, PDict, PSet, SRange, SIter, SSlice,
                     Seg, Poison, NANT, mkbool, mknum, lift, is_num, bterm, simp_abs, floordiv_t, mod_t, pow_t,
                     num_round, memo, dim, same_dim, sym_iter, row, simp_ite, as_segs, items_seg, seqget, seglen, dimval)


def E():
    return eng.E


# ------------------------------------------------------------------- dtypes
bool_ = DT('bool', 'b', 8)
int8, int16, int32, int64 = (DT('int%d' % b, 'i', b) for b in (8, 16, 32, 64))
uint8, uint16, uint32, uint64 = (DT('uint%d' % b, 'u', b) for b in (8, 16, 32, 64))
float16, float32, float64 = (DT('float%d' % b, 'f', b) for b in (16, 32, 64))
complex128 = DT('complex128', 'c', 128)
object_ = DT('object', 'O', 64)
str_ = DT('str', 'U', 64)
_ALL = {d.name: d for d in (bool_, int8, int16, int32, int64, uint8, uint16, uint32, uint64,
                            float16, float32, float64, complex128, object_)}
_ALL['int'] = int64
_ALL['float'] = float64
_ALL['uint'] = uint64
_ALL['intp'] = int64
_ALL['double'] = float64
_ALL['object'] = object_


class _Abs:
    """abstract scalar types (np.integer ...)"""
    def __init__(self, name, kinds):
        self.name, self.kinds = name, kinds


integer = _Abs('integer', 'iu')
signedinteger = _Abs('signedinteger', 'i')
unsignedinteger = _Abs('unsignedinteger', 'u')
floating = _Abs('floating', 'f')
number = _Abs('number', 'iuf')
generic = _Abs('generic', 'iufb')


def as_dtype(d):
    from . import shims
    if isinstance(d, DT):
        return d
    if d is None:
        return float64
    if d in (float, shims.float_):
        return float64
    if d in (int, shims.int_):
        return int64
    if d in (bool, shims.bool_):
        return bool_
    if d in (object,):
        return object_
    if isinstance(d, str) and d in _ALL:
        return _ALL[d]
    raise TypeError('data type %r not understood' % (d,))


def dtype(d):
    return as_dtype(d)


def promote(a, b):
    if a is b:
        return a
    order = 'biuf'
    if a.kind == 'O' or b.kind == 'O':
        return object_
    if a.kind == 'c' or b.kind == 'c':
        return complex128
    if a.kind == b.kind:
        return a if a.bits >= b.bits else b
    if a.kind == 'b':
        return b
    if b.kind == 'b':
        return a
    if a.kind == 'f' or b.kind == 'f':
        f, i = (a, b) if a.kind == 'f' else (b, a)
        need = 64 if i.bits >= 32 else (32 if i.bits >= 16 else 16)
        return {16: float16, 32: float32, 64: float64}[B.max(need, f.bits)]
    i, u = (a, b) if a.kind == 'i' else (b, a)
    if i.bits > u.bits:
        return i
    return {8: int16, 16: int32, 32: int64, 64: float64}[u.bits]


def trunc_t(x):
    if x.isint:
        return x
    if B.any(y.k == 'sum' for y in tm.subterms(x).values()) and not B.any('!' in v.a[0] for v in x.fv):
        # the sign of a mean
        if smt.Prover(3.0, 1.5).sign_nonneg(list(E().hyps()), x):
            return tm.floor(x)
        return tm.app('trunc', x, sort='I')
    return simp_ite(tm.le(ZERO, x), tm.floor(x), tm.neg(tm.floor(tm.neg(x))))


def wrap_t(x, dt):
    """value of the mathematical integer x stored in the integer type dt"""
    if dt.bits >= 64 and dt.kind == 'i':
        return x
    if dt.bits >= 64:
        return x
    lo, hi = int_range(dt)
    if x.k == 'c':
        return tm.const((int(x.a) - lo) % (hi - lo + 1) + lo)
    r = term_range(x)
    if r is not None and lo <= r[0] and r[1] <= hi:
        return x
    m = tm.const(hi - lo + 1)
    if lo == 0:
        return tm.mod(x, m)
    return tm.sub(tm.mod(tm.sub(x, tm.const(lo)), m), tm.const(-lo))


def int_range(dt):
    if dt.kind == 'u':
        return 0, 2 ** dt.bits - 1
    return -2 ** (dt.bits - 1), 2 ** (dt.bits - 1) - 1


def term_range(x):
    """cheap interval of a term from the declared ranges of its symbols"""
    try:
        return _range(x)
    except KeyError:
        return None


def _range(x):
    if x.k == 'c':
        return x.a, x.a
    if x.k in ('v', 'app'):
        name = x.a[0]
        if name == 'mod' and x.a[1][1].k == 'c':
            return Fraction(0), x.a[1][1].a - (1 if x.isint else 0)
        if name in E().ranges:
            lo, hi = E().ranges[name]
            lo = _range(lo.t)[0] if isinstance(lo, SNum) else lo
            hi = _range(hi.t)[1] if isinstance(hi, SNum) else hi
            if lo is not None and hi is not None:
                return Fraction(lo), Fraction(hi)
        if x.k == 'v' and x.isint:
            return _hyp_range(x)
        raise KeyError(name)
    if x.k == 'ind':
        return Fraction(0), Fraction(1)
    if x.k == 'poly':
        lo = hi = Fraction(0)
        for mo, c in x.a:
            a, b = Fraction(1), Fraction(1)
            for t, e in mo:
                l, h = _range(t)
                for _ in range(e):
                    ps = [a * l, a * h, b * l, b * h]
                    a, b = B.min(ps), B.max(ps)
                if e % 2 == 0 and len(mo) == 1 and l < 0 < h:
                    a = B.max(a, Fraction(0))
            ps = [a * c, b * c]
            lo += B.min(ps)
            hi += B.max(ps)
        return lo, hi
    if x.k == 'sum':
        n = _range(x.a[0])
        _v, body = tm.open_binder(x)
        b = _range(body)
        return B.min(0, b[0] * n[1]), B.max(0, b[1] * n[1])
    raise KeyError(x.k)


def _hyp_range(v, busy=set()):
    """interval of an index variable from the path condition"""
    if v in busy:
        raise KeyError(v)
    busy.add(v)
    lo = hi = None
    try:
        for h in E().hyps():
            if h.k not in ('le', 'lt') or v not in h.fv:
                continue
            l = tm.lin_in(h.a[0], v)
            if l is None or l[0] == 0 or v in l[1].fv:
                continue
            try:
                # a*v + r <= 0
                r = _range(l[1])
            except KeyError:
                continue
            b = [-z / l[0] for z in r]
            if l[0] > 0:
                hi = B.max(b) if hi is None else B.min(hi, B.max(b))
            else:
                lo = B.min(b) if lo is None else B.max(lo, B.min(b))
    finally:
        busy.discard(v)
    if lo is None or hi is None:
        raise KeyError(v)
    return lo, hi


def caster(src, dst, implicit=False):
    if src is dst or dst.kind == 'O':
        return lambda x: x
    if dst.kind == 'b':
        return lambda x: x if x.sort == 'B' else tm.ne(x, ZERO)

    def conv(x):
        if x.sort == 'B':
            x = tm.ind(x)
        if x.sort == 'O':
            if dst.kind == 'f':
                return tm.app('float', x)
            return tm.app('int', x, sort='I')
        if dst.kind == 'f':
            return x
        if x is NANT or NANT in x.fv:
            raise Unsupported('nan cast to integer')
        return wrap_t(trunc_t(x), dst)
    return conv


def cast_scalar(x, dt):
    dt = as_dtype(dt)
    if isinstance(x, SNaN):
        return x
    if isinstance(x, SStr) or isinstance(x, str):
        from . import shims
        return shims.float_(x) if dt.kind == 'f' else shims.int_(x)
    if isinstance(x, SArr):
        return x.astype(dt)
    if isinstance(x, (PList, list, tuple)):
        return array(x, dtype=dt)
    if dt.kind == 'O':
        return x
    t = lift(x).t
    if dt.kind == 'b':
        return mkbool(tm.ne(t, ZERO))
    return SNum(caster(float64, dt)(t), 'f' if dt.kind == 'f' else 'i')


# ------------------------------------------------------------------ masked
class MArr(SArr):
    masked = True

    def __init__(self, buf, view=None, shape=None, mask=None):
        SArr.__init__(self, buf, view, shape)
        self.mask_ = mask

    @staticmethod
    def wrap(a, mask):
        r = MArr(a.buf, a.view, a._shape, mask)
        if a.orig is not None:
            r.orig = a.orig
        return r

    def plain(self):
        r = SArr(self.buf, self.view, self._shape)
        if self.orig is not None and not self.orig.masked:
            r.orig = self.orig
        return r

    def _mk(self, view, shape):
        raise Unsupported('masked view')

    def __getitem__(self, key):
        d = self.plain()[key]
        m = self.mask_[key]
        if isinstance(d, SArr):
            return MArr.wrap(d, m)
        if isinstance(m, SBool):
            if bool(m):
                raise Unsupported('masked scalar')
            return d
        return d

    def __setitem__(self, key, val):
        raise Unsupported('assignment to a masked array')

    def inplace(self, name, o):
        r = binop(name, self, o)
        p = self.plain()
        if r.dtype.kind == 'f' and self.dtype.kind in 'iu':
            raise TypeError('same_kind')
        f = r.snap()
        old = self.snap()
        mf = self.mask_.snap()
        p.assign(SArr.new(lambda *i: tm.ite(mf(*i), old(*i), f(*i)), self._shape, r.dtype))
        return self

    @property
    def mask(self):
        return self.mask_

    @property
    def data(self):
        return self.plain()

    @property
    def flat(self):
        return ravel(self)

    def __repr__(self):
        return 'MArr(%r)' % (self._shape,)


def is_masked(a):
    return isinstance(a, MArr)


# ------------------------------------------------------------- construction
def new(fn, shape, dt=float64, label=None):
    return SArr.new(fn, shape, dt, label)


def _shape_arg(s):
    if isinstance(s, (tuple, list)):
        return tuple(dim(x) for x in s)
    if isinstance(s, PList):
        c = s.concrete()
        if c is None:
            raise Unsupported('symbolic shape')
        return tuple(dim(x) for x in c)
    return (dim(s),)


def full(shape, v, dtype=None):
    if isinstance(v, SNaN):
        t, dt = NANT, float64
    else:
        l = lift(v)
        t, dt = l.t, (int64 if l.kind == 'i' else float64)
    if dtype is not None:
        t = caster(dt, as_dtype(dtype))(t)
        dt = as_dtype(dtype)
    return new(lambda *i: t, _nonneg(_shape_arg(shape)), dt)


def _nonneg(sh):
    for s in sh:
        if s.k != 'c' and not E().branch(tm.le(ZERO, s)):
            raise ValueError('negative dimensions are not allowed')
        if s.k == 'c' and s.a < 0:
            raise ValueError('negative dimensions are not allowed')
        if not s.isint:
            raise TypeError('float object cannot be interpreted as an integer')
    return sh


def zeros(shape, dtype=None, **k):
    return full(shape, 0, dtype or float64)


def ones(shape, dtype=None, **k):
    return full(shape, 1, dtype or float64)


empty = zeros


def zeros_like(a, dtype=None, **k):
    a = _arr(a)
    return full(a.shape, 0, dtype or a.dtype)


def ones_like(a, dtype=None, **k):
    a = _arr(a)
    return full(a.shape, 1, dtype or a.dtype)


def full_like(a, v, dtype=None, **k):
    a = _arr(a)
    return full(a.shape, v, dtype or a.dtype)


empty_like = zeros_like


def _elem_term(x):
    """(term, dtype) of a scalar element"""
    if isinstance(x, SNaN):
        return NANT, float64
    if isinstance(x, (SBool, bool)):
        return bterm(x), bool_
    if isinstance(x, (SStr, str)):
        from .values import sterm
        return sterm(x), str_
    if x is None:
        return tm.strc('<None>'), object_
    l = lift(x)
    return l.t, (int64 if l.kind == 'i' else float64)


def array(x, dtype=None, copy=True, **k):
    if isinstance(x, CArr):
        return x
    if isinstance(x, MArr):
        x = x.plain()
    if isinstance(x, SArr):
        r = x.copy_() if copy else x
        return r.astype(dtype) if dtype is not None else r
    if dtype is not None and as_dtype(dtype).kind == 'f' and isinstance(x, (list, PList)):
        x = _numbers(x)
    r = _array(x)
    if dtype is not None and as_dtype(dtype) is not r.dtype:
        return astype(r, dtype)
    return r


def _numbers(x):
    """texts in a list converted to the numbers they show"""
    from .shims import float_

    def f(v):
        return float_.make(v) if isinstance(v, (str, SStr)) else v
    if isinstance(x, PList):
        return PList(segs=[Seg(g.n, lambda i, g=g: f(g.fn(i))) if type(g) is Seg and g.items is None else
                           items_seg([f(v) for v in g.items]) if type(g) is Seg else g for g in x.segs])
    return [f(v) for v in x]


def _array(x):
    if isinstance(x, SArr):
        return x
    if is_num(x) or isinstance(x, (SNaN, SStr, str)) or x is None:
        t, dt = _elem_term(x)
        return new(lambda: t, (), dt)
    if isinstance(x, (PDict, PSet, dict, set)):
        raise Unsupported('array of a dict or set')
    s = sym_iter(x)
    if s is None:
        items = [(_array(v)) for v in x]
        if not items:
            return new(lambda i: ZERO, (ZERO,), float64)
        dt = items[0].dtype
        for v in items[1:]:
            dt = promote(dt, v.dtype) if dt.kind in 'biuf' and v.dtype.kind in 'biuf' else dt
            if v.ndim != items[0].ndim:
                raise ValueError('setting an array element with a sequence. inhomogeneous shape')
            for p, q in zip(v._shape, items[0]._shape):
                if not same_dim(p, q):
                    raise ValueError('inhomogeneous shape')
        fs = [(v.snap(), caster(v.dtype, dt)) for v in items]

        def fn(i, *r):
            if i.k == 'c':
                f, c = fs[int(i.a)]
                return c(f(*r))
            f, c = fs[-1]
            acc = c(f(*r))
            for k in range(len(fs) - 2, -1, -1):
                f, c = fs[k]
                acc = tm.ite(tm.eq(i, tm.const(k)), c(f(*r)), acc)
            return acc
        return new(fn, (tm.const(len(items)),) + items[0]._shape, dt)
    n, f = s
    w = E().fresh('el', 'I')
    mark = len(E().pc)
    E().assume(tm.land(tm.le(ZERO, w), tm.lt(w, n)))
    v = f(w)
    del E().pc[mark:]
    v = _array(v)
    if v.ndim and B.any(w in q.fv for q in v._shape):
        raise Unsupported('ragged array')
    return new(lambda i, *r: _array(f(i)).at(*r), (n,) + v._shape, v.dtype)


def asarray(x, dtype=None, **k):
    if isinstance(x, MArr):
        x = x.plain()
    if isinstance(x, SArr):
        if dtype is None or as_dtype(dtype) is x.dtype:
            return x
        return astype(x, dtype)
    return array(x, dtype=dtype)


asanyarray = asarray
ascontiguousarray = asarray


def copy(x):
    return _arr(x).copy()


def _arr(x):
    if isinstance(x, (SArr, CArr)):
        return x
    return _array(x)


def arange(*a, dtype=None):
    if B.all(lift(x).kind == 'i' for x in a):
        r = SRange(*a)
        return new(lambda i: tm.add(r.start, tm.scale(i, r.step)), (r.n,), as_dtype(dtype) if dtype else int64)
    a = [lift(x).t for x in a]
    if len(a) == 1:
        a = [ZERO, a[0], ONE]
    elif len(a) == 2:
        a = [a[0], a[1], ONE]
    n = tm.neg(tm.floor(tm.div(tm.sub(a[0], a[1]), a[2])))
    n = simp_ite(tm.lt(n, ZERO), ZERO, n)
    return new(lambda i: tm.add(a[0], tm.mul2(i, a[2])), (n,), float64)


def linspace(start, stop, num=50, endpoint=True, **k):
    a, b, n = lift(start).t, lift(stop).t, lift(num)
    if n.kind != 'i':
        raise TypeError('float object cannot be interpreted as an integer')
    n = n.t
    if E().branch(tm.lt(n, ZERO)):
        raise ValueError('Number of samples must be non-negative.')
    d = tm.sub(n, ONE) if endpoint else n
    if E().decide(tm.eq(n, ONE)) is True:
        return new(lambda i: a, (n,), float64)
    step = tm.mul2(tm.sub(b, a), tm.inv(d))
    return new(lambda i: tm.add(a, tm.mul2(i, step)), (n,), float64)


def logspace(start, stop, num=50, **k):
    l = linspace(start, stop, num, **k)
    return binop('pow', 10, l)


def meshgrid(*a, **k):
    raise Unsupported('meshgrid')


def eye(n, **k):
    n = dim(n)
    return new(lambda i, j: tm.ind(tm.eq(i, j)), (n, n), float64)


# --------------------------------------------------------------- elementwise
_OPS = {
    'add': tm.add, 'sub': tm.sub, 'mul': tm.mul2, 'div': tm.div, 'fdiv': floordiv_t, 'mod': mod_t, 'pow': pow_t,
    'lt': tm.lt, 'le': tm.le, 'gt': lambda a, b: tm.lt(b, a), 'ge': lambda a, b: tm.le(b, a),
    'eq': tm.eq, 'ne': tm.ne, 'max': lambda a, b: simp_ite(tm.le(b, a), a, b), 'min': lambda a, b: simp_ite(tm.le(a, b), a, b),
    'and': tm.land, 'or': tm.lor, 'hypot': lambda a, b: tm.sqrt(tm.add(tm.mul2(a, a), tm.mul2(b, b))),
}
_BOOL = {'lt', 'le', 'gt', 'ge', 'eq', 'ne', 'and', 'or'}


class Weak:
    """python scalar operand"""
    __slots__ = ('t', 'kind')


def _operand(x):
    """(index function, shape, dtype or weak kind, source)"""
    if isinstance(x, SArr):
        return x.snap(), x._shape, x.dtype, x
    if isinstance(x, SNaN):
        return (lambda *i: NANT), (), 'f', x
    if isinstance(x, (SBool, bool)):
        t = bterm(x)
        return (lambda *i: t), (), bool_, x
    if is_num(x):
        l = lift(x)
        t = l.t
        return (lambda *i: t), (), l.kind, x
    if isinstance(x, (SStr, str)):
        t = _elem_term(x)[0]
        return (lambda *i: t), (), object_, x
    if isinstance(x, (PList, list, tuple, SRange, SIter)):
        a = _array(x)
        return a.snap(), a._shape, a.dtype, a
    if isinstance(x, CArr):
        raise Unsupported('complex operand')
    raise TypeError('unsupported operand type for array operation: %s' % type(x).__name__)


def _bshape(shapes):
    n = B.max(len(s) for s in shapes)
    out = []
    for k in range(n):
        d = None
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            x = s[j]
            if d is None or d is ONE:
                d = x
            elif x is ONE or x is d:
                pass
            elif E().decide(tm.eq(x, d)) is True:
                pass
            elif not E().branch(tm.eq(x, d)):
                if E().branch(tm.eq(x, ONE)):
                    raise Unsupported('broadcast of a symbolic unit dimension')
                if E().branch(tm.eq(d, ONE)):
                    raise Unsupported('broadcast of a symbolic unit dimension')
                raise ValueError('operands could not be broadcast together')
        out.append(d)
    return tuple(out)


def _bfn(f, s, shape):
    """index function of an operand of shape s broadcast to shape"""
    off = len(shape) - len(s)
    sel = []
    for j, x in enumerate(s):
        sel.append(None if (x is ONE and shape[off + j] is not ONE) else off + j)
    if sel == list(range(len(shape))):
        return f
    return lambda *i: f(*[ZERO if k is None else i[k] for k in sel])


def _rdtype(da, db):
    if isinstance(da, str) and isinstance(db, str):
        return int64 if da == 'i' and db == 'i' else float64
    if isinstance(da, str) or isinstance(db, str):
        w, d = (da, db) if isinstance(da, str) else (db, da)
        if d.kind == 'b':
            return int64 if w == 'i' else float64
        if w == 'f' and d.kind in 'iu':
            return float64
        return d
    return promote(da, db)


def binop(name, a, b, out=None):
    if isinstance(a, CArr) or isinstance(b, CArr):
        return cbinop(name, a, b)
    if name in ('eq', 'ne') and (a is None or b is None):
        return name == 'ne'
    try:
        fa, sa, da, xa = _operand(a)
        fb, sb, db, xb = _operand(b)
    except TypeError:
        if not isinstance(a, SArr) or isinstance(b, (PDict, PSet)):
            raise
        return NotImplemented
    shape = _bshape([sa, sb])
    f, g = _bfn(fa, sa, shape), _bfn(fb, sb, shape)
    op = _OPS[name]
    if name in _BOOL:
        rd = bool_
        if name in ('and', 'or'):
            isb = lambda d: not isinstance(d, str) and d.kind == 'b'
            if not (isb(da) and isb(db)):
                raise Unsupported('bitwise operation on integers')
            fn = lambda *i: op(f(*i), g(*i))
        else:
            def fn(*i):
                x, y = _num(f(*i)), _num(g(*i))
                if NANT in x.fv or NANT in y.fv:
                    return tm.boolc(name == 'ne')
                return op(x, y)
    else:
        rd = _rdtype(da, db)
        if name == 'div' and rd.kind in 'iub':
            rd = float64
        if name == 'sub' and rd.kind == 'b':
            raise TypeError('numpy boolean subtract')
        if rd.kind == 'b':
            op = {'add': tm.lor, 'mul': tm.land}.get(name)
            if op is None:
                raise Unsupported('boolean arithmetic')
            fn = lambda *i: op(f(*i), g(*i))
        elif rd.kind in 'iu' and rd.bits < 64:
            fn = lambda *i: wrap_t(op(_num(f(*i)), _num(g(*i))), rd)
        else:
            def fn(*i):
                x, y = _num(f(*i)), _num(g(*i))
                if NANT in x.fv or NANT in y.fv:
                    return NANT
                return op(x, y)
            if rd.kind == 'i' and E().overflow:
                fn0 = fn

                def fn(*i):
                    r = fn0(*i)
                    overflow_check(r, rd)
                    return r
    r = new(fn, shape, rd)
    sel = [x for x in (xa, xb) if isinstance(x, Selected)]
    ma = [x.mask_ for x in (xa, xb) if isinstance(x, MArr)]
    if sel:
        if len(sel) == 2 and sel[0].keep is not sel[1].keep:
            raise Unsupported('operation on two boolean selections')
        return Selected(r, sel[0].keep)
    if ma:
        if len(ma) == 1:
            m = ma[0]
        else:
            f0, f1 = ma[0].snap(), ma[1].snap()
            m = ma[0] if ma[0] is ma[1] else new(lambda *i: tm.lor(f0(*i), f1(*i)), shape, bool_)
        r = MArr.wrap(r, m)
    # a ravelled array combined with a scalar stays a ravelled array
    for x, y, s in ((xa, xb, sb), (xb, xa, sa)):
        if isinstance(x, SArr) and x.orig is not None and s == ():
            r.orig = binop(name, x.orig, y) if x is xa else binop(name, y, x.orig)
    if isinstance(xa, SArr) and isinstance(xb, SArr) and xa.orig is not None and xb.orig is not None \
            and xa.orig._shape == xb.orig._shape:
        r.orig = binop(name, xa.orig, xb.orig)
    if not shape and not isinstance(xa, MArr):
        return r._scalar(r.at()) if not (isinstance(a, SArr) and False) else r
    if out is not None:
        out.assign(r)
        return out
    return r


def _num(x):
    return tm.ind(x) if x.sort == 'B' else x


def overflow_check(r, dt):
    rg = term_range(r)
    lo, hi = int_range(dt)
    if rg is not None and lo <= rg[0] and rg[1] <= hi:
        E().oblige('no 64-bit overflow', TRUE, 'overflow')
        return
    E().oblige('no 64-bit overflow', tm.land(tm.le(tm.const(lo), r), tm.le(r, tm.const(hi))), 'overflow')


def emap(a, fn, dt):
    """elementwise map of an array"""
    f = a.snap()
    r = new(lambda *i: NANT if NANT in f(*i).fv else fn(f(*i)), a._shape, dt)
    if isinstance(a, Selected):
        return Selected(r, a.keep)
    if isinstance(a, MArr):
        r = MArr.wrap(r, a.mask_)
    if a.orig is not None:
        r.orig = emap(a.orig, fn, dt)
    return r


def _un(name):
    if name == 'neg':
        return tm.neg, None
    if name == 'abs':
        return simp_abs, None
    if name == 'square':
        return (lambda x: tm.mul2(x, x)), None
    if name == 'sqrt':
        return tm.sqrt, float64
    if name in ('exp', 'log', 'log10', 'log2', 'sin', 'cos', 'tan', 'arctan', 'arcsin', 'arccos', 'log1p', 'expm1'):
        return (lambda x: trans(name, x)), float64
    if name == 'floor':
        return tm.floor, float64
    if name == 'ceil':
        return (lambda x: tm.neg(tm.floor(tm.neg(x)))), float64
    if name == 'rint':
        return (lambda x: tm.app('rint', x, sort='I')), float64
    if name == 'trunc':
        return trunc_t, float64
    if name == 'sign':
        return (lambda x: tm.sub(tm.ind(tm.lt(ZERO, x)), tm.ind(tm.lt(x, ZERO)))), None
    if name == 'isnan':
        return None, bool_
    raise Unsupported('numpy.' + name)


def trans(name, x):
    """transcendental functions: uninterpreted, a few exact facts"""
    if name == 'exp' and x is ZERO:
        return ONE
    if name in ('log', 'log10', 'log2') and x is ONE:
        return ZERO
    if name == 'exp' and x.k == 'app' and x.a[0] == 'log':
        pass
    return tm.app(name, x)


def unop(name, a, out=None):
    if isinstance(a, CArr):
        if name == 'abs':
            return a.abs()
        if name == 'neg':
            return a.map(lambda r, i: (tm.neg(r), tm.neg(i)))
        raise Unsupported('complex ' + name)
    if isinstance(a, (PList, list, tuple, SRange, SIter)):
        a = _array(a)
    if name == 'not':
        if isinstance(a, SArr):
            f = a.snap()
            r = new(lambda *i: tm.lnot(f(*i)), a._shape, bool_)
            if a.orig is not None:
                r.orig = unop('not', a.orig)
            return r
        return ~a if not isinstance(a, bool) else (not a)
    if name in ('isnan', 'isfinite', 'isinf'):
        if isinstance(a, SArr):
            f = a.snap()
            w = name == 'isnan'
            if name == 'isinf':
                return new(lambda *i: FALSE, a._shape, bool_)
            return new(lambda *i: tm.boolc((NANT in f(*i).fv) == w), a._shape, bool_)
        r = isinstance(a, SNaN) or (isinstance(a, float) and a != a)
        return {'isnan': r, 'isfinite': not r, 'isinf': False}[name]
    if isinstance(a, SNaN):
        return a
    fn, dt = _un(name)
    if isinstance(a, SArr):
        rd = dt or a.dtype
        if rd.kind == 'b':
            rd = int64
        if rd.kind in 'iu' and rd.bits < 64:
            f0, fn = fn, (lambda x: wrap_t(f0(_num(x)), rd))
        elif rd.kind == 'i' and E().overflow:
            f1 = fn

            def fn(x):
                r = f1(x)
                overflow_check(r, rd)
                return r
        r = emap(a, lambda x: fn(_num(x)), rd)
        if out is not None:
            out.assign(r)
            return out
        if not r._shape:
            return r._scalar(r.at())
        return r
    if not is_num(a):
        raise TypeError('ufunc not supported for the input type %s' % type(a).__name__)
    l = lift(a)
    if name == 'sqrt' and E().entails(tm.lt(l.t, ZERO)):
        return NAN
    return SNum(fn(l.t), 'f' if dt is float64 else l.kind)


def _mku(name):
    def f(x, out=None, **k):
        if isinstance(out, tuple):
            out = out[0]
        return unop(name, x, out)
    f.__name__ = name
    return f


sqrt, exp, log, log10, log2 = map(_mku, ('sqrt', 'exp', 'log', 'log10', 'log2'))
square, floor, ceil, rint, trunc, sign = map(_mku, ('square', 'floor', 'ceil', 'rint', 'trunc', 'sign'))
absolute = abs = fabs = _mku('abs')
negative = _mku('neg')
isnan, isfinite, isinf = map(_mku, ('isnan', 'isfinite', 'isinf'))
sin, cos, tan, arctan, arcsin, arccos, log1p, expm1 = map(_mku, ('sin', 'cos', 'tan', 'arctan', 'arcsin', 'arccos', 'log1p', 'expm1'))
logical_not = invert = _mku('not')


def _mkb(name):
    def f(a, b, out=None, **k):
        if is_num(a) and is_num(b) or (isinstance(a, (SNaN,)) or isinstance(b, SNaN)) and not (isinstance(a, SArr) or isinstance(b, SArr)):
            import operator as o
            ops = {'add': o.add, 'sub': o.sub, 'mul': o.mul, 'fdiv': o.floordiv,
                   'lt': o.lt, 'le': o.le, 'gt': o.gt, 'ge': o.ge, 'eq': o.eq, 'ne': o.ne, 'and': o.and_, 'or': o.or_}
            if isinstance(a, SNaN) or isinstance(b, SNaN):
                return NAN if name not in _BOOL else name == 'ne'
            la, lb = lift(a), lift(b)
            if name in ops and name != 'fdiv':
                return ops[name](la, lb)
            return SNum(_OPS[name](la.t, lb.t), 'f' if name in ('div', 'hypot') or 'f' in (la.kind, lb.kind) else 'i')
        return binop(name, a, b, out)
    f.__name__ = name
    return f


add, subtract, multiply = map(_mkb, ('add', 'sub', 'mul'))
divide = true_divide = _mkb('div')
floor_divide, mod, power = map(_mkb, ('fdiv', 'mod', 'pow'))
remainder = mod
less, less_equal, greater, greater_equal, equal, not_equal = map(_mkb, ('lt', 'le', 'gt', 'ge', 'eq', 'ne'))
maximum, minimum, hypot = map(_mkb, ('max', 'min', 'hypot'))
logical_and = _mkb('and')
logical_or = _mkb('or')
bitwise_and, bitwise_or = logical_and, logical_or


def where(c, *ab):
    if not ab:
        return nonzero(c)
    a, b = ab
    fc, sc, dc, _ = _operand(c)
    fa, sa, da, xa = _operand(a)
    fb, sb, db, xb = _operand(b)
    sh = _bshape([sc, sa, sb])
    rd = _rdtype(da, db)
    if rd.kind == 'O':
        raise Unsupported('where on objects')
    f, g, h = _bfn(fc, sc, sh), _bfn(fa, sa, sh), _bfn(fb, sb, sh)

    def cond(*i):
        x = f(*i)
        return x if x.sort == 'B' else tm.ne(x, ZERO)

    def fn(*i):
        x, y = g(*i), h(*i)
        if rd.kind != 'b':
            x, y = _num(x), _num(y)
        return tm.ite(cond(*i), x, y)
    r = new(fn, sh, rd)
    return r if sh else r._scalar(r.at())


def clip(a, a_min=None, a_max=None, out=None, **k):
    a_min = k.get('min', a_min)
    a_max = k.get('max', a_max)
    a = _arr(a) if not is_num(a) else a
    r = a
    if a_min is not None:
        r = maximum(r, a_min) if not is_num(r) else SNum(tm.max2(lift(r).t, lift(a_min).t), 'f' if 'f' in (lift(r).kind, lift(a_min).kind) else 'i')
    if a_max is not None:
        r = minimum(r, a_max) if not is_num(r) else SNum(tm.min2(lift(r).t, lift(a_max).t), 'f' if 'f' in (lift(r).kind, lift(a_max).kind) else 'i')
    if out is not None:
        if isinstance(out, tuple):
            out = out[0]
        out.assign(r)
        return out
    return r


def round_(a, decimals=0, out=None):
    a = _arr(a) if not is_num(a) else a
    d = lift(decimals).t
    if is_num(a):
        return lift(num_round(a, decimals)) if not (d is ZERO) else SNum(tm.app('rint', lift(a).t, sort='I'), lift(a).kind)
    if a.dtype.kind in 'iu' and d is ZERO:
        return a.copy_()
    r = emap(a, lambda x: lift(num_round(SNum(x, 'f'), decimals)).t, a.dtype)
    if out is not None:
        out.assign(r)
        return out
    return r


around = round = round_


def real(x):
    return x.real if not is_num(x) else x


def imag(x):
    return x.imag


def conjugate(x):
    return x.conjugate()


conj = conjugate


# --------------------------------------------------------------- reductions
def _axes(a, axis):
    if axis is None:
        return tuple(range(a.ndim))
    if isinstance(axis, (tuple, PList)):
        return tuple(int(x) % a.ndim for x in axis)
    ax = lift(axis).t
    ax = int(ax.a)
    if ax < -a.ndim or ax >= a.ndim:
        raise ValueError('axis out of bounds')
    return (ax % a.ndim,)


def _all_masked(bound, m):
    for v, n in reversed(bound):
        m = tm.forall_range(v, ZERO, n, m)
    return m


def _reduce(a, axis, comb, dt, keepdims=False, masks=True):
    """comb(list of (var, n), element term) -> term"""
    ax = _axes(a, axis)
    if axis is None and a.orig is not None:
        a = a.orig
        ax = tuple(range(a.ndim))
    f = a.snap()
    keep = [k for k in range(a.ndim) if k not in ax]
    mf = a.mask_.snap() if isinstance(a, MArr) else None

    def fn(*i):
        if keepdims:
            i = [x for k, x in enumerate(i) if k not in ax]
        idx = [None] * a.ndim
        for k, x in zip(keep, i):
            idx[k] = x
        bound = []
        for k in ax:
            v = tm.fresh_ivar()
            idx[k] = v
            bound.append((v, a._shape[k]))
        return comb(bound, f(*idx), mf(*idx) if mf else None)
    shape = tuple(a._shape[k] for k in keep) if not keepdims else \
        tuple(ONE if k in ax else a._shape[k] for k in range(a.ndim))
    r = new(fn, shape, dt)
    if mf and masks and not isinstance(a, Selected):
        # the reduction of masked elements only is masked
        if not shape:
            idx = [tm.fresh_ivar() for _ in range(a.ndim)]
            if E().branch(_all_masked(list(zip(idx, a._shape)), mf(*idx))):
                raise Unsupported('reduction of a fully masked array')
        elif not keepdims:
            def hidden(*i):
                idx = [tm.fresh_ivar() for _ in range(a.ndim)]
                for k, x in zip(keep, i):
                    idx[k] = x
                return _all_masked([(idx[k], a._shape[k]) for k in ax], mf(*idx))
            return MArr.wrap(r, new(hidden, shape, bool_))
        else:
            raise Unsupported('keepdims of a masked array')
    if not shape:
        return r._scalar(r.at())
    return r


def _nest_sum(bound, body):
    for v, n in reversed(bound):
        body = tm.mk_sum(v, n, body)
    return body


def _count(bound, m):
    if m is None:
        return tm.mul(*[n for _, n in bound]) if bound else ONE
    return _nest_sum(bound, tm.sub(ONE, tm.ind(m)))


def _sumof(bound, x, m):
    x = _num(x)
    if NANT in x.fv:
        return NANT
    return _nest_sum(bound, x if m is None else tm.mul2(tm.sub(ONE, tm.ind(m)), x))


def sum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = _arr(a) if not is_num(a) else a
    if is_num(a) or isinstance(a, SNaN):
        return a
    if isinstance(a, CArr):
        return CArr(sum(a.re, axis), sum(a.im, axis))
    dt = a.dtype
    if dtype is not None:
        dt = as_dtype(dtype)
    elif dt.kind in 'ib':
        dt = int64
    elif dt.kind == 'u':
        dt = uint64

    def comb(b, x, m):
        r = _sumof(b, x, m)
        if dt.kind == 'i' and E().overflow:
            overflow_check(r, dt)
        return wrap_t(r, dt) if dt.kind in 'iu' and dt.bits < 64 else r
    return _reduce(a, axis, comb, dt, keepdims)


def mean(a, axis=None, dtype=None, keepdims=False, **k):
    a = _arr(a) if not is_num(a) else a
    if is_num(a):
        return SNum(lift(a).t, 'f')
    if isinstance(a, SNaN):
        return a
    dt = float64 if a.dtype.kind in 'iub' else a.dtype
    return _reduce(a, axis, lambda b, x, m: tm.mul2(_sumof(b, x, m), tm.inv(_count(b, m))), dt, keepdims)


def _centered(b, x, m):
    """sum of squared deviations, as  sum x^2 - (sum x)^2 / n"""
    x = _num(x)
    n = _count(b, m)
    s1 = _sumof(b, x, m)
    s2 = _sumof(b, tm.mul2(x, x), m)
    return tm.sub(s2, tm.mul(s1, s1, tm.inv(n))), n


def var(a, axis=None, ddof=0, dtype=None, keepdims=False, **k):
    a = _arr(a)
    dd = lift(ddof).t

    def comb(b, x, m):
        c, n = _centered(b, x, m)
        return tm.mul2(c, tm.inv(tm.sub(n, dd)))
    return _reduce(a, axis, comb, float64, keepdims)


def std(a, axis=None, ddof=0, keepdims=False, **k):
    r = var(a, axis, ddof, keepdims=keepdims)
    return sqrt(r)


def average(a, axis=None, weights=None, **k):
    if weights is not None:
        w = _arr(weights)
        return divide(sum(multiply(a, w), axis), sum(w, axis))
    return mean(a, axis)


def _extremum(op):
    def f(a, axis=None, out=None, keepdims=False, **k):
        if isinstance(a, IdxArr):
            return mknum(index_extreme(a.cond, a.n, op), 'i')
        a = _arr(a) if not is_num(a) else a
        if is_num(a) or isinstance(a, SNaN):
            return a
        ax = _axes(a, axis)
        for x in ax:
            n = a._shape[x]
            if a.orig is not None and axis is None:
                break
            if E().branch(tm.eq(n, ZERO)):
                raise ValueError('zero-size array to reduction operation which has no identity')
        if a.orig is not None and axis is None:
            for n in a.orig._shape:
                if E().branch(tm.eq(n, ZERO)):
                    raise ValueError('zero-size array to reduction operation which has no identity')

        def comb(b, x, m):
            x = _num(x)
            if m is not None:
                return masked_extreme(op, b, x, m)
            if len(b) > 1 and b_closed(x, b):
                return masked_extreme(op, b, x, FALSE)
            for v, n in reversed(b):
                x = tm.mk_red(op, v, n, x)
            return x
        return _reduce(a, axis, comb, a.dtype, keepdims)
    return f


max = amax = _extremum('max')
min = amin = _extremum('min')


def ptp(a, **k):
    return subtract(max(a), min(a))


def b_closed(x, bound):
    """no loop or binder variable besides those of the reduction"""
    own = {v for v, _ in bound}
    return not [v for v in x.fv if v not in own and ('!' in v.a[0] or v.a[0].startswith('#'))]


def masked_extreme(op, bound, x, m):
    """extreme of the unmasked elements: a symbol with its defining facts"""
    P = tm.var('?ext', 'I' if x.isint else 'R')
    cmp_ = tm.le(x, P) if op == 'max' else tm.le(P, x)
    allf, anyf = tm.lor(m, cmp_), tm.land(tm.lnot(m), tm.eq(x, P))
    for v, n in reversed(bound):
        if n.k == 'c' and n.a <= 4:
            each = [{v: tm.const(i)} for i in range(int(n.a))]
            allf = tm.land(*[tm.subst(allf, d) for d in each])
            anyf = tm.lor(*[tm.subst(anyf, d) for d in each])
            continue
        allf = tm.forall_range(v, ZERO, n, allf)
        anyf = tm.exists_range(v, ZERO, n, anyf)
    if m is not FALSE:
        # unless all are masked
        anyf = tm.lor(_all_masked(bound, m), anyf)
    key = ('mext', op, allf.id, anyf.id)
    s = E().memo.get(key) if hasattr(E(), 'memo') else None
    if s is None:
        s = E().fresh(('masked_' if m is not FALSE else 'image_') + op, 'I' if x.isint else 'R')
        if not hasattr(E(), 'memo'):
            E().memo = {}
        E().memo[key] = s
    fact = tm.subst(tm.land(allf, anyf), {P: s})
    if fact.id not in {h.id for h in E().hyps()}:
        E().assume(tm.subst(allf, {P: s}))
        E().assume(tm.subst(anyf, {P: s}))
    return s


nanmax, nanmin, nansum, nanmean = max, min, sum, mean


def prod(a, axis=None, **k):
    a = _arr(a)
    if a.ndim == 1 and a._shape[0].k == 'c':
        r = ONE
        for i in range(int(a._shape[0].a)):
            r = tm.mul2(r, a.at(tm.const(i)))
        return a._scalar(r)
    raise Unsupported('prod')


def all(a, axis=None, **k):
    if isinstance(a, (SBool, bool)):
        return a
    a = _arr(a)

    def comb(b, x, m):
        x = x if x.sort == 'B' else tm.ne(x, ZERO)
        for v, n in reversed(b):
            x = tm.forall_range(v, ZERO, n, x)
        return x
    return _reduce(a, axis, comb, bool_)


def any(a, axis=None, **k):
    if isinstance(a, (SBool, bool)):
        return a
    a = _arr(a)

    def comb(b, x, m):
        x = x if x.sort == 'B' else tm.ne(x, ZERO)
        for v, n in reversed(b):
            x = tm.exists_range(v, ZERO, n, x)
        return x
    return _reduce(a, axis, comb, bool_)


def count_nonzero(a, axis=None):
    a = _arr(a)

    def comb(b, x, m):
        return _nest_sum(b, tm.ind(x if x.sort == 'B' else tm.ne(x, ZERO)))
    return _reduce(a, axis, comb, int64)


def cumsum(a, axis=None, **k):
    a = _arr(a)
    if a.ndim != 1 or (axis not in (None, 0, -1)):
        raise Unsupported('cumsum of n-d array')
    f = a.snap()

    def fn(i):
        v = tm.fresh_ivar()
        return tm.mk_sum(v, tm.add(i, ONE), _num(f(v)))
    return new(fn, a._shape, a.dtype if a.dtype.kind == 'f' else int64)


def diff(a, n=1, **k):
    a = _arr(a)
    return a[1:] - a[:-1]


def median(a, **k):
    a = _arr(a)
    v = tm.fresh_ivar()
    return SNum(tm.app('median', tm.mk_sum(v, a._shape[0], tm.app('id', a.at(v)))), 'f')


def dot(a, b):
    a, b = _arr(a), _arr(b)
    if a.ndim == 1 and b.ndim == 1:
        return sum(multiply(a, b))
    raise Unsupported('dot')


inner = vdot = dot


# ----------------------------------------------------------- index searches
def index_extreme(cond, n, op):
    """largest/smallest index satisfying cond (ValueError if there is none)"""
    v = tm.fresh_ivar()
    ex = tm.exists_range(v, ZERO, n, cond(v))
    if not E().branch(ex):
        raise ValueError('max() iterable argument is empty')
    key = ('iext', op, ex.id)
    if not hasattr(E(), 'memo'):
        E().memo = {}
    K = E().memo.get(key)
    if K is None:
        K = E().fresh('idx_' + op, 'I')
        E().memo[key] = K
    have = {h.id for h in E().hyps()}
    f1 = tm.land(tm.le(ZERO, K), tm.lt(K, n))
    if f1.id not in have or tm.subst(cond(v), {v: K}).id not in have:
        E().assume(f1)
        E().assume(tm.subst(cond(v), {v: K}))
        c = tm.le(v, K) if op == 'max' else tm.le(K, v)
        E().assume(tm.forall_range(v, ZERO, n, tm.implies(cond(v), c)))
    return K


class IdxArr(SArr):
    """result of argwhere/nonzero on a 1-d array: increasing indices"""
    two = True

    def __getitem__(self, key):
        # first and last position: the extremes of the indices
        k = key
        if not self.two and is_num(k) and lift(k).t.k == 'c' and lift(k).t.a in (0, -1):
            v = tm.fresh_ivar()
            if not E().branch(tm.exists_range(v, ZERO, self.n, self.cond(v))):
                raise IndexError('index %d is out of bounds for axis 0 with size 0' % int(lift(k).t.a))
            return mknum(index_extreme(self.cond, self.n, 'min' if lift(k).t.a == 0 else 'max'), 'i')
        return SArr.__getitem__(self, key)


def _idx_array(cond, n, two):
    v = tm.fresh_ivar()
    cnt = tm.mk_sum(v, n, tm.ind(cond(v)))
    name = E().fresh_name('nz')
    g = list(E().gidx)
    fn = (lambda k, j: tm.app(name, *g, k, sort='I')) if two else (lambda k: tm.app(name, *g, k, sort='I'))
    a = IdxArr(Buf(memo(fn), (cnt, ONE) if two else (cnt,), int64))
    a.cond, a.n, a.two = cond, n, two
    k = tm.fresh_ivar()
    x = tm.app(name, *g, k, sort='I')
    E().assume(tm.le(ZERO, cnt))
    E().assume(tm.forall_range(k, ZERO, cnt, tm.land(tm.le(ZERO, x), tm.lt(x, n), tm.subst(cond(v), {v: x}))))
    rank = tm.mk_sum(v, k, tm.ind(cond(v)))
    E().assume(tm.forall_range(k, ZERO, n, tm.implies(tm.subst(cond(v), {v: k}),
               tm.eq(tm.app(name, *g, rank, sort='I'), k))))
    return a


def _cond1(a):
    a = _arr(a)
    if a.ndim != 1:
        raise Unsupported('argwhere of n-d array')
    f = a.snap()
    return (lambda i: f(i) if f(i).sort == 'B' else tm.ne(f(i), ZERO)), a._shape[0]


def argwhere(a):
    c, n = _cond1(a)
    return _idx_array(c, n, True)


def flatnonzero(a):
    c, n = _cond1(a)
    return _idx_array(c, n, False)


def nonzero(a):
    c, n = _cond1(a)
    a = _arr(a)
    idx = arange(mknum(n, 'i'))
    if n.k == 'c' and n.a <= 4:
        keep = [E().branch(c(tm.const(i))) for i in range(int(n.a))]
        return (select(idx, new(lambda i: TRUE if keep[int(i.a)] else FALSE, (n,), bool_)),)
    else:
        v = tm.fresh_ivar()
        if E().branch(tm.forall_range(v, ZERO, n, c(v))):
            return (idx,)
    return (flatnonzero(a),)


def _argext(op):
    def f(a, axis=None, **k):
        a = _arr(a)
        if a.ndim != 1:
            raise Unsupported('arg%s of n-d' % op)
        n = a._shape[0]
        if E().branch(tm.eq(n, ZERO)):
            raise ValueError('attempt to get arg%s of an empty sequence' % op)
        fa = a.snap()
        if a.dtype.kind == 'b':
            f0 = fa
            fa = lambda i: tm.ind(f0(i))
        v = tm.fresh_ivar()
        key = ('arg', op, tm.mk_sum(v, n, tm.app('id', fa(v))).id)
        if not hasattr(E(), 'memo'):
            E().memo = {}
        K = E().memo.get(key)
        if K is None:
            K = E().fresh('arg' + op, 'I')
            E().memo[key] = K
        le = (lambda x, y: tm.le(x, y)) if op == 'min' else (lambda x, y: tm.le(y, x))
        lt = (lambda x, y: tm.lt(x, y)) if op == 'min' else (lambda x, y: tm.lt(y, x))
        f1 = tm.land(tm.le(ZERO, K), tm.lt(K, n))
        f2 = tm.forall_range(v, ZERO, n, le(fa(K), fa(v)))
        have = {h.id for h in E().hyps()}
        if f1.id not in have or f2.id not in have:
            E().assume(f1)
            E().assume(f2)
            E().assume(tm.forall_range(v, ZERO, K, lt(fa(K), fa(v))))
        return mknum(K, 'i')
    return f


argmax = _argext('max')
argmin = _argext('min')


def searchsorted(*a, **k):
    raise Unsupported('searchsorted')


def argsort(*a, **k):
    raise Unsupported('argsort')


def sort(*a, **k):
    raise Unsupported('sort')


class UniqueArr:
    """distinct values of a 1-d array: only its size is known"""
    def __init__(self, a):
        v = tm.fresh_ivar()
        n = a._shape[0]
        f = a.snap()
        body = tm.mk_sum(v, n, tm.app('id', f(v)))
        self.size_t = tm.app('nunique', n, body, sort='I')
        e = E()
        e.assume(tm.le(self.size_t, n))
        e.assume(tm.le(ZERO, self.size_t))
        e.assume(tm.implies(tm.lt(ZERO, n), tm.le(ONE, self.size_t)))
        self.characterise(e, n, f)
        self.shape = (mknum(self.size_t, 'i'),)
        self.size = mknum(self.size_t, 'i')
        self.dtype = a.dtype

    def characterise(self, e, n, f):
        """up to four different values: representatives at 0, w1, w2, w3; no
        more than k values exactly when the first k representatives cover all"""
        if e.gidx or self.size_t.k == 'c':
            return
        pos = tm.lt(ZERO, n)
        reps = [f(ZERO)]
        for k in (1, 2, 3):
            w = e.memo.get(('uniq', k, self.size_t.id))
            if w is None:
                w = e.memo[('uniq', k, self.size_t.id)] = tm.var(e.fresh_name('repr%d' % k), 'I')
            v = tm.fresh_ivar()
            few = tm.le(self.size_t, tm.const(k))
            cover = tm.forall(v, tm.lor(tm.lnot(tm.land(tm.le(ZERO, v), tm.lt(v, n))),
                                        *[tm.eq(f(v), r) for r in reps]))
            e.assume(tm.lor(tm.lnot(pos), tm.land(tm.le(ZERO, w), tm.lt(w, n))))
            e.assume(tm.lor(tm.lnot(pos), tm.lnot(few), cover))
            e.assume(tm.lor(tm.lnot(pos), few, tm.land(*[tm.lnot(tm.eq(f(w), r)) for r in reps])))
            reps.append(f(w))

    def length(self):
        return self.size_t

    def __len__(self):
        if self.size_t.k == 'c':
            return int(self.size_t.a)
        raise Unsupported('len of unique')


def unique(a, **k):
    a = _arr(a)
    if k:
        raise Unsupported('unique options')
    if a.orig is not None:
        a = a.orig
    if a.ndim != 1:
        raise Unsupported('unique of n-d')
    return UniqueArr(a)


def isin(*a, **k):
    raise Unsupported('isin')


# ------------------------------------------------------------------- shapes
def ravel(a, **k):
    a = _arr(a)
    if a.ndim == 1:
        return a
    if a.ndim == 0:
        return reshape(a, (1,))
    if a.ndim != 2:
        raise Unsupported('ravel of %d-d' % a.ndim)
    f = a.snap()
    M, N = a._shape
    r = new(lambda i: f(floordiv_t(i, N), mod_t(i, N)), (tm.mul2(M, N),), a.dtype)
    if isinstance(a, MArr):
        r = MArr.wrap(r, ravel(a.mask_))
    r.orig = a
    return r


def flatten(a, *x):
    a = _arr(a)
    return a.copy_() if a.ndim == 1 else ravel(a)


def reshape(a, *shape, **k):
    a = _arr(a)
    if len(shape) == 1 and isinstance(shape[0], (tuple, PList, list)):
        shape = tuple(shape[0])
    sh = [dim(s) for s in shape]
    if len(sh) == 1 and sh[0].k == 'c' and sh[0].a == -1:
        return ravel(a)
    src = a.orig if a.orig is not None else a
    if len(sh) == src.ndim and builtins_all(E().entails(tm.eq(x, y)) for x, y in zip(sh, src._shape)):
        return SArr.new(src.snap(), src._shape, src.dtype)
    f = a.snap() if a.ndim == 1 else (ravel(a).snap() if a.ndim else (lambda i: a.at()))
    neg1 = [k for k, s in enumerate(sh) if s.k == 'c' and s.a == -1]
    size = lift(a.size).t
    if neg1:
        rest = [s for k, s in enumerate(sh) if k != neg1[0]]
        sh[neg1[0]] = floordiv_t(size, tm.mul(*rest) if rest else ONE)
    if not same_dim(tm.mul(*sh) if sh else ONE, size):
        raise ValueError('cannot reshape array')

    def fn(*i):
        r = ZERO
        for x, s in zip(i, sh):
            r = tm.add(tm.mul2(r, s), x)
        return f(r)
    return new(fn, sh, a.dtype)


def builtins_all(it):
    for x in it:
        if not x:
            return False
    return True


def transpose(a, *axes):
    a = _arr(a)
    if axes and axes[0] is not None and tuple(axes[0] if isinstance(axes[0], tuple) else axes) not in ((1, 0),):
        raise Unsupported('transpose axes')
    if a.ndim < 2:
        return a
    if a.ndim != 2:
        raise Unsupported('transpose of %d-d' % a.ndim)
    view = tuple(v if v[0] == 'fix' else ('dim', 1 - v[1], v[2], v[3]) for v in a.view)
    sh = (a._shape[1], a._shape[0])
    if isinstance(a, MArr):
        return MArr(a.buf, view, sh, transpose(a.mask_))
    return SArr(a.buf, view, sh)


def tile(a, reps):
    a = _arr(a)
    rp = reps if isinstance(reps, (tuple, list)) else (list(reps) if isinstance(reps, PList) else (reps,))
    rp = [lift(x) for x in rp]
    if builtins_any(x.kind != 'i' for x in rp):
        raise TypeError('float object cannot be interpreted as an integer')
    rp = [x.t for x in rp]
    nd = len(rp) if len(rp) > a.ndim else a.ndim
    rp = [ONE] * (nd - len(rp)) + rp
    sh = [ONE] * (nd - a.ndim) + list(a._shape)
    f = a.snap()
    off = nd - a.ndim
    return new(lambda *i: f(*[ZERO if s is ONE else i[off + k] if rp[off + k] is ONE else mod_t(i[off + k], s) for k, s in enumerate(a._shape)]),
               [tm.mul2(r, s) for r, s in zip(rp, sh)], a.dtype)


def repeat(a, n, axis=None):
    a = _arr(a)
    if a.ndim > 1:
        raise Unsupported('repeat n-d')
    f = a.snap()
    n = lift(n).t
    m = a._shape[0] if a.ndim else ONE
    return new(lambda i: f(floordiv_t(i, n)) if a.ndim else f(), (tm.mul2(m, n),), a.dtype)


def builtins_any(it):
    for x in it:
        if x:
            return True
    return False


def concatenate(xs, axis=0, **k):
    xs = [_arr(x) for x in xs]
    if builtins_any(x.ndim != 1 for x in xs):
        raise Unsupported('concatenate n-d')
    dt = xs[0].dtype
    for x in xs:
        dt = promote(dt, x.dtype)
    fs = [x.snap() for x in xs]
    tot = ZERO
    offs = []
    for x in xs:
        offs.append(tot)
        tot = tm.add(tot, x._shape[0])

    def fn(i):
        r = fs[-1](tm.sub(i, offs[-1]))
        for k in range(len(fs) - 2, -1, -1):
            r = tm.ite(tm.lt(i, offs[k + 1]), fs[k](tm.sub(i, offs[k])), r)
        return r
    return new(fn, (tot,), dt)


def hstack(xs):
    return concatenate([a if isinstance(a, SArr) and a.ndim else reshape(_arr(a), (1,)) if not isinstance(a, SArr) and is_num(a) else _arr(a) for a in xs])


def append(a, b, **k):
    b = _arr(b)
    if b.ndim == 0:
        b = reshape(b, (1,))
    return concatenate([_arr(a), b])


def stack(xs, axis=0):
    return array(list(xs))


vstack = stack


def atleast_1d(a):
    a = _arr(a)
    return a if a.ndim else reshape(a, (1,))


def squeeze(a):
    a = _arr(a)
    while a.ndim and builtins_any(s is ONE for s in a._shape):
        k = [s is ONE for s in a._shape].index(True)
        a = a[(slice(None),) * k + (0,)]
        if not isinstance(a, SArr):
            return a
    return a


def expand_dims(a, axis):
    a = _arr(a)
    ax = int(axis) % (a.ndim + 1)
    return a[(slice(None),) * ax + (None,)]


def flip(a, axis=None):
    a = _arr(a)
    return a[::-1] if a.ndim == 1 or axis == 0 else a[:, ::-1]


flipud = lambda a: _arr(a)[::-1]
fliplr = lambda a: _arr(a)[:, ::-1]


def rot90(a, k=1):
    raise Unsupported('rot90')


def shape(a):
    return _arr(a).shape


def size(a, axis=None):
    a = _arr(a)
    return a.size if axis is None else a.shape[axis]


def ndim(a):
    return _arr(a).ndim


def isscalar(a):
    return is_num(a) or isinstance(a, (str, SStr))


def may_share_memory(a, b):
    return a.buf is b.buf


shares_memory = may_share_memory


def fancy_get(a, key):
    if isinstance(key, tuple):
        if len(key) == 1 and a.ndim == 1:
            return fancy_get(a, key[0])
        raise Unsupported('fancy index tuple')
    k = _arr(key)
    if k.dtype.kind == 'b':
        # boolean selection: the selected elements as a masked view
        if k.ndim != a.ndim:
            raise Unsupported('boolean row selection')
        if a.ndim == 1 and a._shape[0].k != 'c' and not isinstance(a, MArr):
            v, fk = tm.fresh_ivar(), k.snap()
            if E().branch(tm.forall_range(v, ZERO, a._shape[0], fk(v))):
                return new(a.snap(), a._shape, a.dtype)
        elif a.ndim == 1 and not isinstance(a, MArr) and a._shape[0].a <= 4:
            # few elements: decide each
            fk = k.snap()
            flags = [TRUE if E().branch(fk(tm.const(i))) else FALSE for i in range(int(a._shape[0].a))]
            k = new(lambda i: flags[int(i.a)] if i.k == 'c' else tm.lor(*[
                tm.land(tm.eq(i, tm.const(j)), t) for j, t in enumerate(flags)]), a._shape, bool_)
        return select(a, k)
    if k.dtype.kind not in 'iu' or (k.ndim and k._shape[0] is ZERO and False):
        raise IndexError('arrays used as indices must be of integer (or boolean) type')
    fk = k.snap()
    f = a.snap()
    n = a._shape[0]
    v = tm.fresh_ivar()
    if k.ndim == 1:
        ok = tm.forall_range(v, ZERO, k._shape[0], tm.land(tm.le(tm.neg(n), fk(v)), tm.lt(fk(v), n)))
        if not E().branch(ok):
            raise IndexError('index out of bounds')
    else:
        raise Unsupported('n-d fancy index')

    def fn(i, *r):
        x = fk(i)
        x = tm.ite(tm.lt(x, ZERO), tm.add(x, n), x)
        return f(x, *r)
    return new(fn, k._shape + a._shape[1:], a.dtype)


def select(a, keep):
    """a[keep]; an ordinary array when every element of keep is decided"""
    if B.all(n.k == 'c' for n in a._shape):
        dims = [int(n.a) for n in a._shape]
        tot = 1
        for n in dims:
            tot *= n
        if tot <= 16:
            import itertools
            ids = {h.id for h in E().hyps()}
            f, k, pos = a.snap(), keep.snap(), []
            for i in itertools.product(*[range(n) for n in dims]):
                ti = [tm.const(x) for x in i]
                t = k(*ti)
                if t is TRUE or t.id in ids:
                    pos.append(f(*ti))
                elif not (t is FALSE or tm.lnot(t).id in ids):
                    break
            else:
                def fn(x):
                    if x.k == 'c':
                        return pos[int(x.a)] if 0 <= x.a < len(pos) else ZERO
                    r = pos[-1] if pos else ZERO
                    for j in range(len(pos) - 2, -1, -1):
                        r = tm.ite(tm.eq(x, tm.const(j)), pos[j], r)
                    return r
                return new(fn, (tm.const(len(pos)),), a.dtype)
    return Selected(a, keep)


class Selected(MArr):
    """a[mask]: 1-d; reductions and elementwise operations only"""
    def __init__(self, a, keep):
        f = keep.snap()
        m = new(lambda *i: tm.lnot(f(*i)), a._shape, bool_)
        MArr.__init__(self, a.buf, a.view, a._shape, m)
        self.keep = keep

    @property
    def size(self):
        return ma.count(self)

    @property
    def shape(self):
        return (ma.count(self),)

    def __getitem__(self, k):
        raise Unsupported('indexing a boolean selection')


def fancy_set(a, key, val):
    if isinstance(key, tuple):
        ks = [_arr(k) if isinstance(k, (PList, list, SArr)) else k for k in key]
        if len(ks) == a.ndim and builtins_all_arr(ks):
            return scatter(a, ks, val)
        raise Unsupported('fancy assignment')
    k = _arr(key)
    if k.dtype.kind == 'b':
        if k.ndim != a.ndim:
            raise Unsupported('boolean row assignment')
        v = where(k, val, a)
        SArr(a.buf, a.view, a._shape).assign(v)
        return
    if k.ndim == 1 and a.ndim == 1:
        return scatter(a, [k], val)
    raise Unsupported('fancy assignment')


def builtins_all_arr(ks):
    return builtins_all(isinstance(k, SArr) and k.ndim == 1 for k in ks)


def scatter(a, ks, val):
    """a[k0, k1, ...] = scalar"""
    if not is_num(val):
        raise Unsupported('scatter of an array')
    n = ks[0]._shape[0]
    fs = [k.snap() for k in ks]
    v = tm.fresh_ivar()
    f = a.snap()
    t = caster(float64, a.dtype)(lift(val).t)

    def fn(*i):
        hit = tm.exists_range(v, ZERO, n, tm.land(*[tm.eq(g(v), x) for g, x in zip(fs, i)]))
        return tm.ite(hit, t, f(*i))
    SArr(a.buf, a.view, a._shape).assign(new(fn, a._shape, a.dtype))


def put(*a, **k):
    raise Unsupported('put')


def fill_diagonal(*a, **k):
    raise Unsupported('fill_diagonal')


# ------------------------------------------------------------------ methods
def astype(a, dt, copy=True, **k):
    if isinstance(a, CArr):
        raise Unsupported('complex astype')
    dt = as_dtype(dt)
    if dt.kind == 'O':
        return a.copy_()
    c = caster(a.dtype, dt)
    f = a.snap()
    r = new(lambda *i: c(f(*i)), a._shape, dt)
    if isinstance(a, MArr):
        r = MArr.wrap(r, a.mask_)
    if a.orig is not None:
        r.orig = astype(a.orig, dt)
    return r


def _copy(a, *x):
    r = a.copy_()
    if isinstance(a, MArr):
        return MArr.wrap(r, a.mask_.copy_())
    return r


def _fill(a, v):
    SArr(a.buf, a.view, a._shape).assign(v)


def _tolist(a):
    if a.ndim == 0:
        return a._scalar(a.at())
    if a.ndim == 1:
        f = a.snap()
        if a._shape[0].k == 'c':
            return PList([a[i] for i in range(int(a._shape[0].a))])
        return PList(segs=[Seg(a._shape[0], lambda i: mknum(f(i), 'i' if a.dtype.kind in 'iu' else 'f'))])
    return PList(segs=[Seg(a._shape[0], lambda i: _tolist(row(a, i)))])


def _item(a, *i):
    if not i:
        return a._scalar(a.at(*([ZERO] * a.ndim)))
    return a[tuple(i)]


def _set_clip(a, lo=None, hi=None, out=None, **k):
    return clip(a, lo, hi, out=out, **k)


METHODS = {
    'astype': astype, 'copy': _copy, 'fill': _fill, 'tolist': _tolist, 'item': _item,
    'mean': mean, 'sum': sum, 'max': max, 'min': min, 'var': var, 'std': std, 'all': all, 'any': any,
    'cumsum': cumsum, 'ravel': ravel, 'flatten': flatten, 'reshape': reshape, 'transpose': transpose,
    'argmax': argmax, 'argmin': argmin, 'nonzero': nonzero, 'clip': _set_clip, 'round': round_,
    'prod': prod, 'dot': dot, 'conjugate': lambda a: a, 'conj': lambda a: a, 'squeeze': squeeze,
    'repeat': repeat, 'ptp': ptp, 'swapaxes': lambda a, i, j: transpose(a), 'view': lambda a, *x: a,
    'filled': lambda a, v=None: ma.filled(a, v), 'compressed': lambda a: ma.compressed(a),
    'count': lambda a, axis=None: ma.count(a, axis), 'tobytes': lambda a: Poison('bytes of an array'),
    '__array__': lambda a, *x: a,
}
ndarray = SArr


# ------------------------------------------------------------------ complex
class CArr:
    """complex array: real and imaginary parts"""
    cplx = True
    __array_priority__ = 3000

    def __init__(self, re, im):
        self.re, self.im = re, im

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    @property
    def shape(self):
        return self.re.shape

    @property
    def ndim(self):
        return self.re.ndim

    @property
    def dtype(self):
        return complex128

    def conjugate(self):
        return CArr(self.re, -self.im)
    conj = conjugate

    def abs(self):
        re, im = self.re.snap(), self.im.snap()
        return new(lambda *i: tm.modulus(re(*i), im(*i)), self.re._shape, float64)

    def __abs__(self):
        return self.abs()

    def __getitem__(self, k):
        return CArr(self.re[k], self.im[k])

    def __mul__(self, o):
        return cbinop('mul', self, o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return cbinop('div', self, o)

    def __add__(self, o):
        return cbinop('add', self, o)

    def __sub__(self, o):
        return cbinop('sub', self, o)

    def inplace(self, name, o):
        r = cbinop(name, self, o)
        old = (self.re, self.im)
        self.re, self.im = r.re, r.im

        def undo():
            self.re, self.im = old
        E().log(undo)
        return self

    def mean(self, axis=None):
        return CArr(mean(self.re, axis), mean(self.im, axis))


def cbinop(name, a, b):
    if isinstance(a, CArr) and isinstance(b, CArr):
        if name == 'mul':
            return CArr(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re)
        if name == 'add':
            return CArr(a.re + b.re, a.im + b.im)
        if name == 'sub':
            return CArr(a.re - b.re, a.im - b.im)
        raise Unsupported('complex ' + name)
    if isinstance(a, CArr):
        if name == 'mul':
            return CArr(a.re * b, a.im * b)
        if name == 'div':
            return CArr(binop('div', a.re, b), binop('div', a.im, b))
        if name in ('add', 'sub'):
            return CArr(binop(name, a.re, b), a.im)
        if name == 'pow' and is_num(b) and lift(b).t.k == 'c' and lift(b).t.a == 2:
            return cbinop('mul', a, a)
    elif name == 'mul':
        return cbinop('mul', b, a)
    raise Unsupported('complex ' + name)


class _FFT:
    """discrete Fourier transform; cos and sin of 2 pi k n / N stay symbols"""

    @staticmethod
    def fft(a, n=None, axis=-1, norm=None):
        a = _arr(a)
        if n is not None or norm is not None:
            raise Unsupported('fft options')
        ax = _axes(a, axis)[0]
        f = a.snap()
        N = a._shape[ax]

        def part(fn, sgn):
            def g(*i):
                v = tm.fresh_ivar()
                idx = list(i)
                k = idx[ax]
                idx[ax] = v
                s = tm.mk_sum(v, N, tm.mul2(f(*idx), tm.app(fn, k, v, N)))
                return s if sgn > 0 else tm.neg(s)
            return new(g, a._shape, float64)
        return CArr(part('cos2pi', 1), part('sin2pi', -1))

    @staticmethod
    def rfft(a, n=None, axis=-1, norm=None):
        a = _arr(a)
        r = _FFT.fft(a, n, axis, norm)
        ax = _axes(a, axis)[0]
        half = mknum(tm.add(floordiv_t(a._shape[ax], tm.const(2)), ONE), 'i')
        key = (slice(None),) * ax + (slice(None, half),)
        return r[key]

    @staticmethod
    def _no(*a, **k):
        raise Unsupported('numpy.fft function')
    ifft = fft2 = rfftfreq = fftfreq = fftshift = _no


fft = _FFT


# --------------------------------------------------------------- histogram
def histogram(y, bins=10, range=None, density=None, weights=None):
    """assumed contract: counts of bin k are the elements with
    edge[k] <= y < edge[k+1], the last bin closed on the right"""
    y = _arr(y)
    if density or weights is not None:
        raise Unsupported('histogram options')
    if is_num(bins):
        if range is None:
            raise Unsupported('histogram without range')
        q = lift(bins).t
        lo, hi = lift(range[0]).t, lift(range[1]).t
        w = tm.mul2(tm.sub(hi, lo), tm.inv(q))
        edges = new(lambda i: tm.add(lo, tm.mul2(i, w)), (tm.add(q, ONE),), float64)
    else:
        edges = _arr(bins)
    e = edges.snap()
    n = tm.sub(edges._shape[0], ONE)
    src = y.orig if y.orig is not None else y
    mf = y.mask_.snap() if isinstance(y, Selected) else None
    if isinstance(y, MArr):
        src = src.plain() if isinstance(src, MArr) else src     # np.histogram ignores the mask
    f = src.snap()
    # bin edges must increase monotonically
    v = tm.fresh_ivar()
    if not E().branch(tm.forall_range(v, ZERO, n, tm.le(e(v), e(tm.add(v, ONE))))):
        raise ValueError('`bins` must increase monotonically')

    def fn(k):
        idx, b = [], []
        for s in src._shape:
            w = tm.fresh_ivar()
            idx.append(w)
            b.append((w, s))
        x = f(*idx)
        up = e(tm.add(k, ONE))
        last = tm.eq(k, tm.sub(n, ONE))
        c = tm.land(tm.le(e(k), x), tm.lor(tm.lt(x, up), tm.land(last, tm.le(x, up))))
        if mf is not None:
            c = tm.land(tm.lnot(mf(*idx)), c)
        return _nest_sum(b, tm.ind(c))
    return new(fn, (n,), int64), edges


def bincount(*a, **k):
    raise Unsupported('bincount')


def polyfit(*a, **k):
    raise Unsupported('polyfit')


def interp(*a, **k):
    raise Unsupported('interp')


# --------------------------------------------------------------------- ma
class _MA:
    MaskedArray = MArr
    nomask = False
    masked = object()

    class core:
        MaskedArray = MArr

    @staticmethod
    def array(a, mask=False, dtype=None, **k):
        a0 = _arr(a)
        base = a0.plain() if isinstance(a0, MArr) else a0
        if mask is None or mask is False:
            if isinstance(a0, MArr):
                return MArr.wrap(base, a0.mask_)
            m = new(lambda *i: FALSE, base._shape, bool_)
        else:
            m = _arr(mask)
            _bshape([m._shape, base._shape])
            if m.dtype.kind != 'b':
                m = astype(m, bool_)
            if isinstance(a0, MArr):
                f, g = m.snap(), a0.mask_.snap()
                m = new(lambda *i: tm.lor(f(*i), g(*i)), base._shape, bool_)
        if dtype is not None:
            base = astype(base, dtype)
        return MArr.wrap(base, m)
    masked_array = array

    @staticmethod
    def getmask(a):
        return a.mask_ if isinstance(a, MArr) else False

    @staticmethod
    def getmaskarray(a):
        return a.mask_ if isinstance(a, MArr) else new(lambda *i: FALSE, _arr(a)._shape, bool_)

    @staticmethod
    def getdata(a):
        return a.plain() if isinstance(a, MArr) else _arr(a)

    @staticmethod
    def is_masked(a):
        return bool(any(a.mask_)) if isinstance(a, MArr) else False

    @staticmethod
    def isMaskedArray(a):
        return isinstance(a, MArr)
    isMA = isarray = isMaskedArray

    @staticmethod
    def count(a, axis=None):
        a = _arr(a)
        if not isinstance(a, MArr):
            return a.size if axis is None else a.shape[axis]
        return _reduce(a, axis, lambda b, x, m: _count(b, m), int64, masks=False)

    @staticmethod
    def filled(a, v=None):
        if not isinstance(a, MArr):
            return a
        if v is None:
            raise Unsupported('default fill value')
        f, m = a.snap(), a.mask_.snap()
        t = lift(v).t
        r = new(lambda *i: tm.ite(m(*i), t, f(*i)), a._shape, a.dtype)
        return r

    @staticmethod
    def compressed(a):
        if not isinstance(a, MArr):
            return ravel(_arr(a))
        if isinstance(a, Selected):
            return a
        if a.orig is not None and isinstance(a.orig, MArr):
            a = a.orig
        k = new((lambda g: (lambda *i: tm.lnot(g(*i))))(a.mask_.snap()), a._shape, bool_)
        src = a.plain()
        return select(src, k)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('numpy.ma.' + n)


# masked_array is both a function and (in isinstance) a class in numpy
class _MMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, MArr)

    def __call__(cls, *a, **k):
        return _MA.array(*a, **k)


class MaskedArray(metaclass=_MMeta):
    pass


_MA.MaskedArray = MaskedArray
_MA.masked_array = MaskedArray
_MA.core.MaskedArray = MaskedArray
ma = _MA()


# ------------------------------------------------------------------- random
class _Rng:
    def __init__(self, seed=None):
        self.seed = seed

    def _draw(self, name, size, sort, fact, dt):
        e = E()
        sh = () if size is None else _shape_arg(size)
        nm = e.fresh_name(name)
        g = list(e.gidx)
        fn = lambda *i: tm.app(nm, *g, *i, sort=sort)
        vs = [tm.fresh_ivar() for _ in sh]
        f = fact(fn(*vs), vs)
        if f is not None:
            for v, s in zip(vs, sh):
                f = tm.forall_range(v, ZERO, s, f)
            e.assume(f)
        r = new(fn, sh, dt)
        return r if sh else r._scalar(r.at())

    @staticmethod
    def _par(x):
        if isinstance(x, SArr):
            f = x.snap()
            return f, x._shape
        t = lift(x).t
        return (lambda *i: t), ()

    def poisson(self, lam=1, size=None):
        lf, ls = self._par(lam)
        e = E()
        if size is None and ls:
            size = tuple(dimval(s) for s in ls)
        vs = [tm.fresh_ivar() for _ in ls]
        ok = tm.le(ZERO, lf(*vs))
        inside = [x for v, s in zip(vs, ls) for x in (tm.le(ZERO, v), tm.lt(v, s))]
        if smt.Prover(6.0, 1.5).sign_nonneg(list(e.hyps()) + inside, lf(*vs)):
            ok = TRUE
        for v, s in zip(vs, ls):
            ok = tm.forall_range(v, ZERO, s, ok)
        if not e.branch(ok):
            raise ValueError('lam < 0 or lam is NaN')
        sh = () if size is None else _shape_arg(size)
        if ls:
            _bshape([ls, sh])
        g = _bfn(lf, ls, sh)
        return self._draw('poisson', size, 'I', lambda x, v: tm.land(
            tm.le(ZERO, x), tm.implies(tm.eq(g(*v), ZERO), tm.eq(x, ZERO))), int64)

    def normal(self, loc=0, scale=1, size=None):
        f, s = self._par(scale)
        l, _ = self._par(loc)
        if s:
            raise Unsupported('normal with array scale')
        if not smt.Prover(6.0, 1.5).sign_nonneg(list(E().hyps()), f()) and E().branch(tm.lt(f(), ZERO)):
            raise ValueError('scale < 0')
        return self._draw('normal', size, 'R', lambda x, v: None if s or _ else tm.implies(
            tm.eq(f(), ZERO), tm.eq(x, l())), float64)

    def standard_normal(self, size=None):
        return self._draw('normal', size, 'R', lambda x, v: None, float64)

    def uniform(self, low=0, high=1, size=None):
        a, b = lift(low).t, lift(high).t
        return self._draw('uniform', size, 'R', lambda x, v: tm.land(
            tm.le(tm.min2(a, b), x), tm.le(x, tm.max2(a, b))), float64)

    def random(self, size=None):
        return self.uniform(0, 1, size)

    def integers(self, low, high=None, size=None, **k):
        if high is None:
            low, high = 0, low
        a, b = lift(low).t, lift(high).t
        if E().branch(tm.le(b, a)):
            raise ValueError('low >= high')
        return self._draw('integers', size, 'I', lambda x, v: tm.land(tm.le(a, x), tm.lt(x, b)), int64)
    randint = integers

    def choice(self, a, size=None, replace=True, **k):
        if is_num(a):
            n = lift(a).t
            src = lambda t: t
            dt = int64
        else:
            arr = _arr(a)
            n = arr._shape[0]
            src = arr.snap()
            dt = arr.dtype
        if size is None:
            K = E().fresh('choice', 'I')
            E().assume(tm.land(tm.le(ZERO, K), tm.lt(K, n)))
            return SNum(src(K), 'i' if dt.kind in 'iu' else 'f')
        k_ = lift(size).t if is_num(size) else None
        if k_ is None:
            raise Unsupported('choice size')
        if not replace and E().branch(tm.lt(n, k_)):
            raise ValueError('Cannot take a larger sample than population when replace is False')
        e = E()
        nm = e.fresh_name('choice')
        v, w = tm.fresh_ivar(), tm.fresh_ivar()
        g = list(e.gidx)
        fn = lambda i: tm.app(nm, *g, i, sort='I')
        e.assume(tm.forall_range(v, ZERO, k_, tm.land(tm.le(ZERO, fn(v)), tm.lt(fn(v), n))))
        if not replace:
            e.assume(tm.forall_range(v, ZERO, k_, tm.forall_range(w, ZERO, k_, tm.implies(
                tm.eq(fn(v), fn(w)), tm.eq(v, w)))))
        if is_num(a):
            e.ranges[nm] = (0, mknum(tm.sub(n, ONE), 'i'))
        r = new(lambda i: src(fn(i)), (k_,), dt)
        r.distinct = not replace
        return r

    def permutation(self, a):
        n = lift(a).t if is_num(a) else _arr(a)._shape[0]
        return self.choice(a, mknum(n, 'i'), replace=False)

    def shuffle(self, a):
        raise Unsupported('shuffle')

    def rand(self, *s):
        return self.uniform(0, 1, s)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('numpy.random.' + n)


class _Random(_Rng):
    Generator = _Rng
    RandomState = _Rng

    @staticmethod
    def default_rng(seed=None):
        return _Rng(seed)


random = _Random()


class vectorize:
    def __init__(self, f, **k):
        self.f, self.k = f, k

    def __call__(self, a):
        a = _arr(a)
        if a.ndim == 0:
            return self.f(a._scalar(a.at()))
        if a.masked:
            raise Unsupported('vectorize over a masked array')
        if a.ndim == 1 and a._shape[0] is ZERO and not self.k.get('otypes'):
            raise ValueError('cannot call `vectorize` on size 0 inputs unless `otypes` is set')
        if a.ndim == 1 and a._shape[0].k == 'c':
            r = _array(PList([self.f(x) for x in a]))
        elif a.ndim == 1:
            if not self.k.get('otypes') and E().branch(tm.eq(a._shape[0], ZERO)):
                raise ValueError('cannot call `vectorize` on size 0 inputs unless `otypes` is set')
            from .runtime import RT, merge_values
            v = tm.fresh_ivar()
            x = lift(merge_values(RT.generic(v, a._shape[0], lambda: self.f(a._scalar(a.at(v))))))
            r = new(lambda i: tm.subst(x.t, {v: i}), a._shape, int64 if x.kind == 'i' else float64)
        else:
            raise Unsupported('vectorize over a matrix')
        o = self.k.get('otypes')
        return r if not o else astype(r, o[0])


class errstate:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def seterr(**k):
    return {}


def set_printoptions(**k):
    pass


def iinfo(d):
    lo, hi = int_range(as_dtype(d))
    return types.SimpleNamespace(min=lo, max=hi, bits=as_dtype(d).bits)


def finfo(d=None):
    return types.SimpleNamespace(eps=SNum(tm.const(Fraction(1, 2 ** 52)), 'f'), max=SNum(tm.const(Fraction(2) ** 1023), 'f'))


def allclose(*a, **k):
    raise Unsupported('allclose')


def array_equal(a, b):
    a, b = _arr(a), _arr(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a._shape, b._shape):
        if not E().branch(tm.eq(x, y)):
            return False
    return all(binop('eq', a, b))


def fromiter(it, dtype=None, **k):
    return array(it, dtype=dtype)


def nditer(*a, **k):
    raise Unsupported('nditer')


def ndenumerate(*a):
    raise Unsupported('ndenumerate')


def nan_to_num(a, **k):
    return a


PI = tm.var('pi', 'R')
EUL = tm.var('e', 'R')


def module():
    """the module object bound to the name numpy in the transformed source"""
    m = types.ModuleType('numpy')
    for k, v in globals().items():
        if k.startswith('_') or k in ('tm', 'eng', 'T', 'E', 'types', 'Fraction', 'DT', 'Buf', 'module'):
            continue
        setattr(m, k, v)
    m.pi = SNum(PI, 'f')
    m.e = SNum(EUL, 'f')
    m.nan = m.NaN = NAN
    m.inf = SNum(tm.var('inf', 'R'), 'f')
    m.newaxis = None
    m.bool = bool_
    m.uint = uint64
    m.intp = int64
    m.int_ = int64
    m.float_ = float64
    m.double = float64
    m.complex128 = complex128
    m.linalg = _Missing('numpy.linalg')
    m.polynomial = _Missing('numpy.polynomial')
    m.ndarray = _NdarrayType
    m.__version__ = '2'

    def _missing(name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name in ('int', 'float', 'complex', 'object', 'str', 'Inf', 'infty', 'product', 'trapz', 'in1d'):
            raise AttributeError("module 'numpy' has no attribute %r" % name)
        raise Unsupported('numpy.' + name)
    m.__getattr__ = _missing
    return m


class _NdMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (SArr, CArr))


class _NdarrayType(metaclass=_NdMeta):
    pass


class _Missing:
    def __init__(self, n):
        self.__dict__['n'] = n

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return _Missing(self.n + '.' + k)

    def __call__(self, *a, **k):
        raise Unsupported(self.n)

    def _u(self, *a):
        raise Unsupported(self.n)
    __bool__ = __eq__ = __iter__ = __len__ = __getitem__ = __add__ = __mul__ = __float__ = __int__ = _u
    __hash__ = object.__hash__
