"""Python built-ins and library modules for symbolic values."""
import builtins as B
import types
from fractions import Fraction
from . import terms as tm
from . import engine as eng
from . import snp
from .engine import Unsupported
from .terms import ZERO, ONE, TRUE, FALSE
from .values import (SNum, SNaN, NAN, SBool, SStr, SArr, PList, PDict, PSet, PView, SRange, SIter, SSlice, Seg, FlatSeg,
                     OptSeg, Fam, Poison, NANT, mkbool, mknum, lift, is_num, bterm, simp_abs, simp_ite, num_round,
                     sym_iter, iter_any, seglen, seqget, as_segs, items_seg, eq_term, sterm, vterm, mkcat, row, fmt_value)


def E():
    return eng.E


# ------------------------------------------------------------------- numbers
class _Meta(type):
    base = ()

    def __instancecheck__(cls, o):
        return cls.check(o)

    def __subclasscheck__(cls, c):
        return c is cls or B.issubclass(c, cls.base)

    def __call__(cls, *a, **k):
        return cls.make(*a, **k)

    def __eq__(cls, o):
        return cls is o or o in cls.base

    def __hash__(cls):
        return B.hash(cls.__name__)


class int_(metaclass=_Meta):
    base = (int,)
    __name__ = 'int'

    @staticmethod
    def check(o):
        # numpy scalars are not int instances; symbolic integers from inputs are
        return B.isinstance(o, int) or (B.isinstance(o, SNum) and o.kind == 'i') or B.isinstance(o, SBool)

    @staticmethod
    def make(x=0, base=None):
        if B.isinstance(x, B.str):
            v = E().text.get(x.strip())
            if v is not None:
                if v.kind != 'i':
                    raise ValueError('invalid literal for int()')
                return v
            return int(x) if base is None else int(x, base)
        if B.isinstance(x, SStr):
            t = x.t
            ok = tm.app('is_int', t, sort='B')
            if not E().branch(ok):
                raise ValueError('invalid literal for int()')
            return mknum(tm.app('int', t, sort='I'), 'i')
        if B.isinstance(x, SNaN):
            raise ValueError('cannot convert float NaN to integer')
        if is_num(x) or (B.isinstance(x, SArr) and x.ndim == 0):
            return mknum(snp.trunc_t(lift(x).t), 'i')
        if B.isinstance(x, SArr):
            if B.all(s is ONE for s in x._shape):
                return mknum(snp.trunc_t(x.at(*([ZERO] * x.ndim))), 'i')
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        raise TypeError('int() argument must be a string or a number, not %s' % B.type(x).__name__)

    @staticmethod
    def from_bytes(*a, **k):
        raise Unsupported('int.from_bytes')


class float_(metaclass=_Meta):
    base = (float,)
    __name__ = 'float'

    @staticmethod
    def check(o):
        return B.isinstance(o, (float, Fraction, SNaN)) or (B.isinstance(o, SNum) and o.kind == 'f')

    @staticmethod
    def make(x=0.0):
        if B.isinstance(x, B.str):
            s = x.strip()
            v = E().text.get(s)
            if v is not None:
                return SNum(v.t, 'f')
            if s.lower() in ('nan', '+nan', '-nan'):
                return NAN
            if s.lower().lstrip('+-') in ('inf', 'infinity'):
                raise Unsupported('infinity')
            v = B.float(s)
            return SNum(tm.const(Fraction(s.replace('_', ''))), 'f')
        if B.isinstance(x, SStr):
            if x.t.k == 'app' and x.t.a[0] in ('numtextf', 'numtexti'):
                return SNum(x.t.a[1][0], 'f')
            ok = tm.app('is_float', x.t, sort='B')
            if not E().branch(ok):
                raise ValueError('could not convert string to float')
            return SNum(tm.app('float', x.t), 'f')
        if B.isinstance(x, SNaN):
            return x
        if is_num(x) or (B.isinstance(x, SArr) and x.ndim == 0):
            return SNum(lift(x).t, 'f')
        if B.isinstance(x, SArr):
            if B.all(s is ONE for s in x._shape):
                return SNum(x.at(*([ZERO] * x.ndim)), 'f')
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        raise TypeError('float() argument must be a string or a real number, not %s' % B.type(x).__name__)


class bool_(metaclass=_Meta):
    base = (bool,)
    __name__ = 'bool'

    @staticmethod
    def check(o):
        return B.isinstance(o, (bool, SBool))

    @staticmethod
    def make(x=False):
        if B.isinstance(x, SBool):
            return x
        if B.isinstance(x, SNum):
            return mkbool(tm.ne(x.t, ZERO))
        return B.bool(x)


class str_(metaclass=_Meta):
    base = (B.str,)
    __name__ = 'str'

    @staticmethod
    def check(o):
        return B.isinstance(o, (B.str, SStr))

    @staticmethod
    def make(x='', *a):
        if B.isinstance(x, (SStr, B.str)):
            return x
        if B.isinstance(x, (SNum,)):
            return fmt_value('', x)
        if B.isinstance(x, SNaN):
            return 'nan'
        if B.isinstance(x, SArr):
            return SStr(tm.app('str', tm.strc('array'), sort='O'))
        if B.isinstance(x, (B.bool, int)) or x is None:
            return B.str(x)
        if B.isinstance(x, B.BaseException):
            return SStr(tm.app('str', tm.strc('exception'), sort='O'))
        if B.isinstance(x, (PList, PDict, PSet, SBool)):
            return SStr(tm.app('str', tm.strc(B.type(x).__name__), sort='O'))
        return B.str(x)

    @staticmethod
    def join(s, it):
        return str_join(s, it)


def _conc(it):
    s = sym_iter(it)
    return None if s is not None else B.list(it)


class list_(metaclass=_Meta):
    base = (list,)
    __name__ = 'list'

    @staticmethod
    def check(o):
        return B.isinstance(o, (list,)) or (B.isinstance(o, PList) and not B.isinstance(o, PView))

    @staticmethod
    def make(it=()):
        if B.isinstance(it, PList):
            return PList(segs=B.list(it.segs))
        if B.isinstance(it, PDict):
            return PList(segs=B.list(it.keys().segs))
        return PList(segs=as_segs(it))


class tuple_(metaclass=_Meta):
    base = (tuple,)
    __name__ = 'tuple'

    @staticmethod
    def check(o):
        return B.isinstance(o, tuple)

    @staticmethod
    def make(it=()):
        c = _conc(it)
        if c is None:
            return PList(segs=as_segs(it))
        return B.tuple(c)


class dict_(metaclass=_Meta):
    base = (dict,)
    __name__ = 'dict'

    @staticmethod
    def check(o):
        return B.isinstance(o, (dict, PDict))

    @staticmethod
    def make(*a, **k):
        d = PDict()
        if a:
            d.update(a[0])
        d.update(k)
        return d

    @staticmethod
    def fromkeys(it, v=None):
        d = PDict()
        for k in it:
            d[k] = v
        return d


class OrderedDict_(metaclass=_Meta):
    base = ()
    __name__ = 'OrderedDict'

    @staticmethod
    def check(o):
        return B.isinstance(o, PDict) and o.ordered

    @staticmethod
    def make(*a, **k):
        d = dict_.make(*a, **k)
        d.ordered = True
        return d


class set_(metaclass=_Meta):
    base = (set,)
    __name__ = 'set'

    @staticmethod
    def check(o):
        return B.isinstance(o, (set, PSet))

    @staticmethod
    def make(it=()):
        return PSet.of(it)


frozenset_ = set_


def isinstance_(o, c):
    if B.isinstance(c, tuple):
        return B.any(isinstance_(o, x) for x in c)
    m = {int: int_, float: float_, bool: bool_, B.str: str_, list: list_, dict: dict_, set: set_, tuple: tuple_}
    if B.isinstance(c, type) and c in m and not B.isinstance(c, _Meta):
        c = m[c]
    if B.isinstance(c, snp._Abs):
        return is_num(o) and ('i' if lift(o).kind == 'i' else 'f') in c.kinds
    if B.isinstance(c, snp.DT):
        return is_num(o) and lift(o).kind == ('f' if c.kind == 'f' else 'i')
    return B.isinstance(o, c)


def type_(o, *a):
    if a:
        return B.type(o, *a)
    for c in (bool_, int_, float_, str_, list_, tuple_, dict_, set_):
        if c.check(o):
            return c
    if B.isinstance(o, SArr):
        return snp._NdarrayType
    return B.type(o)


def len_(x):
    if B.isinstance(x, (PList, PDict, PSet, SRange, SIter)):
        return mknum(x.length(), 'i')
    if B.isinstance(x, SArr):
        if not x._shape:
            raise TypeError('len() of unsized object')
        return x.shape[0]
    if B.isinstance(x, snp.UniqueArr):
        return x.size
    if B.isinstance(x, SStr):
        n = tm.app('strlen', x.t, sort='I')
        E().assume(tm.le(ZERO, n))
        return mknum(n, 'i')
    if hasattr(B.type(x), 'dv__len__'):
        return x.dv__len__()
    return B.len(x)


def range_(*a):
    return SRange(*a)


def enumerate_(it, start=0):
    s = sym_iter(it)
    if s is None:
        return PList([(mknum(tm.add(tm.const(i), lift(start).t), 'i'), x) for i, x in B.enumerate(B.list(it))])
    n, f = s
    st = lift(start).t
    return SIter(n, lambda i: (mknum(tm.add(i, st), 'i'), f(i)))


def zip_(*its, strict=False):
    if not its:
        return PList()
    ss = [sym_iter(i) for i in its]
    if B.all(s is None for s in ss):
        return PList([B.tuple(x) for x in B.zip(*[B.list(i) for i in its])])
    ss = [iter_any(i) for i in its]
    n = ss[0][0]
    for m, _ in ss[1:]:
        if m is not n:
            n = simp_ite(tm.le(n, m), n, m)
    fs = [f for _, f in ss]
    return SIter(n, lambda i: B.tuple(f(i) for f in fs))


def reversed_(it):
    s = sym_iter(it)
    if s is None:
        return PList(B.list(it)[::-1])
    n, f = s
    return SIter(n, lambda i: f(tm.sub(tm.sub(n, ONE), i)))


def map_(f, *its):
    if B.len(its) == 1:
        s = sym_iter(its[0])
        if s is None:
            return PList([f(x) for x in its[0]])
        from . import runtime
        return runtime.RT.mapcomp(s[0], s[1], f)
    return map_(lambda t: f(*t), zip_(*its))


def filter_(f, it):
    c = _conc(it)
    if c is None:
        from . import runtime
        x = runtime.RT.comp(True, it, lambda v: v, f if f is not None else (lambda v: v))
        return runtime.RT.compend('list', x)
    return PList([x for x in c if (f(x) if f else x)])


def iter_(it):
    if sym_iter(it) is not None:
        raise Unsupported('iter() of a symbolic sequence')
    return B.iter(B.list(it))


def next_(it, *d):
    if B.isinstance(it, PList):
        c = it.concrete()
        if c is None:
            n = it.length()
            if E().branch(tm.lt(ZERO, n)):
                return it.get(ZERO)
            if d:
                return d[0]
            raise StopIteration
        return c[0] if c else (d[0] if d else B.next(B.iter(())))
    return B.next(it, *d)


def sum_(it, start=0):
    s = sym_iter(it)
    if s is None:
        r = start
        for x in B.list(it):
            r = r + x
        return r
    n, f = s
    if B.isinstance(it, (PList,)) and B.any(not B.isinstance(g, Seg) for g in it.segs):
        r = start
        for g in it.segs:
            if B.isinstance(g, Seg):
                r = r + _sumseg(g.n, g.fn)
            elif B.isinstance(g, OptSeg):
                r = r + _sumseg(g.m, lambda i: g.fn(i) * SNum(tm.ind(g.cond(i)), 'i'))
            elif B.isinstance(g, FlatSeg):
                v = tm.fresh_ivar()
                t = sum_(PList(segs=g.seq(v)))
                r = r + mknum(tm.mk_sum(v, g.m, lift(t).t), lift(t).kind)
        return r
    return start + _sumseg(n, f)


def _sumseg(n, f):
    v = tm.fresh_ivar()
    x = f(v)
    if B.isinstance(x, SBool) or B.isinstance(x, bool):
        x = mknum(tm.ind(bterm(x)), 'i')
    if is_num(x):
        x = lift(x)
        return mknum(tm.mk_sum(v, n, x.t), x.kind)
    if B.isinstance(x, SArr):
        sh = x._shape
        if B.any(v in s.fv for s in sh):
            raise Unsupported('sum of arrays of varying shape')
        g = x.snap()
        return SArr.new(lambda *i: tm.mk_sum(v, n, g(*i)), sh, snp.int64 if x.dtype.kind in 'iub' else x.dtype)
    raise Unsupported('sum of %s' % B.type(x).__name__)


def _ext(op):
    def f(*a, key=None, default=Poison):
        if B.len(a) > 1:
            items = B.list(a)
        else:
            it = a[0]
            if B.isinstance(it, snp.IdxArr) and key is None:
                K = snp.index_extreme(it.cond, it.n, op)
                if it.two:
                    return SArr.new(lambda i: K, (ONE,), snp.int64)
                return SNum(K, 'i')
            s = sym_iter(it)
            if s is not None:
                if key is not None:
                    raise Unsupported('max with a key over a symbolic sequence')
                n, g = s
                if E().branch(tm.eq(n, ZERO)):
                    if default is not Poison:
                        return default
                    raise ValueError('%s() arg is an empty sequence' % op)
                v = tm.fresh_ivar()
                x = g(v)
                if B.isinstance(x, SArr) and B.all(q is ONE for q in x._shape):
                    x = x.item()
                if not is_num(x):
                    raise Unsupported('max of %s' % B.type(x).__name__)
                x = lift(x)
                return mknum(tm.mk_red(op, v, n, x.t), x.kind)
            items = B.list(it)
            if not items:
                if default is not Poison:
                    return default
                raise ValueError('%s() arg is an empty sequence' % op)
        ks = [key(x) for x in items] if key else items
        r, rk = items[0], ks[0]
        for x, k in B.zip(items[1:], ks[1:]):
            if is_num(k) and is_num(rk) and is_num(x) and is_num(r) and not key:
                a_, b_ = lift(r), lift(x)
                kk = a_.kind if a_.kind == b_.kind else 'f'
                c = tm.lt(a_.t, b_.t) if op == 'max' else tm.lt(b_.t, a_.t)
                r = mknum(simp_ite(c, b_.t, a_.t), kk)
                rk = r
                continue
            c = (rk < k) if op == 'max' else (k < rk)
            if c:
                r, rk = x, k
        return r
    return f


max_, min_ = _ext('max'), _ext('min')


def abs_(x):
    if is_num(x):
        l = lift(x)
        return mknum(simp_abs(l.t), l.kind)
    return B.abs(x)


def round_(x, n=None):
    if is_num(x):
        return num_round(x, n)
    if B.isinstance(x, SNaN):
        if n is None:
            raise ValueError('cannot convert float NaN to integer')
        return x
    if B.isinstance(x, SArr):
        return snp.round_(x, n or 0)
    return B.round(x, n)


def pow_(a, b, m=None):
    from .values import num_pow
    if m is not None:
        raise Unsupported('pow with modulus')
    return a ** b if not (is_num(a) and is_num(b)) else num_pow(a, b)


def divmod_(a, b):
    return (lift(a) // b, lift(a) % b)


def _quant(name):
    def f(it):
        s = sym_iter(it)
        if s is None:
            l = B.list(it)
            ts = []
            for x in l:
                if B.isinstance(x, (SBool, bool, SNum, int)):
                    ts.append(bterm(x))
                else:
                    ts.append(tm.boolc(B.bool(x)))
            return mkbool(tm.land(*ts) if name == 'all' else tm.lor(*ts))
        n, g = s
        v = tm.fresh_ivar()
        b = bterm(g(v))
        return mkbool(tm.forall_range(v, ZERO, n, b) if name == 'all' else tm.exists_range(v, ZERO, n, b))
    return f


all_, any_ = _quant('all'), _quant('any')


def sorted_(it, key=None, reverse=False):
    s = sym_iter(it)
    if s is None:
        l = B.list(it)
        if key is None and B.all(B.isinstance(x, B.str) for x in l):
            return PList(B.sorted(l, reverse=B.bool(reverse)))
        # insertion sort with symbolic comparisons (stable)
        ks = [key(x) for x in l] if key else l
        out = []
        for x, k in B.zip(l, ks):
            p = B.len(out)
            while p > 0 and B.bool((k < out[p - 1][1]) if not reverse else (out[p - 1][1] < k)):
                p -= 1
            out.insert(p, (x, k))
        return PList([x for x, _ in out])
    if key is not None or reverse:
        raise Unsupported('sorted with a key')
    r = _sorted_segs(it)
    if r is not None:
        return r
    n, f = s
    w = tm.fresh_ivar()
    x = f(w)
    if not is_num(x):
        raise Unsupported('sorted of non-numbers')
    # already increasing: keep
    k = tm.fresh_ivar()
    inc = tm.forall_range(k, ONE, n, tm.le(lift(f(tm.sub(k, ONE))).t, lift(f(k)).t))
    if E().entails(inc):
        return PList(segs=as_segs(it))
    kind = lift(x).kind
    # a permutation of the elements in non-decreasing order (assumed contract)
    sig = tm.mk_sum(w, n, tm.app('id', lift(x).t))
    key_ = ('sorted', sig.id)
    if not hasattr(E(), 'memo'):
        E().memo = {}
    if key_ not in E().memo:
        E().memo[key_] = (E().fresh_name('sort'), E().fresh_name('unsort'))
    nm, un = E().memo[key_]
    g = B.list(E().gidx)
    P = lambda i: tm.app(nm, *g, i, sort='I')
    Q = lambda i: tm.app(un, *g, i, sort='I')
    e = E()
    i, j = tm.fresh_ivar(), tm.fresh_ivar()
    e.assume(tm.forall_range(i, ZERO, n, tm.land(tm.le(ZERO, P(i)), tm.lt(P(i), n), tm.eq(Q(P(i)), i))))
    e.assume(tm.forall_range(i, ZERO, n, tm.land(tm.le(ZERO, Q(i)), tm.lt(Q(i), n), tm.eq(P(Q(i)), i))))
    e.assume(tm.forall_range(i, ZERO, n, tm.forall_range(j, i, n, tm.le(lift(f(P(i))).t, lift(f(P(j))).t))))
    return PList(segs=[Seg(n, lambda i: f(P(i)))])


def _sorted_segs(it):
    """pieces already in order stay; a leading item not above any other stays
    first (equal numbers are interchangeable)"""
    segs = [x for x in as_segs(it)]
    if B.len(segs) < 2 or not B.all(B.isinstance(x, Seg) for x in segs):
        return None
    e = E()

    def inside(x):
        if x.items is not None:
            return B.all(e.entails(tm.le(lift(a).t, lift(b).t)) for a, b in B.zip(x.items, x.items[1:]))
        k = tm.fresh_ivar()
        return e.entails(tm.forall_range(k, ONE, x.n, tm.le(lift(x.fn(tm.sub(k, ONE))).t, lift(x.fn(k)).t)))

    def below(v, x):
        if x.items is not None:
            return B.all(e.entails(tm.le(v, lift(a).t)) for a in x.items)
        k = tm.fresh_ivar()
        return e.entails(tm.forall_range(k, ZERO, x.n, tm.le(v, lift(x.fn(k)).t)))

    def last(x):
        return lift(x.items[-1] if x.items is not None else x.fn(tm.sub(x.n, ONE))).t
    for x in segs:
        if not is_num(x.items[0] if x.items is not None else x.fn(ZERO)):
            return None
    if B.all(inside(x) for x in segs) and B.all(
            below(last(x), y) for k, x in B.enumerate(segs) for y in segs[k + 1:]):
        return PList(segs=segs)
    x = segs[0]
    if x.items is not None:
        v = lift(x.items[0]).t
        rest = ([Seg(tm.const(B.len(x.items) - 1), None, x.items[1:])] if B.len(x.items) > 1 else []) + segs[1:]
        if B.len(x.items) > 1:
            rest = as_segs(PList(x.items[1:])) + segs[1:]
        if B.all(below(v, y) for y in rest):
            return PList(segs=as_segs(PList([x.items[0]])) + B.list(sorted_(PList(segs=rest)).segs))
    return None


def hasattr_(o, n):
    return B.hasattr(o, n)


def getattr_(o, n, *d):
    if B.isinstance(n, SStr):
        raise Unsupported('getattr with a symbolic name')
    return B.getattr(o, n, *d)


def setattr_(o, n, v):
    from . import runtime
    runtime.RT.setattr(o, n, v)


def print_(*a, **k):
    E().events.append(('print', a))


def id_(x):
    return B.id(x)


def hash_(x):
    return B.hash(x)


def repr_(x):
    if B.isinstance(x, (SNum, SStr, SArr, PList, PDict)):
        return str_.make(x)
    return B.repr(x)


def callable_(x):
    if B.isinstance(x, (SNum, SStr, SArr, PList, PDict, PSet, SBool, SNaN)):
        return False
    return B.callable(x)


def slice_(*a):
    if B.len(a) == 1:
        return SSlice(None, a[0], None)
    return SSlice(*(B.list(a) + [None] * (3 - B.len(a))))


def str_split(s, *a):
    """split(); a text that joins a list of unknown length gives it back"""
    l = s.split(*a)
    if '\u27e6' not in s:
        return l
    segs = []
    for x in l:
        j = E().joins.get(x)
        if j is None:
            if '\u27e6' in x:
                raise Unsupported('part of a joined text')
            segs.append(x)
            continue
        if not j[0] or j[0].strip() or (a and a[0] != j[0]):
            raise Unsupported('joined text split in another way')
        segs += as_segs(j[1])
    return PList(segs=segs) if B.any(B.isinstance(x, Seg) for x in segs) else segs


def str_join(s, it):
    if B.isinstance(it, PList) and it.concrete() is None or sym_iter(it) is not None:
        if E().text_mode and B.isinstance(s, B.str):
            it = PList(segs=as_segs(it))
            if E().branch(tm.eq(lift(len_(it)).t, ZERO)):
                return ''
            k = '\u27e6j%d\u27e7' % B.len(E().joins)
            E().joins[k] = (s, it)
            return k
        n, f = sym_iter(it)
        v = tm.fresh_ivar()
        x = f(v)
        return SStr(tm.app('join', sterm(s), n, tm.mk_sum(v, n, tm.app('sid', sterm(x))), sort='O'))
    l = B.list(it)
    for x in l:
        if not B.isinstance(x, (B.str, SStr)):
            raise TypeError('sequence item: expected str instance')
    if B.isinstance(s, B.str) and B.all(B.isinstance(x, B.str) for x in l):
        return s.join(l)
    out = []
    from .values import _cat_parts
    for k, x in B.enumerate(l):
        if k:
            out += _cat_parts(sterm(s))
        out += _cat_parts(sterm(x))
    return mkcat(out)


BUILTINS = dict(
    int=int_, float=float_, bool=bool_, str=str_, list=list_, tuple=tuple_, dict=dict_, set=set_, frozenset=set_,
    isinstance=isinstance_, type=type_, len=len_, range=range_, enumerate=enumerate_, zip=zip_, reversed=reversed_,
    map=map_, filter=filter_, iter=iter_, next=next_, sum=sum_, max=max_, min=min_, abs=abs_, round=round_,
    pow=pow_, divmod=divmod_, all=all_, any=any_, sorted=sorted_, print=print_, repr=repr_, callable=callable_,
    slice=slice_, getattr=getattr_, setattr=setattr_)


# ------------------------------------------------------------------ modules
def mod(name, **kw):
    m = types.ModuleType(name)
    for k, v in kw.items():
        B.setattr(m, k, v)

    def missing(n, name=name):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('%s.%s' % (name, n))
    m.__getattr__ = missing
    return m


class Logger:
    """logging does not influence the values computed"""
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: None


def logging_module():
    lg = Logger()
    return mod('logging', DEBUG=10, INFO=20, WARNING=30, ERROR=40, CRITICAL=50, basicConfig=lambda *a, **k: None,
               getLogger=lambda *a: lg, NOTSET=0, Logger=Logger)


def convolve(img, kernel, mode='reflect', **k):
    """assumed contract of scipy.ndimage.convolve: in the interior of the
    image the sum over the (flipped) kernel; opaque within half a kernel of
    the border.  The result has the type of the image."""
    if k or mode != 'reflect':
        raise Unsupported('convolve options')
    img, kernel = snp.asarray(img), snp.asarray(kernel)
    if img.ndim != kernel.ndim:
        raise RuntimeError('filter weights array has incorrect shape.')
    if img.ndim != 2:
        raise Unsupported('convolve of %d-d' % img.ndim)
    f, g = img.snap(), kernel.snap()
    M, N = img._shape
    P, Q = kernel._shape
    cp, cq = snp.floordiv_t(P, tm.const(2)), snp.floordiv_t(Q, tm.const(2))
    name = E().fresh_name('edge')
    c = snp.caster(snp.float64, img.dtype)
    integral = img.dtype.kind in 'iu'

    def fn(i, j):
        a, b = tm.fresh_ivar(), tm.fresh_ivar()
        # out[i, j] = sum_ab kernel[a, b] * img[i + cp - a, j + cq - b]   (odd sizes)
        body = tm.mul2(g(a, b), f(tm.sub(tm.add(i, cp), a), tm.sub(tm.add(j, cq), b)))
        s = tm.mk_sum(a, P, tm.mk_sum(b, Q, body))
        inside = tm.land(tm.le(tm.sub(tm.sub(P, cp), ONE), i), tm.lt(tm.add(i, cp), M),
                         tm.le(tm.sub(tm.sub(Q, cq), ONE), j), tm.lt(tm.add(j, cq), N))
        t = tm.ite(inside, s, tm.app(name, i, j, sort='I' if integral else 'R'))
        if integral and not t.isint:
            v = _int_valued(s)
            if not v:
                return tm.ite(inside, snp.trunc_t(s), tm.app(name, i, j, sort='I'))
        return snp.wrap_t(t, img.dtype) if integral else t
    return SArr.new(fn, (M, N), img.dtype)


def _int_valued(t):
    return t.isint


def leastsq(func, x0, args=(), **kw):
    """assumed contract of scipy.optimize.leastsq for residuals linear in the
    parameters: the result satisfies the normal equations
    (sum of residual * derivative of the residual = 0 for each parameter)"""
    if not B.isinstance(args, tuple):
        args = (args,)
    e = E()
    p0 = snp.asarray(x0) if not B.isinstance(x0, SArr) else x0
    if p0.ndim != 1 or p0._shape[0].k != 'c':
        raise Unsupported('leastsq with a symbolic number of parameters')
    k = int(p0._shape[0].a)
    names = [tm.fresh_ivar('p') for _ in B.range(k)]
    ps = [tm.var('param%s' % v.a[0], 'R') for v in names]

    def call(vals):
        arr = snp.array([SNum(t, 'f') for t in vals])
        r = func(arr, *args)
        return snp._arr(r)
    R = call(ps)
    if R.ndim != 1:
        R = snp.ravel(R)
    n = R._shape[0]
    if not e.branch(tm.le(tm.const(k), n)):
        raise TypeError('Improper input: func input vector length N=%d must not exceed func output vector length' % k)
    f = R.snap()
    # derivatives: linear in the parameters
    v = tm.fresh_ivar()
    r = f(v)
    base = tm.subst(r, {p: ZERO for p in ps})
    ders = []
    rec = base
    for p in ps:
        d = tm.sub(tm.subst(r, {q: (ONE if q is p else ZERO) for q in ps}), base)
        ders.append(d)
        rec = tm.add(rec, tm.mul2(d, p))
    if tm.sub(rec, r) is not ZERO:
        raise Unsupported('leastsq on a residual that is not linear in the parameters')
    sols = [e.fresh('lsq', 'R') for _ in ps]
    rs = tm.subst(r, dict(B.zip(ps, sols)))
    for d in ders:
        e.assume(tm.eq(tm.mk_sum(v, n, tm.mul2(rs, d)), ZERO))
    e.notes.add('leastsq')
    return snp.array([SNum(s, 'f') for s in sols]), 1
