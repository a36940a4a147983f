"""Hash-consed terms of the verifier's logic, kept in a canonical form.

Numeric terms are polynomials over atoms with rational coefficients (floating
point numbers are read as reals).  Partial operations are total:
inv(0) = 0 (a meadow), array reads outside the shape are some fixed value.
Sums are ORIENTED prefix sums  S_f(n) = sum_{0<=v<n} f(v)  with
S_f(n) = -sum_{n<=v<0} f(v) for negative n, so that
sum_{a}^{b} = S_f(b) - S_f(a) holds for all integers a, b.
"""
from fractions import Fraction
import itertools
from math import isqrt

_table = {}
_ids = itertools.count(1)


class T:
    __slots__ = ('k', 'a', 'sort', 'id', 'fv', 'h', 'isint', '_repr', '_m', 'size')

    def __repr__(self):
        return show(self)


def _mk(k, a, sort, fv, h, isint):
    key = (k, a, sort)
    t = _table.get(key)
    if t is None:
        t = T.__new__(T)
        t.k, t.a, t.sort, t.fv, t.h, t.isint = k, a, sort, fv, h, isint
        t.id = next(_ids)
        t._repr = None
        t._m = None
        _table[key] = t
    return t


_sizes = {}


def tsize(t):
    r = _sizes.get(t)
    if r is None:
        r = 1
        for x in t.a if isinstance(t.a, tuple) else ():
            if isinstance(x, T):
                r += tsize(x)
            elif isinstance(x, tuple):
                r += _tup_size(x)
        _sizes[t] = r
    return r


def _tup_size(x):
    r = 0
    for y in x:
        r += tsize(y) if isinstance(y, T) else _tup_size(y) if isinstance(y, tuple) else 0
    return r


E0 = frozenset()


def const(x):
    if isinstance(x, float):
        from decimal import Decimal
        x = Fraction(Decimal(repr(x)))
    elif not isinstance(x, Fraction):
        x = Fraction(x)
    return _mk('c', x, 'N', E0, 0, x.denominator == 1)


def var(name, sort='R'):
    """sort: 'I', 'R' (numeric), 'B', 'O' (opaque)"""
    s = 'N' if sort in 'IR' else sort
    t = _mk('v', (name, sort), s, None, 0, sort == 'I')
    if t.fv is None:
        t.fv = frozenset([t])
    return t


_fresh = itertools.count(1)


def fresh_ivar(prefix='i'):
    return var('%s!%d' % (prefix, next(_fresh)), 'I')


def _fvs(ts):
    if not ts:
        return E0
    r = ts[0].fv
    for t in ts[1:]:
        if t.fv is not r:
            r = r | t.fv
    return r


def _hs(ts):
    return max((t.h for t in ts), default=0)


ZERO = const(0)
ONE = const(1)

# ---------------------------------------------------------------- booleans
TRUE = _mk('true', (), 'B', E0, 0, False)
FALSE = _mk('false', (), 'B', E0, 0, False)


def boolc(b):
    return TRUE if b else FALSE


# --------------------------------------------------------------- polynomials
# monomial: tuple of (atom, exp), sorted by atom.id
_EMPTY = ()


def mons(t):
    """dict monomial -> coefficient"""
    if t._m is not None:
        return t._m
    if t.k == 'c':
        m = {_EMPTY: t.a} if t.a != 0 else {}
    elif t.k == 'poly':
        m = dict((mo, c) for mo, c in t.a)
    else:
        m = {((t, 1),): Fraction(1)}
    t._m = m
    return m


def _mkey(mo):
    return tuple((a.id, e) for a, e in mo)


def from_mons(m):
    m = {mo: c for mo, c in m.items() if c != 0}
    if not m:
        return ZERO
    if len(m) == 1:
        (mo, c), = m.items()
        if mo == _EMPTY:
            return const(c)
        if c == 1 and len(mo) == 1 and mo[0][1] == 1:
            return mo[0][0]
    items = tuple(sorted(m.items(), key=lambda x: _mkey(x[0])))
    atoms = {a for mo, _ in items for a, _e in mo}
    isint = all(c.denominator == 1 for _, c in items) and all(a.isint for a in atoms)
    al = list(atoms)
    t = _mk('poly', items, 'N', _fvs(al), _hs(al), isint)
    return t


def add(*ts):
    m = {}
    for t in ts:
        for mo, c in mons(t).items():
            m[mo] = m.get(mo, 0) + c
    return from_mons(m)


def scale(t, c):
    c = Fraction(c)
    if c == 1:
        return t
    if c == 0:
        return ZERO
    return from_mons({mo: k * c for mo, k in mons(t).items()})


def neg(t):
    return scale(t, -1)


def sub(a, b):
    return add(a, neg(b))


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = {}
    for a, e in m1:
        d[a] = e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    out = []
    for a, e in d.items():
        if a.k == 'ind':
            e = 1
        out.append((a, e))
    out.sort(key=lambda x: x[0].id)
    return tuple(out)


MODULI = {}


def modulus(x, y):
    """sqrt(x^2 + y^2), whose square is the sum under the root"""
    p = add(mul2(x, x), mul2(y, y))
    r = app('sqrt', p)
    MODULI[r.id] = (r, p)
    return r


def mul2(a, b):
    if a is b and a.id in MODULI:
        return MODULI[a.id][1]
    ma, mb = mons(a), mons(b)
    if not ma or not mb:
        return ZERO
    m = {}
    for mo1, c1 in ma.items():
        for mo2, c2 in mb.items():
            mo = _mmul(mo1, mo2)
            m[mo] = m.get(mo, 0) + c1 * c2
    return _clean_ind(m)


def _clean_ind(m):
    # contradictory or subsumed indicator pairs
    return from_mons(m)


def mul(*ts):
    r = ONE
    for t in ts:
        r = mul2(r, t)
    return r


def power(t, n):
    r = ONE
    for _ in range(n):
        r = mul2(r, t)
    return r


def mono_term(mo):
    return from_mons({mo: Fraction(1)})


def lead(t):
    """coefficient of the leading monomial (deterministic)"""
    m = mons(t)
    mo = max(m, key=lambda x: (sum(e for _, e in x), _mkey(x)))
    return m[mo]


def inv(t):
    """meadow inverse: inv(0) = 0"""
    if t.k == 'c':
        return ZERO if t.a == 0 else const(1 / t.a)
    i = first_ind(t)
    if i is not None:
        return ite(i.a[0], inv(set_ind(t, i, True)), inv(set_ind(t, i, False)))
    m = mons(t)
    if len(m) == 1:
        (mo, c), = m.items()
        r = {_EMPTY: 1 / c}
        r = const(1 / c)
        for a, e in mo:
            r = mul2(r, power(_inv_atom(a), e))
        return r
    # common monomial factor
    com = None
    for mo in m:
        d = dict(mo)
        if com is None:
            com = d
        else:
            com = {a: min(e, d[a]) for a, e in com.items() if a in d}
    rt = poly_sqrt(m) if len(m) <= 60 else None
    if rt is not None:
        r = inv(from_mons(rt))
        return mul2(r, r)
    l = lead(t)
    q = {}
    for mo, c in m.items():
        nm = tuple((a, e - com.get(a, 0)) for a, e in mo if e - com.get(a, 0) > 0)
        q[nm] = c / l
    qt = from_mons(q)
    r = const(1 / l)
    for a, e in com.items():
        r = mul2(r, power(_inv_atom(a), e))
    return mul2(r, _inv_raw(qt))


def _rat_sqrt(c):
    if c <= 0:
        return None
    n, d = isqrt(c.numerator), isqrt(c.denominator)
    return Fraction(n, d) if n * n == c.numerator and d * d == c.denominator else None


def poly_sqrt(m):
    """a polynomial whose square is m, or None"""
    if any(a.k == 'ind' for mo in m for a, _ in mo):
        return None
    atoms = sorted({a for mo in m for a, _ in mo}, key=lambda a: a.id)
    key = lambda mo: tuple(dict(mo).get(a, 0) for a in atoms)
    p = {key(mo): c for mo, c in m.items()}
    top, bot = max(p), min(p)
    for e in (top, bot):
        if any(x % 2 for x in e):
            return None
    r0 = _rat_sqrt(p[top])
    if r0 is None or _rat_sqrt(p[bot]) is None:
        return None
    h = tuple(x // 2 for x in top)
    r = {h: r0}
    rem = dict(p)
    del rem[top]
    while rem:
        if len(r) > len(p):
            return None
        e = max(rem)
        d = tuple(x - y for x, y in zip(e, h))
        if any(x < 0 for x in d) or d in r or d > h:
            return None
        cf = rem[e] / (2 * r0)
        # (r + t)^2 = r^2 + 2 r t + t^2
        for e2, c2 in r.items():
            k = tuple(x + y for x, y in zip(e2, d))
            rem[k] = rem.get(k, 0) - 2 * c2 * cf
        k = tuple(2 * x for x in d)
        rem[k] = rem.get(k, 0) - cf * cf
        r[d] = cf
        rem = {k: v for k, v in rem.items() if v}
        if e in rem:
            return None
    back = {}
    for e, c in r.items():
        t = ONE
        for a, x in zip(atoms, e):
            if x:
                t = mul2(t, power(a, x))
        for mo, c1 in mons(t).items():
            back[mo] = c * c1
    rt = from_mons(back)
    return back if mul2(rt, rt) is from_mons(m) else None


def _inv_atom(a):
    if a.k == 'inv':
        return a.a[0]
    if a.k == 'ind':
        return a
    return _inv_raw(a)


def _inv_raw(q):
    return _mk('inv', (q,), 'N', q.fv, q.h, False)


def div(a, b):
    return mul2(a, inv(b))


# ------------------------------------------------------------- indicators
def ind(c):
    """1 if c else 0"""
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    if c.k == 'not':
        return sub(ONE, ind(c.a[0]))
    if c.k == 'and':
        return mul(*[ind(x) for x in c.a])
    if c.k == 'or':
        return sub(ONE, mul(*[sub(ONE, ind(x)) for x in c.a]))
    if c.k == 'ne':
        return sub(ONE, ind(lnot(c)))
    if c.k == 'lt':
        # keep one of p<0 / p>=0 as the atom:  p<0  ==  not(-p<=0)
        return sub(ONE, ind(lnot(c)))
    if c.k == 'le' and c.a[0].isint:
        # p<=0 or  -p+1<=0 : complementary for integers; keep the smaller id
        n = lnot(c)
        if n.k == 'le' and n.id < c.id:
            return sub(ONE, _ind_raw(n))
    return _ind_raw(c)


def _ind_raw(c):
    return _mk('ind', (c,), 'N', c.fv, c.h, True)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == 'B':
        return land(lor(lnot(c), a), lor(c, b))
    if a.sort == 'O':
        return _mk('oite', (c, a, b), 'O', _fvs([c, a, b]), _hs([c, a, b]), False)
    return add(b, mul2(ind(c), sub(a, b)))


def first_ind(t):
    """some indicator atom occurring at the top level of a polynomial"""
    for mo in mons(t):
        for a, _e in mo:
            if a.k == 'ind':
                return a
    return None


def inds(t):
    s = {}
    for mo in mons(t):
        for a, _e in mo:
            if a.k == 'ind':
                s[a.id] = a
    return list(s.values())


def set_ind(t, i, val):
    m = {}
    for mo, c in mons(t).items():
        if any(a is i for a, _ in mo):
            if not val:
                continue
            mo = tuple(x for x in mo if x[0] is not i)
        m[mo] = m.get(mo, 0) + c
    return from_mons(m)


# ------------------------------------------------------------- comparisons
def _normscale(p, sign):
    """scale p by a positive constant (any nonzero one if not sign)"""
    m = mons(p)
    if not m:
        return p
    from math import gcd
    den = 1
    for c in m.values():
        den = den * c.denominator // gcd(den, c.denominator)
    num = 0
    for c in m.values():
        num = gcd(num, abs(int(c * den)))
    f = Fraction(den, num)
    if not sign and lead(p) < 0:
        f = -f
    return scale(p, f)


def _tighten(p):
    """for integer p (scaled to integer coefficients): p<=0 with gcd tightening"""
    m = mons(p)
    from math import gcd
    g = 0
    c0 = m.get(_EMPTY, Fraction(0))
    for mo, c in m.items():
        if mo != _EMPTY:
            g = gcd(g, abs(int(c)))
    if g > 1:
        q = {mo: c / g for mo, c in m.items() if mo != _EMPTY}
        x = c0 / g
        # sum + x <= 0  ->  sum + ceil(x) <= 0
        import math
        q[_EMPTY] = Fraction(math.ceil(x))
        return from_mons(q)
    return p


def _atoms_int(p):
    return all(a.isint for mo in mons(p) for a, _ in mo)


def le0(p):
    if p.k == 'c':
        return boolc(p.a <= 0)
    p = _normscale(p, True)
    if _atoms_int(p):
        p = _tighten(p)
    if p.k == 'c':
        return boolc(p.a <= 0)
    return _mk('le', (p,), 'B', p.fv, p.h, False)


def lt0(p):
    if p.k == 'c':
        return boolc(p.a < 0)
    p = _normscale(p, True)
    if _atoms_int(p):
        return le0(add(p, ONE))
    return _mk('lt', (p,), 'B', p.fv, p.h, False)


def eq0(p):
    if p.k == 'c':
        return boolc(p.a == 0)
    p = _normscale(p, False)
    if _atoms_int(p):
        m = mons(p)
        from math import gcd
        g = 0
        for mo, c in m.items():
            if mo != _EMPTY:
                g = gcd(g, abs(int(c)))
        if g > 1 and m.get(_EMPTY, Fraction(0)) % g != 0:
            return FALSE
    return _mk('eq', (p,), 'B', p.fv, p.h, False)


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return lt0(sub(a, b))


def eq(a, b):
    if a.sort == 'O' or b.sort == 'O':
        return oeq(a, b)
    if a.sort == 'B':
        return iff(a, b)
    return eq0(sub(a, b))


def ne(a, b):
    return lnot(eq(a, b))


def oeq(a, b):
    if a is b:
        return TRUE
    if a.k == 's' and b.k == 's':
        return FALSE
    if a.k == 'oite':
        return ite(a.a[0], oeq(a.a[1], b), oeq(a.a[2], b))
    if b.k == 'oite':
        return ite(b.a[0], oeq(a, b.a[1]), oeq(a, b.a[2]))
    if a.id > b.id:
        a, b = b, a
    return _mk('oeq', (a, b), 'B', _fvs([a, b]), _hs([a, b]), False)


def strc(s):
    return _mk('s', s, 'O', E0, 0, False)


def lnot(c):
    k = c.k
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if k == 'not':
        return c.a[0]
    if k == 'le':
        return lt0(neg(c.a[0]))
    if k == 'lt':
        return le0(neg(c.a[0]))
    if k == 'and':
        return lor(*[lnot(x) for x in c.a])
    if k == 'or':
        return land(*[lnot(x) for x in c.a])
    if k == 'forall':
        v, b = open_binder(c)
        return exists(v, lnot(b))
    if k == 'exists':
        v, b = open_binder(c)
        return forall(v, lnot(b))
    return _mk('not', (c,), 'B', c.fv, c.h, False)


def land(*cs):
    out = {}
    for c in cs:
        if c is TRUE:
            continue
        if c is FALSE:
            return FALSE
        if c.k == 'and':
            for x in c.a:
                out[x.id] = x
        else:
            out[c.id] = c
    for c in list(out.values()):
        if lnot(c).id in out:
            return FALSE
    if not out:
        return TRUE
    l = [out[i] for i in sorted(out)]
    if len(l) == 1:
        return l[0]
    return _mk('and', tuple(l), 'B', _fvs(l), _hs(l), False)


def lor(*cs):
    out = {}
    for c in cs:
        if c is FALSE:
            continue
        if c is TRUE:
            return TRUE
        if c.k == 'or':
            for x in c.a:
                out[x.id] = x
        else:
            out[c.id] = c
    for c in list(out.values()):
        if c.k in ('eq', 'bapp', 'oeq', 'not', 'v') and lnot(c).id in out:
            return TRUE
    if not out:
        return FALSE
    l = [out[i] for i in sorted(out)]
    if len(l) == 1:
        return l[0]
    return _mk('or', tuple(l), 'B', _fvs(l), _hs(l), False)


def implies(a, b):
    return lor(lnot(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    return lor(land(a, b), land(lnot(a), lnot(b)))


# ------------------------------------------------------------- applications
def app(f, *args, sort='R'):
    """uninterpreted / interpreted function application.  sort I/R/B/O"""
    fo = _FOLD.get(f)
    if fo is not None:
        r = fo(*args)
        if r is not None:
            return r
    # lift indicators out of numeric arguments
    for n, x in enumerate(args):
        if x.sort == 'N' and x.k in ('poly', 'ind'):
            i = first_ind(x)
            if i is not None:
                a1, a0 = list(args), list(args)
                a1[n] = set_ind(x, i, True)
                a0[n] = set_ind(x, i, False)
                return ite(i.a[0], app(f, *a1, sort=sort), app(f, *a0, sort=sort))
    s = 'N' if sort in 'IR' else sort
    k = 'bapp' if sort == 'B' else 'app'
    return _mk(k, (f, tuple(args)), s, _fvs(list(args)), _hs(args), sort == 'I')


def _fold_sqrt(x):
    if x.k == 'c' and x.a >= 0:
        from math import isqrt
        n, d = isqrt(x.a.numerator), isqrt(x.a.denominator)
        if n * n == x.a.numerator and d * d == x.a.denominator:
            return const(Fraction(n, d))
    return None


def _fold_floor(x):
    import math
    if x.k == 'c':
        return const(math.floor(x.a))
    if x.isint:
        return x
    # floor(p + integer part)
    m = mons(x)
    ip, rest = {}, {}
    for mo, c in m.items():
        if c.denominator == 1 and all(a.isint for a, _ in mo):
            ip[mo] = c
        else:
            rest[mo] = c
    if ip and rest:
        return add(from_mons(ip), app('floor', from_mons(rest), sort='I'))
    return None


def _fold_mod(a, b):
    if a.k == 'c' and b.k == 'c' and b.a != 0:
        return const(a.a - b.a * (a.a // b.a))
    if a is ZERO:
        return ZERO
    return None


def _fold_rint(x):
    if x.k == 'c':
        return const(round(x.a))
    if x.isint:
        return x
    return None


def _fold_trunc(x):
    import math
    if x.k == 'c':
        return const(math.trunc(x.a))
    if x.isint:
        return x
    return None


_FOLD = {'trunc': _fold_trunc, 'sqrt': _fold_sqrt, 'floor': _fold_floor, 'mod': _fold_mod,
         'rint': _fold_rint}


def sqrt(x):
    return app('sqrt', x)


def floor(x):
    return app('floor', x, sort='I')


def fdiv(a, b):
    """python floor division of integers/reals"""
    return floor(div(a, b))


def mod(a, b):
    return app('mod', a, b, sort='I' if a.isint and b.isint else 'R')


def absv(x):
    if x.k == 'c':
        return const(abs(x.a))
    return ite(le0(x), neg(x), x)


def max2(a, b):
    return ite(le(b, a), a, b)


def min2(a, b):
    return ite(le(a, b), a, b)


# ------------------------------------------------------------- substitution
def bvar(h):
    return var('#%d' % h, 'I')


def subst(t, m, ks=None):
    """m: dict var -> term (free variables)"""
    if not m:
        return t
    atoms = ks is not None
    if ks is None:
        ks = frozenset(m)
    cache = {}

    def go(t):
        if t.fv.isdisjoint(ks):
            return t
        if atoms and t in m:
            return m[t]
        r = cache.get(t.id)
        if r is None:
            r = go1(t)
            cache[t.id] = r
        return r

    def go1(t):
        k = t.k
        if k == 'v':
            return m.get(t, t)
        if k == 'poly':
            acc = []
            for mo, c in t.a:
                if all(a.fv.isdisjoint(ks) for a, _ in mo):
                    acc.append(from_mons({mo: c}))
                    continue
                r = const(c)
                for a, e in mo:
                    r = mul2(r, power(go(a), e))
                acc.append(r)
            return add(*acc)
        if k == 'inv':
            return inv(go(t.a[0]))
        if k == 'ind':
            return ind(go(t.a[0]))
        if k == 'app' or k == 'bapp':
            sort = 'B' if k == 'bapp' else ('O' if t.sort == 'O' else ('I' if t.isint else 'R'))
            return app(t.a[0], *[go(x) for x in t.a[1]], sort=sort)
        if k == 'le':
            return le0(go(t.a[0]))
        if k == 'lt':
            return lt0(go(t.a[0]))
        if k == 'eq':
            return eq0(go(t.a[0]))
        if k == 'oeq':
            return oeq(go(t.a[0]), go(t.a[1]))
        if k == 'oite':
            return ite(go(t.a[0]), go(t.a[1]), go(t.a[2]))
        if k == 'not':
            return lnot(go(t.a[0]))
        if k == 'and':
            return land(*[go(x) for x in t.a])
        if k == 'or':
            return lor(*[go(x) for x in t.a])
        if k in ('sum', 'red', 'forall', 'exists'):
            v, body = open_binder(t)
            body = go(body)
            if k == 'sum':
                return mk_sum(v, go(t.a[0]), body)
            if k == 'red':
                return mk_red(t.a[2], v, go(t.a[0]), body)
            return (forall if k == 'forall' else exists)(v, body)
        raise AssertionError(k)
    return go(t)


def map_apps(t, table):
    """replace applications (and variables) by name: table name -> f(*args)"""
    cache = {}

    def has(t):
        for x in subterms(t).values():
            if x.k in ('app', 'bapp') and x.a[0] in table or x.k == 'v' and x.a[0] in table:
                return True
        return False

    def go(t):
        r = cache.get(t.id)
        if r is None:
            r = go1(t)
            cache[t.id] = r
        return r

    def go1(t):
        k = t.k
        if k == 'v':
            f = table.get(t.a[0])
            return f() if f else t
        if k in ('c', 's', 'true', 'false', 'b'):
            return t
        if not has(t):
            return t
        if k == 'poly':
            acc = []
            for mo, c in t.a:
                r = const(c)
                for a, e in mo:
                    r = mul2(r, power(go(a), e))
                acc.append(r)
            return add(*acc)
        if k == 'inv':
            return inv(go(t.a[0]))
        if k == 'ind':
            return ind(go(t.a[0]))
        if k == 'app' or k == 'bapp':
            args = [go(x) for x in t.a[1]]
            f = table.get(t.a[0])
            if f:
                return f(*args)
            sort = 'B' if k == 'bapp' else ('O' if t.sort == 'O' else ('I' if t.isint else 'R'))
            return app(t.a[0], *args, sort=sort)
        if k == 'le':
            return le0(go(t.a[0]))
        if k == 'lt':
            return lt0(go(t.a[0]))
        if k == 'eq':
            return eq0(go(t.a[0]))
        if k == 'oeq':
            return oeq(go(t.a[0]), go(t.a[1]))
        if k == 'oite':
            return ite(go(t.a[0]), go(t.a[1]), go(t.a[2]))
        if k == 'not':
            return lnot(go(t.a[0]))
        if k == 'and':
            return land(*[go(x) for x in t.a])
        if k == 'or':
            return lor(*[go(x) for x in t.a])
        if k in ('sum', 'red', 'forall', 'exists'):
            v, body = open_binder(t)
            body = go(body)
            if k == 'sum':
                return mk_sum(v, go(t.a[0]), body)
            if k == 'red':
                return mk_red(t.a[2], v, go(t.a[0]), body)
            return (forall if k == 'forall' else exists)(v, body)
        return t
    return go(t)


def binder_body(t):
    return t.a[1]


def open_binder(t, v=None):
    """fresh variable and the body over it (the bound variable is '#h')"""
    body = t.a[1]
    if v is None:
        v = fresh_ivar()
    b = bvar(body.h + 1)
    return v, subst(body, {b: v})


def _close(v, body, others=()):
    h = body.h + 1
    b = bvar(h)
    return h, subst(body, {v: b})


def forall(v, body):
    """quantifier over all integers; guard inside the body"""
    if v not in body.fv:
        return body
    h, b = _close(v, body)
    return _mk('forall', ('I', b), 'B', b.fv - {bvar(h)}, h, False)


def exists(v, body):
    if v not in body.fv:
        return body
    h, b = _close(v, body)
    return _mk('exists', ('I', b), 'B', b.fv - {bvar(h)}, h, False)


def given(t, atoms):
    """t where the conditions `atoms` (all on the same variables) are false"""
    m = {}
    for a in atoms:
        if a is TRUE or a is FALSE:
            continue
        m[a] = FALSE
        m[lnot(a)] = TRUE
    if not m:
        return t
    ks = frozenset().union(*[a.fv for a in m])
    if not any(x in m for x in subterms(t).values()):
        return t
    return subst(t, m, ks)


def forall_range(v, lo, hi, body):
    if v in lo.fv or v in hi.fv:
        w = fresh_ivar()
        body, v = subst(body, {v: w}), w
    g = lt(v, lo), le(hi, v)
    return forall(v, lor(*g, given(body, g)))


def exists_range(v, lo, hi, body):
    if v in lo.fv or v in hi.fv:
        w = fresh_ivar()
        body, v = subst(body, {v: w}), w
    g = lt(v, lo), le(hi, v)
    return exists(v, land(lnot(g[0]), lnot(g[1]), given(body, g)))


def mk_red(op, v, n, body):
    """max/min over 0<=v<n of body (n>0)"""
    if v not in body.fv:
        return body
    if n.k == 'c' and 0 < n.a <= 12:
        vals = [subst(body, {v: const(i)}) for i in range(int(n.a))]
        r = vals[0]
        for x in vals[1:]:
            r = max2(r, x) if op == 'max' else min2(r, x)
        return r
    # pull positive constants / additive v-free parts out
    m = mons(body)
    free = {mo: c for mo, c in m.items() if all(v not in a.fv for a, _ in mo)}
    if free:
        dep = from_mons({mo: c for mo, c in m.items() if mo not in free})
        return add(from_mons(free), mk_red(op, v, n, dep))
    c = lead(body)
    if abs(c) != 1:
        return scale(mk_red(op, v, n, scale(body, 1 / abs(c))), abs(c))
    if c == -1:
        return neg(mk_red('min' if op == 'max' else 'max', v, n, neg(body)))
    h, b = _close(v, body)
    return _mk('red', (n, b, op), 'N', n.fv | (b.fv - {bvar(h)}), max(h, n.h), b.isint)


# --------------------------------------------------------------------- sums
def lin_in(t, v):
    """(coef, rest) if t = coef*v + rest with coef constant, rest free of v"""
    coef, rest = Fraction(0), {}
    for mo, c in mons(t).items():
        if any(v in a.fv for a, _ in mo):
            if len(mo) == 1 and mo[0][0] is v and mo[0][1] == 1:
                coef += c
            else:
                return None
        else:
            rest[mo] = c
    return coef, from_mons(rest)


def _offsets(t, v, acc):
    """linear occurrences of v in application arguments"""
    if v not in t.fv:
        return
    if t.k in ('app', 'bapp'):
        for n, x in enumerate(t.a[1]):
            if v in x.fv:
                l = lin_in(x, v) if x.sort == 'N' else None
                if l is not None and abs(l[0]) == 1 and t.a[0] not in _FOLD:
                    acc.append(((t.a[0], n), int(l[0]), l[1]))
                else:
                    _offsets(x, v, acc)
        return
    if t.k == 'poly':
        for mo, _c in t.a:
            for a, _e in mo:
                _offsets(a, v, acc)
    elif t.k in ('sum', 'red', 'forall', 'exists'):
        _offsets(t.a[1], v, acc)
        if isinstance(t.a[0], T):
            _offsets(t.a[0], v, acc)
    elif t.k == 'v' or t.k == 'c':
        return
    else:
        for x in t.a:
            if isinstance(x, T):
                _offsets(x, v, acc)


def const_part(t):
    return mons(t).get(_EMPTY, Fraction(0))


def mk_sum(v, n, body):
    """oriented sum over 0<=v<n of body; v a variable, n an integer term"""
    i = first_ind(n)
    if i is not None:
        return ite(i.a[0], mk_sum(v, set_ind(n, i, True), body),
                   mk_sum(v, set_ind(n, i, False), body))
    if n.k == 'c':
        k = n.a
        if k.denominator == 1 and abs(k) <= 64:
            k = int(k)
            rng = range(0, k) if k >= 0 else range(k, 0)
            s = add(*[subst(body, {v: const(i)}) for i in rng]) if rng else ZERO
            return s if k >= 0 else neg(s)
    out = []
    for mo, c in mons(body).items():
        indep, dep = [], []
        for a, e in mo:
            (dep if v in a.fv else indep).append((a, e))
        coef = mul2(const(c), mono_term(tuple(indep)))
        out.append(mul2(coef, _sum_mono(v, n, tuple(dep))))
    return add(*out)


def _sum_mono(v, n, dep):
    if not dep:
        return n
    if len(dep) == 1 and dep[0][0] is v:
        e = dep[0][1]
        n1 = sub(n, ONE)
        if e == 1:
            return scale(mul(n, n1), Fraction(1, 2))
        if e == 2:
            return scale(mul(n, n1, sub(scale(n, 2), ONE)), Fraction(1, 6))
        if e == 3:
            return scale(mul(n, n, n1, n1), Fraction(1, 4))
    # indicators that pin or bound v
    for x in dep:
        a = x[0]
        if a.k != 'ind':
            continue
        c = a.a[0]
        rest = tuple(y for y in dep if y is not x)
        if c.k == 'eq':
            l = lin_in(c.a[0], v)
            if l is not None and l[0] != 0:
                t = scale(l[1], -1 / l[0])
                if t.isint:
                    g = subst(mono_term(rest), {v: t})
                    return mul(ind(le(ZERO, t)), ind(lt(t, n)), g)
        if c.k == 'le' and c.a[0].isint:
            l = lin_in(c.a[0], v)
            if l is not None and abs(l[0]) == 1:
                if l[0] == 1:       # v <= -rest  <=> v < t, t = 1-rest
                    t = sub(ONE, l[1])
                    w = fresh_ivar()
                    b = subst(mono_term(rest), {v: w})
                    return _sum_below(w, n, t, b)
                t = l[1]            # v >= t
                w = fresh_ivar()
                b = subst(mono_term(rest), {v: w})
                return sub(mk_sum(w, n, b), _sum_below(w, n, t, b))
    # swap a nested sum
    D = mono_term(dep)
    sums = [a for a, e in dep if a.k == 'sum' and e == 1]
    if len(sums) == 1 and v not in sums[0].a[0].fv:
        s = sums[0]
        rest = tuple(y for y in dep if y[0] is not s)
        w, b = open_binder(s)
        full = mul2(b, mono_term(rest))
        if len(mons(full)) == 1:
            A = _sum_raw(v, n, dep)
            inner = _sum_outer_first(v, n, full)
            B = mk_sum_noswap(w, s.a[0], inner)
            return A if repr_key(A) <= repr_key(B) else B
    return _sum_raw(v, n, dep)


def _sum_outer_first(v, n, body):
    out = []
    for mo, c in mons(body).items():
        indep, dep = [], []
        for a, e in mo:
            (dep if v in a.fv else indep).append((a, e))
        coef = mul2(const(c), mono_term(tuple(indep)))
        out.append(mul2(coef, _sum_raw(v, n, tuple(dep)) if dep else n))
    return add(*out)


def mk_sum_noswap(v, n, body):
    return _sum_outer_first(v, n, body)


def repr_key(t):
    return (len(mons(t)), show(t))


def _sum_below(w, n, t, b):
    """sum over 0<=w<n with w<t of b"""
    full = mk_sum(w, n, b)
    part = mk_sum(w, t, b)
    # t<=0: 0 ; 0<t<n: part ; t>=n: full
    return ite(le(n, t), full, ite(le(t, ZERO), ZERO, part))


def _sum_raw(v, n, dep):
    D = mono_term(dep)
    acc = []
    _offsets(D, v, acc)
    lo = ZERO
    hi = n
    if acc:
        if all(c == -1 for _k, c, _o in acc):
            # reverse: v -> n-1-v
            w = fresh_ivar()
            D = subst(D, {v: sub(sub(n, ONE), w)})
            v = w
            acc = []
            _offsets(D, v, acc)
        acc = [x for x in acc if x[1] == 1]
        if acc:
            name = min(x[0] for x in acc)
            offs = {x[2].id: x[2] for x in acc if x[0] == name}
            offs = list(offs.values())
            best = min(offs, key=lambda o: (show(sub(o, const(const_part(o)))), const_part(o)))
            if best is not ZERO:
                w = fresh_ivar()
                D = subst(D, {v: sub(w, best)})
                v = w
                lo = best
                hi = add(n, best)
    r = sub(_prefix(v, hi, D), _prefix(v, lo, D)) if lo is not ZERO else _prefix(v, hi, D)
    return r


def _prefix(v, n, D):
    """S_D(n) with the constant part of n split off"""
    if n is ZERO:
        return ZERO
    i = first_ind(n)
    if i is not None:
        return ite(i.a[0], _prefix(v, set_ind(n, i, True), D), _prefix(v, set_ind(n, i, False), D))
    # after shifting D may have become a sum of monomials with v-free factors
    m = mons(D)
    if len(m) != 1 or any(v not in a.fv for mo in m for a, _ in mo) or list(m.values())[0] != 1:
        out = []
        for mo, c in m.items():
            indep, dep = [], []
            for a, e in mo:
                (dep if v in a.fv else indep).append((a, e))
            coef = mul2(const(c), mono_term(tuple(indep)))
            out.append(mul2(coef, _prefix1(v, n, mono_term(tuple(dep))) if dep else n))
        return add(*out)
    return _prefix1(v, n, D)


def _prefix1(v, n, D):
    k = const_part(n)
    base = sub(n, const(k))
    if k.denominator == 1 and abs(k) <= (8 if base is not ZERO else 64) and k != 0:
        k = int(k)
        pts = [add(base, const(i)) for i in (range(0, k) if k > 0 else range(k, 0))]
        s = add(*[subst(D, {v: p}) for p in pts])
        if base is ZERO:
            return s if k > 0 else neg(s)
        r = _prefix1(v, base, D)
        return add(r, s) if k > 0 else sub(r, s)
    if base is ZERO and k == 0:
        return ZERO
    r = _mk_sum_atom(v, n, D)
    # canonical order of two nested sums
    m = mons(D)
    if len(m) == 1:
        (mo, c), = m.items()
        sums = [a for a, e in mo if a.k == 'sum' and e == 1]
        if c == 1 and len(sums) == 1 and v not in sums[0].a[0].fv:
            s = sums[0]
            w, b = open_binder(s)
            m2 = mons(mul2(b, mono_term(tuple(y for y in mo if y[0] is not s))))
            if len(m2) == 1:
                (mo2, c2), = m2.items()
                out = tuple(x for x in mo2 if v not in x[0].fv)
                inn = tuple(x for x in mo2 if v in x[0].fv)
                if c2 == 1 and inn and w not in n.fv:
                    i = _mk_sum_atom(v, n, mono_term(inn))
                    if w in i.fv:
                        r2 = _mk_sum_atom(w, s.a[0], mul2(mono_term(out), i))
                        if show(r2) < show(r):
                            return r2
    return r


def _mk_sum_atom(v, n, D):
    h, b = _close(v, D)
    return _mk('sum', (n, b), 'N', n.fv | (b.fv - {bvar(h)}), max(h, n.h), b.isint)


# --------------------------------------------------------------------- misc
def show(t, depth=0):
    if t._repr is None:
        t._repr = _show(t)
    return t._repr


def _show(t):
    k = t.k
    if k == 'c':
        return str(t.a)
    if k == 's':
        return repr(t.a)
    if k == 'v':
        return t.a[0]
    if k == 'poly':
        ms = []
        for mo, c in t.a:
            f = []
            for a, e in mo:
                s = show(a)
                f.append(s if e == 1 else '%s^%d' % (s, e))
            f.sort()
            if c != 1 or not f:
                f.insert(0, str(c))
            ms.append('*'.join(f))
        ms.sort()
        return '(' + ' + '.join(ms) + ')'
    if k in ('app', 'bapp'):
        return '%s(%s)' % (t.a[0], ', '.join(show(x) for x in t.a[1]))
    if k == 'inv':
        return '1/' + show(t.a[0])
    if k == 'ind':
        return '[' + show(t.a[0]) + ']'
    if k == 'sum':
        return 'S{%s}(%s)' % (show(t.a[0]), show(t.a[1]))
    if k == 'red':
        return '%s{%s}(%s)' % (t.a[2], show(t.a[0]), show(t.a[1]))
    if k == 'le':
        return show(t.a[0]) + '<=0'
    if k == 'lt':
        return show(t.a[0]) + '<0'
    if k == 'eq':
        return show(t.a[0]) + '=0'
    if k == 'oeq':
        return show(t.a[0]) + '==' + show(t.a[1])
    if k == 'oite':
        return 'ite(%s,%s,%s)' % tuple(show(x) for x in t.a)
    if k == 'not':
        return '!' + show(t.a[0])
    if k == 'and':
        return '(' + ' & '.join(sorted(show(x) for x in t.a)) + ')'
    if k == 'or':
        return '(' + ' | '.join(sorted(show(x) for x in t.a)) + ')'
    if k in ('forall', 'exists'):
        return '%s(%s)' % (k, show(t.a[1]))
    return k


def subterms(t, seen=None, binders=True):
    """all distinct subterms (bodies of binders included if binders)"""
    seen = {} if seen is None else seen
    st = [t]
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen[t.id] = t
        if t.k == 'poly':
            for mo, _c in t.a:
                for a, _e in mo:
                    st.append(a)
        elif t.k in ('app', 'bapp'):
            st.extend(t.a[1])
        elif t.k in ('v', 'c', 's'):
            pass
        elif t.k in ('sum', 'red'):
            st.append(t.a[0])
            if binders:
                st.append(t.a[1])
        elif t.k in ('forall', 'exists'):
            if binders:
                st.append(t.a[1])
        else:
            for x in t.a:
                if isinstance(x, T):
                    st.append(x)
    return seen


def has_fresh(t, vs):
    return not t.fv.isdisjoint(vs)
