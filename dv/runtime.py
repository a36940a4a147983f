"""The runtime of the transformed code: loops (with inferred and checked
invariants), comprehensions, operators, attribute writes."""
import builtins as B
import itertools
from fractions import Fraction
from . import terms as tm
from . import engine as eng
from . import values as V
from .engine import Unsupported, Infeasible
from .terms import ZERO, ONE, TRUE, FALSE
from .values import (SNum, SNaN, NAN, SBool, SStr, SArr, Buf, PList, PDict, PSet, PView, Poison, Seg, FlatSeg, OptSeg,
                     Fam, SRange, SIter, SSlice, Unmergeable, mkbool, mknum, lift, is_num, bterm, sterm, vmerge, vmap,
                     vsubst, sym_iter, iter_any, seglen, items_seg, as_segs, eq_term, seq_contains)


def E():
    return eng.E


_uid = itertools.count(1)


class _Star:
    pass


class Missing:
    """an unbound local"""


MISSING = Missing()


# ------------------------------------------------------------------ equality
def veq(a, b, out, depth=0):
    """conditions under which two values are the same (appended to out);
    Unmergeable when they cannot be"""
    if a is b:
        return
    if depth > 12:
        raise Unmergeable('deep')
    if isinstance(a, SNaN) and isinstance(b, SNaN):
        return
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        out.append(tm.iff(bterm(a), bterm(b)))
        return
    if is_num(a) and is_num(b):
        out.append(tm.eq(lift(a).t, lift(b).t))
        return
    if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
        out.append(tm.oeq(sterm(a), sterm(b)))
        return
    if isinstance(a, SArr) and isinstance(b, SArr):
        if a.ndim != b.ndim:
            raise Unmergeable('ndim')
        for x, y in zip(a._shape, b._shape):
            out.append(tm.eq(x, y))
        ix = [tm.fresh_ivar() for _ in a._shape]
        x, y = a.at(*ix), b.at(*ix)
        c = tm.iff(x, y) if x.sort == 'B' else (tm.oeq(x, y) if x.sort == 'O' else tm.eq(x, y))
        for v, n in reversed(list(zip(ix, a._shape))):
            c = tm.forall_range(v, ZERO, n, c)
        out.append(c)
        if a.masked or b.masked:
            if not (a.masked and b.masked):
                raise Unmergeable('mask')
            veq(a.mask_, b.mask_, out, depth + 1)
        return
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            veq(x, y, out, depth + 1)
        return
    if isinstance(a, PList) and isinstance(b, PList):
        ca, cb = a.concrete(), b.concrete()
        if ca is not None and cb is not None:
            if len(ca) != len(cb):
                raise Unmergeable('length')
            for x, y in zip(ca, cb):
                veq(x, y, out, depth + 1)
            return
        if len(a.segs) == len(b.segs):
            for s, t in zip(a.segs, b.segs):
                seg_eq(s, t, out, depth + 1)
            return
    if isinstance(a, PDict) and isinstance(b, PDict) and len(a.ent) == len(b.ent):
        for x, y in zip(a.ent, b.ent):
            if isinstance(x, Fam) != isinstance(y, Fam):
                raise Unmergeable('dict')
            if isinstance(x, Fam):
                out.append(tm.eq(x.n, y.n))
                v = tm.fresh_ivar()
                o = []
                veq(x.key(v), y.key(v), o, depth + 1)
                veq(x.val(v), y.val(v), o, depth + 1)
                out.append(tm.forall_range(v, ZERO, x.n, tm.land(*o)))
            else:
                veq(x[0], y[0], out, depth + 1)
                veq(x[1], y[1], out, depth + 1)
        return
    if type(a) is type(b) and not isinstance(a, (PList, PDict, PSet, SArr)):
        if type(a).__module__.startswith('emva1288') and hasattr(a, '__dict__') and \
                list(a.__dict__) == list(b.__dict__):
            for k in a.__dict__:
                veq(a.__dict__[k], b.__dict__[k], out, depth + 1)
            return
        try:
            if a == b:
                return
        except Exception:
            pass
    raise Unmergeable('%s / %s' % (type(a).__name__, type(b).__name__))


def seg_eq(s, t, out, depth):
    if type(s) is not type(t):
        raise Unmergeable('segments')
    v = tm.fresh_ivar()
    if isinstance(s, Seg):
        out.append(tm.eq(s.n, t.n))
        o = []
        veq(s.fn(v), t.fn(v), o, depth + 1)
        out.append(tm.forall_range(v, ZERO, s.n, tm.land(*o)))
    elif isinstance(s, FlatSeg):
        out.append(tm.eq(s.m, t.m))
        o = []
        veq(PList(segs=s.seq(v)), PList(segs=t.seq(v)), o, depth + 1)
        out.append(tm.forall_range(v, ZERO, s.m, tm.land(*o)))
    else:
        out.append(tm.eq(s.m, t.m))
        o = []
        veq(s.fn(v), t.fn(v), o, depth + 1)
        out.append(tm.forall_range(v, ZERO, s.m, tm.iff(s.cond(v), t.cond(v))))
        out.append(tm.forall_range(v, ZERO, s.m, tm.implies(s.cond(v), tm.land(*o))))


# ---------------------------------------------------------------- attributes
class AttrCell:
    """one attribute of one object, as a mutable cell"""
    def __init__(self, obj, name, born):
        self.obj, self.name, self.born = obj, name, born


_births = {}     # id(obj) -> (obj, serial)
_cells = {}


def birth(obj):
    r = _births.get(id(obj))
    if r is None:
        r = (obj, eng.tick())
        _births[id(obj)] = r
    return r[1]


def attr_write(obj, name, val):
    if id(obj) in eng.frozen_objs:
        raise Unsupported('attribute of an element of a symbolic container')
    d = obj.__dict__
    b = birth(obj)
    key = (id(obj), name)
    cell = _cells.get(key)
    if cell is None:
        cell = _cells[key] = AttrCell(obj, name, b)
    old = d.get(name, MISSING)
    d[name] = val
    V.touched(cell)

    def undo():
        if old is MISSING:
            d.pop(name, None)
        else:
            d[name] = old
    E().log(undo, b)


# --------------------------------------------------------------------- cells
class Retry(Exception):
    pass


class Peel(Exception):
    pass


class Slot:
    """something a loop body changes: a local, a buffer, a list, a dict, an
    attribute"""
    def __init__(self, kind, obj, name=None):
        self.kind, self.obj, self.name = kind, obj, name

    def read(self, loc):
        if self.kind == 'loc':
            return loc.get(self.name, MISSING)
        if self.kind == 'buf':
            return SArr(self.obj).copy_()
        if self.kind == 'list':
            return PList(segs=list(self.obj.segs))
        if self.kind == 'dict':
            d = PDict(list(self.obj.ent))
            return d
        if self.kind == 'set':
            s = PSet(list(self.obj.segs))
            s.dups = self.obj.dups
            return s
        if self.kind == 'attr':
            return self.obj.obj.__dict__.get(self.obj.name, MISSING)

    def write(self, val, loc):
        if self.kind == 'loc':
            if val is MISSING:
                loc.pop(self.name, None)
            else:
                loc[self.name] = val
        elif self.kind == 'buf':
            SArr(self.obj)._write(val.snap())
        elif self.kind == 'list':
            self.obj._set(list(val.segs))
        elif self.kind == 'dict':
            self.obj._set(list(val.ent))
        elif self.kind == 'set':
            self.obj._set(list(val.segs))
        elif self.kind == 'attr':
            if val is MISSING:
                self.obj.obj.__dict__.pop(self.obj.name, None)
            else:
                attr_write(self.obj.obj, self.obj.name, val)

    def label(self):
        return '%s:%s' % (self.kind, self.name if self.kind == 'loc' else
                          (self.obj.name if self.kind == 'attr' else id(self.obj)))


def kind_of(v):
    if v is MISSING:
        return 'missing'
    if isinstance(v, (SBool, bool)):
        return 'bool'
    if is_num(v):
        return 'num'
    if isinstance(v, (SStr, str)):
        return 'str'
    if isinstance(v, SArr):
        return 'arr'
    if isinstance(v, PList):
        return 'list'
    if isinstance(v, PDict):
        return 'dict'
    if isinstance(v, PSet):
        return 'set'
    if isinstance(v, tuple):
        return 'tuple'
    return 'other'


# inferred shapes: cand(i) -> value
class Havoc:
    """a havocked value and the means to solve its recurrence"""

    def __init__(self, init, tag):
        self.init, self.tag = init, tag
        self.k = kind_of(init)
        self.sub = None
        self.names = []
        self.fkind = None

    def make(self):
        """the arbitrary value at the start of an iteration"""
        k, init = self.k, self.init
        if k == 'num':
            kd = self.fkind or lift(init).kind
            self.names = [self.tag]
            # an arbitrary number; integrality of the start value is kept only for integers
            self.h = SNum(tm.var(self.tag, 'I' if kd == 'i' and lift(init).t.isint else 'R'), kd)
        elif k == 'bool':
            self.names = [self.tag]
            self.h = SBool(tm.var(self.tag, 'B'))
        elif k == 'str':
            self.names = [self.tag]
            self.h = SStr(tm.var(self.tag, 'O'))
        elif k == 'arr':
            if type(init) is not SArr:
                raise Unsupported('loop-carried %s' % type(init).__name__)
            self.names = [self.tag]
            sort = 'B' if init.dtype.kind == 'b' else ('I' if init.dtype.kind in 'iu' else 'R')
            nm = self.tag
            self.h = SArr.new(lambda *ix: tm.app(nm, *ix, sort=sort), init._shape, init.dtype)
        elif k == 'list':
            n = tm.var(self.tag + '.n', 'I')
            self.names = [self.tag + '.n']
            E().assume(tm.le(ZERO, n))

            def fn(i):
                raise Unsupported('element of a list that the loop is building')
            self.marker = Seg(n, fn)
            self.h = PList(segs=[self.marker])
        elif k == 'tuple':
            self.sub = [Havoc(x, '%s.%d' % (self.tag, j)) for j, x in enumerate(init)]
            self.h = tuple(s.make() for s in self.sub)
        elif k == 'dict':
            self.h = PDict(list(init.ent))
            if self.sub is None:
                self.sub = {}
            for p, s in self.sub.items():
                self.h.ent[p] = (self.h.ent[p][0], s.make())
        else:
            self.h = init
        return self.h

    # -- solving: posts = [(condition, value)] over the continuing paths
    def solve(self, posts, v, n_in, res):
        """cand: index term -> value.  res(value) replaces the resolved
        havocked symbols by their value at iteration v"""
        k, init = self.k, self.init
        if all(p is self.h for _, p in posts):
            return lambda i: init
        if k == 'num':
            ts = []
            for c, p in posts:
                if not is_num(p):
                    raise Peel('type of %s changes' % self.tag)
                l = lift(p)
                if l.kind == 'f' and self.h.kind == 'i' and not self.fkind:
                    self.fkind = 'f'
                    raise Retry()
                ts.append((c, l.t))
            t = merge_terms(ts)
            f = solve_num(lift(init).t, self.h.t, t, v, res)
            kd = self.h.kind
            return lambda i: SNum(f(i), kd)
        if k == 'bool':
            ts = []
            for c, p in posts:
                if not isinstance(p, (SBool, bool)):
                    raise Peel('type of %s changes' % self.tag)
                ts.append((c, bterm(p)))
            t = merge_terms(ts)
            f = solve_bool(bterm(init), self.h.t, t, v, res)
            return lambda i: mkbool(f(i))
        if k == 'str':
            ts = []
            for c, p in posts:
                if not isinstance(p, (SStr, str)):
                    raise Peel('type of %s changes' % self.tag)
                ts.append((c, sterm(p)))
            t = res(SStr(merge_terms(ts)))
            tt = sterm(t)
            if tt is self.h.t:
                return lambda i: init
            if self.h.t in tt.fv:
                raise Unsupported('string built by a loop')
            it = sterm(init)
            return lambda i: wrap_str(tm.ite(tm.eq(i, ZERO), it, tm.subst(tt, {v: tm.sub(i, ONE)})))
        if k == 'arr':
            arrs = []
            for c, p in posts:
                if not isinstance(p, SArr) or type(p) is not SArr or p.ndim != init.ndim:
                    raise Peel('shape of %s changes' % self.tag)
                for a, b in zip(p._shape, init._shape):
                    if a is not b and not E().entails(tm.eq(a, b)):
                        raise Peel('shape of %s changes' % self.tag)
                if p.dtype != init.dtype:
                    raise Peel('dtype of %s changes' % self.tag)
                arrs.append((c, p.snap()))
            ix = [tm.fresh_ivar('x') for _ in init._shape]
            t = merge_terms([(c, f(*ix)) for c, f in arrs])
            hx = self.h.at(*ix)
            ini = init.snap()
            isb = init.dtype.kind == 'b'
            f = (solve_bool if isb else solve_num)(ini(*ix), hx, t, v, res, ix, self.tag)
            sh, dt = init._shape, init.dtype
            return lambda i: SArr.new(lambda *jx: tm.subst(f(i), dict(zip(ix, jx))), sh, dt)
        if k == 'list':
            return self.solve_list(posts, v, res)
        if k == 'tuple':
            for c, p in posts:
                if not isinstance(p, tuple) or len(p) != len(init):
                    raise Peel('tuple')
            fs = [s.solve([(c, p[j]) for c, p in posts], v, n_in, res) for j, s in enumerate(self.sub)]
            return lambda i: tuple(f(i) for f in fs)
        if k == 'dict':
            return self.solve_dict(posts, v, n_in, res)
        if k == 'set':
            for c, p in posts:
                if not isinstance(p, PSet):
                    raise Peel('set')
                if p.segs != init.segs and p.segs is not init.segs:
                    raise Peel('set grows')
            return lambda i: init
        # anything else: must stay equal, or be replaced (last value)
        try:
            for c, p in posts:
                o = []
                veq(p, init, o)
                if any(x is not TRUE for x in o):
                    raise Unmergeable('differs')
            return lambda i: init
        except Unmergeable:
            raise Peel('value of %s changes' % self.tag)

    def solve_list(self, posts, v, res):
        init = self.init
        tails = []
        for c, p in posts:
            if not isinstance(p, PList) or not p.segs or p.segs[0] is not self.marker:
                if isinstance(p, PList) and self.marker not in p.segs:
                    raise Peel('list replaced')
                raise Unsupported('list changed other than by appending')
            tails.append((c, p.segs[1:]))
        conc = []
        for c, t in tails:
            q = PList(segs=t).concrete() if t else []
            conc.append((c, q))
        pre = list(init.segs)
        if all(q is not None for _, q in conc):
            lens = {len(q) for _, q in conc}
            if lens == {0}:
                return lambda i: PList(segs=list(pre))
            if len(lens) == 1:
                k = lens.pop()
                vals = [res(merge_values([(c, q[j]) for c, q in conc])) for j in range(k)]
                if k == 1:
                    x = vals[0]
                    return lambda i: PList(segs=pre + [Seg(i, lambda j: inst(x, v, j))])
                return lambda i: PList(segs=pre + [FlatSeg(i, lambda j: [items_seg([inst(x, v, j) for x in vals])])])
            if lens == {0, 1}:
                yes = [(c, q[0]) for c, q in conc if q]
                cond = bterm(res(mkbool(tm.lor(*[c for c, q in conc if q]))))
                x = res(merge_values(yes))
                return lambda i: PList(segs=pre + [OptSeg(i, lambda j: tm.subst(cond, {v: j}),
                                                          lambda j: inst(x, v, j))])
            raise Unsupported('varying number of elements appended')
        if len(tails) == 1:
            segs = tails[0][1]
            if len(segs) == 1 and isinstance(segs[0], Seg) and segs[0].n is ONE:
                pass
            x = res(PList(segs=segs))
            return lambda i: PList(segs=pre + [FlatSeg(i, lambda j: inst(x, v, j).segs)])
        # several paths: same structure required
        try:
            for c, t in tails[1:]:
                o = []
                veq(PList(segs=t), PList(segs=tails[0][1]), o)
                if any(q is not TRUE for q in o):
                    raise Unmergeable('differs')
        except Unmergeable:
            raise Unsupported('different sequences appended on different paths')
        x = res(PList(segs=tails[0][1]))
        return lambda i: PList(segs=pre + [FlatSeg(i, lambda j: inst(x, v, j).segs)])

    def solve_dict(self, posts, v, n_in, res):
        init = self.init
        m = len(init.ent)
        for c, p in posts:
            if not isinstance(p, PDict):
                raise Peel('dict replaced')
            if len(p.ent) < m:
                raise Unsupported('dict entries removed by a loop')
        # entries present before
        fs = []
        retry = False
        for j in range(m):
            e = init.ent[j]
            if isinstance(e, Fam):
                for c, p in posts:
                    if p.ent[j] is not e:
                        raise Unsupported('symbolic dict entry changed by a loop')
                fs.append(None)
                continue
            h = self.h.ent[j][1]
            if all(p.ent[j][1] is h for _, p in posts) and j not in self.sub:
                fs.append(None)
                continue
            if j not in self.sub:
                self.sub[j] = Havoc(e[1], '%s[%d]' % (self.tag, j))
                retry = True
                continue
            fs.append(self.sub[j].solve([(c, p.ent[j][1]) for c, p in posts], v, n_in, res))
        if retry:
            raise Retry()
        extra = {len(p.ent) - m for _, p in posts}
        new = None
        if extra == {0}:
            pass
        elif extra == {1} or extra == {0, 1}:
            ks = [(c, p.ent[m][0]) for c, p in posts if len(p.ent) > m]
            vs = [(c, p.ent[m][1]) for c, p in posts if len(p.ent) > m]
            if any(isinstance(p.ent[m], Fam) for c, p in posts if len(p.ent) > m):
                raise Unsupported('family of entries added by a loop')
            key = res(merge_values(ks))
            val = res(merge_values(vs))
            if v not in key_fv(key):
                raise Peel('constant key')
            cond = None
            if extra == {0, 1}:
                ct = bterm(res(mkbool(tm.lor(*[c for c, p in posts if len(p.ent) > m]))))
                cond = lambda j: tm.subst(ct, {v: j})
            new = lambda i: Fam(i, lambda j: inst(key, v, j), lambda j: inst(val, v, j), cond)
        else:
            if any(v not in key_fv(x[0]) for _, p in posts for x in p.ent[m:] if not isinstance(x, Fam)):
                raise Peel('constant keys')
            raise Unsupported('several dict entries added per iteration')
        ent = list(init.ent)

        def cand(i):
            d = PDict([(x if f is None else (x[0], f(i))) for x, f in zip(ent, fs)])
            if new is not None:
                d.ent.append(new(i))
            return d
        return cand


def key_fv(k):
    t = V.vterm(k)
    if t is not None:
        return t.fv
    if isinstance(k, tuple):
        r = frozenset()
        for x in k:
            r |= key_fv(x)
        return r
    return frozenset()


def wrap_str(t):
    return t.a if t.k == 's' else SStr(t)


def inst(x, v, j):
    if j is v:
        return x
    return vsubst(x, {v: j})


def merge_terms(ts):
    r = ts[-1][1]
    for c, t in reversed(ts[:-1]):
        if t is not r:
            r = tm.ite(c, t, r)
    return r


def merge_values(vs):
    r = vs[-1][1]
    for c, x in reversed(vs[:-1]):
        if x is not r:
            r = vmerge(c, x, r)
    return r


def free_of(t, h, tag=None):
    if tag is None:
        return h not in t.fv
    for x in tm.subterms(t).values():
        if x.k in ('app', 'bapp') and x.a[0] == tag:
            return False
    return True


def solve_num(init, h, post, v, res, ix=(), tag=None):
    """closed form of x(0)=init, x(v+1)=post(v, x(v))"""
    if post is h:
        return lambda i: init
    post = rterm(res, post)
    fo = lambda t: free_of(t, h, tag)
    if fo(post):
        if v not in post.fv and E().entails(tm.eq(post, init)):
            return lambda i: init
        return lambda i: tm.ite(tm.eq(i, ZERO), init, tm.subst(post, {v: tm.sub(i, ONE)}))
    d = tm.sub(post, h)
    if fo(d):
        return lambda i: tm.add(init, tm.mk_sum(v, i, d))
    # h appears under indicators: split on the conditions free of h
    # post = [c]*a + (1-[c])*h  -> conditional write
    for a in tm.inds(post):
        c = a.a[0]
        if not fo(c):
            continue
        yes, no = tm.set_ind(post, a, True), tm.set_ind(post, a, False)
        if yes is h:
            c, yes, no = tm.lnot(c), no, yes
        if no is h and fo(yes):
            return cond_last(init, c, yes, v, ix)
    # a conditional write under several conditions
    conj = [a for a in tm.inds(post) if fo(a.a[0]) and tm.set_ind(post, a, False) is h]
    if len(conj) > 1:
        yes = post
        for a in conj:
            yes = tm.set_ind(yes, a, True)
        if fo(yes):
            return cond_last(init, tm.land(*[a.a[0] for a in conj]), yes, v, ix)
    # running maximum / minimum
    for a in tm.inds(post):
        c = a.a[0]
        if fo(c) or c.k not in ('lt', 'le'):
            continue
        yes, no = tm.set_ind(post, a, True), tm.set_ind(post, a, False)
        for keep, new, cond in ((yes, no, tm.lnot(c)), (no, yes, c)):
            if keep is h and fo(new):
                # cond: new better than h
                for op, w1, w2 in (('max', tm.lt(h, new), tm.le(h, new)), ('min', tm.lt(new, h), tm.le(new, h))):
                    if cond is w1 or cond is w2:
                        f2 = tm.max2 if op == 'max' else tm.min2
                        return lambda i: tm.ite(tm.le(i, ZERO), init, f2(init, tm.mk_red(op, v, i, new)))
    # geometric: x -> x*c
    raise Unsupported('no closed form for a loop-carried value: %s' % tm.show(post)[:200])


def cond_last(init, c, val, v, ix):
    """value val(j) of the last j<i with c(j), else init"""
    # conditions that pin v:  v == t
    parts = list(c.a) if c.k == 'and' else [c]
    for p in parts:
        if p.k == 'eq':
            l = tm.lin_in(p.a[0], v)
            if l is not None and l[0] != 0 and v in p.fv:
                t = tm.scale(l[1], -1 / l[0])
                if t.isint:
                    rest = [q for q in parts if q is not p]
                    g = tm.subst(tm.land(*rest), {v: t})
                    x = tm.subst(val, {v: t})
                    return lambda i: tm.ite(tm.land(tm.le(ZERO, t), tm.lt(t, i), g), x, init)
    if v not in c.fv and v not in val.fv:
        return lambda i: tm.ite(tm.land(tm.lt(ZERO, i), c), val, init)
    if v not in val.fv and not val.isint or v not in val.fv and ix:
        # one value, written in some iteration
        return lambda i: tm.ite(tm.exists_range(v, ZERO, i, c), val, init)
    m1 = tm.const(-1)

    def f(i):
        L = tm.mk_red('max', v, i, tm.ite(c, v, m1))
        return tm.ite(tm.lor(tm.le(i, ZERO), tm.lt(L, ZERO)), init, tm.subst(val, {v: L}))
    return f


def solve_bool(init, h, post, v, res, ix=(), tag=None):
    if post is h:
        return lambda i: init
    post = bterm(res(mkbool(post)))
    fo = lambda t: free_of(t, h, tag)
    if fo(post):
        return lambda i: tm.ite(tm.eq(i, ZERO), init, tm.subst(post, {v: tm.sub(i, ONE)}))
    # post monotone in h: post[h:=T] and post[h:=F]
    if tag is None:
        t1, t0 = tm.subst(post, {h: TRUE}), tm.subst(post, {h: FALSE})
        if t0 is FALSE:       # h and t1
            return lambda i: tm.land(init, tm.forall_range(v, ZERO, i, t1))
        if t1 is TRUE:        # h or t0
            return lambda i: tm.lor(init, tm.exists_range(v, ZERO, i, t0))
        if E().entails(tm.lnot(t0)):
            return lambda i: tm.land(init, tm.forall_range(v, ZERO, i, t1))
    raise Unsupported('no closed form for a loop-carried truth value')


def rterm(res, t):
    return res(SNum(t, 'f')).t


# ----------------------------------------------------------------------- RT
class Runtime:
    STAR = _Star

    # ------------------------------------------------------------ loops
    def loop(self, it, body, get, set_, where):
        s = sym_iter(it)
        if s is None:
            l = list(it)
            if len(l) > 5000:
                raise Unsupported('long concrete loop')
            for x in l:
                r = body(x)
                if r is not None:
                    return r
            return None
        n, f = s
        if E().branch(tm.le(n, ZERO)):
            return None
        return self._sym(n, f, body, get, set_, where)

    def _sym(self, n, f, body, get, set_, where):
        for peel in range(4):
            try:
                L = Loop(n, f, body, get, set_, where)
                return L.run()
            except Peel as p:
                why = str(p)
                r = body(f(ZERO))
                if r is not None:
                    return r
                f = (lambda g: (lambda i: g(tm.add(i, ONE))))(f)
                n = tm.sub(n, ONE)
                if E().branch(tm.le(n, ZERO)):
                    return None
        raise Unsupported('loop at %s: %s' % (where, why))

    def wloop(self, cond, body, get, set_, where):
        for k in range(3000):
            c = cond()
            if isinstance(c, (SBool, SNum)):
                t = bterm(c)
                d = E().decide(t)
                if d is None:
                    if k < 2:
                        try:
                            return self._wsym(cond, body, get, set_, where)
                        except (Peel, Unsupported):
                            if not E().small:
                                raise Unsupported('while loop at %s' % where)
                    if not E().branch(t):
                        return None
                elif not d:
                    return None
            elif not c:
                return None
            r = body()
            if r is not None:
                return r
        raise Unsupported('while loop at %s does not end' % where)

    def _wsym(self, cond, body, get, set_, where):
        """while loop as an iteration over 0,1,2,... left when the condition
        fails (partial correctness: termination is not proved)"""
        done = []

        def one(i):
            if not cond():
                return ('w',)
            return body()
        L = Loop(None, lambda i: i, one, get, set_, where)
        r = L.run()
        return None if r == ('w',) else r

    # --------------------------------------------------- comprehensions
    def comp(self, last, it, elt, cond):
        s = sym_iter(it)
        if s is None:
            out = []
            for x in list(it):
                if cond is not None and not cond(x):
                    continue
                if last:
                    if out and isinstance(out[-1], Seg) and out[-1].items is not None:
                        out[-1] = items_seg(out[-1].items + [elt(x)])
                    else:
                        out.append(items_seg([elt(x)]))
                else:
                    out += elt(x)
            return out
        n, f = s
        if n is ZERO or E().entails(tm.le(n, ZERO)):
            return []
        v = tm.fresh_ivar()

        def go():
            x = f(v)
            if cond is not None and not cond(x):
                return MISSING
            return elt(x)
        outs = self.generic(v, n, go)
        yes = [(c, x) for c, x in outs if x is not MISSING]
        if not yes:
            return []
        if len(yes) == len(outs):
            if last:
                x = merge_values(yes)
                return [Seg(n, lambda j: inst(x, v, j))]
            if len(yes) > 1:
                raise Unsupported('nested comprehension with cases')
            segs = yes[0][1]
            return [FlatSeg(n, lambda j: [V.ssub1(s, {v: j}) for s in segs])]
        if not last:
            raise Unsupported('filtered nested comprehension')
        c = tm.lor(*[q for q, _ in yes])
        x = merge_values(yes)
        return [OptSeg(n, lambda j: tm.subst(c, {v: j}), lambda j: inst(x, v, j))]

    def mapcomp(self, n, f, g):
        return PList(segs=self.comp(True, SIter(n, f), g, None))

    def generic(self, v, n, fn):
        """run fn for an arbitrary index v in [0, n): [(condition, value)];
        nothing may be mutated; an exception is raised when some index
        raises it"""
        e = E()
        pcm = len(e.pc)
        since = eng.tick()
        touch = {}
        V.TOUCH.append(touch)
        e.gidx.append(v)
        e.assume(tm.land(tm.le(ZERO, v), tm.lt(v, n)))
        base = dict(e.counter)
        top = dict(e.counter)

        def one():
            merge_counter(top, e.counter)
            e.counter.clear()
            e.counter.update(base)
            return fn()
        nev = len(e.events)

        def collect():
            return [x for x in e.events[nev:] if x[0] != 'print']
        try:
            paths = e.explore(one, collect)
        finally:
            merge_counter(top, e.counter)
            e.counter.clear()
            e.counter.update(top)
            V.TOUCH.remove(touch)
            e.gidx.pop()
            del e.pc[pcm:]
        if any(c for _, _, c in paths):
            raise Unsupported('effects inside a comprehension')
        bad = [o for o in touch.values() if o.born < since]
        if bad:
            raise Unsupported('mutation inside a comprehension')
        outs, facts = [], []
        for pc, r, _ in paths:
            c = tm.land(*[t for k, t in pc if k == 'br'])
            outs.append((c, r))
            fs = [t for k, t in pc if k == 'as']
            if fs:
                facts.append(tm.implies(c, tm.land(*fs)))
        excs = [(c, r) for c, r in outs if r[0] == 'exc']
        for c, r in excs:
            if isinstance(r[1], eng.Control):
                raise r[1]
            if e.branch(tm.exists_range(v, ZERO, n, c)):
                raise r[1]
            e.assume(tm.forall_range(v, ZERO, n, tm.lnot(c)))
        for x in facts:
            e.assume(tm.forall_range(v, ZERO, n, x))
        return [(c, r[1]) for c, r in outs if r[0] == 'ok']

    def compend(self, kind, segs):
        if kind in ('list', 'gen'):
            return PList(segs=[s for s in segs if not (isinstance(s, Seg) and s.n is ZERO)])
        l = PList(segs=segs)
        if kind == 'set':
            return PSet.of(l)
        d = PDict()
        c = l.concrete()
        if c is not None:
            for k, v in c:
                d[k] = v
            return d
        for s in segs:
            if isinstance(s, Seg) and s.items is not None:
                for k, v in s.items:
                    d[k] = v
                continue
            if isinstance(s, FlatSeg) or d.ent:
                raise Unsupported('dict comprehension over nested sequences')
            n = s.n if isinstance(s, Seg) else s.m
            self.distinct(n, lambda j, s=s: s.fn(j)[0], s.cond if isinstance(s, OptSeg) else None)
            d.ent.append(Fam(n, lambda j, s=s: s.fn(j)[0], lambda j, s=s: s.fn(j)[1],
                             s.cond if isinstance(s, OptSeg) else None))
        return d

    def distinct(self, n, key, cond):
        i, j = tm.fresh_ivar(), tm.fresh_ivar()
        c = eq_term(key(i), key(j))
        if cond:
            c = tm.land(c, cond(i), cond(j))
        g = tm.land(tm.le(ZERO, i), tm.lt(i, j), tm.lt(j, n), c)
        if not E().entails(tm.lnot(g)):
            raise Unsupported('dict comprehension: keys not known to be distinct')

    def unpack(self, fn, x, st):
        out = []

        def go(x, st):
            if st is None:
                out.append(x)
                return
            l = list(x)
            if len(l) != len(st):
                raise ValueError('not enough values to unpack')
            for a, b in zip(l, st):
                go(a, b)
        go(x, st)
        return fn(*out)

    # --------------------------------------------------------- displays
    def mklist(self, l):
        return PList(l)

    def mkset(self, t):
        s = PSet()
        for x in t:
            s.add(x)
        return s

    def mkdict(self, ks, vs):
        d = PDict()
        for k, v in zip(ks, vs):
            if k is _Star:
                d.update(v)
            else:
                d[k] = v
        return d

    # -------------------------------------------------------- operators
    def div(self, a, b):
        if is_num(a) and is_num(b):
            if not isinstance(b, SNum) and b == 0:
                if isinstance(a, SNum) and not isinstance(b, SNum) and getattr(a, 'np', False):
                    raise Unsupported('numpy division by zero')
                raise ZeroDivisionError('division by zero')
            lb = lift(b)
            if lb.t is ZERO or (lb.t.k != 'c' and E().entails(tm.eq(lb.t, ZERO))):
                raise Unsupported('division by zero')
            la = lift(a)
            return mknum(tm.div(la.t, lb.t), 'f')
        if isinstance(a, str) or isinstance(b, str):
            raise TypeError('unsupported operand type(s) for /')
        return a / b

    def mod(self, a, b):
        if isinstance(a, (str, SStr)):
            return V.sfmt('%', a, b)
        if is_num(a) and is_num(b):
            lb = lift(b)
            if lb.t is ZERO:
                raise ZeroDivisionError('integer modulo by zero')
            return lift(a) % lb
        return a % b

    def pow(self, a, b):
        if is_num(a) and is_num(b):
            return V.num_pow(a, b)
        return a ** b

    OPS = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'FloorDiv': '__floordiv__', 'BitOr': '__or__',
           'BitAnd': '__and__', 'BitXor': '__xor__'}
    IOPS = {'Add': '__iadd__', 'Sub': '__isub__', 'Mult': '__imul__', 'Div': '__itruediv__',
            'FloorDiv': '__ifloordiv__', 'Pow': '__ipow__', 'BitOr': '__ior__', 'BitAnd': '__iand__'}

    def iop(self, op, a, b):
        f = None
        from . import snp
        if isinstance(a, (SArr, PList, snp.CArr, PSet, PDict)):
            f = getattr(type(a), self.IOPS.get(op, ''), None)
        if f is not None:
            r = f(a, b)
            if r is not NotImplemented:
                return r
        import operator as o
        if op == 'Div':
            return self.div(a, b)
        if op == 'Mod':
            return self.mod(a, b)
        if op == 'Pow':
            return self.pow(a, b)
        return {'Add': o.add, 'Sub': o.sub, 'Mult': o.mul, 'FloorDiv': o.floordiv, 'BitOr': o.or_,
                'BitAnd': o.and_, 'BitXor': o.xor, 'LShift': o.lshift, 'RShift': o.rshift,
                'MatMult': o.matmul}[op](a, b)

    def iop_attr(self, op, obj, name, val):
        self.setattr(obj, name, self.iop(op, getattr(obj, name), val))

    def iop_item(self, op, obj, key, val):
        obj[key] = self.iop(op, obj[key], val)

    def slice(self, a, b, c):
        return SSlice(a, b, c)

    def flt(self, s):
        f = float(s)
        if f != f or f in (float('inf'), float('-inf')):
            raise Unsupported('float literal %s' % s)
        return SNum(tm.const(Fraction(s)), 'f')

    def setattr(self, obj, name, val):
        if isinstance(obj, type) or not hasattr(obj, '__dict__'):
            if isinstance(obj, (SArr,)) and name == 'mask':
                raise Unsupported('mask assignment')
            setattr(obj, name, val)
            return
        d = getattr(type(obj), name, None)
        if d is not None and hasattr(type(d), '__set__'):
            setattr(obj, name, val)
            return
        if isinstance(obj, (SArr, PList, PDict, PSet, SNum)):
            raise Unsupported('attribute %s of %s' % (name, type(obj).__name__))
        if type(obj).__setattr__ is not object.__setattr__ and not isinstance(obj, type(B)):
            setattr(obj, name, val)
            return
        attr_write(obj, name, val)

    def contains(self, c, x, negate):
        if isinstance(c, PDict):
            r = c.find(x) is not None
        elif isinstance(c, PView) and c.kind == 'keys' and c.d.ent is not None and c.d._segs is not None:
            r = seq_contains(c.segs, x)
        elif isinstance(c, (PList, PSet)):
            r = seq_contains(c.segs, x)
        elif isinstance(c, tuple):
            ts = []
            for y in c:
                ts.append(eq_term(y, x))
            r = mkbool(tm.lor(*ts))
        elif isinstance(c, SStr):
            r = mkbool(tm.app('instr', c.t, sterm(x), sort='B'))
        elif isinstance(c, str) and isinstance(x, SStr):
            r = mkbool(tm.app('instr', tm.strc(c), x.t, sort='B'))
        elif isinstance(c, SArr):
            if c.ndim != 1:
                raise Unsupported('in n-d array')
            v = tm.fresh_ivar()
            if not is_num(x):
                return negate
            n = c._shape[0]
            cs = [tm.exists_range(v, ZERO, n, tm.eq(c.at(v), lift(x).t))]
            r = mkbool(cs[0])
        else:
            r = x in c
        if negate:
            return (not r) if isinstance(r, bool) else ~r
        return r

    # ---------------------------------------------------------- strings
    def fstr(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                out.append(tm.strc(p))
                continue
            v, conv, spec = p
            if isinstance(spec, SStr):
                raise Unsupported('symbolic format spec')
            if conv in (114, 97) and isinstance(v, str):
                v = repr(v)
            out += V._cat_parts(sterm(V.fmt_value(spec, v)))
        return V.mkcat(out)

    def str_format(self, obj, *a, **k):
        if not isinstance(obj, str):
            return obj.format(*a, **k)
        import string
        out = []
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(obj):
            if lit:
                out.append(tm.strc(lit))
            if field is None:
                continue
            if spec and '{' in spec:
                raise Unsupported('nested format spec')
            if field == '':
                v = a[auto]
                auto += 1
            elif field.isdigit():
                v = a[int(field)]
            elif field.isidentifier():
                v = k[field]
            else:
                raise Unsupported('format field')
            if v is None and spec:
                raise TypeError('unsupported format string passed to NoneType.__format__')
            out += V._cat_parts(sterm(V.fmt_value(spec or '', v)))
        return V.mkcat(out)

    def str_split(self, s, *a, **k):
        from . import shims
        if isinstance(s, str) and not k:
            return shims.str_split(s, *a)
        return s.split(*a, **k)

    def str_join(self, s, *a, **k):
        from . import shims
        if isinstance(s, (str, SStr)) and len(a) == 1 and not k:
            return shims.str_join(s, a[0])
        return s.join(*a, **k)


def merge_counter(a, b):
    for k, v in b.items():
        if v > a.get(k, 0):
            a[k] = v


class Loop:
    def __init__(self, n, f, body, get, set_, where):
        self.n, self.f, self.body, self.get, self.set, self.where = n, f, body, get, set_, where
        self.uid = E().fresh_name('L' + where)

    def run(self):
        e = E()
        self.pre = self.get()
        self.since = eng.tick()
        self.carried = set()        # local names read before they are written
        self.temps = set()
        self.heap = {}
        self.hav = {}
        self.v = v = tm.fresh_ivar('k')
        e.mute += 1
        try:
            for attempt in range(14):
                try:
                    paths = self.pass_(None)
                except Retry:
                    continue
                try:
                    cand = self.infer(paths)
                    cand = self.annotated(paths, True) or cand
                    break
                except Retry:
                    continue
                except (Unsupported, Peel):
                    cand = self.annotated(paths)
                    if cand is None:
                        raise
                    break
            else:
                raise Unsupported('loop at %s: no stable description' % self.where)
        finally:
            e.mute -= 1
        if self.inv is not None:
            return self.hoare(cand)
        # pass 2: the body from the described state
        for again in range(3):
            mark = e.order[:], dict(e.obls)
            paths = self.pass_(cand)
            if self.verify(paths, cand):
                break
            raise Unsupported('loop at %s: invariant not confirmed' % self.where)
        return self.leave(paths, cand)

    # one generic iteration, from havocked values (cand None) or from the
    # candidate description
    def pass_(self, cand):
        e, v = E(), self.v
        pcm, mark = len(e.pc), len(e.journal)
        since = eng.tick()
        touch = {}
        e.assume(tm.le(ZERO, v))
        if self.n is not None:
            e.assume(tm.lt(v, self.n))
        if self.extra is not None:
            e.assume(self.extra(v))
        e.gidx.append(v)
        top = dict(e.counter)
        slots = self.slots()
        try:
            loc = dict(self.pre)
            for name in self.temps:
                loc.pop(name, None)
            if cand is None:
                for s in slots:
                    key = self.key(s)
                    h = self.hav.get(key)
                    if h is None:
                        h = self.hav[key] = Havoc(s.read(self.pre), '%s/%s' % (self.uid, s.label()))
                    s.write(h.make(), loc)
            else:
                for s in slots:
                    s.write(cand[self.key(s)](v), loc)
            # the generic state is now in place
            base = dict(e.counter)
            nev = len(e.events)
            start = dict(loc)

            def one():
                merge_counter(top, e.counter)
                e.counter.clear()
                e.counter.update(base)
                self.set(start)
                return self.body(self.f(v))

            def collect():
                loc2 = self.get()
                return (loc2, {self.key(s): s.read(loc2) for s in slots},
                        [x for x in e.events[nev:] if x[0] != 'print'])
            V.TOUCH.append(touch)
            try:
                paths = e.explore(one, collect)
            finally:
                V.TOUCH.remove(touch)
        finally:
            merge_counter(top, e.counter)
            e.counter.clear()
            e.counter.update(top)
            e.gidx.pop()
            del e.pc[pcm:]
            e.rollback(mark)
            self.set(self.pre)
        if any(c[2] for _, _, c in paths):
            raise Unsupported('loop at %s has external effects' % self.where)
        # newly touched objects
        new = False
        for o in touch.values():
            if o.born < self.since and id(o) not in self.heap:
                kind = {Buf: 'buf', PDict: 'dict', PSet: 'set', AttrCell: 'attr'}.get(type(o))
                if kind is None and isinstance(o, PList):
                    kind = 'list'
                if kind is None and isinstance(o, PDict):
                    kind = 'dict'
                if kind is None:
                    raise Unsupported('loop at %s changes a %s' % (self.where, type(o).__name__))
                self.heap[id(o)] = Slot(kind, o)
                new = True
        # locals
        for pc, r, (loc2, _h, _e) in paths:
            if r[0] == 'exc' and isinstance(r[1], NameError) and getattr(r[1], 'name', None):
                nm = r[1].name
                if nm in self.temps and nm in self.pre:
                    self.temps.discard(nm)
                    self.carried.add(nm)
                    new = True
                elif nm in self.temps:
                    raise Peel('local %s is read before the loop binds it' % nm)
            for nm, x in loc2.items():
                if nm in self.carried or nm in self.temps:
                    continue
                if nm not in start or x is not start[nm]:
                    self.temps.add(nm)
                    new = True
        cont = [p for p in paths if p[1] == ('ok', None)]
        for nm in list(self.temps):
            if nm in self.pre and any(nm not in p[2][0] for p in cont):
                self.temps.discard(nm)
                self.carried.add(nm)
                new = True
        if new:
            if cand is not None:
                raise Unsupported('loop at %s: state grows' % self.where)
            raise Retry()
        return paths

    # ------------------------------------------- invariants of the contract
    inv = None

    def annotated(self, paths, here_only=False):
        """the loop invariant the contract states for this function, the state
        before iteration i being unknown functions of i; variables under other
        names are told apart by their kinds"""
        q = self.where.split(':')[1] if ':' in self.where else self.where
        annot = list(getattr(E(), 'annot', ()))
        if self.heap or not annot:
            return None
        here = [s.name for s in self.slots()]
        kinds = {}
        for c, pc, r, col in self.conds(paths):
            if r == ('ok', None):
                for s in self.slots():
                    x = col[1][self.key(s)]
                    if not is_num(x):
                        return None
                    if lift(x).kind != 'i' or kinds.get(s.name) is None:
                        kinds[s.name] = lift(x).kind
        for exact in (True, False):
            for (fn, names, f) in annot:
                if exact:
                    if q.split('.')[-1] != fn or set(names) - set(here):
                        continue
                    ren = {n: n for n in names}
                else:
                    if len(here) != len(names) or here_only and q.split('.')[-1] != fn:
                        continue
                    ren = {}
                    for n, k in names.items():
                        m = [x for x in here if (kinds.get(x) == 'i') == (k == 'i')]
                        if len(m) == 1:
                            ren[n] = m[0]
                    if len(set(ren.values())) != len(names):
                        continue
                kind = {ren[n]: k for n, k in names.items()}
                cand = {}
                for s in self.slots():
                    h = self.hav[self.key(s)]
                    if h.k != 'num':
                        return None
                    x = lift(s.read(self.pre))
                    sort = 'I' if x.kind == 'i' and kind.get(s.name) == 'i' else 'R'
                    nm = E().fresh_name('state/%s/%s' % (self.uid, s.label()))
                    cand[self.key(s)] = lambda i, nm=nm, sort=sort, g=list(E().gidx): SNum(
                        tm.app(nm, *g, i, sort=sort), 'i' if sort == 'I' else 'f')
                self.inv = (ren, f)
                return cand
        return None

    def hoare(self, cand):
        e, v = E(), self.v
        names, f = self.inv

        def inv(i, val):
            return bterm(f(mknum(i, 'i'), {n: val(m) for n, m in names.items()}))
        at = lambda i: (lambda n: cand[('loc', n)](i))
        e.oblige('loop invariant %s initially' % self.where, inv(ZERO, lambda n: self.pre[n]), 'inv')
        self.extra = lambda i: inv(i, at(i))
        e.mute += 1
        try:
            paths = self.pass_(cand)
        finally:
            e.mute -= 1
        pcm = len(e.pc)
        for c, pc, r, col in self.conds(paths):
            if r != ('ok', None):
                continue
            e.pc.append(('as', tm.le(ZERO, v)))
            e.pc.append(('as', tm.lt(v, self.n)))
            e.pc.append(('as', self.extra(v)))
            e.pc.extend(pc)
            try:
                e.gidx.append(v)
                e.oblige('loop invariant %s preserved' % self.where,
                         inv(tm.add(v, ONE), lambda n: col[1][('loc', n)]), 'inv')
                e.gidx.pop()
            finally:
                del e.pc[pcm:]
        return self.leave(paths, cand)
    extra = None

    def slots(self):
        return [Slot('loc', None, n) for n in sorted(self.carried)] + list(self.heap.values())

    def key(self, s):
        return ('loc', s.name) if s.kind == 'loc' else id(s.obj)

    def conds(self, paths):
        out = []
        for pc, r, c in paths:
            out.append((tm.land(*[t for k, t in pc if k == 'br']), pc, r, c))
        return out

    def infer(self, paths):
        v = self.v
        cont = [(c, col) for c, pc, r, col in self.conds(paths) if r == ('ok', None)]
        if not cont:
            # every iteration leaves the loop
            raise Peel('the first iteration leaves the loop')
        cand, table = {}, {}

        def res(x):
            return vmap(x, lambda t: tm.map_apps(t, table)) if table else x

        todo = self.slots()
        progress = True
        allnames = {nm for s in todo for nm in self.all_names(self.hav[self.key(s)])}
        while todo and progress:
            progress = False
            rest = []
            for s in todo:
                h = self.hav[self.key(s)]
                posts = [(c, col[1][self.key(s)]) for c, col in cont]
                own = set(self.all_names(h))
                # other unresolved symbols in the post values?
                dep = self.mentions(posts, allnames - set(table) - own, h)
                if dep and progress is not None and not self.last_try:
                    rest.append(s)
                    continue
                f = h.solve(posts, v, self.n, res)
                cand[self.key(s)] = f
                self.record(h, f, table)
                progress = True
            todo = rest
        if todo:
            raise Unsupported('loop at %s: mutually dependent values' % self.where)
        return cand
    last_try = False

    def all_names(self, h):
        r = list(h.names)
        if isinstance(h.sub, list):
            for x in h.sub:
                r += self.all_names(x)
        elif isinstance(h.sub, dict):
            for x in h.sub.values():
                r += self.all_names(x)
        return r

    def mentions(self, posts, names, h):
        if not names:
            return False
        found = []

        def look(t):
            for x in tm.subterms(t).values():
                if x.k in ('v', 'app', 'bapp') and x.a[0] in names:
                    found.append(x)
            return t
        for c, p in posts:
            if p is h.h:
                continue
            try:
                if h.k == 'list' and isinstance(p, PList):
                    p = PList(segs=[s for s in p.segs if s is not h.marker])
                vmap(p, look)
                for s in (p.segs if isinstance(p, PList) else ()):
                    self.look_seg(s, look)
                if isinstance(p, SArr):
                    look(p.at(*[tm.fresh_ivar() for _ in p._shape]))
                look(c)
            except Unsupported:
                pass
        return bool(found)

    def look_seg(self, s, look):
        v = tm.fresh_ivar()
        if isinstance(s, Seg) and s.items is None:
            vmap(s.fn(v), look)
        elif isinstance(s, FlatSeg):
            for q in s.seq(v):
                self.look_seg(q, look)
        elif isinstance(s, OptSeg):
            look(s.cond(v))
            vmap(s.fn(v), look)

    def record(self, h, f, table):
        v = self.v
        if h.k in ('num', 'bool', 'str'):
            def g(f=f):
                x = f(v)
                return lift(x).t if h.k == 'num' else (bterm(x) if h.k == 'bool' else sterm(x))
            table[h.names[0]] = g
        elif h.k == 'arr' and h.names:
            table[h.names[0]] = lambda *ix: f(v).at(*ix)
        elif h.k == 'list' and h.names:
            table[h.names[0]] = lambda: f(v).length()
        elif h.k == 'tuple' and h.sub:
            for j, s in enumerate(h.sub):
                self.record(s, lambda i, j=j: f(i)[j], table)
        elif h.k == 'dict' and h.sub:
            for j, s in h.sub.items():
                self.record(s, lambda i, j=j: f(i).ent[j][1], table)

    def verify(self, paths, cand):
        """the state after the iteration is the description at v+1"""
        e, v = E(), self.v
        v1 = tm.add(v, ONE)
        pcm = len(e.pc)
        for c, pc, r, col in self.conds(paths):
            if r != ('ok', None):
                continue
            e.pc.append(('as', tm.le(ZERO, v)))
            if self.n is not None:
                e.pc.append(('as', tm.lt(v, self.n)))
            e.pc.extend(pc)
            try:
                for s in self.slots():
                    k = self.key(s)
                    a, b = col[1][k], cand[k](v1)
                    o = []
                    try:
                        self.veq_state(s, a, b, cand[k], v, o)
                    except Unmergeable as u:
                        return False
                    for t in o:
                        if t is TRUE or e.entails(t, 3.0):
                            continue
                        # left to the prover
                        e.gidx.append(v)
                        e.oblige('loop invariant %s (%s)' % (self.where, s.label().split(':')[0] + (
                            ' ' + s.name if s.name else '')), t, 'inv')
                        e.gidx.pop()
            finally:
                del e.pc[pcm:]
        return True

    def veq_state(self, s, a, b, cand, v, o):
        if isinstance(a, PList) and isinstance(b, PList) and (a.concrete() is None or b.concrete() is None):
            # the appended element is the description's element v
            c0 = cand(v)
            k0 = len(c0.segs)
            last = b.segs[-1] if b.segs else None
            grew = len(c0.segs) and c0.segs and not (last is None)
            if isinstance(last, (Seg, FlatSeg, OptSeg)) and len(b.segs) == k0:
                tail = a.segs[k0:]
                if isinstance(last, Seg) and last.items is None:
                    if len(tail) == 1 and isinstance(tail[0], Seg) and tail[0].items is not None and len(tail[0].items) == 1:
                        return veq(tail[0].items[0], last.fn(v), o)
                    if not tail and len(a.segs) == len(b.segs):
                        return veq(PList(segs=a.segs), PList(segs=b.segs), o)
                elif isinstance(last, FlatSeg):
                    x = PList(segs=tail)
                    y = PList(segs=last.seq(v))
                    return veq(x, y, o)
                elif isinstance(last, OptSeg):
                    if not tail:
                        o.append(tm.lnot(last.cond(v)))
                        return
                    o.append(last.cond(v))
                    if len(tail) == 1 and isinstance(tail[0], Seg) and tail[0].items is not None and len(tail[0].items) == 1:
                        return veq(tail[0].items[0], last.fn(v), o)
            return veq(a, b, o)
        if isinstance(a, PDict) and isinstance(b, PDict) and b.ent and isinstance(b.ent[-1], Fam) and \
                len(a.ent) >= len(b.ent):
            for x, y in zip(a.ent[:len(b.ent) - 1], b.ent[:-1]):
                if not isinstance(x, Fam) and not isinstance(y, Fam):
                    veq(x[0], y[0], o)
                    self.veq_state(s, x[1], y[1], None, v, o) if not isinstance(x[1], PList) else veq(x[1], y[1], o)
            f = b.ent[-1]
            if f.n is tm.add(v, ONE) and len(a.ent) == len(b.ent) + 1 and not isinstance(a.ent[-1], Fam):
                kx, vx = a.ent[-1]
                veq(kx, f.key(v), o)
                veq(vx, f.val(v), o)
                if f.cond is not None:
                    o.append(f.cond(v))
                return
            if f.cond is not None and len(a.ent) == len(b.ent):
                o.append(tm.lnot(f.cond(v)))
                return
            if len(a.ent) == len(b.ent) and a.ent[-1] is f:
                return
            return veq(a, b, o)
        return veq(a, b, o)

    def leave(self, paths, cand):
        e, v, n = E(), self.v, self.n
        cs = self.conds(paths)
        facts = []
        exits = []
        for c, pc, r, col in cs:
            if r[0] == 'exc' and isinstance(r[1], eng.Control):
                raise r[1]
            if r != ('ok', None):
                exits.append(c)
                continue
            fs = [t for k, t in pc if k == 'as' and t is not TRUE]
            if fs:
                facts.append(tm.implies(c, tm.land(*fs)))
        exit_c = tm.lor(*exits)
        cont = [(c, col) for c, pc, r, col in cs if r == ('ok', None)]
        if exits:
            if n is None:
                K = self.first_exit(exit_c)
                taken = True
                if K is None:
                    K = e.fresh('exit', 'I')
                    e.assume(tm.le(ZERO, K))
                    e.assume(tm.subst(exit_c, {v: K}))
                    e.assume(tm.forall_range(v, ZERO, K, tm.lnot(exit_c)))
            else:
                taken = e.branch(tm.exists_range(v, ZERO, n, exit_c))
            if taken:
                if n is not None:
                    K = e.fresh('exit', 'I')
                    e.assume(tm.land(tm.le(ZERO, K), tm.lt(K, n)))
                    e.assume(tm.subst(exit_c, {v: K}))
                    e.assume(tm.forall_range(v, ZERO, K, tm.lnot(exit_c)))
                for x in facts:
                    e.assume(tm.forall_range(v, ZERO, K, x))
                self.put(cand, K, cont, False)
                r = self.body(self.f(K))
                if r is None:
                    raise Infeasible()
                return r
            e.assume(tm.forall_range(v, ZERO, n, tm.lnot(exit_c)))
        elif n is None:
            raise Unsupported('while loop at %s never ends' % self.where)
        for x in facts:
            e.assume(tm.forall_range(v, ZERO, n, x))
        self.put(cand, n, cont, True)
        return None

    def first_exit(self, c):
        """the iteration at which a counting loop ends: c is  t - v <= 0"""
        v = self.v
        if c.k in ('le', 'lt'):
            p = c.a[0]
            l = tm.lin_in(p, v)
            if l is not None and l[0] < 0 and p.isint:
                t = tm.scale(l[1], -1 / l[0])          # rest/|a| <= v
                if c.k == 'le' and l[0] == -1 and t.isint:
                    pass
                else:
                    return None
                if E().entails(tm.le(ZERO, t)):
                    return t
                return tm.ite(tm.le(t, ZERO), ZERO, t)
        return None

    def put(self, cand, i, cont, positive):
        """set the state to the description at iteration i"""
        e, v = E(), self.v
        if self.extra is not None:
            e.assume(self.extra(i))
        loc = dict(self.pre)
        vals = [(s, cand[self.key(s)](i)) for s in self.slots()]
        for s, x in vals:
            s.write(x, loc)
        temps = {}
        if self.temps and cont:
            for nm in self.temps:
                try:
                    vs = [(c, col[0][nm]) for c, col in cont if nm in col[0]]
                    if len(vs) < len(cont):
                        temps[nm] = Poison('local %s after the loop' % nm)
                    else:
                        temps[nm] = vsubst(merge_values(vs), {v: tm.sub(i, ONE)})
                except (Unmergeable, Unsupported):
                    temps[nm] = Poison('local %s after the loop' % nm)
        zero = False if positive else e.decide(tm.eq(i, ZERO))
        if zero is None:
            # only matters when the temporaries differ
            merged = {}
            ok = True
            for nm, x in temps.items():
                if nm in self.pre:
                    try:
                        merged[nm] = vmerge(tm.eq(i, ZERO), self.pre[nm], x)
                    except (Unmergeable, Unsupported):
                        ok = False
                else:
                    merged[nm] = x
            if ok:
                temps = merged
                zero = False
            else:
                zero = e.branch(tm.eq(i, ZERO))
        if not zero:
            loc.update(temps)
        self.set(loc)


RT = Runtime()
