"""Discharging obligations: ring normaliser + sum congruence + z3 (+ cvc5)."""
import time
from fractions import Fraction
import z3
from . import terms as tm
from .terms import T, TRUE, FALSE, ZERO, ONE

STATS = {'z3_queries': 0, 'z3_s': 0.0, 'cvc5_queries': 0, 'cvc5_s': 0.0, 'ring': 0}


class Enc:
    """terms -> z3.  ints='int': integer-sorted terms are z3 Ints."""

    def __init__(self, ints='int'):
        self.mode = ints
        self.cache = {}
        self.fns = {}
        self.side = []          # ground axioms
        self.exact = True       # no abstraction (uninterpreted sums etc.)
        self.boundvars = {}

    def isI(self, t):
        return self.mode == 'int' and t.isint

    def real(self, t):
        e = self.enc(t)
        if z3.is_int(e):
            return z3.ToReal(e)
        return e

    def num(self, t, asint):
        e = self.enc(t)
        if asint:
            return e
        return z3.ToReal(e) if z3.is_int(e) else e

    def fn(self, name, argsorts, rsort):
        key = (name, tuple(s.name() for s in argsorts), rsort.name())
        f = self.fns.get(key)
        if f is None:
            f = z3.Function(name + '__' + '_'.join(s.name()[0] for s in argsorts), *argsorts, rsort)
            self.fns[key] = f
        return f

    OS = None

    def osort(self):
        if Enc.OS is None:
            Enc.OS = z3.DeclareSort('Obj')
        return Enc.OS

    def enc(self, t):
        r = self.cache.get(t.id)
        if r is None:
            r = self._enc(t)
            self.cache[t.id] = r
        return r

    def _abs(self, t, tag):
        """uninterpreted symbol for t, a function of its bound variables"""
        self.exact = False
        bs = sorted([v for v in t.fv if v.a[0].startswith('#')], key=lambda v: v.a[0])
        rs = z3.IntSort() if self.isI(t) else z3.RealSort()
        if t.sort == 'B':
            rs = z3.BoolSort()
        name = '%s_%d' % (tag, t.id)
        if not bs:
            return z3.Const(name, rs)
        es = [self.enc(b) for b in bs]
        return self.fn(name, [e.sort() for e in es], rs)(*es)

    def _enc(self, t):
        k = t.k
        if k == 'c':
            if self.isI(t):
                return z3.IntVal(int(t.a))
            return z3.RealVal(str(t.a))
        if k == 's':
            c = z3.Const('str_%d' % t.id, self.osort())
            return c
        if k == 'v':
            name, sort = t.a
            if sort == 'B':
                return z3.Bool(name)
            if sort == 'O':
                return z3.Const(name, self.osort())
            if self.isI(t):
                return z3.Int(name)
            return z3.Real(name)
        if k == 'poly':
            asint = self.isI(t)
            out = []
            for mo, c in t.a:
                f = []
                if c != 1 or not mo:
                    f.append(z3.IntVal(int(c)) if asint else z3.RealVal(str(c)))
                for a, e in mo:
                    x = self.num(a, asint)
                    f.extend([x] * e)
                p = f[0]
                for y in f[1:]:
                    p = p * y
                out.append(p)
            return out[0] if len(out) == 1 else z3.Sum(out)
        if k == 'ind':
            c = self.enc(t.a[0])
            if self.mode == 'int':
                return z3.If(c, z3.IntVal(1), z3.IntVal(0))
            return z3.If(c, z3.RealVal(1), z3.RealVal(0))
        if k == 'inv':
            q = self.real(t.a[0])
            if any(v.a[0].startswith('#') for v in t.fv):
                return z3.If(q == 0, z3.RealVal(0), 1 / q)
            r = z3.Real('inv_%d' % t.id)
            self.side.append(z3.If(q == 0, r == 0, q * r == 1))
            return r
        if k == 'app' or k == 'bapp':
            return self._app(t)
        if k in ('sum', 'red'):
            return self._abs(t, k)
        if k == 'true':
            return z3.BoolVal(True)
        if k == 'false':
            return z3.BoolVal(False)
        if k in ('le', 'lt', 'eq'):
            p = t.a[0]
            # split into positive and negative parts for readability of ints
            e = self.enc(p)
            z = z3.IntVal(0) if z3.is_int(e) else z3.RealVal(0)
            return e <= z if k == 'le' else (e < z if k == 'lt' else e == z)
        if k == 'oeq':
            return self.enc(t.a[0]) == self.enc(t.a[1])
        if k == 'oite':
            return z3.If(self.enc(t.a[0]), self.enc(t.a[1]), self.enc(t.a[2]))
        if k == 'not':
            return z3.Not(self.enc(t.a[0]))
        if k == 'and':
            return z3.And([self.enc(x) for x in t.a])
        if k == 'or':
            return z3.Or([self.enc(x) for x in t.a])
        if k in ('forall', 'exists'):
            v = tm.bvar(t.a[1].h + 1)
            b = self.enc(t.a[1])
            zv = self.enc(v)
            return z3.ForAll([zv], b) if k == 'forall' else z3.Exists([zv], b)
        raise AssertionError(k)

    def _app(self, t):
        f, args = t.a
        ground = not any(v.a[0].startswith('#') for v in t.fv)
        if f == 'floor' and self.mode == 'int':
            if ground:
                r = z3.Int('floor_%d' % t.id)
                x = self.real(args[0])
                self.side += [z3.ToReal(r) <= x, x < z3.ToReal(r) + 1]
                # n-multiple form for quotients p/q, q>0: q*floor(p/q) <= p < q*(floor+1)
                self._floor_div(args[0], r)
                return r
            return z3.ToInt(self.real(args[0]))
        if f == 'mod' and self.mode == 'int' and t.isint:
            a, b = self.enc(args[0]), self.enc(args[1])
            if args[1].k == 'c' and args[1].a > 0:
                return a % b
            if ground:
                r = z3.Int('mod_%d' % t.id)
                q = z3.Int('modq_%d' % t.id)
                self.side += [z3.Implies(b > 0, z3.And(a == b * q + r, 0 <= r, r < b))]
                return r
        es = []
        for x in args:
            e = self.enc(x)
            es.append(e)
        if t.sort == 'B':
            rs = z3.BoolSort()
        elif t.sort == 'O':
            rs = self.osort()
        else:
            rs = z3.IntSort() if self.isI(t) else z3.RealSort()
        r = self.fn(f, [e.sort() for e in es], rs)(*es) if es else z3.Const(f, rs)
        if ground and f in ('sqrt', 'exp', 'rint', 'pow2', 'trunc'):
            x = self.real(args[0])
            rr = z3.ToReal(r) if z3.is_int(r) else r
            if f == 'sqrt':
                self.side.append(z3.Implies(x >= 0, z3.And(rr >= 0, rr * rr == x)))
                self.side.append(z3.Implies(x > 0, rr > 0))
            elif f == 'exp' or f == 'pow2':
                self.side.append(rr > 0)
            elif f == 'trunc':
                self.side += [z3.Implies(x >= 0, z3.And(rr <= x, x < rr + 1)), z3.Implies(x < 0, z3.And(x <= rr, rr < x + 1))]
            elif f == 'rint':
                h = z3.RealVal('1/2')
                self.side += [rr - h <= x, x <= rr + h]
        return r

    def _floor_div(self, x, r):
        # x = p * inv(q) (single inverse, common to all monomials)
        qs = {}
        for mo, c in tm.mons(x).items():
            iv = [a for a, e in mo if a.k == 'inv' and e == 1]
            if len(iv) != 1:
                return
            qs[iv[0].id] = iv[0]
        if len(qs) != 1:
            return
        iq = list(qs.values())[0]
        q = iq.a[0]
        p = tm.from_mons({tuple(y for y in mo if y[0] is not iq): c for mo, c in tm.mons(x).items()})
        zq, zp = self.enc(q), self.enc(p)
        if z3.is_int(zq) and not z3.is_int(zp):
            zq = z3.ToReal(zq)
        rr = r
        if not z3.is_int(zq):
            rr = z3.ToReal(r)
            if z3.is_int(zp):
                zp = z3.ToReal(zp)
        self.side.append(z3.Implies(zq > 0, z3.And(zq * rr <= zp, zp < zq * (rr + 1))))


RSEED = 0     # solver seed of a second attempt
SLACK = 1


def _solve(assertions, timeout, mode, want_model=False):
    enc = Enc(mode)
    zs = [enc.enc(a) for a in assertions]
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000 * SLACK))
    if RSEED:
        s.set('random_seed', RSEED)
    for x in zs:
        s.add(x)
    for x in enc.side:
        s.add(x)
    t0 = time.time()
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS['z3_queries'] += 1
    STATS['z3_s'] += time.time() - t0
    if r == z3.unsat:
        return 'unsat', None
    if r == z3.sat:
        return 'sat', (s.model(), enc)
    return 'unknown', (s, enc)


def model_value(me, t):
    m, enc = me
    v = m.eval(enc.enc(t), model_completion=True)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None


def check_sat(assertions, timeout=2.0):
    """'unsat' | 'sat' | 'unknown' of the conjunction"""
    for a in assertions:
        if a is FALSE:
            return 'unsat', None
    r, m = _solve(assertions, timeout, 'int')
    return r, m


def _atoms_of(t, kinds):
    return [x for x in tm.subterms(t).values() if x.k in kinds]


class Prover:
    def __init__(self, budget=20.0, z3_timeout=6.0):
        self.deadline = time.time() + budget
        self.zt = z3_timeout
        self.model = None
        self.exact_model = False
        self.trace = []
        self.used = set()
        self._nz = {}

    def left(self):
        return self.deadline - time.time()

    # ------------------------------------------------------------ helpers
    def elim(self, hyps, goal):
        """substitute variables fixed by equalities in the hypotheses"""
        hyps = [h for h in hyps if h is not TRUE]
        done = False
        n = 0
        while not done and n < 40:
            done = True
            n += 1
            les = {h.a[0].id for h in hyps if h.k == 'le'}
            for i, h in enumerate(hyps):
                if h.k == 'and':
                    hyps = hyps[:i] + list(h.a) + hyps[i + 1:]
                    done = False
                    break
                if h.k == 'v' and h.sort == 'B':
                    continue
                if h.k == 'le' and tm.neg(h.a[0]).id in les:
                    p = h.a[0]
                elif h.k != 'eq':
                    continue
                else:
                    p = h.a[0]
                for mo, c in tm.mons(p).items():
                    if len(mo) == 1 and mo[0][1] == 1 and mo[0][0].k == 'v':
                        v = mo[0][0]
                        rest = tm.scale(tm.sub(p, tm.scale(v, c)), -1 / c)
                        if v in rest.fv or (v.isint and not rest.isint):
                            continue
                        m = {v: rest}
                        hyps = [tm.subst(x, m) for j, x in enumerate(hyps) if j != i]
                        hyps = [x for x in hyps if x is not TRUE]
                        goal = tm.subst(goal, m)
                        done = False
                        break
                if not done:
                    break
        return hyps, goal

    def z3(self, hyps, goal, timeout=None, record=False):
        """hyps |- goal by z3"""
        if goal is TRUE:
            return True
        if any(h is FALSE for h in hyps):
            return True
        ng = tm.lnot(goal)
        t = min(timeout or self.zt, max(0.2, self.left()))
        asr = skolem(list(hyps) + [ng])
        if any(h.k == 'forall' for h in asr) or any(x.k == 'forall' for h in asr for x in tm.subterms(h).values()):
            inst = instantiate(asr)
            gr = [h for h in asr + inst if h.k != 'forall' and not any(
                x.k in ('forall', 'exists') for x in tm.subterms(h).values())]
            if inst and any(x.k == 'sum' for h in gr for x in tm.subterms(h).values()):
                r, m = _solve(gr, t / 2, 'int')
                if r == 'unsat':
                    self.used.add('z3')
                    return True
            asr = asr + inst
        r, m = _solve(asr, t, 'int')
        if r == 'unsat':
            self.used.add('z3')
            return True
        if r == 'unknown':
            r2, m2 = _solve(asr, t, 'real')
            if r2 == 'unsat':
                self.used.add('z3')
                return True
            if self.left() > 1:
                if cvc5_unsat(asr, min(t, max(0.2, self.left()))):
                    self.used.add('cvc5')
                    return True
        if r == 'sat' and record:
            self.model = m
            self.exact_model = m[1].exact
        return False

    def nonzero(self, hyps, q, quick=True):
        key = (q.id, tuple(sorted(h.id for h in hyps)))
        r = self._nz.get(key)
        if r is None:
            r = self._nonzero(hyps, q)
            self._nz[key] = r
        return r

    def _nonzero(self, hyps, q):
        if q.k == 'c':
            return q.a != 0
        g = tm.lnot(tm.eq0(q))
        hs = {h.id for h in hyps}
        if g.id in hs or tm.lt0(q).id in hs or tm.lt0(tm.neg(q)).id in hs:
            return True
        m = tm.mons(q)
        if len(m) == 1:
            (mo, c), = m.items()
            if len(mo) > 1 or (mo and mo[0][1] > 1):
                return all(self.nonzero(hyps, a) for a, _e in mo)
        # sum of a positive-definite kind?
        if q.k == 'app' and q.a[0] in ('sqrt',):
            return self.prove_rel(hyps, tm.lt0(tm.neg(q.a[1][0])))
        if q.k == 'app' and q.a[0] in ('exp', 'pow2'):
            return True
        rel = relevant(hyps, g)
        if self.z3(rel, g, timeout=2.0):
            return True
        sf = self.sum_facts(hyps, g)
        if sf and self.z3(rel + sf, g, timeout=2.0):
            return True
        return False

    def prove_rel(self, hyps, g):
        key = ('rel', g.id, tuple(sorted({h.id for h in hyps})))
        r = self._nz.get(key)
        if r is None:
            rel = relevant(hyps, g)
            r = self.z3(rel, g, timeout=2.0)
            if not r and len(rel) < len(hyps):
                r = self.z3(hyps, g, timeout=2.0)
            self._nz[key] = r
        return r

    # ------------------------------------------------------------ main
    def prove(self, hyps, goal, depth=0):
        hyps, goal = self.elim(list(hyps), goal)
        if any(h is FALSE for h in hyps):
            return True
        if goal is TRUE:
            self.used.add('ring')
            return True
        ids = {h.id for h in hyps}
        if goal.id in ids:
            self.used.add('ring')
            return True
        if self.left() < 0 or depth > 40:
            return False
        k = goal.k
        if k == 'and':
            return all(self.prove(hyps, g, depth + 1) for g in goal.a)
        if k == 'forall':
            _v, body = tm.open_binder(goal)
            return self.prove(hyps, body, depth + 1)
        if k == 'or':
            if self.z3(relevant(hyps, goal), goal, timeout=1.5):
                return True
            cand = [g for g in goal.a if g.k in ('forall', 'and', 'exists')]
            cand += [g for g in goal.a if g.k == 'eq' and g not in cand]
            cand += [g for g in goal.a if g not in cand]
            for g in cand[:3]:
                rest = [tm.lnot(x) for x in goal.a if x is not g]
                if self.prove(hyps + rest, g, depth + 1):
                    return True
            return False
        # split disjunctive hypotheses only on demand (z3 does it otherwise)
        if k == 'eq':
            return self.prove_eq(hyps, goal.a[0], depth)
        if k in ('le', 'lt'):
            return self.prove_le(hyps, goal, depth)
        if k == 'exists':
            return self.prove_exists(hyps, goal, depth)
        if k in ('bapp', 'oeq', 'not', 'v'):
            return self.z3(hyps, goal, record=True) or self.congr(hyps, goal, depth)
        return self.z3(hyps, goal, record=True)

    def congr(self, hyps, goal, depth):
        return False

    def prove_exists(self, hyps, goal, depth):
        if self.z3(hyps, goal, timeout=2.0):
            return True
        cands = ground_ints(hyps + [goal])
        _v, body = tm.open_binder(goal)
        for c in cands[:12]:
            if self.left() < 0:
                return False
            if self.z3(hyps, tm.subst(body, {_v: c}), timeout=1.0):
                return True
        # the place where a maximum or minimum is attained
        for x in [x for x in _atoms_of(goal, ('red',)) if not any(v.a[0].startswith('#') for v in x.fv)][:4]:
            if self.left() < 0:
                return False
            n = x.a[0]
            if not self.prove_rel(hyps, tm.lt(ZERO, n)):
                continue
            w = tm.fresh_ivar('w')
            fs = [tm.le(ZERO, w), tm.lt(w, n), tm.eq(x, tm.open_binder(x, w)[1])]
            if self.prove(hyps + fs, tm.subst(body, {_v: w}), depth + 5):
                return True
        return False

    def cancel(self, hyps, p):
        """multiply p by the known-nonzero denominators occurring in it"""
        n = 0
        while n < 30:
            n += 1
            invs = {}
            for mo in tm.mons(p):
                for a, e in mo:
                    if a.k == 'inv':
                        invs[a.id] = a
            todo = [a for a in invs.values() if self.nonzero(hyps, a.a[0])]
            if not todo:
                return p
            # innermost last: pick the inverse whose own denominator is largest
            a = max(todo, key=lambda x: (x.h, x.id))
            q = a.a[0]
            K = max(dict(mo).get(a, 0) for mo in tm.mons(p))
            acc = []
            for mo, c in tm.mons(p).items():
                e = dict(mo).get(a, 0)
                rest = tm.from_mons({tuple(x for x in mo if x[0] is not a): c})
                acc.append(tm.mul2(rest, tm.power(q, K - e)))
            p = tm.add(*acc)
            if p is ZERO:
                return p
        return p

    def prove_eq(self, hyps, p, depth):
        if p is ZERO:
            self.used.add('ring')
            return True
        if p.k == 'c':
            return self.z3(hyps, FALSE, record=True)
        # quantified hypotheses on sums: their ground instances may settle it
        if depth < 3 and _atoms_of(p, ('sum',)) and any(h.k == 'forall' and _atoms_of(h, ('sum',)) for h in hyps):
            if self.z3(hyps, tm.eq0(p), timeout=4.0):
                return True
        if depth < 6 and any(x.k == 'exists' for a in _atoms_of(p, ('sum',)) for x in tm.subterms(a).values()):
            q = self.exclusive(hyps, p, depth)
            if q is not p:
                return self.prove(hyps, tm.eq0(q), depth + 1)
        # indicators: all at once, or decide or split one after the other
        if tm.inds(p) and not _atoms_of(p, ('sum', 'red')):
            g = tm.eq0(p)
            if self.z3(relevant(hyps, g), g, timeout=1.0) or self.z3(hyps, g, timeout=2.0):
                return True
        for i in tm.inds(p):
            c = i.a[0]
            if self.left() < 0:
                return False
            if self.prove_rel(hyps, c):
                return self.prove(hyps + [c], tm.eq0(tm.set_ind(p, i, True)), depth + 1)
            nc = tm.lnot(c)
            if self.prove_rel(hyps, nc):
                return self.prove(hyps + [nc], tm.eq0(tm.set_ind(p, i, False)), depth + 1)
        il = tm.inds(p)
        if il:
            i = il[0]
            c = i.a[0]
            return (self.prove(hyps + [c], tm.eq0(tm.set_ind(p, i, True)), depth + 1) and
                    self.prove(hyps + [tm.lnot(c)], tm.eq0(tm.set_ind(p, i, False)), depth + 1))
        p1 = self.cancel(hyps, p)
        if p1 is ZERO:
            self.used.add('ring')
            return True
        if tm.inds(p1):
            return self.prove(hyps, tm.eq0(p1), depth + 1)
        # interpreted squares: sqrt(x)^2 = x for x >= 0
        p2 = self.sqrt_squares(hyps, p1)
        if p2 is not p1:
            return self.prove(hyps, tm.eq0(p2), depth + 1)
        p3 = self.sum_congruence(hyps, p1, depth)
        if p3 is not None and p3 is not p1:
            if p3 is ZERO:
                self.used.add('sum-congruence')
                return True
            return self.prove(hyps, tm.eq0(p3), depth + 1)
        p3 = self.atom_congruence(hyps, p1, depth)
        if p3 is not None and p3 is not p1:
            return self.prove(hyps, tm.eq0(p3), depth + 1)
        g = tm.eq0(p1)
        if self.z3(relevant(hyps, g), g, timeout=2.0):
            return True
        if self.z3(hyps, g, record=True):
            return True
        sf = self.sum_facts(hyps, g)
        if sf and self.z3(hyps + sf, g, record=True):
            return True
        # remaining undecided denominators: split on zero
        for mo in tm.mons(p1):
            for a, _e in mo:
                if a.k == 'inv' and depth < 6:
                    q = tm.eq0(a.a[0])
                    return (self.prove(hyps + [tm.lnot(q)], g, depth + 8) and
                            self.prove(hyps + [q], tm.eq0(tm.from_mons(
                                {m: c for m, c in tm.mons(p1).items() if not any(x is a for x, _ in m)})), depth + 8))
        return False

    def exclusive(self, hyps, p, depth):
        """inside sums: [exists k<n. c(k)] = sum over k<n of [c(k)] where the
        c(k) exclude each other"""
        out, ch = [], False
        for mo, c in tm.mons(p).items():
            r = tm.const(c)
            for a, e in mo:
                x = a
                if a.k == 'sum' and any(y.k == 'exists' for y in tm.subterms(a).values()):
                    x = self._exclusive_sum(hyps, a)
                    ch = ch or x is not a
                elif a.k == 'ind':
                    x = self._exclusive_ind(hyps, a)
                    ch = ch or x is not a
                r = tm.mul2(r, tm.power(x, e))
            out.append(r)
        return tm.add(*out) if ch else p

    def _exclusive_sum(self, hyps, a):
        n = a.a[0]
        v, b = tm.open_binder(a, tm.fresh_ivar())
        if not self.known_nonneg(hyps, n):
            return a
        b2 = self.exclusive(hyps + [tm.le(ZERO, v), tm.lt(v, n)], b, 0)
        if b2 is b:
            return a
        out = []
        for mo, c in tm.mons(b2).items():
            # the sum over the cases outside, so that each case picks its place
            k = [x for x, e in mo if x.k == 'sum' and e == 1 and v not in x.a[0].fv]
            if len(k) == 1:
                w, d = tm.open_binder(k[0], tm.fresh_ivar())
                rest = tm.from_mons({tuple(y for y in mo if y[0] is not k[0]): c})
                out.append(tm.mk_sum(w, k[0].a[0], tm.mk_sum(v, n, tm.mul2(rest, d))))
            else:
                out.append(tm.mk_sum(v, n, tm.from_mons({mo: c})))
        return tm.add(*out)

    def _exclusive_ind(self, hyps, a):
        c = a.a[0]
        if c.k == 'forall':
            r = self._exclusive_ind(hyps, tm._ind_raw(tm.lnot(c)))
            return a if r.k == 'ind' else tm.sub(ONE, r)
        if not any(x.k in ('exists', 'forall') for x in tm.subterms(c).values()):
            return a
        # simplify under what is known here
        for x in [x for x in tm.subterms(c).values() if x.k in ('le', 'lt', 'eq', 'or', 'and')]:
            if x is c or x.k in ('or', 'and') or any(w.a[0].startswith('#') for w in x.fv):
                continue
            v = None
            if self.prove_rel(hyps, x):
                v = TRUE
            elif self.prove_rel(hyps, tm.lnot(x)):
                v = FALSE
            if v is not None:
                c = tm.subst(c, {x: v}, x.fv)
        for i in [x for x in tm.subterms(c).values() if x.k == 'ind']:
            # an inner indicator: both values of the condition
            if any(w.a[0].startswith('#') for w in i.fv):
                continue
            t_, f_ = tm.subst(c, {i: ONE}, i.fv), tm.subst(c, {i: ZERO}, i.fv)
            t_ = t_ if t_ in (TRUE, FALSE) else TRUE if self.prove_rel(hyps, t_) else FALSE if self.prove_rel(hyps, tm.lnot(t_)) else t_
            f_ = f_ if f_ in (TRUE, FALSE) else TRUE if self.prove_rel(hyps, f_) else FALSE if self.prove_rel(hyps, tm.lnot(f_)) else f_
            if t_ in (TRUE, FALSE) and f_ in (TRUE, FALSE):
                r = tm.ind(i.a[0])
                r = ONE if t_ is f_ is TRUE else ZERO if t_ is f_ is FALSE else r if t_ is TRUE else tm.sub(ONE, r)
                if r.k == 'ind':
                    return self._exclusive_ind(hyps, r) if r is not a else r
                m = tm.inds(r)
                return self.exclusive(hyps, r, 0) if m else r
        if c.k == 'or':
            ex = [x for x in c.a if x.k == 'exists']
            if len(ex) == 1 and all(self.prove_rel(hyps, tm.lnot(x)) for x in c.a if x is not ex[0]):
                c = ex[0]
        if c.k != 'exists':
            return tm.ind(c)
        k, body = tm.open_binder(c, tm.fresh_ivar())
        parts = list(body.a) if body.k == 'and' else [body]
        hi = None
        for x in parts:
            if x.k in ('le', 'lt'):
                l = tm.lin_in(x.a[0], k)
                if l is not None and l[0] == 1 and x.a[0].isint:
                    hi = tm.neg(l[1]) if x.k == 'lt' else tm.sub(ONE, l[1])
                    up = x
        lo = tm.le(ZERO, k)
        if hi is None or lo not in parts or not self.known_nonneg(hyps, hi):
            return tm.ind(c)
        body = tm.land(*[x for x in parts if x is not up and x is not lo])
        w = tm.fresh_ivar()
        both = [lo, tm.lt(k, hi), tm.le(ZERO, w), tm.lt(w, hi), body, tm.subst(body, {k: w})]
        if not self.prove_rel(hyps + both, tm.eq(k, w)):
            return tm.ind(c)
        self.used.add('exclusive-cases')
        return tm.mk_sum(k, hi, tm.ind(body))

    def sqrt_squares(self, hyps, p):
        out, ch = [], False
        for mo, c in tm.mons(p).items():
            r = tm.const(c)
            for a, e in mo:
                if a.k == 'app' and a.a[0] == 'sqrt' and e >= 2:
                    x = a.a[1][0]
                    if self.prove(hyps, tm.le0(tm.neg(x)), 20):
                        r = tm.mul(r, tm.power(x, e // 2), tm.power(a, e % 2))
                        ch = True
                        continue
                r = tm.mul2(r, tm.power(a, e))
            out.append(r)
        return tm.add(*out) if ch else p

    def sum_congruence(self, hyps, p, depth):
        """group monomials coef*S_f(n) with one common bound and v-free coef;
        show that the combined summand vanishes on the range"""
        groups = {}
        for mo, c in tm.mons(p).items():
            for idx, (a, e) in enumerate(mo):
                if a.k == 'sum' and e == 1:
                    rest = tuple(x for j, x in enumerate(mo) if j != idx)
                    groups.setdefault((a.a[0].id,), []).append((a, rest, c, mo))
        for (_n,), items in groups.items():
            mos = {x[3] for x in items}
            if len(mos) != len(items):
                # a monomial with two sums over the same bound: skip duplicates
                seen, it2 = set(), []
                for x in items:
                    if x[3] not in seen:
                        seen.add(x[3])
                        it2.append(x)
                items = it2
            n = items[0][0].a[0]
            v = tm.fresh_ivar('k')
            body = ZERO
            for a, rest, c, mo in items:
                _, b = tm.open_binder(a, v)
                body = tm.add(body, tm.mul(tm.const(c), tm.mono_term(rest), b))
            rest_p = tm.from_mons({mo: c for mo, c in tm.mons(p).items() if mo not in {x[3] for x in items}})
            if body is ZERO:
                return rest_p
            hh = hyps + [tm.le(ZERO, v), tm.lt(v, n)]
            if not self.known_nonneg(hyps, n):
                continue
            # simplify the summand under the range facts
            b2 = self.simp_num(hh, body)
            if b2 is not body:
                return tm.add(rest_p, tm.mk_sum(v, n, b2))
            b2 = self.cancel(hh, body)
            if b2 is ZERO:
                return rest_p
            if rest_p is ZERO and depth < 12:
                sub = Prover(max(0.5, self.left() / 2), self.zt)
                if sub.prove(hh, tm.eq0(body), depth + 5):
                    self.used |= sub.used
                    self.used.add('sum-congruence')
                    return ZERO
        # simplify single sums' bodies
        return None

    def known_nonneg(self, hyps, n):
        g = tm.le0(tm.neg(n))
        return g is TRUE or self.prove_rel(hyps, g)

    def simp_num(self, hyps, p):
        """decide the indicators of p under hyps"""
        ch = False
        for i in tm.inds(p):
            c = i.a[0]
            if self.prove_rel(hyps, c):
                p = tm.set_ind(p, i, True)
                ch = True
            elif self.prove_rel(hyps, tm.lnot(c)):
                p = tm.set_ind(p, i, False)
                ch = True
        return p

    def atom_congruence(self, hyps, p, depth):
        """f(s) and f(t) with s = t provable: replace"""
        if depth > 12:
            return None
        by = {}
        for mo in tm.mons(p):
            for a, _e in mo:
                if a.k == 'app':
                    by.setdefault((a.a[0], len(a.a[1])), {})[a.id] = a
                elif a.k == 'sum':
                    by.setdefault(('#sum', a.a[1].id), {})[a.id] = a
                elif a.k == 'inv':
                    by.setdefault(('#inv', 0), {})[a.id] = a
                elif a.k == 'red':
                    by.setdefault(('#red' + a.a[2], 0), {})[a.id] = a
        for (f, _n), d in by.items():
            l = list(d.values())
            for i in range(len(l)):
                for j in range(i + 1, len(l)):
                    if self.left() < 0:
                        return None
                    a, b = l[i], l[j]
                    if f == '#sum':
                        g = tm.eq(a.a[0], b.a[0])
                    elif f == '#inv':
                        g = tm.eq(a.a[0], b.a[0])
                    elif f.startswith('#red') and a.k == 'red':
                        v = tm.fresh_ivar('k')
                        ba, bb = tm.open_binder(a, v)[1], tm.open_binder(b, v)[1]
                        g = tm.land(tm.eq(a.a[0], b.a[0]),
                                    tm.forall_range(v, ZERO, a.a[0], tm.eq(ba, bb)))
                    else:
                        if any(x.sort != y.sort for x, y in zip(a.a[1], b.a[1])):
                            continue
                        g = tm.land(*[tm.eq(x, y) for x, y in zip(a.a[1], b.a[1])])
                    sub = Prover(min(4.0, max(0.3, self.left() / 3)), 1.5)
                    if g is not FALSE and sub.prove(hyps, g, depth + 6):
                        self.used |= sub.used
                        return _replace_atom(p, b, a)
        return None

    def sum_facts(self, hyps, goal):
        """sign facts on sums (and extremality of max/min) in goal and hyps"""
        facts = []
        seen = {}
        for t in [goal] + list(hyps):
            for x in _atoms_of(t, ('sum', 'red')):
                if any(v.a[0].startswith('#') for v in x.fv):
                    continue
                seen[x.id] = x
        for x in list(seen.values())[:24]:
            if self.left() < 0:
                break
            n = x.a[0]
            v = tm.fresh_ivar('k')
            _, b = tm.open_binder(x, v)
            rng = [tm.le(ZERO, v), tm.lt(v, n)]
            if x.k == 'sum':
                if not self.known_nonneg(hyps, n):
                    continue
                if self.sign_nonneg(hyps + rng, b):
                    facts.append(tm.le0(tm.neg(x)))
                    if self.prove_rel(hyps, tm.lt(ZERO, n)) and self.prove_rel(hyps + rng, tm.lt(ZERO, b)):
                        facts.append(tm.lt(ZERO, x))
                elif self.sign_nonneg(hyps + rng, tm.neg(b)):
                    facts.append(tm.le0(x))
            else:
                w = tm.fresh_ivar('w')
                facts.append(tm.implies(tm.lt(ZERO, n), tm.land(
                    tm.le(ZERO, w), tm.lt(w, n), tm.eq(x, tm.open_binder(x, w)[1]))))
                c = tm.le(b, x) if x.a[2] == 'max' else tm.le(x, b)
                facts.append(tm.forall(v, tm.lor(tm.lnot(rng[0]), tm.lnot(rng[1]), c)))
        return facts

    def sign_nonneg(self, hyps, b):
        """b >= 0?"""
        if b.k == 'c':
            return b.a >= 0
        if nonneg_syntactic(b):
            return True
        if all(c > 0 for c in tm.mons(b).values()) and any(a.k == 'sum' or len(mo) > 1 for mo in tm.mons(b) for a, _e in mo) and all(
                self.factor_nonneg(hyps, a, e) for mo in tm.mons(b) for a, e in mo):
            return True
        sub = Prover(min(3.0, max(0.3, self.left() / 3)), 1.5)
        return sub.prove_rel(hyps, tm.le0(tm.neg(b)))

    def factor_nonneg(self, hyps, a, e):
        if e % 2 == 0 or nonneg_syntactic(a):
            return True
        if a.k == 'inv':
            return self.factor_nonneg(hyps, a.a[0], 1)
        if a.k == 'sum':
            if not self.known_nonneg(hyps, a.a[0]):
                return False
            v, b = tm.open_binder(a, tm.fresh_ivar())
            return self.sign_nonneg(hyps + [tm.le(ZERO, v), tm.lt(v, a.a[0])], b)
        if a.k == 'poly' and len(tm.mons(a)) > 1:
            return self.sign_nonneg(hyps, a)
        return self.prove_rel(hyps, tm.le0(tm.neg(a)))

    def sign_pos(self, hyps, b):
        """b > 0, factor by factor?"""
        if b.k == 'c':
            return b.a > 0
        m = tm.mons(b)
        if any(c < 0 for c in m.values()):
            return False
        some = False
        for mo in m:
            if all(self.factor_pos(hyps, a, e) for a, e in mo):
                some = True
            elif not all(self.factor_nonneg(hyps, a, e) for a, e in mo):
                return False
        return some

    def factor_pos(self, hyps, a, e):
        if self.left() < 0:
            return False
        if a is _PI or (a.k == 'app' and a.a[0] in ('exp', 'pow2')):
            return True
        if a.k == 'inv':
            return self.factor_pos(hyps, a.a[0], 1)
        if a.k == 'sum':
            if not self.prove_rel(hyps, tm.lt(ZERO, a.a[0])):
                return False
            v, b = tm.open_binder(a, tm.fresh_ivar())
            return self.sign_pos(hyps + [tm.le(ZERO, v), tm.lt(v, a.a[0])], b)
        if a.k == 'poly' and len(tm.mons(a)) > 1:
            return self.sign_pos(hyps, a)
        return self.prove_rel(hyps, tm.lt(ZERO, a))

    def by_sign(self, hyps, t):
        """truth of t from the sign of its left side; None when that is open"""
        if t.k == 'not':
            r = self.by_sign(hyps, t.a[0])
            return None if r is None else not r
        if t.k not in ('le', 'lt', 'eq') or not _atoms_of(t, ('sum',)) or tm.inds(t.a[0]):
            return None
        p = t.a[0]
        if t.k == 'eq' and (len(t.a) != 1 and t.a[1] is not ZERO):
            return None
        if self.sign_pos(hyps, p):
            return False
        if self.sign_pos(hyps, tm.neg(p)):
            return t.k != 'eq'
        return None

    def prove_le(self, hyps, goal, depth):
        if self.z3(relevant(hyps, goal), goal, timeout=1.5):
            return True
        p = goal.a[0]
        if goal.k == 'le' and nonneg_syntactic(tm.neg(p)):
            self.used.add('ring')
            return True
        for i in tm.inds(p):
            c = i.a[0]
            if self.prove_rel(hyps, c):
                return self.prove(hyps + [c], _re(goal, tm.set_ind(p, i, True)), depth + 1)
            if self.prove_rel(hyps, tm.lnot(c)):
                return self.prove(hyps + [tm.lnot(c)], _re(goal, tm.set_ind(p, i, False)), depth + 1)
        sf = self.sum_facts(hyps, goal)
        if self.z3(hyps + sf, goal, record=True):
            return True
        if tm.inds(p) and depth < 8:
            i = tm.inds(p)[0]
            c = i.a[0]
            return (self.prove(hyps + [c], _re(goal, tm.set_ind(p, i, True)), depth + 1) and
                    self.prove(hyps + [tm.lnot(c)], _re(goal, tm.set_ind(p, i, False)), depth + 1))
        return False


def _re(goal, p):
    return tm.le0(p) if goal.k == 'le' else tm.lt0(p)


def _replace_atom(p, old, new):
    out = []
    for mo, c in tm.mons(p).items():
        r = tm.const(c)
        for a, e in mo:
            r = tm.mul2(r, tm.power(new if a is old else a, e))
        out.append(r)
    return tm.add(*out)


_PI = tm.var('pi', 'R')


def nonneg_syntactic(b):
    """sum of positive multiples of even powers / squares / nonneg atoms"""
    for mo, c in tm.mons(b).items():
        if c < 0:
            return _is_square(b)
        for a, e in mo:
            if e % 2 and not (a.k == 'ind' or a is _PI or (a.k == 'app' and a.a[0] in ('sqrt', 'exp', 'pow2'))):
                return _is_square(b)
    return True


def _is_square(b):
    """b == c*(a1 +- a2)^2 : check by trial of leading square roots"""
    m = tm.mons(b)
    sq = [(mo, c) for mo, c in m.items() if mo and all(e % 2 == 0 for _a, e in mo) and c > 0]
    if len(sq) > 4 or not sq:
        return False
    import itertools
    from math import isqrt
    roots = []
    c0 = sq[0][1]
    cands = sq + ([((), m[()])] if () in m and m[()] > 0 and not any(mo == () for mo, _ in sq) else [])
    for mo, c in cands:
        r = c / c0
        n, d = isqrt(r.numerator), isqrt(r.denominator)
        if n * n != r.numerator or d * d != r.denominator:
            return False
        roots.append(tm.from_mons({tuple((a, e // 2) for a, e in mo): Fraction(n, d)}))
    for signs in itertools.product((1, -1), repeat=len(roots) - 1):
        s = tm.add(roots[0], *[tm.scale(r, sg) for r, sg in zip(roots[1:], signs)])
        if tm.scale(tm.mul2(s, s), c0) is b:
            return True
    return False


def relevant(hyps, goal):
    """hypotheses sharing symbols with the goal (one closure), no quantifiers"""
    vs = set(goal.fv) | _funs(goal)
    out = []
    pool = [h for h in hyps if h.k not in ('forall', 'exists')]
    for _ in range(2):
        rest = []
        add = set()
        for h in pool:
            s = set(h.fv) | _funs(h)
            if s & vs:
                out.append(h)
                add |= s
            else:
                rest.append(h)
        vs |= add
        pool = rest
    return out


_fcache = {}


def _funs(t):
    r = _fcache.get(t.id)
    if r is None:
        r = {x.a[0] for x in tm.subterms(t).values() if x.k in ('app', 'bapp')
             and x.a[0] not in ('floor', 'sqrt', 'mod')}
        _fcache[t.id] = r
    return r


def ground_ints(ts):
    """integer-sorted ground terms used as indices, and integer variables"""
    d = {}
    for t in ts:
        for x in tm.subterms(t).values():
            if x.k == 'v' and x.isint and not x.a[0].startswith('#'):
                d[x.id] = x
            if x.k in ('app', 'bapp'):
                for a in x.a[1]:
                    if a.sort == 'N' and a.isint and not any(v.a[0].startswith('#') for v in a.fv):
                        d[a.id] = a
    return list(d.values())


def _patterns(body, v):
    acc = []
    tm._offsets(body, v, acc)
    return acc


def skolem(asr):
    """existential assertions opened with fresh constants"""
    out, st = [], list(reversed(asr))
    while st:
        h = st.pop()
        if h.k == 'exists':
            st.append(tm.open_binder(h, tm.fresh_ivar('w'))[1])
        elif h.k == 'and' and any(x.k == 'exists' for x in h.a):
            st.extend(reversed(h.a))
        else:
            out.append(h)
    return out


def instantiate(asr, rounds=2, cap=150):
    """ground instances of the universally quantified assertions, by matching
    application arguments"""
    foralls = []
    for h in asr:
        st = [h]
        while st:
            x = st.pop()
            if x.k == 'forall':
                foralls.append((h, x))
            elif x.k == 'and':
                st.extend(x.a)
    foralls = [x for h, x in foralls]
    out, seen = [], set()
    pool = [h for h in asr]
    for _r in range(rounds):
        ground = {}
        for h in pool:
            for x in tm.subterms(h).values():
                if x.k in ('app', 'bapp'):
                    for n, a in enumerate(x.a[1]):
                        if a.sort == 'N' and a.isint and not any(v.a[0].startswith('#') for v in a.fv):
                            ground.setdefault((x.a[0], n), {})[a.id] = a
        new = []
        for q in list(foralls):
            v, body = tm.open_binder(q)
            cands = {}
            for key, c, off in _patterns(body, v):
                if off.fv and any(w.a[0].startswith('#') for w in off.fv):
                    continue
                for g in ground.get(key, {}).values():
                    t = tm.sub(g, off) if c == 1 else tm.sub(off, g)
                    cands[t.id] = t
            for t in sorted(cands.values(), key=tm.tsize)[:16]:
                key = (q.id, t.id)
                if key in seen or len(out) > cap:
                    continue
                seen.add(key)
                b = tm.subst(body, {v: t})
                if b.k == 'or':
                    # A or forall x. B  =  forall x. A or B
                    f = next((x for x in b.a if x.k == 'forall'), None)
                    if f is not None:
                        w, bb = tm.open_binder(f, tm.fresh_ivar())
                        b = tm.forall(w, tm.lor(*[x for x in b.a if x is not f], bb))
                out.append(b)
                new.append(b)
                if b.k == 'forall':
                    foralls.append(b)
        if not new:
            break
        pool = pool + new
    return out


def cvc5_unsat(asr, timeout):
    """second opinion: the z3 encoding exported as SMT-LIB to cvc5"""
    try:
        import cvc5
    except ImportError:
        return False
    enc = Enc('int')
    s = z3.Solver()
    for a in asr:
        s.add(enc.enc(a))
    for x in enc.side:
        s.add(x)
    txt = s.to_smt2()
    t0 = time.time()
    STATS['cvc5_queries'] += 1
    try:
        tmr = cvc5.TermManager()
        sv = cvc5.Solver(tmr)
        sv.setOption('tlimit-per', str(int(timeout * 1000)))
        sv.setLogic('ALL')
        ip = cvc5.InputParser(sv)
        ip.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
        sm = ip.getSymbolManager()
        res = ''
        while True:
            c = ip.nextCommand()
            if c.isNull():
                break
            res += str(c.invoke(sv, sm))
        return 'unsat' in res.split()
    except Exception:
        return False
    finally:
        STATS['cvc5_s'] += time.time() - t0


def prove(hyps, goal, budget=20.0, z3_timeout=6.0):
    """('proved', tags) | ('refuted', model) | ('unknown', None)"""
    p = Prover(budget, z3_timeout)
    t0 = time.time()
    hyps = list(hyps)
    pi = tm.var('pi', 'R')
    if any(pi in t.fv for t in hyps + [goal]):
        hyps += [tm.lt(tm.const(Fraction(314159, 100000)), pi), tm.lt(pi, tm.const(Fraction(314160, 100000)))]
    if p.prove(list(hyps), goal):
        return 'proved', sorted(p.used) or ['ring'], time.time() - t0
    return ('refuted' if p.model is not None else 'unknown'), p, time.time() - t0
