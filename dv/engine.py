"""Path exploration, path conditions, obligations."""
import itertools
import os
import time
from . import terms as tm
from . import smt
from .terms import TRUE, FALSE


_tick = itertools.count(1)


def tick():
    return next(_tick)


frozen_objs = {}


class Control(BaseException):
    """engine control flow: never caught by the code under verification"""


class Infeasible(Control):
    pass


class Unsupported(Control):
    """the verifier cannot model this construct: the contract is undecided"""


class Budget(Control):
    pass


class Frame:
    __slots__ = ('prefix', 'pos', 'alts', 'taken')

    def __init__(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.alts = []
        self.taken = []


_satcache = {}


BR = os.environ.get('DV_BRANCHES')
BR_LOG = {}


class Engine:
    def __init__(self, deadline=None, small=False):
        self.text = {}
        self.tokens = {}
        self.text_mode = False
        self.joins = {}
        self.pc = []            # list of (tag, term); tag 'br' branch / 'as' assumption
        self.frames = []
        self.journal = []
        self.obls = {}          # (name, goal id, hyps ids) -> obligation
        self.order = []
        self.counter = {}
        self.gidx = []          # generic loop indices in scope
        self.deadline = deadline or time.time() + 600
        self.small = small
        self.paths = 0
        self.events = []
        self.notes = set()
        self.ranges = {}        # app/var name -> (lo, hi)
        self.overflow = False
        self.max_paths = 3000
        self.branch_timeout = 1.0
        self.assumptions = set()
        self.reached = {}
        self.inputs = []
        self.exc_ok = None
        self.current = ''
        self.fast = False
        self.memo = {}
        self.mute = 0
        self.name_large = 0     # size above which scalars are named
        self.named = {}
        self.defs = []          # (name, term), in order of definition

    def name_term(self, t):
        """a fresh name for a large scalar term (an obligation is first tried
        for any value of the names, then with the definitions unfolded)"""
        if t.k in ('c', 'v') or tm.tsize(t) <= self.name_large or any('!' in v.a[0] for v in t.fv):
            return t
        v = self.named.get(t)
        if v is None:
            v = self.named[t] = tm.var('val~%d' % len(self.defs), 'R')
            self.defs.append((v, t))
        return v

    # ------------------------------------------------------------- fresh
    def fresh_name(self, base):
        k = self.counter.get(base, 0)
        self.counter[base] = k + 1
        return base if k == 0 else '%s~%d' % (base, k)

    def fresh(self, base, sort='R'):
        """a fresh symbol; a function of the generic loop indices in scope"""
        n = self.fresh_name(base)
        if self.gidx:
            return tm.app(n, *self.gidx, sort=sort)
        return tm.var(n, sort)

    # -------------------------------------------------------- conditions
    def hyps(self):
        return [t for _, t in self.pc]

    def assume(self, t):
        if t is TRUE:
            return
        if t is FALSE:
            raise Infeasible()
        self.pc.append(('as', t))

    def _sat(self, extra, timeout=None):
        hy = [h for h in self.hyps()]
        rel = smt.relevant(hy, extra) if True else hy
        key = (extra.id, tuple(sorted(h.id for h in rel)))
        r = _satcache.get(key)
        if r is None:
            asr = rel + [extra]
            r, _m = smt.check_sat(asr, timeout or self.branch_timeout)
            if r != 'unsat':
                # quantified / irrelevant hypotheses: one more try with all
                q = [h for h in hy if h not in rel]
                if any(h.k in ('forall', 'exists', 'or') for h in hy) and not self.fast:
                    key2 = ('all', extra.id, tuple(sorted(h.id for h in hy)))
                    r2 = _satcache.get(key2)
                    if r2 is None:
                        asr = hy + [extra]
                        r2, _m = smt.check_sat(asr + smt.instantiate(asr), timeout or self.branch_timeout)
                        _satcache[key2] = r2
                    if r2 == 'unsat':
                        return r2
            _satcache[key] = r
        return r

    def entails(self, t, timeout=None):
        """quick check, used for simplification only"""
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        ids = {h.id for _, h in self.pc}
        if t.id in ids:
            return True
        return self._sat(tm.lnot(t), timeout) == 'unsat'

    def decide(self, t):
        """True / False / None"""
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if self.entails(t):
            return True
        if self.entails(tm.lnot(t)):
            return False
        return None

    def branch(self, t):
        """truth value of t on this path; forks when both are possible"""
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if time.time() > self.deadline:
            raise Budget('time')
        f = self.frames[-1]
        if f.pos < len(f.prefix):
            v, forced = f.prefix[f.pos]
            f.pos += 1
            f.taken.append((v, forced))
            if not forced:
                self.pc.append(('br', t if v else tm.lnot(t)))
            return v
        d = None
        ids = {h.id for _, h in self.pc}
        if t.id in ids:
            d = True
        elif tm.lnot(t).id in ids:
            d = False
        else:
            a = self._sat(t)
            b = self._sat(tm.lnot(t))
            if a == 'unsat' and b == 'unsat':
                raise Infeasible()
            if a == 'unsat':
                d = False
            elif b == 'unsat':
                d = True
            else:
                d = smt.Prover(3.0, 1.0).by_sign(self.hyps(), t)
        if d is not None:
            f.taken.append((d, True))
            f.prefix = f.taken[:]
            f.pos = len(f.prefix)
            return d
        if BR:
            import traceback as tb
            from . import terms as tm_
            fr = [x for x in tb.extract_stack() if '/dv/engine' not in x.filename]
            BR_LOG.setdefault((tm_.show(t)[:150]), []).append(
                ' < '.join('%s:%d' % (x.filename.split('/')[-1], x.lineno) for x in fr[-8:][::-1]))
        f.alts.append(f.taken + [(False, False)])
        f.taken.append((True, False))
        f.prefix = f.taken[:]
        f.pos = len(f.prefix)
        self.pc.append(('br', t))
        return True

    # ------------------------------------------------------------- heap
    def log(self, undo, born=0):
        self.journal.append((undo, born))

    def rollback(self, mark, since=None):
        """undo the mutations after mark (of objects born before since)"""
        while len(self.journal) > mark:
            undo, born = self.journal.pop()
            if since is None or born < since:
                undo()

    # ----------------------------------------------------------- explore
    def explore(self, fn, collect=None, max_paths=None):
        """run fn on every path.  [(pc entries added, outcome, collected)]
        outcome: ('ok', value) | ('exc', exception)"""
        work = [[]]
        out = []
        mark, pcm = len(self.journal), len(self.pc)
        since = tick()
        n = 0
        while work:
            prefix = work.pop()
            n += 1
            if n > (max_paths or self.max_paths):
                raise Unsupported('too many paths')
            fr = Frame(list(prefix))
            self.frames.append(fr)
            ev = len(self.events)
            try:
                try:
                    r = ('ok', fn())
                except Exception as e:
                    r = ('exc', e)
                c = collect() if collect else None
                out.append((self.pc[pcm:], r, c))
            except Infeasible:
                pass
            finally:
                self.frames.pop()
                work.extend(fr.alts)
                del self.pc[pcm:]
                del self.events[ev:]
                self.rollback(mark, since)
        return out

    # -------------------------------------------------------- obligations
    def oblige(self, name, goal, kind='post'):
        if self.mute:
            return
        hy = [h for h in self.hyps()]
        key = (name, goal.id, tuple(h.id for h in hy), tuple(g.id for g in self.gidx))
        if key not in self.obls:
            self.obls[key] = {'name': name, 'goal': goal, 'hyps': hy, 'kind': kind,
                              'defs': list(self.defs)}
            self.order.append(key)


E = None


def set_engine(e):
    global E
    E = e


def cur():
    return E
