"""Counting while loops written as for loops over a range.

    while i < N [and C]:            for i in range(i, N):
        BODY                 ==>        if not C: break
        i += 1                          BODY
                                    else: i = N if i0 < N else i0

only where the two mean the same: i is an integer local, set outside the loop
from integer expressions; the loop assigns it nowhere else and has no continue;
N is a constant, a local the loop does not assign, or len() of such a local on
which the loop calls no method and assigns no slice.
"""
import ast


def _int_expr(e):
    if isinstance(e, ast.Constant):
        return type(e.value) is int
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        return _int_expr(e.operand)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
        return _int_expr(e.left) and _int_expr(e.right)
    if isinstance(e, ast.Call):
        return isinstance(e.func, ast.Name) and e.func.id == 'len' and len(e.args) == 1
    if isinstance(e, ast.Attribute):
        return e.attr == 'size'
    if isinstance(e, ast.Subscript):
        return isinstance(e.value, ast.Attribute) and e.value.attr == 'shape'
    return False


def _stores(nodes):
    out = []
    for s in nodes:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.append(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.append(n.name)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                out.append(n.name)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                out += n.names
            elif isinstance(n, ast.alias):
                out.append((n.asname or n.name).split('.')[0])
    return out


def _has_continue(stmts):
    """a continue of this very loop"""
    for s in stmts:
        if isinstance(s, ast.Continue):
            return True
        if isinstance(s, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef)):
            if isinstance(s, (ast.For, ast.While)) and _has_continue(s.orelse):
                return True
            continue
        for f in ('body', 'orelse', 'finalbody'):
            if _has_continue(getattr(s, f, [])):
                return True
        for h in getattr(s, 'handlers', []):
            if _has_continue(h.body):
                return True
        if isinstance(s, ast.Match):
            return True
    return False


def _step(s):
    """(name, +1/-1) of a counting statement"""
    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
        n, op, v = s.target.id, s.op, s.value
    elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) \
            and isinstance(s.value, ast.BinOp) and isinstance(s.value.left, ast.Name) \
            and s.value.left.id == s.targets[0].id:
        n, op, v = s.targets[0].id, s.value.op, s.value.right
    else:
        return None
    if not (isinstance(v, ast.Constant) and type(v.value) is int and v.value == 1):
        return None
    return (n, 1) if isinstance(op, ast.Add) else (n, -1) if isinstance(op, ast.Sub) else None


def _stable(e, body):
    st = set(_stores(body))
    if isinstance(e, ast.Constant):
        return type(e.value) is int
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        return _stable(e.operand, body)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
        return _stable(e.left, body) and _stable(e.right, body)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'len' \
            and len(e.args) == 1 and isinstance(e.args[0], ast.Name) and not e.keywords:
        x = e.args[0].id
        if x in st:
            return False
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == x:
                    return False
                if isinstance(n, (ast.Delete, ast.Call)) and any(
                        isinstance(m, ast.Name) and m.id == x for k in (
                            n.targets if isinstance(n, ast.Delete) else n.args) for m in [k] + (
                            [k.value] if isinstance(k, ast.Subscript) and isinstance(n, ast.Delete) else [])):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in (
                            'len', 'abs', 'max', 'min', 'sum'):
                        continue
                    return False
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) \
                        and isinstance(n.slice, ast.Slice):
                    return False
        return True
    return False


def _const(x):
    return ast.Constant(value=x)


def _nm(x, ctx=None):
    return ast.Name(id=x, ctx=ctx or ast.Load())


class _W(ast.NodeTransformer):
    def __init__(self, fn):
        self.fn = fn
        self.k = 0

    def visit_FunctionDef(self, n):
        if n is not self.fn:
            return n
        return self.generic_visit(n)

    def visit_ClassDef(self, n):
        return n
    visit_Lambda = visit_AsyncFunctionDef = visit_ClassDef

    def visit_While(self, n):
        self.generic_visit(n)
        r = self.counting(n)
        return n if r is None else r

    def counting(self, n):
        if len(n.body) < 2 or n.orelse:
            return None
        st = _step(n.body[-1])
        if st is None:
            return None
        i, d = st
        body = n.body[:-1]
        test, more = n.test, []
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And):
            test, more = test.values[0], test.values[1:]
        if not (isinstance(test, ast.Compare) and len(test.ops) == 1):
            return None
        lhs, op, rhs = test.left, test.ops[0], test.comparators[0]
        flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if isinstance(rhs, ast.Name) and rhs.id == i and type(op) in flip:
            lhs, op, rhs = rhs, flip[type(op)](), lhs
        if not (isinstance(lhs, ast.Name) and lhs.id == i):
            return None
        want = (ast.Lt, ast.LtE) if d == 1 else (ast.Gt, ast.GtE)
        if not isinstance(op, want):
            return None
        if i in _stores(body) or _has_continue(body) or not _stable(rhs, body):
            return None
        if any(isinstance(m, ast.Name) and m.id == i for m in ast.walk(rhs)):
            return None
        # every other assignment of the counter in the function is an integer
        a = self.fn.args
        if i in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]]:
            return None
        seen = 0
        inside = {id(m) for m in ast.walk(n)}
        for m in ast.walk(self.fn):
            if id(m) in inside:
                continue
            if isinstance(m, ast.Assign) and len(m.targets) == 1 and isinstance(m.targets[0], ast.Name) \
                    and m.targets[0].id == i:
                if not _int_expr(m.value):
                    return None
                seen += 1
            elif isinstance(m, ast.Assign) and all(isinstance(t, ast.Tuple) for t in m.targets) \
                    and i in _stores(m.targets):
                t, v = m.targets[0], m.value
                if len(m.targets) != 1 or not isinstance(v, ast.Tuple) or len(v.elts) != len(t.elts):
                    return None
                for x, y in zip(t.elts, v.elts):
                    if isinstance(x, ast.Name) and x.id == i and not _int_expr(y):
                        return None
                seen += 1
        if seen == 0 or sum(x == i for x in _stores(self.fn.body)) != seen + 1:
            return None
        self.k += 1
        save, lim = 'dv__i%d' % self.k, 'dv__n%d' % self.k
        bound = rhs
        if isinstance(op, (ast.LtE, ast.GtE)):
            bound = ast.BinOp(left=rhs, op=ast.Add() if d == 1 else ast.Sub(), right=_const(1))
        rng = ast.Call(func=_nm('range'), args=[_nm(save), _nm(lim)] + ([] if d == 1 else [
            ast.UnaryOp(op=ast.USub(), operand=_const(1))]), keywords=[])
        if more:
            c = more[0] if len(more) == 1 else ast.BoolOp(op=ast.And(), values=more)
            body = [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=c), body=[ast.Break()], orelse=[])] + body
        els = [ast.If(test=ast.Compare(left=_nm(save), ops=[ast.Lt() if d == 1 else ast.Gt()],
                                       comparators=[_nm(lim)]),
                      body=[ast.Assign(targets=[_nm(i, ast.Store())], value=_nm(lim))], orelse=[])]
        out = [ast.Assign(targets=[_nm(save, ast.Store())], value=_nm(i)),
               ast.Assign(targets=[_nm(lim, ast.Store())], value=bound),
               ast.For(target=_nm(i, ast.Store()), iter=rng, body=body, orelse=els)]
        for s in out:
            ast.copy_location(s, n)
            for m in ast.walk(s):
                if isinstance(m, (ast.expr, ast.stmt)) and not hasattr(m, 'lineno'):
                    ast.copy_location(m, n)
        return out


def counting_loops(fn):
    return _W(fn).visit(fn)
