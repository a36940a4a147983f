"""Mechanical transformation of the repository's source, done on every run.

The statements that run are those of the source file.  What changes:
  * loops       -> calls of the engine's loop rule with the loop body as a
                   function (break/continue/return become status values)
  * comprehensions, list/dict/set displays, %, f-strings, .format, .join,
    division, attribute assignment -> calls of the engine, so that symbolic
    operands are possible
  * float literals -> exact decimals;  bare except -> except Exception
  * print / docstrings stay as they are.
Nothing is dropped.
"""
import ast
from .desugar import counting_loops

V = 'DV__'


def _name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def _attr(name):
    return ast.Attribute(value=_name(V), attr=name, ctx=ast.Load())


def _call(name, *args, **kw):
    return ast.Call(func=_attr(name), args=list(args),
                    keywords=[ast.keyword(arg=k, value=v) for k, v in kw.items()])


def _const(x):
    return ast.Constant(value=x)


class Assigned(ast.NodeVisitor):
    """names bound by statements (not entering nested scopes)"""

    def __init__(self):
        self.names = set()
        self.globals = set()
        self.nonlocals = set()

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_FunctionDef(self, n):
        self.names.add(n.name)
        for d in n.decorator_list:
            self.visit(d)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.names.add(n.name)

    def visit_Lambda(self, n):
        pass

    def _comp(self, n):
        pass
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_ExceptHandler(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def visit_Import(self, n):
        for a in n.names:
            self.names.add((a.asname or a.name).split('.')[0])

    visit_ImportFrom = visit_Import

    def visit_Global(self, n):
        self.globals |= set(n.names)

    def visit_Nonlocal(self, n):
        self.nonlocals |= set(n.names)


def assigned(stmts):
    a = Assigned()
    for s in stmts:
        a.visit(s)
    return a


def has_yield(fn):
    for n in ast.walk(fn):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


class Tr(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.scope = ['module']       # kinds: module, func, class, gen
        self.fnames = ['<module>']
        self.globals = [set()]
        self.loopdepth = [0]
        self.n = 0
        self.loops = {}               # function qualname -> count

    # ------------------------------------------------------------- scopes
    def visit_FunctionDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [self.visit(d) if d is not None else None for d in n.args.kw_defaults]
        self.scope.append('gen' if has_yield(n) else 'func')
        self.fnames.append(n.name)
        if not has_yield(n):
            counting_loops(n)
        a = assigned(n.body)
        self.globals.append(a.globals)
        self.loopdepth.append(0)
        doc = None
        body = n.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
                and isinstance(body[0].value.value, str):
            doc, body = body[0], body[1:]
        new = self.block(body)
        n.body = ([doc] if doc else []) + (new or [ast.Pass()])
        self.scope.pop()
        self.fnames.pop()
        self.globals.pop()
        self.loopdepth.pop()
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.scope.append('class')
        self.fnames.append(n.name)
        doc = None
        body = n.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            doc, body = body[0], body[1:]
        new = self.block(body)
        n.body = ([doc] if doc else []) + (new or [ast.Pass()])
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.bases = [self.visit(b) for b in n.bases]
        self.scope.pop()
        self.fnames.pop()
        return n

    def visit_Lambda(self, n):
        self.scope.append('func')
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.body = self.visit(n.body)
        self.scope.pop()
        return n

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out

    def generic_visit(self, node):
        return super().generic_visit(node)

    # -------------------------------------------------------------- loops
    def _loop(self, n, kind):
        line = n.lineno
        if self.scope[-1] in ('class', 'gen'):
            return super().generic_visit(n)
        self.n += 1
        uid = self.n
        ismod = self.scope[-1] == 'module'
        names = assigned(n.body).names
        if kind == 'for':
            names |= assigned([ast.Assign(targets=[n.target], value=_const(0), lineno=line)]).names
        names = sorted(x for x in names if not x.startswith('dv__'))
        gl = self.globals[-1]
        self.loopdepth[-1] += 1
        if kind == 'for':
            it = self.visit(n.iter)
        body = self.block(n.body)
        self.loopdepth[-1] -= 1
        # break/continue/return of THIS loop
        body = [BreakTr().visit(s) for s in body]
        bname, gname, sname = 'dv__body%d' % uid, 'dv__get%d' % uid, 'dv__set%d' % uid
        nl = [x for x in names if x not in gl and not ismod]
        gg = [x for x in names if x in gl or ismod]
        decl = []
        if nl:
            decl.append(ast.Nonlocal(names=nl))
        if gg:
            decl.append(ast.Global(names=gg))
        args = ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])
        if kind == 'for':
            args.args.append(ast.arg(arg='dv__x'))
            body = [ast.Assign(targets=[n.target], value=_name('dv__x'))] + body
        pre = []
        if nl:
            # make the names locals of the enclosing function
            pre.append(ast.If(test=_const(False), body=[
                ast.Assign(targets=[_name(x, ast.Store())], value=_const(None)) for x in nl], orelse=[]))
        bdef = ast.FunctionDef(name=bname, args=args, body=decl + body, decorator_list=[], type_params=[])
        getb = [ast.Assign(targets=[_name('dv__d', ast.Store())], value=ast.Dict(keys=[], values=[]))]
        for x in names:
            getb.append(ast.Try(body=[ast.Assign(
                targets=[ast.Subscript(value=_name('dv__d'), slice=_const(x), ctx=ast.Store())],
                value=_name(x))],
                handlers=[ast.ExceptHandler(type=_name('NameError'), name=None, body=[ast.Pass()])],
                orelse=[], finalbody=[]))
        getb.append(ast.Return(value=_name('dv__d')))
        gdef = ast.FunctionDef(name=gname, args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[],
                               kw_defaults=[], defaults=[]), body=getb, decorator_list=[], type_params=[])
        setb = list(decl)
        for x in names:
            setb.append(ast.If(
                test=ast.Compare(left=_const(x), ops=[ast.In()], comparators=[_name('dv__d')]),
                body=[ast.Assign(targets=[_name(x, ast.Store())], value=ast.Subscript(
                    value=_name('dv__d'), slice=_const(x), ctx=ast.Load()))],
                orelse=[ast.Try(body=[ast.Delete(targets=[_name(x, ast.Del())])],
                                handlers=[ast.ExceptHandler(type=_name('NameError'), name=None, body=[ast.Pass()])],
                                orelse=[], finalbody=[])]))
        setb.append(ast.Pass())
        sdef = ast.FunctionDef(name=sname, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg='dv__d')],
                               kwonlyargs=[], kw_defaults=[], defaults=[]), body=setb,
                               decorator_list=[], type_params=[])
        where = _const('%s:%s:%d' % (self.mod, '.'.join(self.fnames[1:]), line))
        rname = 'dv__r%d' % uid
        if kind == 'for':
            call = _call('loop', it, _name(bname), _name(gname), _name(sname), where)
        else:
            test = self.visit(n.test)
            call = _call('wloop', ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[],
                         kw_defaults=[], defaults=[]), body=test),
                         _name(bname), _name(gname), _name(sname), where)
        stm = pre + [bdef, gdef, sdef,
                     ast.Assign(targets=[_name(rname, ast.Store())], value=call)]
        # statuses: None = exhausted, ('b',) = break, ('r', v) = return
        els = self.block(n.orelse) if n.orelse else []
        ret = ast.If(test=ast.Compare(left=ast.Subscript(value=_name(rname), slice=_const(0), ctx=ast.Load()),
                                      ops=[ast.Eq()], comparators=[_const('r')]),
                     body=[ast.Return(value=ast.Subscript(value=_name(rname), slice=_const(1), ctx=ast.Load()))],
                     orelse=[])
        if ismod:
            ret = ast.Pass()
        stm.append(ast.If(test=ast.Compare(left=_name(rname), ops=[ast.IsNot()], comparators=[_const(None)]),
                          body=[ret], orelse=els))
        for s in stm:
            ast.copy_location(s, n)
            for c in ast.walk(s):
                if not hasattr(c, 'lineno'):
                    c.lineno, c.col_offset = n.lineno, n.col_offset
                    c.end_lineno, c.end_col_offset = n.lineno, n.col_offset
        return stm

    def visit_For(self, n):
        return self._loop(n, 'for')

    def visit_While(self, n):
        return self._loop(n, 'while')

    # ----------------------------------------------------- comprehensions
    def _comp(self, n, kind):
        if self.scope[-1] == 'class':
            return super().generic_visit(n)
        elt = ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()) if kind == 'dict' else n.elt
        self.scope.append('func')
        body = self.visit(elt)

        def lam(arg_target, expr):
            # lambda dv__x: (lambda targets: expr)(*unpacked)
            if isinstance(arg_target, ast.Name):
                a = ast.arguments(posonlyargs=[], args=[ast.arg(arg=arg_target.id)], kwonlyargs=[],
                                  kw_defaults=[], defaults=[])
                return ast.Lambda(args=a, body=expr)
            names = []

            def flat(t):
                if isinstance(t, ast.Name):
                    names.append(t.id)
                elif isinstance(t, (ast.Tuple, ast.List)):
                    for e in t.elts:
                        flat(e)
                elif isinstance(t, ast.Starred):
                    flat(t.value)
                else:
                    raise NotImplementedError
            flat(arg_target)

            def struct(t):
                if isinstance(t, ast.Name):
                    return _const(None)
                return ast.Tuple(elts=[struct(e) for e in t.elts], ctx=ast.Load())
            inner = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=x) for x in names],
                               kwonlyargs=[], kw_defaults=[], defaults=[]), body=expr)
            outer = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg='dv__x')], kwonlyargs=[],
                               kw_defaults=[], defaults=[]),
                               body=_call('unpack', inner, _name('dv__x'), struct(arg_target)))
            return outer
        gens = n.generators
        if any(g.is_async for g in gens):
            return n
        cur = body
        for k, g in enumerate(reversed(gens)):
            conds = [self.visit(c) for c in g.ifs]
            cond = _const(None)
            if conds:
                ce = conds[0] if len(conds) == 1 else ast.BoolOp(op=ast.And(), values=conds)
                cond = lam(g.target, ce)
            it = self.visit(g.iter)
            last = (k == 0)
            cur = _call('comp', _const(last), it, lam(g.target, cur), cond)
        self.scope.pop()
        r = _call('compend', _const(kind), cur)
        return ast.copy_location(r, n)

    def visit_ListComp(self, n):
        return self._comp(n, 'list')

    def visit_SetComp(self, n):
        return self._comp(n, 'set')

    def visit_DictComp(self, n):
        return self._comp(n, 'dict')

    def visit_GeneratorExp(self, n):
        return self._comp(n, 'gen')

    # ----------------------------------------------------------- displays
    def visit_List(self, n):
        super().generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(_call('mklist', n), n)
        return n

    def visit_Dict(self, n):
        super().generic_visit(n)
        ks = ast.Tuple(elts=[k if k is not None else _attr('STAR') for k in n.keys], ctx=ast.Load())
        vs = ast.Tuple(elts=n.values, ctx=ast.Load())
        return ast.copy_location(_call('mkdict', ks, vs), n)

    def visit_Set(self, n):
        super().generic_visit(n)
        return ast.copy_location(_call('mkset', ast.Tuple(elts=n.elts, ctx=ast.Load())), n)

    # ---------------------------------------------------------- operators
    def visit_BinOp(self, n):
        super().generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(_call('div', n.left, n.right), n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(_call('mod', n.left, n.right), n)
        if isinstance(n.op, ast.Pow):
            return ast.copy_location(_call('pow', n.left, n.right), n)
        return n

    def visit_AugAssign(self, n):
        op = type(n.op).__name__
        tgt = n.target
        val = self.visit(n.value)
        if isinstance(tgt, ast.Name):
            r = ast.Assign(targets=[_name(tgt.id, ast.Store())],
                           value=_call('iop', _const(op), _name(tgt.id), val))
            return ast.copy_location(r, n)
        if isinstance(tgt, ast.Attribute):
            r = ast.Expr(value=_call('iop_attr', _const(op), self.visit(tgt.value), _const(self._mangle(tgt.attr)), val))
            return ast.copy_location(r, n)
        if isinstance(tgt, ast.Subscript):
            sl = self._slice(tgt.slice)
            r = ast.Expr(value=_call('iop_item', _const(op), self.visit(tgt.value), sl, val))
            return ast.copy_location(r, n)
        return n

    def _slice(self, s):
        s = self.visit(s)
        if isinstance(s, ast.Slice):
            return ast.Call(func=_attr('slice'), args=[
                s.lower or _const(None), s.upper or _const(None), s.step or _const(None)], keywords=[])
        if isinstance(s, ast.Tuple):
            s.elts = [ast.Call(func=_attr('slice'), args=[
                e.lower or _const(None), e.upper or _const(None), e.step or _const(None)], keywords=[])
                if isinstance(e, ast.Slice) else e for e in s.elts]
        return s

    def _mangle(self, a):
        if a.startswith('__') and not a.endswith('__') and 'class' in self.scope:
            i = len(self.scope) - 1 - self.scope[::-1].index('class')
            # fnames has one entry per module/func/class scope (lambdas do not add)
            cls = [f for f, s in zip(self.fnames, [x for x in self.scope]) if s == 'class']
            if cls:
                return '_' + cls[-1].lstrip('_') + a
        return a

    def visit_Assign(self, n):
        n.value = self.visit(n.value)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute):
            t = n.targets[0]
            r = ast.Expr(value=_call('setattr', self.visit(t.value), _const(self._mangle(t.attr)), n.value))
            return ast.copy_location(r, n)
        if any(isinstance(t, ast.Attribute) for t in n.targets) or any(
                isinstance(e, ast.Attribute) for t in n.targets if isinstance(t, (ast.Tuple, ast.List)) for e in ast.walk(t)
                if isinstance(getattr(e, 'ctx', None), ast.Store)):
            # general case: go through a temporary
            self.n += 1
            tmp = 'dv__t%d' % self.n
            out = [ast.Assign(targets=[_name(tmp, ast.Store())], value=n.value)]
            for t in n.targets:
                out.extend(self._assign_to(t, _name(tmp)))
            for s in out:
                ast.copy_location(s, n)
            return out
        n.targets = [self.visit(t) for t in n.targets]
        return n

    def _assign_to(self, t, val):
        if isinstance(t, ast.Attribute):
            return [ast.Expr(value=_call('setattr', self.visit(t.value), _const(self._mangle(t.attr)), val))]
        if isinstance(t, (ast.Tuple, ast.List)):
            names, post = [], []
            for e in t.elts:
                if isinstance(e, ast.Attribute):
                    self.n += 1
                    nm = 'dv__t%d' % self.n
                    names.append(_name(nm, ast.Store()))
                    post += self._assign_to(e, _name(nm))
                else:
                    names.append(self.visit(e))
            return [ast.Assign(targets=[ast.Tuple(elts=names, ctx=ast.Store())], value=val)] + post
        return [ast.Assign(targets=[self.visit(t)], value=val)]

    def visit_AnnAssign(self, n):
        if n.value is None:
            return n
        return self.visit(ast.copy_location(ast.Assign(targets=[n.target], value=n.value), n))

    # ------------------------------------------------------------ strings
    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else _const('')
                parts.append(ast.Tuple(elts=[self.visit(v.value), _const(v.conversion), spec], ctx=ast.Load()))
        return ast.copy_location(_call('fstr', ast.Tuple(elts=parts, ctx=ast.Load())), n)

    def visit_Call(self, n):
        super().generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('format', 'join', 'split'):
            return ast.copy_location(ast.Call(func=_attr('str_' + n.func.attr), args=[n.func.value] + n.args,
                                              keywords=n.keywords), n)
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            return n
        return n

    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(_call('flt', _const(repr(n.value))), n)
        return n

    # ------------------------------------------------- bool operators, is
    def visit_Compare(self, n):
        super().generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            r = _call('contains', n.comparators[0], n.left, _const(isinstance(n.ops[0], ast.NotIn)))
            return ast.copy_location(r, n)
        return n

    def visit_ExceptHandler(self, n):
        super().generic_visit(n)
        if n.type is None:
            n.type = _name('Exception')
        return n


class BreakTr(ast.NodeTransformer):
    """break/continue/return inside one loop body (inner loops are functions
    already; inner function definitions are left alone)"""

    def visit_FunctionDef(self, n):
        return n

    visit_AsyncFunctionDef = visit_ClassDef = visit_Lambda = visit_FunctionDef

    def visit_Break(self, n):
        return ast.copy_location(ast.Return(value=ast.Tuple(elts=[_const('b')], ctx=ast.Load())), n)

    def visit_Continue(self, n):
        return ast.copy_location(ast.Return(value=_const(None)), n)

    def visit_Return(self, n):
        return ast.copy_location(ast.Return(value=ast.Tuple(
            elts=[_const('r'), n.value or _const(None)], ctx=ast.Load())), n)

    def visit_For(self, n):      # untransformed loops (generators, classes)
        return n
    visit_While = visit_For


def transform(src, modname, filename):
    tree = ast.parse(src, filename)
    tr = Tr(modname)
    body = tree.body
    doc = None
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
        doc, body = body[0], body[1:]
    tree.body = ([doc] if doc else []) + tr.block(body)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')
