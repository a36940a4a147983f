"""mutate.py FILE_REGEX OUT [workers [shard/of]]: mutants of /repo's sources run against the checks.

Runs from a copy of /verif, on copies of the sources (DV_SRC); /repo is not touched.
Prints the mutants no check notices."""
import ast, os, re, sys, json, shutil, subprocess, random, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from dv import spec
SRC = '/repo/src'
PROPS = ['C%02d' % i for i in range(1, 33)]
SWAP = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '*', ast.Pow: '*', ast.Mod: '*'}
SYM = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Pow: '**', ast.Mod: '%'}
CMP = {ast.Lt: ('<', '<='), ast.LtE: ('<=', '<'), ast.Gt: ('>', '>='), ast.GtE: ('>=', '>'), ast.Eq: ('==', '!='),
       ast.NotEq: ('!=', '=='), ast.Is: ('is', 'is not'), ast.IsNot: ('is not', 'is'), ast.In: ('in', 'not in'), ast.NotIn: ('not in', 'in')}


def targets():
    t = {}
    for p in PROPS:
        try:
            cs = spec.load(p)
        except Exception as x:
            print(p, x)
            continue
        for c in cs:
            for n in c.targets:
                t.setdefault(n.split('.')[-1], []).append(p)
                t.setdefault(n, []).append(p)
    return t


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    out = []

    def add(fn, n, a, z, new):
        out.append((fn, n.lineno, b[a:z].decode(), new, (b[:a] + new.encode() + b[z:]).decode()))

    def doc(n):
        return isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str)

    def walk(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = fn + [n.name]
            if isinstance(n, ast.FunctionDef):
                for d in n.args.defaults + n.args.kw_defaults:
                    if d is not None:
                        walk(d, fn)
            for s in n.body:
                walk(s, fn)
            return
        if doc(n) or not fn:
            return
        if isinstance(n, (ast.Raise,)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            f = ast.unparse(n.value.func)
            if f in ('print',) or '.info' in f or '.debug' in f or 'logger' in f or 'warn' in f:
                return
            a, z = pos(n)
            add(fn, n, a, z, 'pass')
        if isinstance(n, (ast.AugAssign, )):
            a, z = pos(n)
            add(fn, n, a, z, 'pass')
        if isinstance(n, ast.If):
            a, z = pos(n.test)
            add(fn, n.test, a, z, 'not (%s)' % b[a:z].decode())
        if isinstance(n, ast.IfExp):
            a, z = pos(n.test)
            add(fn, n.test, a, z, 'not (%s)' % b[a:z].decode())
        if isinstance(n, (ast.Continue, ast.Break)):
            a, z = pos(n)
            add(fn, n, a, z, 'pass')
        if isinstance(n, ast.BinOp) and type(n.op) in SWAP and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            a, z = pos(n.left)[1], pos(n.right)[0]
            t = b[a:z].decode()
            s = SYM[type(n.op)]
            if t.count(s):
                k = t.index(s)
                add(fn, n, a, z, t[:k] + SWAP[type(n.op)] + t[k + len(s):])
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, z = pos(n.left)[1], pos(n.comparators[0])[0]
            t = b[a:z].decode()
            s, r = CMP[type(n.ops[0])]
            if s in t:
                k = t.index(s)
                add(fn, n, a, z, t[:k] + r + t[k + len(s):])
        if isinstance(n, ast.BoolOp):
            a, z = pos(n.values[0])[1], pos(n.values[1])[0]
            t = b[a:z].decode()
            s, r = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
            if s in t:
                k = t.index(s)
                add(fn, n, a, z, t[:k] + r + t[k + len(s):])
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            a, z = pos(n)
            add(fn, n, a, z, '(%s)' % b[pos(n.operand)[0]:z].decode())
        if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not Ellipsis:
            a, z = pos(n)
            if isinstance(n.value, bool):
                add(fn, n, a, z, str(not n.value))
            else:
                add(fn, n, a, z, '%r' % (n.value + 1))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
            k = n.slice.value
            a, z = pos(n.slice)
            m = k.replace('_dark', '').replace('dark', '') if 'dark' in k else k + '_dark'
            add(fn, n, a, z, repr(m))
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' and 'dark' in n.attr:
            a, z = pos(n)
            add(fn, n, a, z, 'self.' + n.attr.replace('_dark', ''))
        if isinstance(n, ast.Call):
            f = ast.unparse(n.func)
            if len(n.args) == 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                (a1, z1), (a2, z2) = pos(n.args[0]), pos(n.args[1])
                add(fn, n, a1, z2, b[a2:z2].decode() + b[z1:a2].decode() + b[a1:z1].decode())
            for x, y in (('np.min', 'np.max'), ('np.max', 'np.min'), ('np.mean', 'np.sum'), ('np.sqrt', 'np.abs'),
                         ('np.argmax', 'np.argmin'), ('np.argmin', 'np.argmax'), ('min', 'max'), ('max', 'min'),
                         ('np.abs', 'np.asarray'), ('np.floor', 'np.ceil'), ('np.ceil', 'np.floor')):
                if f == x:
                    a, z = pos(n.func)
                    add(fn, n, a, z, y)
            if n.keywords and f not in ('ax.plot',):
                for i, kw in enumerate(n.keywords):
                    if kw.arg in ('axis', 'ddof', 'dtype', 'n', 'rotate', 'mask', 'mode', 'minlength', 'weights'):
                        args = [ast.unparse(x) for x in n.args] + [ast.unparse(x) for j, x in enumerate(n.keywords) if j != i]
                        a, z = pos(n)
                        add(fn, n, a, z, '%s(%s)' % (f, ', '.join(args)))
            skip = {'label', 'gid', 'linestyle', 'color', 'marker', 'ls', 'loc', 'markersize', 'style', 'lw'}
            for c in [n.func] + n.args + [k.value for k in n.keywords if k.arg not in skip]:
                walk(c, fn)
            return
        for c in ast.iter_child_nodes(n):
            walk(c, fn)
    walk(tree, []) if False else [walk(s, []) for s in tree.body]
    seen, res = set(), []
    for m in out:
        if m[4] != src and m[4] not in seen:
            try:
                ast.parse(m[4])
            except SyntaxError:
                continue
            seen.add(m[4])
            res.append(m)
    return res


def main():
    CON = {p: spec.load(p) for p in PROPS}
    rx, outf = re.compile(sys.argv[1]), sys.argv[2]
    workers = int(sys.argv[3]) if len(sys.argv) > 3 else 5
    frac = float(sys.argv[4]) if len(sys.argv) > 4 else 1.0
    T = targets()
    FALL = {}
    for d, _, fs in os.walk(SRC):
        for f in fs:
            if f.endswith('.py'):
                text = open(os.path.join(d, f)).read()
                FALL[os.path.relpath(os.path.join(d, f), SRC)] = sorted({p for k in T for p in T[k] if 'def %s(' % k in text})
    base = '/tmp/vm_%d' % os.getpid()
    todo = []
    for d, _, fs in os.walk(SRC):
        for f in fs:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, SRC)
            if f.endswith('.py') and 'test' not in rel:
                for m in mutants(p):
                    if rx.search(rel + ':' + '.'.join(m[0])):
                        todo.append((rel,) + m)
    random.Random(5).shuffle(todo)
    todo = todo[:int(len(todo) * frac)]
    print(len(todo), 'mutants', flush=True)
    res = open(outf, 'a')
    dirs = []
    for w in range(workers):
        d = '%s_%d' % (base, w)
        subprocess.run(['mkdir', '-p', d], check=True)
        subprocess.run('cd %s && git archive HEAD | tar x -C %s' % (HERE, d), shell=True, check=True)
        subprocess.run(['cp', '-a', SRC, d + '/src'], check=True)
        dirs.append(d)
    free = list(dirs)

    def one(m):
        rel, fn, line, old, new, text = m
        name = '.'.join(fn)
        props = []
        for k in (name, fn[-1]) + tuple(fn) + (fn[0] + '.__init__',):
            for p in T.get(k, []):
                if p not in props:
                    props.append(p)
        if not props and fn[-1] == '__init__' and len(fn) > 1:
            props = sorted({p for k in T for p in T[k] if k.startswith(fn[0] + '.')})
        if not props:
            props = FALL.get(rel, [])
        d = free.pop()
        f = os.path.join(d, 'src', rel)
        orig = open(os.path.join(SRC, rel)).read()
        open(f, 'w').write(text)
        caught, und = None, []
        try:
            nf = False
            for p in props:
                if caught:
                    break
                for c in CON[p]:
                    try:
                        q = subprocess.run(['timeout', '60', '/opt/venv/bin/python', 'dv/concrete.py', p, c.name, 'search', '1', str(c.samples), '10'],
                                           cwd=d, env=dict(os.environ, DV_SRC=d + '/src'), capture_output=True, text=True)
                        if json.loads(q.stdout.strip().split('\n')[-1]).get('status') == 'fail':
                            caught = p
                            break
                    except Exception:
                        pass
            for p in props if not caught else []:
                env = dict(os.environ, DV_SRC=d + '/src', VERIF_SEED='1', VERIF_TIER='quick')
                try:
                    r = subprocess.run(['timeout', '240', 'python3-vt', 'check.py', p], cwd=d, env=env, capture_output=True, text=True)
                except Exception as x:
                    und.append(p + ' ' + str(x))
                    continue
                if r.returncode == 1:
                    caught = p
                    nf = 'no-failing' in r.stdout
                    break
                if r.returncode:
                    und.append('%s rc=%d' % (p, r.returncode))
        finally:
            open(f, 'w').write(orig)
            free.append(d)
        res.write(json.dumps({'file': rel, 'fn': name, 'line': line, 'old': old, 'new': new, 'props': props,
                              'caught': caught, 'no_input': bool(caught) and nf, 'und': und}) + '\n')
        res.flush()
    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(one, todo))
    for d in dirs:
        shutil.rmtree(d)


if __name__ == '__main__':
    main()
