"""refactor.py SPECS.py [IDs]: behaviour-preserving rewrites on a copy of the sources;
every check of the properties named has to stay quiet."""
import ast, os, sys, shutil, subprocess, textwrap, time, importlib.util
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = '/repo/src'


def replace(text, qual, new):
    t = ast.parse(text)
    node, indent = t, 0
    for part in qual.split('.'):
        node = [n for n in node.body if getattr(n, 'name', None) == part][-1]
    first = min([node.lineno] + [d.lineno for d in node.decorator_list])
    lines = text.split('\n')
    ind = ' ' * node.col_offset
    new = textwrap.indent(textwrap.dedent(new).strip('\n'), ind)
    return '\n'.join(lines[:first - 1] + new.split('\n') + lines[node.end_lineno:])


def main():
    sp = importlib.util.spec_from_file_location('specs', sys.argv[1])
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    ids = sys.argv[2:]
    work = [(r, p) for r in m.R if not ids or r['id'] in ids for p in r['props']]

    def one(x):
        r, p = x
        d = '/tmp/rf_%d_%s_%s' % (os.getpid(), r['id'], p)
        subprocess.run(['mkdir', '-p', d], check=True)
        subprocess.run('cd %s && cp -a check.py dv contracts known_findings.json properties.jsonl %s/' % (HERE, d), shell=True, check=True)
        subprocess.run(['cp', '-a', SRC, d + '/src'], check=True)
        f = os.path.join(d, 'src/emva1288', r['file'])
        text = open(f).read()
        for q, new in r.get('functions', []):
            text = replace(text, q, new)
        for a, b in r.get('edits', []):
            assert a in text, (r['id'], a)
            text = text.replace(a, b)
        ast.parse(text)
        open(f, 'w').write(text)
        t0 = time.time()
        q = subprocess.run(['timeout', '900', 'python3-vt', 'check.py', p], cwd=d, env=dict(os.environ, DV_SRC=d + '/src', VERIF_SEED='1', VERIF_TIER='quick'),
                           capture_output=True, text=True)
        bad = [l[:150] for l in q.stdout.split('\n') if l.startswith(('UNDEC', '  failed', 'VIOL', 'concrete'))]
        print('%-22s %s rc=%d %ds %s' % (r['id'], p, q.returncode, time.time() - t0, 'quiet' if not bad else bad[:6]), q.stderr[-300:] if q.returncode not in (0, 1) else '', flush=True)
        shutil.rmtree(d)
    with ThreadPoolExecutor(2) as ex:
        list(ex.map(one, work))


main()
