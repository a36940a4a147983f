import os
from dv.spec import contract


def rounded(c, v):
    """the number rounded to seven significant digits"""
    if c.decide(c.exact(v, 0)):
        return v
    return c.round_to(v, 6 - c.floor(c.log10(c.abs(v))))


def near(c, v):
    """values close to v, on the concrete side"""
    if c.is_sym:
        return None
    return lambda rng: rng.choice([v, v, v * (1 + 1e-9), v * (1 + rng.uniform(-3, 3) * 1e-7), v * (1 + 1e-5), -v, v + 1, 0])


def pair(c, name):
    v = c.real(name + '1', rand=lambda rng: rng.choice([0, rng.uniform(-1e6, 1e6), rng.uniform(-1, 1), 10.0 ** rng.randint(-9, 9),
                                                        float(rng.randint(-50, 50))]))
    return v, c.real(name + '2', rand=near(c, v))


def arrays(c, name, n1, n2):
    a = c.seq(name + '1', n1, rand=(-50, 50))
    b = c.seq(name + '2', n2, rand=(-50, 50))
    if not c.is_sym:
        k = min(len(a), len(b))
        if c.rng.random() < 0.8:
            b[:k] = a[:k]
            if k and c.rng.random() < 0.5:
                b[c.rng.randrange(k)] *= 1 + c.rng.choice([1e-9, 1e-7, 3e-7, 1e-4])
    return a, b


def number(v):
    return {'short': 'text', 'value': v}


def table(c, **k):
    return {'short': 'text', 'data': c.dict(k)}


def verdicts(c, text):
    """[(section, [(entry, OK)])] of the comparison"""
    out = []
    lines = text.split('\n')
    k = 0
    while k < len(lines):
        x = lines[k]
        if x.startswith('***'):
            c.ensure('section header', len(lines) > k + 2 and x == '*' * 70 == lines[k + 2])
            out.append((lines[k + 1], []))
            k += 3
            continue
        if x.strip():
            c.ensure('verdict', bool(out) and (x.endswith('OK') or x.endswith('FAIL')))
            out[-1][1].append((x.split()[0], x.endswith('OK')))
        k += 1
    return out


def compare(c, left, right, way='file'):
    """the comparison of the two results, the other way around, with itself"""
    d = c.disk()
    m = c.mod('process.routines')
    xs = []
    for nm, r in (('left', left), ('right', right)):
        r = c.dict({s: c.dict({e: c.dict(x) for e, x in es.items()}) for s, es in r.items()})
        if way == 'file':
            xs.append(os.path.join(d, nm + '.xml'))
            c.call(m.dict_to_xml, r, filename=xs[-1])
        else:
            xs.append(c.call(m.dict_to_xml, r))
    out = os.path.join(d, 'out.txt')
    s = c.call(m.compare_xml, xs[0], xs[1], filename=out) if way == 'file' else c.call(m.compare_xml, xs[0], xs[1])
    if way == 'file':
        c.ensure('written as returned', c.content(out) == s)
    back = c.call(m.compare_xml, xs[1], xs[0])
    own = [c.call(m.compare_xml, x, x) for x in xs]
    return verdicts(c, s), verdicts(c, back), [verdicts(c, x) for x in own]


def check(c, left, right, expect, way='file', lost=()):
    """expect: entry -> formula of its being OK; None for a whole section"""
    got, back, own = compare(c, left, right, way)
    c.ensure('sections in order', [s for s, _ in got] == sorted(set(left) | set(right)))
    for s, es in got:
        if s not in left or s not in right:
            c.ensure('section missing from one file', len(es) == 1 and not es[0][1])
            continue
        c.ensure('entries in order', [e for e, _ in es] == sorted(set(left[s]) | set(right[s])))
        for e, ok in es:
            c.ensure('verdict of ' + e, c.iff(ok, expect[e]))
    c.ensure('the same verdicts the other way around', back == got)
    for r, v in zip((left, right), own):
        for s, es in v:
            c.ensure('every entry with itself', [e for e, _ in es] == sorted(r[s]))
            c.ensure('nothing fails with itself', all(ok for e, ok in es if e not in lost))


@contract('C28', ['compare_xml', 'round_significant', 'dict_to_xml', 'xml_to_dict'], small=[{}], samples=120,
          bounded='one section of two entries; the numbers arbitrary')
def numbers(c):
    (a, b), (p, q) = pair(c, 'a'), pair(c, 'p')
    eq = lambda x, y: c.exact(rounded(c, x), rounded(c, y))
    check(c, {'sec': {'x': number(a), 'w': number(p)}}, {'sec': {'w': number(q), 'x': number(b)}},
          {'x': eq(a, b), 'w': eq(p, q)}, c.choice('way', ['file', 'text']))


def same_rounded(c, x, y):
    return c.land(c.exact(c.len(x), c.len(y)),
                  c.forall(c.min2(c.len(x), c.len(y)), lambda i: c.exact(rounded(c, c.at(x, i)), rounded(c, c.at(y, i)))))


@contract('C28', ['compare_xml', 'round_significant'], small=[{'n': 2, 'k': 1}, {'n': 1, 'k': 0}, {'n': 0, 'k': 3}], samples=120,
          bounded='one entry of one array; values and lengths arbitrary')
def table_lengths(c):
    n, k = c.size('n', 0, rand=(0, 4)), c.size('k', 0, rand=(0, 4))
    p, q = arrays(c, 'p', n, k)
    check(c, {'sec': {'one': table(c, y=p)}}, {'sec': {'one': table(c, y=q)}}, {'one': same_rounded(c, p, q)})


@contract('C28', ['compare_xml', 'round_significant'], small=[{'n': 2, 'k': 1}, {'n': 1, 'k': 0}, {'n': 0, 'k': 3}], samples=120,
          bounded='one entry of two arrays; their values and lengths arbitrary')
def tables(c):
    n, k = c.size('n', 0, rand=(0, 4)), c.size('k', 0, rand=(0, 4))
    a, b = arrays(c, 'a', n, n)
    p, q = arrays(c, 'p', k, k)
    check(c, {'sec': {'two': table(c, x=a, y=p)}}, {'sec': {'two': table(c, y=q, x=b)}},
          {'two': c.land(same_rounded(c, a, b), same_rounded(c, p, q))})


@contract('C28', ['compare_xml'], small=[{'n': 2}, {'n': 0}], samples=60,
          bounded='the layouts of two files listed; the numbers arbitrary')
def layouts(c):
    n = c.size('n', 0, rand=(0, 4))
    a, b = arrays(c, 'a', n, n)
    v, w = c.real('v', rand=(-50, 50)), c.real('w', rand=(-50, 50))
    same = {'whole': number(7)}
    k = c.choice('layout', list(range(7)))
    L, R, ex, lost = [
        ({'sec': {'here': number(v), 'whole': number(7)}}, {'sec': same}, {'here': False, 'whole': True}, ()),
        ({'sec': {'it': number(v)}, 'other': {'x': number(v)}}, {'sec': {'it': number(v)}}, {'it': True}, ()),
        ({'sec': {'it': number(None), 'zz': number(w)}}, {'sec': {'it': number(w), 'zz': number(None)}},
         {'it': False, 'zz': False}, ('it', 'zz')),
        ({'sec': {'it': table(c, x=a, y=b)}}, {'sec': {'it': table(c, x=a)}}, {'it': False}, ()),
        ({'sec': {'it': table(c, x=a)}}, {'sec': {'it': number(v)}}, {'it': False}, ()),
        ({'b': {'u': number(v)}, 'a': {'t': number(v)}, 'd': {'m': number(w)}}, {'c': {'s': number(v)}, 'a': {'t': number(v), 's': number(w)}},
         {'t': True, 's': False}, ()),
        ({'sec': {'it': table(c), 'no': table(c, x=a), 'zero': number(0)}},
         {'sec': {'it': table(c), 'no': table(c, z=a), 'zero': number(0)}}, {'it': True, 'no': False, 'zero': True}, ()),
    ][k]
    check(c, L, R, ex, c.choice('way', ['file', 'text']), lost)


@contract('C28', ['compare_xml'], samples=10)
def unreadable(c):
    """nothing to compare when a file cannot be read"""
    d = c.disk()
    m = c.mod('process.routines')
    x = c.call(m.dict_to_xml, c.dict({'s': c.dict({'e': c.dict(number(c.real('v', rand=(-5, 5))))})}))
    for p, q in ((x, os.path.join(d, 'absent.xml')), (os.path.join(d, 'absent.xml'), x), ('<a><b></a>', x)):
        c.ensure('empty text', c.call(m.compare_xml, p, q) == '')
