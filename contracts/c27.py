import os
from dv.spec import contract

SM = [{'n': 2, 'm': 1}, {'n': 1, 'm': 0}]


def entries(c):
    """entries of all kinds: number, whole number, missing, arrays and single
    numbers in the data; names in lower and upper case; any metadata"""
    n, m = c.size('n', 0, rand=(0, 4)), c.size('m', 0, rand=(0, 4))
    r = lambda nm: c.real(nm, rand=(-1e6, 1e-3))
    return {
        'K': {'short': 'Gain <of> & "all"', 'unit': 'DN/e', 'value': r('K')},
        'count': {'Symbol': 'n', 'value': c.int('count', rand=(-5, 10 ** 6))},
        'lost': {'value': None, 'short': 'nothing'},
        'Histogram': {'data': c.dict({'Bins': c.seq('bins', n, rand=(-5, 5)), 'values': c.seq('vals', m, 'int64', rand=(0, 9)),
                                      'single': r('single')}), 'Section': 'other'},
        'none': {'data': c.dict()},
        'zero': {'value': 0},
    }


LAYOUTS = [
    {'dark': ['K', 'lost'], 'Bright': ['Histogram', 'count', 'none', 'zero']},
    {'only': ['Histogram']},
    {'a': ['K'], 'b': ['K', 'count'], 'c': ['lost']},
    {},
]


def build(c, layout, E):
    return c.dict({s: c.dict({nm: c.dict(E[nm]) for nm in nms}) for s, nms in layout.items()})


def same_entry(c, got, e, name):
    c.ensure(name + ': keys', sorted(c.keys(got)) == sorted(k.lower() for k in e))
    for k, v in e.items():
        g = got[k.lower()]
        if k == 'value':
            c.ensure(name + ': value', (g is None) if v is None else c.land(c.isnum(g), c.exact(g, v) if c.isnum(g) else False))
        elif k == 'data':
            c.ensure(name + ': names of the data', sorted(c.keys(g)) == sorted(x.lower() for x in c.keys(v)))
            for x in c.keys(v):
                a, b = v[x], g[x.lower()]
                c.ensure(name + ': array ' + x, c.isinstance(b, 'array'))
                if c.isnum(a):
                    c.ensure('%s: %s' % (name, x), c.land(c.len(b) == 1, c.exact(c.at(b, 0), a)))
                    continue
                c.ensure('%s: length of %s' % (name, x), c.exact(c.len(b), c.len(a)))
                c.ensure('%s: %s' % (name, x), c.forall(c.len(a), lambda i: c.exact(c.at(a, i), c.at(b, i))))
        else:
            c.ensure('%s: %s' % (name, k), g == v)


@contract('C27', ['dict_to_xml', 'xml_to_dict'], small=SM, samples=60,
          bounded='four layouts of sections and entries; numbers and array lengths arbitrary')
def read_back(c):
    d = c.disk()
    m = c.mod('process.routines')
    layout = c.choice('layout', LAYOUTS)
    E = entries(c)
    way = c.choice('way', ['file', 'bytes', 'str'])
    res = build(c, layout, E)
    if way == 'file':
        x = os.path.join(d, 'results.xml')
        c.ensure('nothing is returned', c.call(m.dict_to_xml, res, filename=x) is None)
        c.ensure('one file', c.listing(d) == ['results.xml'])
    else:
        x = c.call(m.dict_to_xml, res)
        if way == 'str':
            x = x.decode('utf-8')
    got = c.call(m.xml_to_dict, x)
    c.ensure('sections', sorted(c.keys(got)) == sorted(s.lower() for s in layout))
    for s, nms in layout.items():
        g = got[s.lower()]
        c.ensure('entries of ' + s, sorted(c.keys(g)) == sorted(nm.lower() for nm in nms))
        for nm in nms:
            same_entry(c, g[nm.lower()], E[nm], '%s/%s' % (s, nm))


@contract('C27', ['Results1288.xml', 'Results1288.results_by_section', '_sections_first'], small=SM, samples=30,
          bounded='one set of entries; numbers and array lengths arbitrary')
def results_object(c):
    """the results of an object, ordered by section, written to text or a file"""
    d = c.disk()
    m = c.mod('process.routines')
    R = c.cls('process.results', 'Results1288')
    E = {nm: e for nm, e in entries(c).items() if nm != 'none'}
    where = {'K': 'sens', 'count': 'lin', 'lost': 'sens', 'Histogram': 'hist', 'zero': 'lin'}
    full = {nm: dict({k: v for k, v in e.items() if k != 'Section'}, section=where[nm]) for nm, e in E.items()}
    c.patch_attr(R, 'results', property(lambda self: c.dict({nm: c.dict(e) for nm, e in full.items()})))
    r = c.call(R, c.dict({'temporal': c.dict(), 'spatial': c.dict()}))
    if c.choice('way', ['file', 'text']) == 'file':
        x = os.path.join(d, 'out.xml')
        c.call(r.xml, x)
        c.ensure('one file', c.listing(d) == ['out.xml'])
    else:
        x = c.call(r.xml)
        c.ensure('no file', c.listing(d) == [])
    got = c.call(m.xml_to_dict, x)
    c.ensure('sections', sorted(c.keys(got)) == sorted(set(where.values())))
    for s in sorted(set(where.values())):
        c.ensure('entries of ' + s, sorted(c.keys(got[s])) == sorted(nm.lower() for nm in E if where[nm] == s))
        for nm in E:
            if where[nm] == s:
                same_entry(c, got[s][nm.lower()], full[nm], nm)


@contract('C27', ['dict_to_xml', 'xml_to_dict'], small=SM, samples=30,
          bounded='one layout of sections and entries; numbers and array lengths arbitrary')
def decimal_comma(c):
    """values written with a decimal comma are numbers, too"""
    c.disk()
    m = c.mod('process.routines')
    v, w = c.real('v', rand=(-100, 100)), c.int('w', rand=(-100, 100))
    t = '<r><Sec><En><Value>%s</Value></En><En2><value>%s</value></En2><e3><value>none</value></e3><e4><value/></e4></Sec></r>' % (
        c.number_text(v, comma=True), c.number_text(w))
    got = c.call(m.xml_to_dict, t)
    g = got['sec']
    c.ensure('entries', sorted(c.keys(g)) == ['e3', 'e4', 'en', 'en2'])
    c.ensure('comma', c.exact(g['en']['value'], v))
    c.ensure('whole number', c.exact(g['en2']['value'], w))
    c.ensure('missing', g['e3']['value'] is None and g['e4']['value'] is None)
