import os
from dv.spec import contract

NAMES = ['PlotPTC', 'PlotSNR', 'PlotSensitivity', 'PlotUyDark', 'PlotLinearity', 'PlotDeviationLinearity',
         'PlotHorizontalSpectrogramPRNU', 'PlotHorizontalSpectrogramDSNU', 'PlotVerticalSpectrogramPRNU',
         'PlotVerticalSpectrogramDSNU', 'PlotLogarithmicHistogramDSNU', 'PlotLogarithmicHistogramPRNU',
         'PlotAccumulatedLogHistogramDSNU', 'PlotAccumulatedLogHistogramPRNU', 'PlotHorizontalProfile',
         'PlotVerticalProfile']


def start(c):
    """a scratch directory; results that tell their data; plots that note what
    they were given: (name, figure, what)"""
    d = c.disk()
    c.rendered(), c.figures()
    m, p = c.mod('report.report'), c.mod('process.plotting')
    names = [x.__name__ for x in c.values_list(p.EVMA1288plots)]
    c.ensure('the sixteen plots', names == NAMES)
    R = c.cls('process.results', 'Results1288')

    def figures(self):
        t = self.temporal['tag']
        return c.dict({'q': c.dict({'section': 'first', 'short': 'Q', 'value': t}),
                       'r': c.dict({'section': 'second', 'value': t + 1})})
    c.patch_attr(R, 'results', property(figures))
    log = []

    def plot_class(nm):
        def init(self, figure):
            self.figure, self.name = figure, nm
            log.append((nm, figure, 'made'))

        def plot(self, test):
            log.append((nm, self.figure, test))

        def rearrange(self):
            log.append((nm, self.figure, 'rearranged'))
        return type(nm, (), {'__init__': init, 'plot': plot, 'rearrange': rearrange})
    classes = [plot_class(nm) for nm in NAMES]
    c.patch_both('report.report', 'EVMA1288plots', classes)
    c.patch_both('process.plotting', 'EVMA1288plots', classes)
    return d, m, R, log


def data(tag):
    return lambda c: c.dict({'temporal': c.dict({'tag': tag}), 'spatial': c.dict()})


def check_op(c, out, op, k, name, tag, log, figs):
    i = 'OP%d' % k
    c.ensure(i + ': identifier', op['id'] == i)
    c.ensure(i + ': name', op['name'] == (name or i))
    r = op['results']
    c.ensure(i + ': results by section', sorted(c.keys(r)) == ['first', 'second'] and list(c.keys(r['first'])) == ['q']
             and list(c.keys(r['second'])) == ['r'])
    c.ensure(i + ': results', c.land(c.exact(r['first']['q']['value'], tag), c.exact(r['second']['r']['value'], tag + 1)))
    c.ensure(i + ': plots', sorted(c.keys(op['plots'])) == sorted(NAMES))
    for nm in NAMES:
        f = op['plots'][nm]
        c.ensure('%s: file of %s' % (i, nm), f == '%s/%s.pdf' % (i, nm))
        at = os.path.join(out, i, nm + '.pdf')
        mine = [g for p, g in figs if c.text(p) == at]
        c.ensure('%s: %s saved once' % (i, nm), len(mine) == 1)
        what = [(n, x) for n, g, x in log if g is mine[0]]
        c.ensure('%s: %s made, plotted, rearranged' % (i, nm), len(what) == 3 and [n for n, _ in what] == [nm] * 3
                 and what[0][1] == 'made' and what[2][1] == 'rearranged')
        t = what[1][1]
        c.ensure('%s: %s of its results' % (i, nm), c.exact(t.temporal['tag'], tag))


@contract('C31', ['Report1288.__init__', 'Report1288.add', 'Report1288._plots', 'Report1288._results', 'Report1288.latex'],
          samples=12, bounded='three operation points and another report; their data arbitrary')
def operation_points(c):
    d, m, R, log = start(c)
    out = os.path.join(d, 'report')
    if c.choice('exists', [False, True]):
        os_ = c.mod('report.report').os
        os_.makedirs(out)
    r = c.call(m.Report1288, out)
    c.ensure('no operation point yet', c.len(r.ops) == 0)
    names = c.choice('names', [['first', None, 'first'], [None, '', 'OP1'], ['x', 'y', 'z']])
    tags = [c.real('tag%d' % k, rand=(-9, 9)) for k in range(4)]
    given = c.choice('given', [None, 0, 1, 2])
    ops = []
    reused = c.choice('reused', [False, True])
    for k in range(3):
        op = c.call(m.info_op)
        c.ensure('operation point information', sorted(c.keys(op)) == sorted(
            ['name', 'id', 'summary_only', 'results', 'camera_settings', 'test_parameters']))
        op['name'] = names[k]
        if reused:
            # as it was in another report
            op['id'], op['results'], op['plots'] = 'OP1', 'former results', 'former plots'
        op['summary_only'] = k == 1
        op['camera_settings']['Gain'] = k
        ops.append(op)
        if k == given:
            res = c.call(R, data(tags[k])(c))
            c.call(r.add, op, data(tags[3])(c), res)
        else:
            c.call(r.add, op, data(tags[k])(c))
        c.ensure('one more operation point', c.len(r.ops) == k + 1)
    got = c.values_list(r.ops)
    figs = c.figures()
    c.ensure('forty-eight plots', len(figs) == 48)
    for k in range(3):
        check_op(c, out, got[k], k + 1, names[k], tags[k], log, figs)
        c.ensure('OP%d: information kept' % (k + 1), c.land(got[k]['summary_only'] == (k == 1), c.exact(got[k]['camera_settings']['Gain'], k)))
    c.call(r.latex)
    texts = c.rendered()
    rep = [k for nm, k in texts if nm == 'report.tex']
    c.ensure('one report', len(rep) == 1 and 'operation_points' in rep[0])
    shown = c.values_list(rep[0]['operation_points'])
    c.ensure('all operation points in the report', len(shown) == 3)
    for k in range(3):
        check_op(c, out, shown[k], k + 1, names[k], tags[k], log, figs)
    for k in ('marketing', 'basic', 'setup'):
        a, b = rep[0][k], getattr(r, k)
        c.ensure(k + ' in the report', sorted(c.keys(a)) == sorted(c.keys(b)) and all(a[x] == b[x] for x in c.keys(b)))
    for f in ('report.tex', 'emvadatasheet.sty'):
        c.ensure(f, c.content(os.path.join(out, f)) == 'text of ' + f)
    # another report starts anew
    out2 = os.path.join(d, 'second')
    r2 = c.call(m.Report1288, out2)
    c.ensure('a new report is empty', c.len(r2.ops) == 0 and c.len(r.ops) == 3)
    op = c.call(m.info_op)
    c.call(r2.add, op, data(tags[3])(c))
    c.ensure('separate reports', c.len(r2.ops) == 1 and c.len(r.ops) == 3)
    check_op(c, out2, c.values_list(r2.ops)[0], 1, None, tags[3], log, c.figures())


@contract('C31', ['Report1288.__init__', 'Report1288._make_dirs', 'Report1288._report', 'info_setup', 'info_basic', 'info_marketing'],
          samples=20, bounded='sample informations')
def information(c):
    """the report shows the information given and nothing else"""
    d, m, R, log = start(c)
    uploads = c.choice('uploads', [False, True])
    made = {}
    for f, pre in (('logo', 'marketing'), ('missingplot', 'marketing'), ('qe_plot', 'basic')):
        made[f] = None
        if uploads:
            made[f] = os.path.join(d, 'given', 'my_%s.pdf' % f)
            c.put(made[f], 'content of ' + f)
    given, left = {}, {}
    for k in ('setup', 'basic', 'marketing'):
        f = getattr(m, 'info_' + k)
        empty = c.call(f)
        names = sorted(c.keys(empty))
        c.ensure(k + ': nothing known', all(empty[x] is None for x in names))
        vals = c.choice('values', [[0, 'text', 0.0], ['', False, 12], [3.5, None, 'None']])
        free = [x for x in names if x not in made]
        # some are given, a new one too
        now = {x: vals[i % 3] for i, x in enumerate(free) if i % 4 != 3}
        now['added'] = vals[0]
        now.update({x: v for x, v in made.items() if x in names and v})
        given[k] = now
        left[k] = {x: None for x in names if x not in now}
    info = {k: c.call(getattr(m, 'info_' + k), **v) for k, v in given.items()}
    cover = c.choice('cover', [False, 'cover.pdf'])
    out = os.path.join(d, 'report')
    r = c.call(m.Report1288, out, setup=info['setup'], basic=info['basic'], marketing=info['marketing'], cover_page=cover)
    other = c.call(m.Report1288, os.path.join(d, 'other'))
    c.call(r.latex)
    shown = dict(c.rendered())['report.tex']
    c.ensure('cover page', shown['cover_page'] == cover)
    files = c.listing(out)
    for k in given:
        want = dict(left[k], **given[k])
        for f in made:
            if f in want:
                want[f] = 'upload/my_%s.pdf' % f if uploads else 'files/' + ('missinglogo.pdf' if f == 'logo' else 'missingplot.pdf')
                if uploads:
                    c.ensure('%s copied' % f, want[f] in files)
        c.ensure(k + ': its entries', sorted(c.keys(shown[k])) == sorted(want))
        for x in want:
            v = shown[k][x]
            c.ensure('%s: %s' % (k, x), v == want[x] and type(v) is type(want[x]))
    c.ensure('files of the report', 'report.tex' in files and 'emvadatasheet.sty' in files and 'files/missingplot.pdf' in files
             and 'files/missinglogo.pdf' in files)
    # a report without information is unaffected
    for k in given:
        z = getattr(other, k)
        c.ensure(k + ': of another report', all(z[x] is None for x in c.keys(z) if x not in made) and 'added' not in c.keys(z))


@contract('C31', ['Report1288.template_renderer'], samples=60)
def missing_values(c):
    c.disk()
    m = c.mod('report.report')
    e = c.call(m.Report1288.template_renderer)
    miss, num = c.filter(e, 'missing'), c.filter(e, 'missingnumber')
    p = c.choice('precision', [0, 1, 2, 3, 7])
    v = c.real('v', rand=(-99, 99))
    nan = c.nan()
    for x, nm in ((None, 'None'), (nan, 'nan'), (m.jinja2.Undefined(), 'undefined')):
        c.ensure(nm + ' is missing', c.call(miss, x) == '-')
        c.ensure(nm + ' has the default', c.call(miss, x, 'default') == 'default')
        c.ensure(nm + ' has the default given by name', c.call(miss, x, default='') == '')
        c.ensure(nm + ' is not a number', c.call(num, x, p) == '-')
    w = c.call(miss, v)
    c.ensure('a number is kept', c.exact(w, v))
    c.ensure('a number is kept, with a default', c.exact(c.call(miss, v, 'default'), v))
    for x in ('', 'text', 'nan', '-'):
        c.ensure('a text is kept', c.call(miss, x, 'default') == x)
    c.ensure('zero is not missing', c.call(miss, 0, 'default') == 0)
    for x in (v, 0, c.int('k', rand=(-99, 99)), c.q(1, 8), -2):
        t = c.call(num, x, p)
        c.ensure('requested precision', c.exact(c.number(t), c.round_to(x, p)) if c.is_sym else t == '%.*f' % (p, x))


@contract('C31', ['Report1288._report'], samples=25, bounded='the templates are not programs: rendered with sample operation points only')
def rendered_text(c):
    """the report shows every operation point in order, with its own figures"""
    d = c.disk()
    m = c.mod('report.report')
    if c.is_sym:
        r = c.call(m.Report1288, os.path.join(d, 'report'))
        c.call(r.latex)
        c.ensure('the report is written', c.listing(os.path.join(d, 'report')).count('report.tex') == 1)
        return
    r = m.Report1288(os.path.join(d, 'report'))
    n = c.int('n', 1, rand=(1, 3))

    class Entry(dict):
        """any result: its value is v"""
        def __missing__(self, k):
            return {'value': self.v, 'short': 'short', 'symbol': 'sym', 'unit': 'u'}

    class Sections(dict):
        def __missing__(self, k):
            e = Entry()
            e.v = self.v
            return e
    vals = []
    for k in range(n):
        op = m.info_op()
        op['id'], op['name'] = 'OP%d' % (k + 1), 'point %s' % 'abc'[k]
        op['plots'] = {nm: 'OP%d/%s.pdf' % (k + 1, nm) for nm in NAMES}
        op['summary_only'] = False
        s = Sections()
        s.v = 100 * (k + 1) + c.real('v%d' % k, rand=(0, 99))
        op['results'] = s
        vals.append(s.v)
        r.ops.append(op)
    r.latex()
    text = open(os.path.join(d, 'report', 'report.tex')).read()
    parts = text.split('\\ReportSection{Operation Point: ')[1:]
    c.ensure('a section for each operation point', len(parts) == n)
    for k, t in enumerate(parts):
        c.ensure('name and missing wavelength', t.startswith('\\textbf{point %s} (@-)' % 'abc'[k]))
        for nm in NAMES:
            c.ensure('plot ' + nm, t.count('OP%d/%s.pdf' % (k + 1, nm)) == 1)
        c.ensure('its own figures', t.count('%.3f' % vals[k]) >= 5 and not any(
            '%.3f' % vals[j] in t for j in range(n) if j != k))
