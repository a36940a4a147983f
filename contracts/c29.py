from dv.spec import contract


def block(doc):
    """the metadata of a documentation text; None when it has no emva1288 block"""
    lines = [x.strip() for x in (doc or '').split('\n')]
    out, inside, any_line = {}, False, False
    for x in lines:
        if x[:13] == '.. emva1288::':
            inside = True
        elif inside and x == '':
            inside = False
        elif inside:
            any_line = True
            a = x.find(':')
            b = x.find(':', a + 1)
            if x[:1] == ':' and b > 1:
                key, val = x[1:b].strip(), x[b + 1:].strip()
                if key and val:
                    out[key.lower()] = val
    if not any_line:
        return None
    if 'section' not in out:
        out['section'] = 'other'
    return out


def values(c, names, turn, tag):
    """a value of some kind for each name; the kinds rotate"""
    out = {}
    for k, nm in enumerate(sorted(names)):
        v = c.real('%s_%s' % (nm, tag), rand=(-9, 9))
        kind = (k + turn) % 5
        if kind == 1:
            v = c.dict({'x': v, 'label': 'text'})
        elif kind == 2:
            v = None
        elif kind == 3:
            v = c.dict()
        elif kind == 4:
            v = c.seq('seq_%s_%s' % (nm, tag), 2, rand=(-9, 9))
        out[nm] = v
    return out


def is_dict(c, v):
    return c.isinstance(v, 'dict')


def same(c, a, b):
    return a is b or c.same(a, b)


def entry_ok(c, name, e, info, v):
    want = dict(info)
    want['data' if is_dict(c, v) else 'value'] = v
    c.ensure('%s: entries' % name, sorted(c.keys(e)) == sorted(want))
    for k in want:
        c.ensure('%s: %s' % (name, k), same(c, e[k], want[k]) if k in ('data', 'value') else e[k] == want[k])


def check(c, res, infos, vals, tag=''):
    c.ensure('the documented quantities' + tag, sorted(c.keys(res)) == sorted(infos))
    for nm in sorted(infos):
        entry_ok(c, nm + tag, res[nm], infos[nm], vals[nm])


def grouped(c, sec, infos, vals, tag=''):
    sections = sorted(set(i['section'] for i in infos.values()))
    c.ensure('sections in order' + tag, list(c.keys(sec)) == sections)
    for s in sections:
        mine = [nm for nm in infos if infos[nm]['section'] == s]
        c.ensure('quantities of %s%s' % (s, tag), sorted(c.keys(sec[s])) == sorted(mine))
        for nm in sorted(mine):
            entry_ok(c, '%s in %s%s' % (nm, s, tag), sec[s][nm], infos[nm], vals[nm])


def replace(c, cls, infos, box):
    """the documented attributes give the values of the box"""
    for nm in infos:
        old = vars(cls)[nm]

        def get(self, nm=nm):
            return box[nm]
        get.__doc__ = old.__doc__
        get.__name__ = nm
        c.patch_attr(cls, nm, property(get, doc=old.__doc__) if not callable(old) else get)


@contract('C29', ['Results1288.results', 'Results1288.results_by_section', 'obj_to_dict', 'cls_1288_info', '_sections_first'],
          samples=20)
def standard_results(c):
    R = c.cls('process.results', 'Results1288')
    infos = {}
    for nm, v in list(vars(R).items()):
        i = block(getattr(v, '__doc__', None))
        if i is not None:
            infos[nm] = i
    c.ensure('there are documented quantities', len(infos) > 20)
    box = {}
    replace(c, R, infos, box)
    r = c.call(R, c.dict({'temporal': c.dict(), 'spatial': c.dict()}))
    for turn in range(c.choice('turns', [1, 5])):
        box.update(values(c, infos, turn, str(turn)))
        tag = ' (%d)' % turn
        check(c, c.call(lambda: r.results), infos, box, tag)
        grouped(c, c.call(lambda: r.results_by_section), infos, box, tag)


DOCS = {
    'gain': """Gain.

        .. emva1288::
            :Section: sensitivity
            :Short: System gain
            :Symbol: K
            :Unit: DN/e
        """,
    'alpha': """Text : with colons

        .. emva1288::
            :short: ratio a:b: c
            :LatexName: \\alpha_{x}
            """,
    'plain': """Not a result.

        :Section: dark
        """,
    'zeta': """.. emva1288::
            :SECTION: dark
            :Unit:
            :Short:no space

        :Section: bright
        :Symbol: wrong
        """,
    'twice': """Two blocks

        .. emva1288::
            :Section: Bright
            :Short: first

        between

        .. emva1288::
            :Short: second
            :Symbol: t""",
    'empty': """Block with no line

        .. emva1288::

        :Section: dark""",
    'beta': """.. emva1288::
        :Section: sensitivity
        :Symbol: b""",
    'Upper': """
        .. emva1288::
            :Section: sensitivity
            :section: dark
            not a tag
    """,
    '_hidden': """
        .. emva1288::
            :Section: zz
    """,
    'silent': None,
}


def some_class(c):
    A = {}
    box = {}
    for k, nm in enumerate(['gain', 'alpha', 'plain', 'zeta', 'twice', 'empty', 'beta', 'Upper', '_hidden', 'silent']):
        def get(self, nm=nm):
            return box[nm]
        get.__doc__ = DOCS[nm]
        A[nm] = property(get) if k % 2 else get
    A['number'] = 5
    T = type('T', (object,), A)
    infos = {nm: block(d) for nm, d in DOCS.items() if block(d) is not None}
    return T, infos, box


@contract('C29', ['obj_to_dict', 'cls_1288_info', '_sections_first'], samples=20,
          bounded='the documentation texts of one class; values arbitrary')
def any_class(c):
    m = c.mod('process.routines')
    T, infos, box = some_class(c)
    c.ensure('documented', sorted(infos) == ['Upper', '_hidden', 'alpha', 'beta', 'gain', 'twice', 'zeta'])
    o = T()
    for turn in range(5):
        box.update(values(c, DOCS, turn, str(turn)))
        tag = ' (%d)' % turn
        res = c.call(m.obj_to_dict, o)
        check(c, res, infos, box, tag)
        grouped(c, c.call(m._sections_first, res), infos, box, tag)
    info = c.call(m.cls_1288_info, T)
    c.ensure('metadata of the class', sorted(c.keys(info)) == sorted(infos))
    for nm in infos:
        c.ensure('metadata of ' + nm, sorted(c.keys(info[nm])) == sorted(infos[nm]))
        for k in infos[nm]:
            c.ensure('metadata %s of %s' % (k, nm), info[nm][k] == infos[nm][k])
