import os
from dv.spec import contract

WHY = 'descriptor files of this shape (numbers of blocks and images), with every exposure time, photon count, format and order of kinds'


class File:
    """the text of a descriptor file under construction"""

    def __init__(self, c, layout):
        self.c, self.layout, self.lines, self.n = c, layout, [], 0

    def noise(self):
        k = self.n % 4
        return {0: [], 1: ['# a comment with b 1 2', '', '   '],
                2: ['   \t# indented i x.tif'], 3: ['\t', '#n 1 2 3', '']}[k] if self.layout else []

    def add(self, *fields):
        self.n += 1
        self.lines += self.noise()
        if not self.layout:
            self.lines.append(' '.join(fields))
        else:
            sep = [' ', '\t', '   ', ' \t '][self.n % 4]
            self.lines.append(['', '  ', '\t'][self.n % 3] + sep.join(fields) + ['', '  ', ' \t'][self.n % 3])

    def text(self):
        return '\n'.join(self.lines) + ('\n' if self.n % 2 else '')


def numbers(c, blocks, kinds, comma):
    """exposure time and photon count of each block: text and value"""
    out = []
    for b in range(blocks):
        pool = None if c.is_sym else (0, 3)
        e = c.real('exposure%d' % b, 0, rand=pool)
        if not c.is_sym and c.rng.random() < 0.6:
            e = c.rng.choice([1.0, 2.5, 1000000.0, 33.125, 1e-05])
        et = c.number_text(e, comma)
        if kinds[b] == 'd':
            out.append((et, e, None, 0))
            continue
        p = c.real('photons%d' % b, 0, rand=pool)
        if not c.is_sym and c.rng.random() < 0.5:
            p = c.rng.choice([0.0, 2.5, 120000.0, 7.0])
        out.append((et, e, c.number_text(p, comma), p))
    return out


NAMES = ['z.tif', 'sub\\b.tif', 'x/#y.png', '.\\c.tif', 'deep\\er\\d.tif', 'A#.TIF', 'Bi-1,5.tif']


def path(d, name):
    return os.path.join(d, *os.path.normpath(name).split('\\'))


def write(c, blocks, kinds, counts, layout, form):
    """a descriptor file: its text and what it says"""
    f = File(c, layout)
    nums = numbers(c, blocks, kinds, layout)
    head = lambda: f.add('n', *[c.number_text(x) for x in form])
    f.add('v', '4.0')
    if not layout:
        head()
    said = []
    for b in range(blocks):
        et, e, pt, p = nums[b]
        f.add(kinds[b], et, *([pt] if pt is not None else []))
        names = []
        for k in range(counts[b]):
            nm = NAMES[(b + k) % len(NAMES)].replace('.', '%d%d.' % (b, k)) if (b + k) % 5 != 3 else '.\\c%d%d.tif' % (b, k)
            names.append(nm)
            f.add('i', nm)
        said.append(('temporal' if counts[b] == 2 else 'spatial', e, p, names))
    if layout:
        head()
    return f, said


def shape(c, blocks, layout, given, kinds=None):
    form = [c.int('bits', 1, rand=(1, 16)), c.int('width', 1, rand=(1, 5000)), c.int('height', 1, rand=(1, 5000))]
    kinds = kinds or [c.choice('kind%d' % b, ['d', 'b']) for b in range(blocks)]
    counts = [c.choice('images%d' % b, [2, 3] if blocks > 1 else [2, 3, 4, 6]) for b in range(blocks)]
    if not c.is_sym:
        counts = [c.rng.choice([n, n, 4, 5]) if n > 2 else n for n in counts]
    f, said = write(c, blocks, kinds, counts, layout, form)
    # no two blocks of the same kind for the same point
    for x in range(blocks):
        for y in range(x):
            if said[x][0] == said[y][0]:
                c.assume(c.lnot(c.land(c.exact(said[x][1], said[y][1]), c.exact(said[x][2], said[y][2]))))
    fn = c.file('descriptor.txt', f.text())
    P = c.mod('process.parser').ParseEmvaDescriptorFile
    if given:
        r = c.call(P, fn, path='/other/place')
        d = '/other/place'
    else:
        r = c.call(P, fn)
        d = os.path.dirname(fn)
    c.ensure('header', c.land(c.exact(r.format['bits'], form[0]), c.exact(r.format['width'], form[1]),
                              c.exact(r.format['height'], form[2])))
    c.ensure('version', r.version == '4.0')
    c.ensure('kinds', sorted(c.keys(r.images)) == ['spatial', 'temporal'])
    got = []
    for kind in ('temporal', 'spatial'):
        for e in c.keys(r.images[kind]):
            for p in c.keys(r.images[kind][e]):
                got.append((kind, e, p, [c.text(x) for x in c.values_list(r.images[kind][e][p])]))
    c.ensure('as many entries as blocks', len(got) == blocks)
    for b, (kind, e, p, names) in enumerate(said):
        want = [path(d, n) for n in names]
        c.ensure('block %d' % b, c.lor(*[c.land(c.exact(x[1], e), c.exact(x[2], p)) for x in got
                                        if x[0] == kind and x[3] == want]))


@contract('C01', ['ParseEmvaDescriptorFile'], bounded=WHY + ' (1 block)', samples=60)
def one_block(c):
    shape(c, 1, False, False)


@contract('C01', ['ParseEmvaDescriptorFile'], bounded=WHY + ' (2 blocks)', samples=100)
def two_blocks(c):
    shape(c, 2, False, True)


@contract('C01', ['ParseEmvaDescriptorFile'], bounded=WHY + ' (2 blocks)', samples=100)
def layout(c):
    shape(c, 2, True, False)


@contract('C01', ['ParseEmvaDescriptorFile'], bounded=WHY + ' (3 blocks)', samples=100)
def three_blocks(c):
    shape(c, 3, False, False)
