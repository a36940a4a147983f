from dv.spec import contract
from contracts.c01 import File, numbers, write

WHY = 'descriptor files of up to three blocks with this mistake, with every exposure time and photon count'


def refused(c, lines):
    fn = c.file('descriptor.txt', '\n'.join(lines) + '\n')
    st, x = c.outcome(c.mod('process.parser').ParseEmvaDescriptorFile, fn)
    c.ensure('refused with a SyntaxError', st == 'exc' and type(x).__name__ == 'SyntaxError')


def good(c, blocks, counts=None, kinds=None):
    form = [c.int('bits', 1, rand=(1, 16)), c.int('width', 1, rand=(1, 5000)), c.int('height', 1, rand=(1, 5000))]
    kinds = kinds or [c.choice('kind%d' % b, ['d', 'b']) for b in range(blocks)]
    f, said = write(c, blocks, kinds, counts or [c.choice('images%d' % b, [2, 3]) for b in range(blocks)], False, form)
    for x in range(blocks):
        for y in range(x):
            if said[x][0] == said[y][0]:
                c.assume(c.lnot(c.land(c.exact(said[x][1], said[y][1]), c.exact(said[x][2], said[y][2]))))
    return f.lines


@contract('C02', ['ParseEmvaDescriptorFile'], bounded=WHY, samples=150)
def one_field(c):
    lines = good(c, 2, [2, c.choice('images', [2, 3])])
    at = c.choice('at', list(range(len(lines) + 1)) if c.is_sym else list(range(40)))
    word = c.choice('word', ['b', 'd', 'i', 'n', 'v', 'x', '77'])
    lines.insert(min(at, len(lines)), word)
    refused(c, lines)


def mutate(c, letter, change):
    lines = good(c, 2, [2, c.choice('images', [2, 3])])
    here = [k for k, l in enumerate(lines) if l.startswith(letter)]
    c.assume(bool(here))
    k = here[c.choice('which', list(range(len(here))))]
    f = lines[k].split(' ')
    lines[k] = ' '.join(change(f))
    c.note(lines[k])
    refused(c, lines)


def longer(c, f):
    w = c.choice('extra', ['2', 'x.tif', ','])
    return f + [w] if c.choice('where', [0, 1]) else f[:1] + [w] + f[1:]


@contract('C02', ['ParseEmvaDescriptorFile'], bounded=WHY, samples=150)
def header_fields(c):
    mutate(c, 'n', lambda f: longer(c, f) if c.choice('more', [0, 1]) else f[:c.choice('left', [2, 3])])


@contract('C02', ['ParseEmvaDescriptorFile'], bounded=WHY, samples=150)
def bright_fields(c):
    mutate(c, 'b', lambda f: longer(c, f) if c.choice('more', [0, 1]) else f[:2])


@contract('C02', ['ParseEmvaDescriptorFile'], bounded=WHY, samples=150)
def dark_fields(c):
    mutate(c, 'd', lambda f: longer(c, f))


@contract('C02', ['ParseEmvaDescriptorFile'], bounded=WHY, samples=200)
def image_fields(c):
    mutate(c, 'i', lambda f: longer(c, f))


@contract('C02', ['ParseEmvaDescriptorFile'], bounded=WHY, samples=100)
def two_headers(c):
    lines = good(c, 2)
    # between blocks or at the ends
    spots = [k for k, l in enumerate(lines) if l[0] in 'vnbd'] + [len(lines)]
    w = [c.int('bits2', 1, rand=(1, 16)), c.int('width2', 1, rand=(1, 99)), c.int('height2', 1, rand=(1, 99))]
    lines.insert(spots[c.choice('spot', list(range(5))) % len(spots)], 'n ' + ' '.join(c.number_text(x) for x in w))
    refused(c, lines)


@contract('C02', ['ParseEmvaDescriptorFile'], bounded=WHY, samples=150)
def too_few_images(c):
    blocks = c.choice('blocks', [1, 2, 3])
    short = c.choice('short', list(range(blocks)))
    few = c.choice('few', [0, 1])
    refused(c, good(c, blocks, [few if b == short else c.choice('images%d' % b, [2, 3]) for b in range(blocks)]))


@contract('C02', ['ParseEmvaDescriptorFile'], bounded=WHY, samples=200)
def same_point_twice(c):
    blocks = c.choice('blocks', [2, 3])
    kinds = [c.choice('kind%d' % b, ['d', 'b']) for b in range(blocks)]
    counts = [c.choice('images%d' % b, [2, 3]) for b in range(blocks)]
    a, b = c.choice('pair', [(0, 1), (0, 2), (1, 2)])
    c.assume(b < blocks)
    if counts[a] == 2 or counts[b] == 2:
        c.assume(counts[a] == counts[b])
    elif not c.is_sym:
        counts[a] = c.rng.choice([3, 4, 6])
    nums = numbers(c, blocks, kinds, False)
    e = nums[a][1] if c.is_sym or c.rng.random() < 0.8 else nums[b][1]
    if c.is_sym:
        c.assume(c.exact(nums[b][1], nums[a][1]))
        c.assume(c.exact(nums[b][3], nums[a][3]))
    else:
        ta, _e, tp, p = nums[a]
        if kinds[b] == 'd':
            c.assume(kinds[a] == 'd' or p == 0)
            nums[b] = (c.rng.choice(['0' + ta, ta]), e, None, 0)
        else:
            nums[b] = (c.rng.choice(['0' + ta, ta]), e, '0' + (tp or '0'), p)
    f = File(c, False)
    f.add('n', '8', '10', '20')
    for k in range(blocks):
        f.add(kinds[k], nums[k][0], *([nums[k][2]] if nums[k][2] is not None else []))
        for m in range(counts[k]):
            f.add('i', 'image%d%d.tif' % (k, m))
    refused(c, f.lines)
