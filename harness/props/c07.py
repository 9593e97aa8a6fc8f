"""NARC archives keep every file and name."""

from ndspy import narc
from gen import roms, trees
from ref import narc as ref

CASES = {'quick': 45000, 'thorough': 270000}
RULE = ('Random archives: 0-40 files (empty, repeated, every length residue, 65600 files and 17 MB once), random name'
        ' trees, both header byte orders; saved and reloaded, and loaded from an independently written archive'
        ' with shuffled/shared/oddly aligned data. Non-trivial = at least two files.')
REQUIRED = {'files survive': 1000, 'names survive': 1000, 'header style survives': 1000,
            'foreign archive files': 1000, 'foreign archive names': 1000}
ASSUMPTIONS = []


def content(rng, index):
    if index == 0:
        return [], (0, [], []), '<'
    if index == 1:
        return [rng.randbytes(1 << 20), b'', b'x'], (0, ['a', 'b', 'c'], []), '>'
    if index == 3:
        return [b'%d' % (i % 90) for i in range(40000)], \
            (0, [], [(f'd{k}', (k * 1000, [f'f{i}' for i in range(1000)], [])) for k in range(40)]), '<'
    if index == 6:
        return [b'%d' % (i % 9) if i % 16 == 0 else b'' for i in range(65600)], (0, ['a', 'b'], []), '<'
    if index == 5:
        return [b'first', bytes(range(256)) * 0x11000, b'last'], (0, ['a', 'b', 'c'], []), '>'
    if index == 2:
        return [bytes([i % 256]) * i for i in range(300)], (0, [f'f{i}' for i in range(300)], []), '<'
    if index % 1500 == 4:
        n = rng.choice([256, 257, 1000, 4000])
        return [b'%d' % i * rng.randrange(3) for i in range(n)], \
            (0, [], [(f'd{k}', (k * 100, [f'f{i}' for i in range(100)], [])) for k in range(n // 100)]), rng.choice('<>')
    n = rng.choice([0, 1, 2, 5, rng.randrange(0, 41)])
    return roms.files(rng, n, 800), trees.tree(rng)[0], rng.choice('<>')


def case(ctx, rng, index):
    files, tree, endian = content(rng, index)
    ctx.info('files', files)
    ctx.info('tree', tree)
    ctx.info('endianness', endian)
    folder = trees.toFolder(tree)
    k = rng.randrange(3)
    if k == 0:
        n = narc.NARC()
        n.files = list(files)
        n.filenames = folder
    else:
        n = narc.NARC.fromFilesAndNames(list(files), folder)
    n.endiannessOfBeginning = endian
    data = n.save()
    m = narc.NARC(data)
    ctx.eq('files survive', [bytes(f) for f in m.files], files, 'files')
    ctx.eq('names survive', trees.fromFolder(m.filenames), tree, 'names')
    ctx.eq('header style survives', m.endiannessOfBeginning, endian, 'byte order')

    other = ref.buildForeign(files, tree, endian, rng)
    m = narc.NARC(other)
    ctx.eq('foreign archive files', [bytes(f) for f in m.files], files, 'files of a foreign archive')
    ctx.eq('foreign archive names', trees.fromFolder(m.filenames), tree, 'names of a foreign archive')
    ctx.eq('foreign archive style', m.endiannessOfBeginning, endian, 'byte order of a foreign archive')
    again = narc.NARC(m.save())
    ctx.eq('foreign archive survives resaving',
        ([bytes(f) for f in again.files], trees.fromFolder(again.filenames), again.endiannessOfBeginning),
        (files, tree, endian), 'resaved foreign archive')
    if index % 5 == 0:
        bare = narc.NARC(narc.NARC.fromFilesAndNames(list(files)).save())
        ctx.eq('archive without names', ([bytes(f) for f in bare.files], trees.fromFolder(bare.filenames)),
            (files, (0, [], [])), 'archive without names')
    if len(files) >= 2:
        ctx.nontrivial(files, tree, endian)
    if index in (3, 9):
        ctx.sample(f'{len(files)} files of {[len(f) for f in files][:12]} bytes, {len(trees.allFiles(tree))} names,'
                   f' saved to {len(data)} bytes')
