"""Filename tables survive saving and loading."""

from ndspy import fnt
from gen import trees
from ref import fnt as ref

CASES = {'quick': 60000, 'thorough': 360000}
RULE = ('Random folder trees (names of 1-127 Latin-1 characters, arbitrary first ids, up to 60'
        ' folders, sometimes thousands of files) plus chains up to 150 deep and up to 4095 siblings; each is saved, judged by an'
        ' independent strict reader, reloaded, and also loaded from an independently written'
        ' canonical and a shuffled foreign table. Non-trivial = at least one subfolder.')
REQUIRED = {'load(save(tree)) == tree': 1000, 'independent reader gives tree': 1000,
            'foreign table loads': 1000, 'canonical table reproduced byte for byte': 1000}
ASSUMPTIONS = ['Empty names cannot be represented and are excluded.']


def makeTree(rng, index, tier):
    if index == 0:
        return (0, [], [])
    if index == 1:
        return (0xFFFF, [], [('only', (0, [], []))])
    if index == 2:
        return trees.chain(rng, 150)
    if index == 3:
        return trees.wide(rng, 4095)
    if index == 4:
        return trees.wide(rng, 300)
    if index == 5:
        return (3, ['n' * k for k in range(1, 128)], [('m' * k, (k, [], [])) for k in range(1, 128)])
    if index == 6:
        return (3, [chr(c) for c in range(1, 256)], [])
    if index % 1000 == 8:
        # many files in one folder, and more than 64 KiB of names
        n = rng.choice([255, 256, 257, 700, 3000])
        inner = (rng.randrange(0x8000), [f'file_{i:04d}.bin' for i in range(n)], [])
        return (rng.randrange(100), [f'r{i}' for i in range(rng.choice([0, 400]))],
                [('big', inner), ('other', (5, ['x'], [('deep', inner)]))])
    if index % 40 == 7:
        return trees.tree(rng, maxFolders=60, maxFiles=30, depth=12, sequential=False)[0]
    return trees.tree(rng, sequential=index % 2 == 0)[0]


def case(ctx, rng, index):
    tree = makeTree(rng, index, ctx.tier)
    ctx.info('tree', tree)
    folder = trees.toFolder(tree)
    data = fnt.save(folder)
    ctx.eq('saving leaves the tree alone', trees.fromFolder(folder), tree, 'tree after saving')
    try:
        parsed, end = ref.parse(bytes(data))
    except ref.Bad as e:
        ctx.check('independent reader gives tree', False, str(e))
    ctx.eq('independent reader gives tree', parsed, tree, 'saved table')
    ctx.check('no stray bytes', end == len(data), f'table is {len(data)} bytes, {end} used')
    again = trees.fromFolder(fnt.load(bytes(data)))
    ctx.eq('load(save(tree)) == tree', again, tree, 'round trip')

    canonical = ref.build(tree)
    loaded = fnt.load(bytearray(canonical) if index % 3 == 0 else canonical)
    ctx.eq('canonical table loads', trees.fromFolder(loaded), tree, 'independently written table')
    ctx.bytesEq('canonical table reproduced byte for byte', fnt.save(loaded), canonical, 'resaved table')

    foreign = ref.buildForeign(tree, rng)
    ctx.info('foreign table', foreign)
    ctx.eq('foreign table loads', trees.fromFolder(fnt.load(foreign + rng.choice([b'', b'\xff' * 3]))), tree,
        'table written by another tool')
    if tree[2]:
        ctx.nontrivial(tree)
    if index in (50, 51):
        ctx.sample(f'{len(trees.allFiles(tree))} files in {ref.folderCount(tree)} folders: {rt_short(tree)}')


def rt_short(t):
    r = repr(t)
    return r[:200]
