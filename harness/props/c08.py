"""Saved NARC archives are structurally valid."""

from ndspy import narc
from gen import roms, trees
from ref import narc as ref
from props import c07

CASES = {'quick': 45000, 'thorough': 270000}
RULE = ('The archives of C07, each saved and judged by a strict independent reader (header, block chain,'
        ' ranges, alignment, overlaps), plus canonical archives written independently, opened and resaved.'
        ' Non-trivial = at least two files.')
REQUIRED = {'strict reader accepts': 1000, 'ranges hold the files': 1000, 'canonical archive byte for byte': 1000}
ASSUMPTIONS = []


def case(ctx, rng, index):
    files, tree, endian = c07.content(rng, index)
    ctx.info('files', files)
    ctx.info('tree', tree)
    ctx.info('endianness', endian)
    n = narc.NARC.fromFilesAndNames(list(files), trees.toFolder(tree))
    n.endiannessOfBeginning = endian
    data = n.save()
    try:
        p = ref.parse(data)
    except ref.Bad as e:
        ctx.check('strict reader accepts', False, str(e))
    ctx.check('strict reader accepts', True)
    ctx.eq('ranges hold the files', p['files'], files, 'files by allocation entry')
    ctx.eq('names read independently', p['tree'], tree, 'names')
    ctx.eq('byte-order style', p['endianness'], endian, 'style')
    want = ref.build(files, tree, endian)
    ctx.bytesEq('canonical archive byte for byte', narc.NARC(want).save(), want, 'resaved canonical archive')
    ctx.check('kind of result', isinstance(data, bytes), f'save() returned {type(data)}')
    if len(files) >= 2:
        ctx.nontrivial(files, tree, endian)
    if index in (3, 9):
        ctx.sample(f'{len(files)} files, {len(data)} bytes, blocks chain to the end, style {endian}')
