"""Opening and resaving a canonical file is byte-exact."""

import os
import random

from ndspy import bmg, rom, soundArchive, soundSequence
from gen import bmgs, corpus, roms, sdats
from props import c33
from ref import bmg as rbmg, narc as rnarc, rom as rrom, sdat

CASES = {'quick': 75000, 'thorough': 450000}
RULE = ('Canonical files of every format made by independent writers from random contents, opened and saved without'
        ' modification; game images whose files are such files, opened and saved at every level; sample files that'
        ' come with the repository; and files the library itself wrote after random small edits, which must come out'
        ' the same when opened and saved once more. Non-trivial = file longer than 64 bytes.')
REQUIRED = {'same bytes': 9000, 'same bytes after asking': 3000, 'nested files': 400, 'sample files': 20,
            'library-written': 3000, 'SDAT layouts': 800, 'BMG header': 400, 'twice removed': 3000}
ASSUMPTIONS = ['Sound archive layouts are limited to those whose settings the file shows (see C24).',
               'Edited objects are limited to edits the format can represent (see the list of kinds in the check).']

NAMES = list(corpus.KINDS)
# Kinds for which small random edits that save successfully give canonical files
STABLE = ['Narc', 'Fnt', 'Bnbl', 'Bncl', 'Sseq', 'Swav', 'Swar', 'Strm', 'Palette', 'TilemapTiles']
SAMPLES = '/repo/test_files'


def same(ctx, monitor, kind, name, data, args):
    obj = kind.load(data, args)
    got = kind.save(obj)
    want = kind.resaved(data, args)
    ctx.bytesEq(monitor, got[0], want[0], f'{name} opened and saved')
    ctx.eq(monitor, got[1:], want[1:], f'{name}: settings stored elsewhere')
    return obj, got


def canonical(ctx, rng, index):
    name = NAMES[index % len(NAMES)]
    kind = corpus.KINDS[name]
    data, args = kind.file(rng)
    ctx.info('kind', [name, args])
    ctx.info('data', data)
    obj, got = same(ctx, 'same bytes', kind, name, data, args)
    if len(data) > 64:
        ctx.nontrivial(name, data)
    if rng.random() < 0.5:
        # Looking at it is not a modification
        obj = kind.load(data, args)
        str(obj), repr(obj)
        for _, v in corpus.public(obj):
            str(v)
        ctx.eq('same bytes after asking', kind.save(obj), got, f'{name} opened, printed and saved')
    # What was written is canonical again
    o2 = kind.load(got[0], args)
    ctx.eq('twice removed', kind.save(o2), got, f'{name} opened and saved twice')


def edited(ctx, rng, index):
    name = STABLE[index % len(STABLE)]
    kind = corpus.KINDS[name]
    data, args = kind.file(rng)
    ctx.info('kind', [name, args])
    ctx.info('data', data)
    obj = kind.load(data, args)
    seed = rng.random()
    ctx.info('edit seed', seed)
    walk = corpus.Walk(obj)
    if walk.mutable:
        c33.tweak(random.Random(seed), walk)
    try:
        out = kind.save(obj)
    except Exception:
        ctx.note('edited object refused')
        return
    ctx.info('written', out)
    again = kind.save(kind.load(out[0], out[1:] or args))
    ctx.eq('library-written', again, out, f'{name} written by the library, opened and saved')


def layouts(ctx, rng, index):
    m = sdats.model(rng, 40 if index % 100 == 7 else None)
    settings = dict(sdat.DEFAULTS, fileAlignment=rng.choice([0x20, 0x20, 0x200]),
        padSymbSizeTo4InSDATHeader=rng.random() < 0.4)
    ctx.info('settings', settings)
    ctx.info('model', m)
    data, _ = sdat.build(m, settings)
    ctx.bytesEq('SDAT layouts', soundArchive.SDAT(data).save(), data, 'archive opened and saved')


def bmgHeader(ctx, rng, index):
    m = bmgs.model(rng)
    ctx.info('model', m)
    data = rbmg.build(m)
    got = bytes(bmg.BMG(data).save())
    ctx.bytesEq('BMG header', got[:0x1D] + bytes(3) + got[0x20:], data[:0x1D] + bytes(3) + data[0x20:], 'BMG')
    ctx.check('BMG header', got[0x1D:0x20] == data[0x1D:0x20],
        lambda: f'bytes 0x1D-0x1F: {got[0x1D:0x20].hex()} instead of {data[0x1D:0x20].hex()}',
        mechanism='BMG header bytes 0x1D-0x1F')


NESTED = [n for n in NAMES if corpus.KINDS[n].magic]


def nested(ctx, rng, index):
    """A game image holding files, one of them an archive that holds files."""
    def member():
        n = rng.choice(NESTED)
        data, args = corpus.KINDS[n].file(rng)
        return n, data, args
    inner = [member() for _ in range(rng.randrange(1, 4))]
    archive = rnarc.build([d for _, d, _ in inner], (0, [f'{i}.bin' for i in range(len(inner))], []))
    outer = [member() for _ in range(rng.randrange(1, 4))]
    m = roms.model(rng, 4, 100)
    n = len(m['files'])
    pick = rng.sample(range(n), min(n, len(outer) + 1))
    contents = {}
    for i, (kindName, data, args) in zip(pick, outer):
        contents[i] = (kindName, data, args)
        m['files'][i] = data
    archiveAt = pick[len(outer)] if len(pick) > len(outer) else None
    if archiveAt is not None:
        m['files'][archiveAt] = archive
    data = rrom.build(m)
    ctx.info('members', [x[0] for x in outer + inner])
    game = rom.NintendoDSRom(data)
    for i, (kindName, d, args) in contents.items():
        kind = corpus.KINDS[kindName]
        ctx.bytesEq('nested files', game.files[i], d, f'file {i}')
        game.files[i] = kind.save(kind.load(game.files[i], args))[0]
    if archiveAt is not None:
        narcKind = corpus.KINDS['Narc']
        arc = narcKind.load(game.files[archiveAt], ())
        for j, (kindName, d, args) in enumerate(inner):
            kind = corpus.KINDS[kindName]
            arc.files[j] = kind.save(kind.load(arc.files[j], args))[0]
        game.files[archiveAt] = arc.save()
    ctx.bytesEq('nested files', game.save(), data, 'game image after every file in it was opened and saved')


def samples(ctx, rng, index):
    """Files of the original tools that come with the repository."""
    found = []
    for folder, _, names in os.walk(SAMPLES):
        found += [os.path.join(folder, n) for n in sorted(names)]
    for path in sorted(found):
        data = open(path, 'rb').read()
        if b'INF1' not in data and path.endswith('.bmg'):
            continue # The library and the original tools always write this section
        if path.endswith('.bmg'):
            got = bytes(bmg.BMG(data).save())
            ctx.bytesEq('sample files', got[:0x1D] + bytes(3) + got[0x20:], data[:0x1D] + bytes(3) + data[0x20:], path)
        elif path.endswith('.sseq'):
            ctx.bytesEq('sample files', soundSequence.SSEQ(data).save()[0], data, path)
            s = soundSequence.SSEQ(data)
            s.parse()
            ctx.bytesEq('sample files', s.save()[0], data, path + ' parsed')


def case(ctx, rng, index):
    k = index % 10
    if index == 0:
        samples(ctx, rng, index)
    elif k < 5:
        canonical(ctx, rng, index // 10 * 5 + k)
    elif k < 8:
        edited(ctx, rng, index // 10 * 3 + k - 5)
    elif k == 8:
        [layouts, bmgHeader][index // 10 % 2](ctx, rng, index)
    elif index % 40 == 9:
        nested(ctx, rng, index)
    else:
        canonical(ctx, rng, index // 10)
