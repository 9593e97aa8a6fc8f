"""Overlays and overlay tables round-trip."""

from ndspy import code, rom
from gen import blobs, codeblobs, roms
from ref import lz

CASES = {'quick': 37000, 'thorough': 222000}
RULE = ('Overlay tables of 0-12 (sometimes up to 300) entries with random fields, 32-bit ids in any order, file IDs up to 32 bits,'
        ' files up to 80 KB in plain or independently compressed form, loaded directly and through a ROM, with and without an id selection; saved plain and'
        ' compressed, edited, and reloaded. Non-trivial = at least two overlays, one compressed.')
REQUIRED = {'fields as in the table': 1000, 'data decompressed': 1000, 'uncompressed table reproduced': 300,
            'saving updates its record': 2000, 'reloaded after saving': 1000, 'selection': 500, 'through a ROM': 300}
ASSUMPTIONS = []
NAMES = ('ramAddress', 'ramSize', 'bssSize', 'staticInitStart', 'staticInitEnd', 'fileID', 'compressedSize', 'flags')


def entry(ovId, fields):
    a = [ovId] + list(fields[:6]) + [fields[6] | fields[7] << 24]
    return b''.join(x.to_bytes(4, 'little') for x in a)


def fieldsOf(ov):
    return tuple(getattr(ov, n) for n in NAMES)


def case(ctx, rng, index):
    n = rng.choice([0, 1, 2, 3, rng.randrange(0, 13)]) if index % 400 != 5 else rng.choice([127, 128, 129, 255, 256, 300])
    ids = list(range(n)) if rng.random() < 0.6 else rng.sample(range(0, 400), n)
    if index % 7 == 3:
        ids = [i + rng.choice([0, 1 << 16, 1 << 31, 0xFFFFFE00]) for i in ids]
    fileIds = rng.sample(range(n + 5), n)
    if index % 3 and index % 5 == 0:
        fileIds = [max(0, rng.choice([0x100, 0xFFFF, 0x10000, 0xFFFFFFFF]) - 3 * k) if rng.random() < 0.5 else
                   rng.randrange(1 << 31) for k in range(n)]
        fileIds = fileIds if len(set(fileIds)) == n else list(range(70000, 70000 + n))
    long = n and n < 20 and index % 300 == 7
    model = {}
    files = {}
    for ovId, fid in zip(ids, fileIds):
        data = codeblobs.codeData(rng, rng.randrange(8)) if rng.random() < 0.7 else blobs.lzLike(rng, rng.randrange(0, 900))
        if long and ovId == ids[0]:
            data = blobs.codeLike(rng, 4 * rng.randrange(0x4000, 0x5000))
        flags = rng.choice([0, 1, 1, 2, 3, rng.randrange(256)])
        stored = data
        if flags & 1:
            c = lz.backwardCompress(data)
            if c is None:
                flags &= ~1
            else:
                stored = c
        size = len(stored)
        if not flags & 1 and rng.random() < 0.3:
            size = rng.choice([0, rng.randrange(1 << 24)])  # some games leave it unset or stale
        model[ovId] = (data, (rng.randrange(1 << 32), len(data), rng.randrange(1 << 32), rng.randrange(1 << 32),
                              rng.randrange(1 << 32), fid, size, flags))
        files[fid] = stored
    table = b''.join(entry(i, model[i][1]) for i in ids)
    ctx.info('table', {i: model[i][1] for i in ids})
    ctx.info('files', files)
    asked = []

    def callback(ovId, fid):
        asked.append((ovId, fid))
        return files[fid]

    ovs = code.loadOverlayTable(table, callback)
    ctx.eq('every overlay loaded', list(ovs), ids, 'overlay ids')
    ctx.eq('files asked for', asked, [(i, model[i][1][5]) for i in ids], 'callback calls')
    for i in ids:
        ctx.eq('fields as in the table', fieldsOf(ovs[i]), model[i][1], f'overlay {i}')
        ctx.bytesEq('data decompressed', ovs[i].data, model[i][0], f'overlay {i} data')
        ctx.eq('flag properties', (ovs[i].compressed, ovs[i].verifyHash),
            (bool(model[i][1][7] & 1), bool(model[i][1][7] & 2)), f'overlay {i} flags')
    saved = code.saveOverlayTable(ovs)
    want = b''.join(entry(i, model[i][1]) for i in sorted(ids))
    ctx.bytesEq('uncompressed table reproduced' if not any(model[i][1][7] & 1 for i in ids) else 'table reproduced',
        saved, want, 'table saved unmodified')

    # a selection
    pick = [i for i in ids if rng.random() < 0.5] + rng.sample(range(500, 510), 2)
    if rng.random() < 0.1:
        pick = []
    asked.clear()
    some = code.loadOverlayTable(table, callback, rng.choice([list, set, tuple])(pick))
    ctx.eq('selection', list(some), [i for i in ids if i in pick], 'selected overlays')
    ctx.eq('selection', [a for a, _ in asked], [i for i in ids if i in pick], 'files read for a selection')
    for i in some:
        ctx.check('selection', fieldsOf(some[i]) == model[i][1] and bytes(some[i].data) == model[i][0], f'overlay {i}')

    # through a ROM
    if index % 3 == 0:
        r = rom.NintendoDSRom()
        r.files = [files.get(k, b'') for k in range(n + 5)]
        which = rng.choice(['9', '7'])
        setattr(r, f'arm{which}OverlayTable', table)
        if index % 2:
            r = rom.NintendoDSRom(r.save())
        loader = getattr(r, f'loadArm{which}Overlays')
        d = loader()
        ctx.eq('through a ROM', [(i, fieldsOf(o), bytes(o.data)) for i, o in d.items()],
            [(i, model[i][1], model[i][0]) for i in ids], f'loadArm{which}Overlays()')
        d = loader(pick)
        ctx.eq('through a ROM', list(d), [i for i in ids if i in pick], f'loadArm{which}Overlays(selection)')
        other = getattr(r, f'loadArm{"7" if which == "9" else "9"}Overlays')()
        ctx.eq('through a ROM', other, {}, 'the other processor has no overlays')

    # edit some, save all, reload
    expected = {}
    newFiles = {}
    for i in ids:
        ov = ovs[i]
        data, f = model[i]
        if rng.random() < 0.4:
            data = codeblobs.codeData(rng, rng.randrange(8))
            ov.data = bytearray(data)
        if rng.random() < 0.2:
            ov.verifyHash = not ov.verifyHash
            f = f[:7] + (f[7] ^ 2,)
        compress = rng.random() < 0.5
        out = bytes(ov.save(compress=compress))
        if compress and len(out) >= len(data) and lz.anyFooter(out):
            # stored because it cannot be compressed, and its end could be taken for a footer
            ctx.note('stored overlay resembling a compressed one, saved plain instead')
            compress = False
            out = bytes(ov.save(compress=False))
        f = (f[0], len(data)) + f[2:6] + (len(out), (f[7] & ~1) | compress)
        ctx.eq('saving updates its record', fieldsOf(ov), f, f'overlay {i} after save(compress={compress})')
        ctx.bytesEq('saving keeps the data', ov.data, data, f'overlay {i}')
        if compress:
            stored = len(out) >= len(data)
            if stored:
                ctx.bytesEq('written form', out[:len(data)], data, f'overlay {i} stored')
                ctx.check('written form', not any(out[len(data):]), f'overlay {i} padded')
                data = out
            else:
                try:
                    got, _, _ = lz.backwardExpandInPlace(out)
                except lz.Bad as e:
                    ctx.check('written form', False, f'overlay {i}: {e}')
                ctx.bytesEq('written form', got, data, f'overlay {i} compressed')
        else:
            ctx.bytesEq('written form', out, data, f'overlay {i} plain')
        expected[i] = (data, f)
        newFiles[f[5]] = out
    table2 = code.saveOverlayTable(ovs)
    ctx.eq('saved table', table2, b''.join(entry(i, expected[i][1]) for i in sorted(ids)), 'table after saving')
    again = code.loadOverlayTable(table2, lambda i, fid: newFiles[fid])
    ctx.eq('reloaded after saving', list(again), sorted(ids), 'overlay ids')
    for i in ids:
        data, f = expected[i]
        ctx.eq('reloaded after saving', fieldsOf(again[i]), f, f'overlay {i} fields')
        ctx.bytesEq('reloaded after saving', again[i].data, data, f'overlay {i} data')
    if n >= 2 and any(model[i][1][7] & 1 for i in ids):
        ctx.nontrivial(table)
    if index in (2, 3):
        ctx.sample(f'{n} overlays {ids}; flags {[model[i][1][7] for i in ids]}; sizes {[len(model[i][0]) for i in ids]}')
