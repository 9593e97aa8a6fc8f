"""Saved sound archives are structurally valid."""

from ndspy import soundArchive
from gen import sdats
from ref import sdat

CASES = {'quick': 18000, 'thorough': 108000}
RULE = ('Archives as in C23 with every combination of alignment, padding, name-block and merge settings; each saved'
        ' file is taken apart by an independent strict reader and compared with an independent writer, and saved'
        ' again after loading. Non-trivial = at least three stored files.')
REQUIRED = {'strict reading': 6000, 'contents by strict reading': 6000, 'same as independent writer': 6000,
            'resave with the same settings': 6000, 'resave with inferred settings': 800, 'merge settings': 500,
            'inferred settings': 800}
ASSUMPTIONS = ['Layout settings are inferred from the file, as documented; they are compared only where the file'
               ' shows them (an odd multiple of the alignment occurs, a file needs padding).']


def case(ctx, rng, index):
    m = sdats.model(rng, sdats.VAST[index] if index in sdats.VAST and index != 11 else 40 if index % 200 == 7 else
        'long' if index % 400 == 8 else None)
    ctx.info('model', {k: [(n, e and (e[1:] if k in sdat.WITH_FILE else e)) for n, e in v] for k, v in m.items()})
    settings = sdats.settings(rng)
    if settings['fatLengthsIncludePadding']:
        settings['padAtEnd'] = True
    merge = sdats.mergeIds(rng, m) if rng.random() < 0.4 else {}
    ctx.info('settings', settings)
    ctx.info('merge', merge)
    s = sdats.toSdat(m, settings, merge)
    data = bytes(s.save())
    try:
        got, ids, extents = sdat.parse(data, settings)
    except sdat.Bad as e:
        ctx.check('strict reading', False, str(e))
    ctx.check('strict reading', True)
    for part in sdat.PARTS:
        ctx.eq('contents by strict reading', got[part], m[part], part)
    for a in ids:
        for b in ids:
            if a < b and ids[a] == ids[b]:
                ctx.check('merge settings', merge.get(a, 0) == merge.get(b, 0) and
                    m[a[0]][a[1]][1][0] == m[b[0]][b[1]][1][0], f'{a} and {b} share a file')
    built, _ = sdat.build(m, settings, merge)
    ctx.bytesEq('same as independent writer', data, built, 'archive')

    back = soundArchive.SDAT(data)
    sdats.apply(back, settings)
    ctx.bytesEq('resave with the same settings', back.save(), data, 'loaded and saved')
    # What the file shows about its settings
    a = settings['fileAlignment']
    if a == 0x20 and settings['padAtEnd'] and not settings['fatLengthsIncludePadding'] and not \
            settings['padSymbSizeTo4InSDATHeader'] and not merge:
        ctx.bytesEq('resave of the usual layout', soundArchive.SDAT(data).save(), data, 'loaded and saved')
    offs = [o for o, _ in extents]
    shown = [i for i, o in enumerate(offs) if o % (2 * a)]
    if len(offs) >= 2 and (a == 0x200 or shown):
        b2 = soundArchive.SDAT(data)
        ctx.eq('inferred settings', b2.fileAlignment, a, f'file alignment; offsets {offs[:8]}')
        sizes = [n for _, n in extents]
        if settings['fatLengthsIncludePadding'] or any(n % a for n in sizes[:-1]):
            ctx.eq('inferred settings', bool(b2.fatLengthsIncludePadding), settings['fatLengthsIncludePadding'],
                'sizes include padding')
            unpadded = offs[-1] + sizes[-1]
            if settings['padAtEnd'] or unpadded % a:
                ctx.eq('inferred settings', bool(b2.padAtEnd), settings['padAtEnd'], 'padding at the end')
                ctx.bytesEq('resave with inferred settings', b2.save(), data, 'loaded and saved')
    if len(extents) >= 3:
        ctx.nontrivial(data)
    if index in (3, 5):
        ctx.sample(f'{[len(v) for v in m.values()]} entries, {len(extents)} files, {len(data)} bytes, {settings}')
