"""Main code files keep their sections."""

from ndspy import code, rom
from gen import blobs, maincode
from ref import lz

CASES = {'quick': 12000, 'thorough': 72000}
RULE = ('Independently built main code files (settings found by magic, by pointer, by the table-end rule, or'
        ' absent), uncompressed or compressed by an independent compressor, optionally with the table inside the'
        ' first section; loaded, compared section by section, saved plain and compressed, edited (section data'
        ' replaced by other lengths incl. empty and odd ones) and saved again. Non-trivial = more than one section.')
REQUIRED = {'sections as built': 1000, 'unmodified file saved back': 500, 'edited sections survive': 500,
            'compressed input': 150, 'compressed output expands to the image': 150, 'no settings': 100, 'compressible code is compressed': 50, 'through a ROM': 300,
            'settings far into the file': 50, 'compressed end': 100}
ASSUMPTIONS = ['Code settings lie in the first 16 KiB of compressed files, which the console requires to stay uncompressed, and'
               ' in the first 32 KiB of others.',
               'Section sizes are multiples of four; data of other lengths is zero-padded when saved.',
               'Files whose end could be mistaken for a compression footer are excluded.']


def sections(f):
    return [(s.ramAddress, bytes(s.data), s.bssSize, bool(s.implicit)) for s in f.sections]


def load(m, data, rng):
    if m.mode == 'pointer':
        return code.MainCodeFile(data, m.ram, m.pointer)
    k = rng.randrange(4)
    if k == 0:
        return code.MainCodeFile(data, m.ram)
    if k == 1:
        return code.MainCodeFile(data, m.ram, None)
    if k == 2:
        return code.MainCodeFile(data, m.ram, 0)
    return code.MainCodeFile(data, m.ram, m.ram + len(data) * 4 + 0x10000)  # pointer leads nowhere


def output(ctx, m, f, what):
    """Save in both ways and compare with what the model says; returns both files."""
    plain = bytes(f.save())
    want = m.image()
    ctx.bytesEq('plain save', plain, want, what)
    comp = bytes(f.save(compress=True))
    end = m.ram + len(comp) if m.cso is not None else 0
    wantComp = m.image(end)
    stored = len(comp) >= len(want)
    ref = lz.backwardCompress(want, min(0x4000, len(want))) if len(want) > 0x4000 else None
    if ref is not None and len(ref) + 64 < len(want):
        ctx.check('compressible code is compressed', not stored,
                  f'{what}: {len(want)} bytes that compress to {len(ref)} are stored as {len(comp)}')
    if stored:
        ctx.bytesEq('incompressible code stored', comp[:len(wantComp)], wantComp, what + ' (stored)')
    else:
        try:
            image, _, _ = lz.backwardExpandInPlace(comp)
        except lz.Bad as e:
            ctx.check('compressed output expands to the image', False, f'{what}: {e}')
        ctx.bytesEq('compressed output expands to the image', image, wantComp, what + ' (compressed)')
        ctx.bytesEq('start left raw', comp[:min(0x4000, len(want))], wantComp[:0x4000], what)
    return plain, comp, stored, end


def reload(ctx, rng, m, plain, comp, stored, end, what):
    chance = m.endByChance(plain)
    if maincode.isClean(plain) and not chance:
        ctx.eq('edited sections survive' if 'edit' in what else 'reloaded sections',
            sections(load(m, plain, rng)), m.expectedSections(), what + ' reloaded')
    if not (stored or chance) or (m.mode in ('magic', 'pointer') and maincode.isClean(comp)):
        got = sections(load(m, comp, rng))
        ctx.eq('reloaded from compressed', got, m.expectedSections(end), what + ' reloaded from compressed')


def farCase(ctx, rng, index):
    m = maincode.Model(rng, rng.choice(['magic', 'magic', 'pointer', 'tableEnd']), far=True)
    image = m.image()
    if not maincode.isClean(image) or m.endByChance(image):
        return
    ctx.info('mode, ram, settings, pointer', (m.mode, m.ram, m.cso, m.pointer))
    ctx.info('image', image)
    f = load(m, image, rng)
    ctx.eq('settings far into the file', (sections(f), f.codeSettingsOffs), (m.expectedSections(), m.cso), m.mode)
    ctx.bytesEq('unmodified file saved back', f.save(), image, 'unmodified')
    if len(m.sections) > 1:
        d = rng.randbytes(rng.randrange(1, 30))
        f.sections[1].data = bytearray(d)
        e = m.edited({1: d})
        out = bytes(f.save())
        ctx.bytesEq('settings far into the file', out, e.image(), 'edited')
        if maincode.isClean(out) and not e.endByChance(out):
            ctx.eq('edited sections survive', sections(load(e, out, rng)), e.expectedSections(), 'edited and reloaded')
        ctx.nontrivial(image, m.mode)


def case(ctx, rng, index):
    if index % 15 == 7:
        farCase(ctx, rng, index)
        return
    m = maincode.Model(rng, big=index % 4 == 0, huge=index % 600 == 9)
    image = m.image()
    if not maincode.isClean(image):
        ctx.note('image resembles a compressed one')
        return
    if m.endByChance(image):
        ctx.note('end address appears by chance')
        return
    ctx.info('mode, ram, settings, pointer', (m.mode, m.ram, m.cso, m.pointer))
    ctx.info('sections', [(hex(a), len(d), b) for a, d, b in m.sections])
    ctx.info('image', image)
    f = load(m, bytearray(image) if index % 5 == 0 else image, rng)
    ctx.eq('sections as built', sections(f), m.expectedSections(), 'loaded sections')
    ctx.eq('addresses', f.ramAddress, m.ram, 'load address')
    if m.cso is None:
        ctx.check('no settings', f.codeSettingsOffs is None, f'settings found at {f.codeSettingsOffs}')
    else:
        ctx.eq('settings found', f.codeSettingsOffs, m.cso, 'settings offset')
    plain, comp, stored, end = output(ctx, m, f, 'unmodified')
    ctx.bytesEq('unmodified file saved back', plain, image, 'unmodified')
    ctx.eq('saving leaves the sections alone', sections(f), m.expectedSections(), 'sections after saving')
    reload(ctx, rng, m, plain, comp, stored, end, 'unmodified')

    # through a ROM
    if index % 3 == 1:
        r = rom.NintendoDSRom()
        which = rng.choice(['9', '7'])
        setattr(r, f'arm{which}', image)
        setattr(r, f'arm{which}RamAddress', m.ram)
        setattr(r, f'arm{which}CodeSettingsPointerAddress', m.pointer or 0)
        g = getattr(r, f'loadArm{which}')()
        ctx.eq('through a ROM', (sections(g), g.ramAddress), (m.expectedSections(), m.ram), f'loadArm{which}()')

    # compressed on input
    if len(image) > 0x4000 or index % 3 == 0:
        prefix = 0x4000 if len(image) > 0x4000 else 0
        # the word holding the compressed end is part of the data that gets compressed, like in real files
        c = lz.backwardCompress(image, prefix)
        if c is not None and (prefix or m.cso is None or m.cso + 0x18 <= 0x4000):
            g = load(m, c, rng)
            ctx.eq('compressed input', sections(g), m.expectedSections(), 'sections of a compressed file')
            ctx.bytesEq('compressed input saves decompressed', g.save(), image, 'compressed file saved plain')
            if prefix and m.cso is not None:
                # the console is told where the compressed data ends
                end = m.ram + len(c)
                marked = bytearray(c)
                maincode.p32(marked, m.cso + 0x14, end)
                g = load(m, rng.choice([bytes, bytearray])(marked), rng)
                ctx.eq('compressed end', sections(g), m.expectedSections(end), 'sections of a compressed file with its end marked')
                ctx.bytesEq('compressed end', g.save(), image, 'saved plain')
                out = bytes(g.save(compress=True))
                ctx.eq('compressed end', int.from_bytes(out[m.cso + 0x14:m.cso + 0x18], 'little'), m.ram + len(out),
                       'end noted when saved compressed')
                ctx.bytesEq('compressed end', g.save(compress=False), image, 'saved plain again')
            h = code.MainCodeFile.fromCompressed(c, m.ram, *([m.pointer] if m.pointer else []))
            ctx.eq('compressed input', sections(h), m.expectedSections(), 'sections through fromCompressed')

    # section table inside the first section, as another tool might do
    n = 12 * (len(m.sections) - 1)
    room = len(m.sections[0][1]) - n
    if m.mode in ('magic', 'pointer') and room > 0x80 and n:
        at = 4 * rng.randrange(0, room // 4)
        clash = [(m.cso, m.cso + 0x24)] + ([(m.pointer - m.ram - 4, m.pointer - m.ram)] if m.pointer else [])
        if all(at + n <= a or at >= b for a, b in clash):
            other = m.image(tableInside=at)
            if maincode.isClean(other):
                g = load(m, other, rng)
                ctx.eq('table elsewhere', sections(g), m.expectedSections(image=other), 'table inside first section')

    # edits
    if m.cso is not None:
        edits = {}
        for i in range(1, len(m.sections)):
            if rng.random() < 0.6:
                edits[i] = rng.choice([b'', blobs.blob(rng, rng.randrange(0, 200)), rng.randbytes(rng.randrange(1, 9)),
                                       m.sections[i][1] + b'\x01\x02\x03\x04'])
        if rng.random() < 0.4:
            edits[0] = m.expectedSections()[0][1] + blobs.blob(rng, rng.choice([4, 8, 5, 100]))
        if edits:
            for i, d in edits.items():
                f.sections[i].data = bytearray(d)
            e = m.edited(edits)
            if index % 7 == 0 and len(e.sections) > 1:
                k = rng.randrange(1, len(m.sections))
                f.sections[k].bssSize = 0x1234
                f.sections[k].ramAddress = 0x1FFFFFC
                s = list(m.sections)
                s[k] = (0x1FFFFFC, s[k][1], 0x1234)
                m.sections = s
                e = m.edited(edits)
            ctx.info('edits', {k: len(v) for k, v in edits.items()})
            plain, comp, stored, end = output(ctx, e, f, 'edited')
            reload(ctx, rng, e, plain, comp, stored, end, 'edited')
    else:
        new = blobs.blob(rng, 4 * rng.randrange(0, 100))
        f.sections[0].data = bytearray(new)
        ctx.bytesEq('edited file without settings', f.save(), new, 'single section replaced')
    if len(m.sections) > 1:
        ctx.nontrivial(image, m.mode)
    if index in (1, 4, 8):
        ctx.sample(f'{m.mode}: sections {[len(d) for _, d, _ in m.sections]}, settings at {m.cso}; compressed'
                   f' {len(image)} -> {len(comp)}')
