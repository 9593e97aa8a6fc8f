"""Nested files can be edited in place."""

import struct

from ndspy import bmg, code, lz10, narc, rom, soundArchive
from gen import blobs, codeblobs, corpus, roms, sdats, trees
from ref import lz, narc as rnarc, rom as rrom

CASES = {'quick': 9000, 'thorough': 54000}
RULE = ('Independently built ROMs whose files are archives, LZ10-compressed archives, sound archives, files of all other'
        ' formats and meaningless data, with archives inside archives up to three deep, compressed and plain overlays'
        ' and a main code file. One to six edits at random depth, done as the tutorials do them: take out, decompress,'
        ' open, change, save, compress, put back, with the result of each save used as it is. The saved image is read'
        ' by a strict independent reader. Non-trivial = at least one edit two levels deep.')
REQUIRED = {'file as edited': 9000, 'files not edited': 9000, 'everything else': 5000, 'nested archive names': 5000,
            'overlays': 1500, 'main code': 1500, 'edited object': 5000}
ASSUMPTIONS = ['Formats inside are those whose files stay the same when opened and saved (see C34).']

INNER = ['Bmg', 'Bnbl', 'Bncl', 'Sseq', 'Sbnk', 'Swav', 'Swar', 'Strm', 'Sdat', 'Nsbtx', 'Nsbmd', 'Palette', 'ImageTiles',
         'TilemapTiles']


# A node is ['raw', bytes], ['kind', name, bytes, args], ['lz', node] or ['narc', tree, [nodes], endian]

def node(rng, depth):
    k = rng.random()
    if depth and k < 0.5:
        tree, n = trees.tree(rng, 3, 3, 2)
        kids = [node(rng, depth - 1) for _ in range(n + rng.randrange(2))]
        out = ['narc', tree, kids, rng.choice('<<>')]
    elif k < 0.85:
        name = rng.choice(INNER)
        data, args = corpus.KINDS[name].file(rng)
        out = ['kind', name, data, args]
    else:
        out = ['raw', blobs.blob(rng, rng.randrange(80))]
    return ['lz', out] if rng.random() < 0.25 and len(content(out)) < 3000 else out


def content(n):
    """The file of a node, written without the library."""
    if n[0] == 'raw':
        return n[1]
    if n[0] == 'kind':
        return n[2]
    if n[0] == 'lz':
        inner = content(n[1])
        return lz.lz10Encode(lz.tokenize(inner, 0x1000, 1), len(inner))
    return rnarc.build([content(x) for x in n[2]], n[1], n[3])


def change(rng, n):
    """An edited node of the same kind and a function doing the same edit on file data through the library."""
    if n[0] == 'raw' or rng.random() < 0.15:
        new = blobs.blob(rng, rng.randrange(100))
        give = rng.choice([bytes, bytearray])
        return ['raw', new], lambda data: give(new), 0
    if n[0] == 'lz':
        sub, f, depth = change(rng, n[1])
        return ['lz', sub], lambda data: lz10.compress(f(lz10.decompress(data))), depth + 1
    if n[0] == 'narc':
        named = [(p, i) for p, i in trees.allFiles(n[1]) if i < len(n[2])]
        if not n[2]:
            new = ['raw', b'first']

            def add(data):
                a = narc.NARC(data)
                a.files.append(b'first')
                return a.save()
            return ['narc', n[1], [new], n[3]], add, 1
        i = rng.randrange(len(n[2]))
        path = next((p for p, j in named if j == i), None)
        sub, f, depth = change(rng, n[2][i])
        byName = path is not None and rng.random() < 0.7

        def edit(data):
            a = narc.NARC(data)
            if byName:
                a.setFileByName(path, f(a.getFileByName(path)))
            else:
                a.files[i] = f(a.files[i])
            return a.save()
        return ['narc', n[1], n[2][:i] + [sub] + n[2][i + 1:], n[3]], edit, depth + 1
    # another file of the same kind: only opened and saved, so it stays as it is
    kind = corpus.KINDS[n[1]]
    if n[1] == 'Bmg' and rng.random() < 0.7:
        return bmgEdit(rng, n)
    if n[1] == 'Sdat' and rng.random() < 0.7:
        return sdatEdit(rng, n)

    def reopen(data):
        o = kind.load(data, n[3])
        if n[1] in ('Palette', 'ImageTiles', 'TilemapTiles'):
            return kind.saveFunction(o)
        x = o.save()
        return x[0] if isinstance(x, tuple) else x
    return n, reopen, 0


def bmgEdit(rng, n):
    text = rng.choice(['', 'new', 'new text \xe9' * 5])
    if bmg.BMG(n[2]).encoding not in ('utf-16', 'utf-8'):
        text = 'new'

    def edit(data):
        b = bmg.BMG(data)
        b.messages.append(bmg.Message(b'', [text] if text else []))
        if len(b.messages) > 1:
            b.messages[-1].info = bytes(len(b.messages[0].info))
        return b.save()
    return ['bmg', n[2], text], edit, 0


def sdatEdit(rng, n):
    name = rng.choice(['Sseq', 'Swar', 'Strm'])
    data, args = corpus.KINDS[name].file(rng)
    part = {'Sseq': 'sequences', 'Swar': 'waveArchives', 'Strm': 'streams'}[name]

    def edit(d):
        s = soundArchive.SDAT(d)
        getattr(s, part).append(('ADDED', corpus.KINDS[name].load(data, args)))
        return s.save()
    return ['sdat', n[2], part, data], edit, 0


def build(ctx, rng):
    m = roms.model(rng, 0, 200)
    tree, count = trees.tree(rng, 4, 3, 3)
    count += rng.randrange(3)
    nodes = [node(rng, rng.choice([0, 1, 2, 3])) for _ in range(count)]
    # overlays at the end
    overlays, table = [], b''
    for i in range(rng.choice([0, 0, 1, 3])):
        data = codeblobs.codeData(rng, rng.randrange(8))
        stored = lz.backwardCompress(data) if rng.random() < 0.6 else None
        flags = stored is not None
        stored = data if stored is None else stored
        fid = count + i
        overlays.append([data, flags, fid])
        nodes.append(['raw', stored])
        table += struct.pack('<8I', i, 0x2000000 + 0x1000 * i, len(data), 4 * i, 0, 0, fid, len(stored) | flags << 24)
    main, (ram, pointer) = corpus.KINDS['MainCode'].file(rng)
    m['arm9'], m['arm9RamAddress'] = main, ram
    m['arm9CodeSettingsPointerAddress'] = pointer or 0
    m['arm9PostData'] = b''
    m['arm9OverlayTable'], m['arm7OverlayTable'] = table, b''
    m['tree'] = tree
    m['files'] = [content(n) for n in nodes]
    m['order'] = list(range(len(nodes)))
    return m, nodes, overlays, count


def final(ctx, data, n, what):
    """Like same, for nodes that may hold edited objects."""
    if n[0] == 'bmg':
        a, b = bmg.BMG(n[1]), bmg.BMG(bytes(data))
        ctx.eq('edited object', [[str(x) for x in b.messages][:-1], corpus.state(b.scripts), corpus.state(b.labels)],
               [[str(x) for x in a.messages], corpus.state(a.scripts), corpus.state(a.labels)], f'{what}: other parts')
        ctx.eq('edited object', b.messages[-1].stringParts, [n[2]] if n[2] else [], f'{what}: added message')
    elif n[0] == 'sdat':
        a = sdats.describe(soundArchive.SDAT(n[1]))
        b = sdats.describe(soundArchive.SDAT(bytes(data)))
        name, added = b[n[2]].pop()
        ctx.eq('edited object', (name, added[0]), ('ADDED', n[3]), f'{what}: added file')
        for part in a:
            ctx.eq('edited object', b[part], a[part], f'{what}: {part}')
    elif n[0] == 'lz':
        final(ctx, lz.lz10Decode(bytes(data))[0], n[1], what + ' (decompressed)')
    elif n[0] == 'narc':
        got = rnarc.parse(bytes(data))
        files = got['files']
        ctx.eq('nested archive names', (got['tree'], got['endianness'], len(files)), (n[1], n[3], len(n[2])), what)
        for i, (f, x) in enumerate(zip(files, n[2])):
            final(ctx, f, x, f'{what}[{i}]')
    else:
        ctx.bytesEq('file as edited', data, n[1] if n[0] == 'raw' else n[2], what)


def case(ctx, rng, index):
    m, nodes, overlays, count = build(ctx, rng)
    image = rrom.build(m)
    ctx.info('image', image)
    ctx.info('nodes', [n[0] if n[0] != 'kind' else n[1] for n in nodes])
    r = rom.NintendoDSRom(image)
    named = [(p, i) for p, i in trees.allFiles(m['tree']) if i < count]
    edited, deep = set(), 0
    log = []
    for _ in range(rng.choice([1, 1, 2, 4, 6])):
        todo = [i for i in range(count) if i not in edited]
        if not todo:
            break
        i = rng.choice(todo)
        path = next((p for p, j in named if j == i), None)
        new, f, depth = change(rng, nodes[i])
        deep = max(deep, depth)
        edited.add(i)
        log.append((i, depth))
        if path is not None and rng.random() < 0.7:
            r.setFileByName(path, f(r.getFileByName(path)))
        else:
            r.files[i] = f(r.files[i])
        nodes[i] = new
        if rng.random() < 0.3:
            r = rom.NintendoDSRom(r.save())
    ctx.info('edits', log)
    # overlays and code
    if overlays and rng.random() < 0.7:
        ovs = r.loadArm9Overlays()
        for i, o in enumerate(overlays):
            ctx.bytesEq('overlays', ovs[i].data, o[0], f'overlay {i}')
            if rng.random() < 0.5:
                o[0] = codeblobs.codeData(rng, rng.randrange(8)) + bytes([1, 2, 3, 4]) * 40
                ovs[i].data = rng.choice([bytes, bytearray])(o[0])
                compress = rng.random() < 0.5
                stored = ovs[i].save(compress=compress)
                if compress and len(stored) >= len(o[0]):
                    # data that cannot be compressed is stored and padded
                    ctx.bytesEq('overlays', stored[:len(o[0])], o[0], f'overlay {i} stored')
                    if lz.anyFooter(stored):
                        stored, compress = ovs[i].save(), False
                    else:
                        o[0] = bytes(stored)
                r.files[ovs[i].fileID] = stored
                o[1] = compress
                nodes[o[2]] = None
        r.arm9OverlayTable = code.saveOverlayTable(ovs)
    changedCode = rng.random() < 0.5
    if changedCode:
        main = r.loadArm9()
        sections = [bytes(s.data) for s in main.sections]
        k = rng.randrange(len(sections))
        if k and main.sections[k].data:
            d = bytearray(main.sections[k].data)
            d[rng.randrange(len(d))] ^= 0x55
            main.sections[k].data = d
            sections[k] = bytes(d)
        r.arm9 = main.save()
        back = r.loadArm9()
        ctx.eq('main code', [bytes(s.data) for s in back.sections], sections, 'sections in the ROM')
    saved = bytes(r.save())
    try:
        got = rrom.parse(saved)
    except rrom.Bad as e:
        ctx.check('everything else', False, str(e))
        return
    for i, n in enumerate(nodes):
        if n is None:
            continue
        if i in edited:
            final(ctx, got['files'][i], n, f'file {i}')
        else:
            ctx.bytesEq('files not edited', got['files'][i], m['files'][i], f'file {i}')
    ctx.eq('everything else', [len(got['files']), got['tree']], [len(nodes), m['tree']], 'number of files and names')
    for name in [x for x, _, _ in rrom.FIELDS] + ['arm7', 'arm7OverlayTable', 'iconBanner', 'debugRom'] + (
            [] if changedCode else ['arm9']):
        ctx.eq('everything else', got[name], m[name], name)
    again = rom.NintendoDSRom(saved)
    if overlays:
        ovs = again.loadArm9Overlays()
        ctx.eq('overlays', [(bytes(ovs[i].data), ovs[i].compressed, ovs[i].fileID) for i in ovs],
               [(o[0], bool(o[1]), o[2]) for o in overlays], 'overlays of the reopened ROM')
    if changedCode:
        ctx.eq('main code', [bytes(s.data) for s in again.loadArm9().sections], sections, 'sections of the reopened ROM')
    else:
        ctx.bytesEq('main code', again.arm9, m['arm9'], 'main code of the reopened ROM')
    if deep >= 2:
        ctx.nontrivial(image)
    if index in (2, 6):
        ctx.sample(f'{len(nodes)} files, edits (file, depth) {log}, {len(overlays)} overlays, {len(saved)} bytes')
