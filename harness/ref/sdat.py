"""
Independent builder and reader of SDAT files.

Model: dict of eight lists of (name or None, entry or None):
  sequences:        (file, unk02, bank, volume, channelPressure, polyphonicPressure, player)
  sequenceArchives: (file, unk02, [names])
  banks:            (file, unk02, [archive id or None] * 4)
  waveArchives:     (file, unk02)
  sequencePlayers:  (maxSequences, frozenset of channels, heapSize)
  groups:           ((type, options, id), ...)
  streamPlayers:    (channel, ...)
  streams:          (file, unk02, volume, priority, player, unk07)
"""
import struct

from ref.sndfile import Bad

PARTS = ['sequences', 'sequenceArchives', 'banks', 'waveArchives', 'sequencePlayers', 'groups', 'streamPlayers',
         'streams']
WITH_FILE = ['sequences', 'sequenceArchives', 'banks', 'waveArchives', 'streams']
DEFAULTS = dict(fileAlignment=0x20, firstFileAlignment=None, fatLengthsIncludePadding=False, padAtEnd=True,
                padSymbSizeTo4InSDATHeader=False)


def u32(x):
    return struct.pack('<I', x)


def pad(b, n):
    return b + bytes(-len(b) % n)


def record(part, entry, fileId):
    if part == 'sequences':
        return struct.pack('<HHHBBBBH', fileId, *entry[1:], 0)
    if part == 'sequenceArchives' or part == 'waveArchives':
        return struct.pack('<HH', fileId, entry[1])
    if part == 'banks':
        return struct.pack('<HH', fileId, entry[1]) + b''.join(
            struct.pack('<H', 0xFFFF if x is None else x) for x in entry[2])
    if part == 'sequencePlayers':
        return struct.pack('<HHI', entry[0], sum(1 << c for c in entry[1]), entry[2])
    if part == 'groups':
        return u32(len(entry)) + b''.join(struct.pack('<BHBI', t, o, 0, i) for t, o, i in entry)
    if part == 'streamPlayers':
        return pad(bytes([len(entry)]) + bytes(entry) + b'\xff' * (16 - len(entry)) + bytes(4), 4)
    return struct.pack('<HHBBBBI', fileId, *entry[1:], 0)


def build(model, settings=DEFAULTS, mergeIds=None, foreign=None, symbols=True):
    """
    mergeIds: {(part, index): id}. foreign: a random.Random, for choices
    that another tool might make differently.
    """
    rng = foreign
    mergeIds = mergeIds or {}
    # files
    files, keys, ids = [], {}, {}
    for part in PARTS:
        if part not in WITH_FILE:
            continue
        for i, (_, e) in enumerate(model[part]):
            if e is None:
                continue
            key = (bytes(e[0]), mergeIds.get((part, i), 0))
            if key in keys and not (rng and rng.random() < 0.5):
                ids[part, i] = keys[key]
            else:
                ids[part, i] = len(files)
                keys.setdefault(key, len(files))
                files.append(bytes(e[0]))
    if rng and rng.random() < 0.3:
        files.append(rng.randbytes(rng.randrange(0, 40)))  # never referred to
    if rng and rng.random() < 0.5:
        order = list(range(len(files)))
        rng.shuffle(order)
        ids = {k: order[v] for k, v in ids.items()}
        moved = [None] * len(files)
        for old, new in enumerate(order):
            moved[new] = files[old]
        files = moved

    # symbols
    anyName = any(n is not None for p in PARTS for n, _ in model[p]) or \
        any(x is not None for _, e in model['sequenceArchives'] if e for x in e[2])
    symb = b''
    symbSize = 0
    if anyName and symbols:
        words = []      # int, or ('s', string offset)
        strings = bytearray()
        heads = []
        known = {}

        def name(n):
            if n is None:
                return 0
            b = n.encode('latin-1') + b'\0'
            if rng and rng.random() < 0.5 and b in known:
                return ('s', known[b])
            known[b] = len(strings)
            strings.extend(b)
            return ('s', known[b])

        for part in PARTS:
            heads.append(4 * len(words))
            entries = model[part]
            words.append(len(entries))
            if part != 'sequenceArchives':
                words += [name(n) for n, _ in entries]
                continue
            base = len(words) + 2 * len(entries)
            sub = []
            for n, e in entries:
                words.append(name(n))
                if e is None:
                    words.append(0)
                    continue
                words.append(0x40 + 4 * (base + len(sub)))
                sub.append(len(e[2]))
                sub += [name(x) for x in e[2]]
            words += sub
        table = b''.join(u32(0x40 + 4 * len(words) + w[1]) if isinstance(w, tuple) else u32(w) for w in words)
        body = b''.join(u32(0x40 + h) for h in heads) + bytes(0x18) + table + bytes(strings)
        symbSize = 8 + len(body)
        padded = symbSize + -symbSize % 4
        if settings['padSymbSizeTo4InSDATHeader']:
            symbSize = padded
        symb = pad(b'SYMB' + u32(padded) + body, 4)

    # info
    info = bytearray(0x40)
    info[:4] = b'INFO'
    for k, part in enumerate(PARTS):
        info[8 + 4 * k:12 + 4 * k] = u32(len(info))
        entries = model[part]
        at = len(info) + 4
        info += u32(len(entries)) + bytes(4 * len(entries))
        order = list(range(len(entries)))
        if rng and rng.random() < 0.3:
            order.reverse()
        for i in order:
            e = entries[i][1]
            if e is None:
                continue
            if rng and rng.random() < 0.2:
                info += rng.randbytes(4)
            info[at + 4 * i:at + 4 * i + 4] = u32(len(info))
            info += record(part, e, ids.get((part, i)))
    info[4:8] = u32(len(info))

    # place everything
    out = bytearray(0x40)
    places = []
    if symb:
        places.append((len(out), symbSize))
        out += symb
    else:
        places.append((0, 0))
    if rng and rng.random() < 0.3:
        out += bytes(4 * rng.randrange(1, 8))
    places.append((len(out), len(info)))
    out += info
    fatSize = 12 + 16 * len(files)
    fatAt = len(out)
    places.append((fatAt, fatSize))
    out += b'FAT ' + u32(fatSize) + u32(len(files)) + bytes(16 * len(files))
    fileAt = len(out)
    out += bytes(12)
    a = settings['fileAlignment']
    if settings['firstFileAlignment'] is not None:
        out = pad(out, settings['firstFileAlignment'])
    extents = []
    for i, f in enumerate(files):
        out += bytes(-len(out) % a)
        size = len(f)
        if settings['fatLengthsIncludePadding']:
            size += -size % a
        extents.append((len(out), size))
        out[fatAt + 12 + 16 * i:fatAt + 20 + 16 * i] = u32(len(out)) + u32(size)
        out += f
    if settings['padAtEnd']:
        out = pad(out, a)
    places.append((fileAt, len(out) - fileAt))
    out[fileAt:fileAt + 12] = b'FILE' + u32(len(out) - fileAt) + u32(len(files))
    out[:0x10] = b'SDAT\xff\xfe' + struct.pack('<HIHH', 0x100, len(out), 0x40, 4 if symb else 3)
    for k, (off, size) in enumerate(places):
        out[0x10 + 8 * k:0x18 + 8 * k] = u32(off) + u32(size)
    return bytes(out), extents


def trueSize(f):
    """Size by the file's own header."""
    return struct.unpack_from('<I', f, 8)[0] if len(f) >= 12 else len(f)


def parse(data, settings):
    """Strict reading of an archive written with the given settings: (model, {(part, i): file id}, extents)"""
    data = bytes(data)
    if data[:4] != b'SDAT':
        raise Bad('magic')
    bom, version, size, hs, blocks = struct.unpack_from('<HHIHH', data, 4)
    if (bom, version, size, hs) != (0xFEFF, 0x100, len(data), 0x40):
        raise Bad(f'header {(bom, version, size, hs)}, {len(data)} bytes')
    (symbAt, symbSize, infoAt, infoSize, fatAt, fatSize, fileAt, fileSize) = struct.unpack_from('<8I', data, 0x10)
    if any(data[0x30:0x40]):
        raise Bad('reserved header bytes')
    word = lambda at: struct.unpack_from('<I', data, at)[0]
    pos = 0x40
    if blocks == 4:
        if symbAt != 0x40 or data[0x40:0x44] != b'SYMB':
            raise Bad('SYMB block')
        end = symbAt + word(symbAt + 4)
        if word(symbAt + 4) % 4 or not 0 <= word(symbAt + 4) - symbSize < 4:
            raise Bad(f'SYMB sizes {symbSize:#x}, {word(symbAt + 4):#x}')
        if settings['padSymbSizeTo4InSDATHeader'] and symbSize % 4:
            raise Bad('SYMB size should be padded')
        pos = end
    elif blocks == 3:
        if symbAt or symbSize:
            raise Bad('SYMB place without a block')
    else:
        raise Bad(f'{blocks} blocks')
    if infoAt != pos or data[infoAt:infoAt + 4] != b'INFO' or word(infoAt + 4) != infoSize:
        raise Bad(f'INFO block at {infoAt:#x}, expected {pos:#x}')
    if fatAt != infoAt + infoSize or data[fatAt:fatAt + 4] != b'FAT ' or word(fatAt + 4) != fatSize:
        raise Bad('FAT block')
    count = word(fatAt + 8)
    if fatSize != 12 + 16 * count:
        raise Bad('FAT size')
    if fileAt != fatAt + fatSize or data[fileAt:fileAt + 4] != b'FILE' or word(fileAt + 4) != fileSize or \
            word(fileAt + 8) != count:
        raise Bad('FILE block')
    if fileAt + fileSize != len(data):
        raise Bad(f'FILE block ends at {fileAt + fileSize:#x} of {len(data):#x}')
    # files
    extents, files = [], []
    pos = fileAt + 12
    for i in range(count):
        off, n, z1, z2 = struct.unpack_from('<4I', data, fatAt + 12 + 16 * i)
        if z1 or z2:
            raise Bad('FAT padding')
        if off < pos:
            raise Bad(f'file {i} at {off:#x} begins before {pos:#x}')
        if any(data[pos:off]):
            raise Bad(f'bytes before file {i} are not zero')
        if off % settings['fileAlignment']:
            raise Bad(f'file {i} at {off:#x} is not aligned')
        if i == 0 and settings['firstFileAlignment'] and off % settings['firstFileAlignment']:
            raise Bad(f'first file at {off:#x} is not aligned')
        if off + n > len(data):
            raise Bad(f'file {i} ends at {off + n:#x}, beyond the archive')
        f = data[off:off + n]
        true = trueSize(f)
        if settings['fatLengthsIncludePadding']:
            if n != true + -true % settings['fileAlignment'] or any(f[true:]):
                raise Bad(f'file {i} has {true} bytes, padded size {n}')
        elif n != true:
            raise Bad(f'file {i} has {true} bytes, allocation says {n}')
        files.append(f[:true])
        extents.append((off, n))
        pos = off + n
    if any(data[pos:]):
        raise Bad('bytes after the last file')
    if settings['padAtEnd'] and len(data) % settings['fileAlignment']:
        raise Bad('end is not padded')
    if len(data) - pos >= max(settings['fileAlignment'], settings['firstFileAlignment'] or 0, 1) and count:
        raise Bad('too much padding at the end')

    # symbols
    stringEnds = []

    def text(at):
        if at == 0:
            return None
        end = data.index(b'\0', symbAt + at)
        if end >= symbAt + word(symbAt + 4):
            raise Bad('name beyond the block')
        stringEnds.append(end + 1 - symbAt)
        return data[symbAt + at:end].decode('latin-1')

    names, subs = {}, {}
    for k, part in enumerate(PARTS):
        if blocks == 3:
            names[part] = None
            continue
        at = symbAt + word(symbAt + 8 + 4 * k)
        n = word(at)
        step = 8 if part == 'sequenceArchives' else 4
        names[part] = [text(word(at + 4 + step * i)) for i in range(n)]
        if step == 8:
            subs = {}
            for i in range(n):
                s = word(at + 8 + 8 * i)
                if s:
                    subs[i] = [text(word(symbAt + s + 4 + 4 * j)) for j in range(word(symbAt + s))]
    if stringEnds and max(stringEnds) + -max(stringEnds) % 4 != word(symbAt + 4):
        raise Bad('SYMB block does not end after its last name')

    # info
    model, ids = {}, {}
    used = [(0, 0x28)]
    fmt = {'sequences': '<HHHBBBBH', 'sequenceArchives': '<HH', 'waveArchives': '<HH', 'banks': '<HH4H',
           'sequencePlayers': '<HHI', 'streams': '<HHBBBBI'}
    for k, part in enumerate(PARTS):
        at = word(infoAt + 8 + 4 * k)
        n = word(infoAt + at)
        used.append((at, at + 4 + 4 * n))
        model[part] = []
        if names[part] is not None and len(names[part]) != n:
            raise Bad(f'{part}: {n} entries, {len(names[part])} names')
        for i in range(n):
            nm = names[part][i] if names[part] is not None else None
            e = word(infoAt + at + 4 + 4 * i)
            if e == 0:
                model[part].append((nm, None))
                continue
            p = infoAt + e
            if part == 'groups':
                c = word(p)
                size = 4 + 8 * c
                entry = []
                for j in range(c):
                    t, o, z, gid = struct.unpack_from('<BHBI', data, p + 4 + 8 * j)
                    if z:
                        raise Bad('group padding')
                    entry.append((t, o, gid))
                entry = tuple(entry)
            elif part == 'streamPlayers':
                c = data[p]
                size = 24
                entry = tuple(data[p + 1:p + 1 + c])
                if data[p + 1 + c:p + 17] != b'\xff' * (16 - c) or any(data[p + 17:p + 24]):
                    raise Bad('stream player record')
            else:
                size = struct.calcsize(fmt[part])
                v = struct.unpack_from(fmt[part], data, p)
                if part == 'sequencePlayers':
                    entry = (v[0], frozenset(c for c in range(16) if v[1] >> c & 1), v[2])
                else:
                    if v[0] >= count:
                        raise Bad(f'{part} {i}: file {v[0]} of {count}')
                    ids[part, i] = v[0]
                    f = files[v[0]]
                    if part in ('sequences', 'streams'):
                        if v[-1]:
                            raise Bad('record padding')
                        entry = (f,) + v[1:-1]
                    elif part == 'banks':
                        entry = (f, v[1], tuple(None if x == 0xFFFF else x for x in v[2:]))
                    elif part == 'waveArchives':
                        entry = (f, v[1])
                    else:
                        inArchive = word_(f, 0x1C)
                        entry = (f, v[1], tuple(subs.get(i, [None] * inArchive)))
            used.append((e, e + size))
            model[part].append((nm, entry))
    used.sort()
    for (a, b), (c, d) in zip(used, used[1:]):
        if c < b:
            raise Bad(f'INFO records overlap at {c:#x}')
    if used[-1][1] > infoSize:
        raise Bad('INFO record beyond the block')
    if set(ids.values()) != set(range(count)):
        raise Bad('stored files that nothing refers to')
    return model, ids, extents


def word_(f, at):
    return struct.unpack_from('<I', f, at)[0]
