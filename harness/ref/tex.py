"""
Independent builder, reader and renderer of TEX0 blocks, NSBTX and NSBMD files.

Model: dict(unks=(u08, u10, u18, u20, u2C, u32),
            textures=[(name, unk00, unk02, params, unk04, data1, data2)],
            palettes=[(name, unk00, unk02, unkHeader02, (16-bit colours))])
"""
import struct

from ref.sndfile import Bad

BITS = [0, 8, 2, 4, 8, 2, 8, 16]


def u16(*x):
    return struct.pack(f'<{len(x)}H', *x)


def u32(*x):
    return struct.pack(f'<{len(x)}I', *x)


def size(params):
    return 8 << (params >> 4 & 7), 8 << (params >> 7 & 7)


def dataSizes(params):
    w, h = size(params)
    f = params >> 10 & 7
    return w * h * BITS[f] // 8, (w * h // 8 if f == 5 else 0)


def info(entries, n):
    """entries: (name, a, b, payload)"""
    c = len(entries)
    body = u16(8, 12 + 4 * c) + u32(0x17F) + b''.join(u16(e[1], e[2]) for e in entries)
    body += u16(n, 4 + n * c) + b''.join(e[3] for e in entries)
    body += b''.join(e[0].encode('latin-1') + bytes(16 - len(e[0])) for e in entries)
    return bytes([0, c]) + u16(len(body) + 4) + body


def tex0(m, rng=None):
    plain, c1, c2, pal = bytearray(), bytearray(), bytearray(), bytearray()
    texEntries = [None] * len(m['textures'])
    order = list(range(len(m['textures'])))
    if rng and rng.random() < 0.5:
        rng.shuffle(order)
    for i in order:
        name, a, b, params, unk04, d1, d2 = m['textures'][i]
        where = c1 if params >> 10 & 7 == 5 else plain
        if rng and rng.random() < 0.3:
            k = rng.randrange(1, 3)
            where += rng.randbytes(16 * k)
            if where is c1:
                c2 += rng.randbytes(8 * k)
        off = len(where)
        if rng and rng.random() < 0.4:
            # share the data of an earlier texture
            at = bytes(where).find(d1)
            if d1 and at >= 0 and at % 16 == 0 and (where is plain or c2[at // 2:at // 2 + len(d2)] == d2):
                texEntries[i] = (name, a, b, u16(at >> 3, params) + u32(unk04))
                continue
        where += d1
        if where is c1:
            c2 += d2
        texEntries[i] = (name, a, b, u16(off >> 3, params) + u32(unk04))
    palEntries = [None] * len(m['palettes'])
    order = list(range(len(m['palettes'])))
    if rng and rng.random() < 0.5:
        rng.shuffle(order)
    seen = {}
    for i in order:
        name, a, b, c, colors = m['palettes'][i]
        d = u16(*colors)
        if rng and d in seen and rng.random() < 0.7:
            off = seen[d]
        else:
            off = len(pal)
            seen[d] = off
            pal += d
        palEntries[i] = (name, a, b, u16(off >> 3, c))
    head = bytearray(0x3C)
    out = bytearray(head)
    texAt = len(out)
    out += info(texEntries, 8)
    palAt = len(out)
    out += info(palEntries, 4)
    parts = [('plain', plain), ('c1', c1), ('c2', c2), ('pal', pal)]
    if rng:
        rng.shuffle(parts)
    at = {}
    for k, d in parts:
        if rng and rng.random() < 0.3:
            out += rng.randbytes(8)
        at[k] = len(out)
        out += d
    u08, u10, u18, u20, u2C, u32_ = m['unks']
    out[:0x3C] = (b'TEX0' + u32(len(out), u08) + u16(len(plain) >> 3, texAt) + u32(u10, at['plain'], u18) +
                  u16(len(c1) >> 3, texAt) + u32(u20, at['c1'], at['c2'], u2C) + u16(len(pal) >> 3, u32_) +
                  u32(palAt, at['pal']))
    return bytes(out)


def nsbtx(m, rng=None):
    t = tex0(m, rng)
    return b'BTX0\xff\xfe' + u16(1) + u32(0x14 + len(t)) + u16(0x10, 1) + u32(0x14) + t


def nsbmd(mdl0, m, rng=None):
    t = tex0(m, rng)
    blocks = [mdl0, t]
    offs = [0x18, 0x18 + len(mdl0)]
    if rng and rng.random() < 0.3:
        blocks = [t, mdl0]
        offs = [0x18 + len(t), 0x18]
        if rng.random() < 0.5:
            offs.reverse()
    return b'BMD0\xff\xfe' + u16(2) + u32(0x18 + len(mdl0) + len(t)) + u16(0x10, 2) + u32(*offs) + b''.join(blocks)


def need(ok, what):
    if not ok:
        raise Bad(what)


def readInfo(d, at, n, what):
    zero, count, total = struct.unpack_from('<BBH', d, at)
    need(zero == 0, f'{what}: first byte')
    need(total == 4 + 8 + 4 * count + 4 + n * count + 16 * count, f'{what}: size {total} for {count} entries')
    need(struct.unpack_from('<HHI', d, at + 4) == (8, 12 + 4 * count, 0x17F), f'{what}: header')
    p = at + 12 + 4 * count
    need(struct.unpack_from('<HH', d, p) == (n, 4 + n * count), f'{what}: entries header')
    out = []
    for i in range(count):
        a, b = struct.unpack_from('<HH', d, at + 12 + 4 * i)
        e = d[p + 4 + n * i:p + 4 + n * i + n]
        q = p + 4 + n * count + 16 * i
        out.append((d[q:q + 16].rstrip(b'\0').decode('latin-1'), a, b, e))
    return out, at + total


def readTex0(d):
    """Strict: data of the textures and palettes lie one after another, in order, filling their regions."""
    need(d[:4] == b'TEX0' and struct.unpack_from('<I', d, 4)[0] == len(d), 'TEX0 header')
    u08, n1, texAt, u10, off1, u18, n2, texAt2, u20, offC1, offC2, u2C, nPal, u32_, palAt, offPal = \
        struct.unpack_from('<IHHIIIHHIIIIHHII', d, 8)
    need(texAt == texAt2 == 0x3C, f'texture list at {texAt:#x}')
    texs, end = readInfo(d, texAt, 8, 'textures')
    need(palAt == end, f'palette list at {palAt:#x}, expected {end:#x}')
    pals, end = readInfo(d, palAt, 4, 'palettes')
    need(off1 == end, 'texture data place')
    need(offC1 == off1 + 8 * n1, 'texel data place')
    need(offC2 == offC1 + 8 * n2, 'texel palette data place')
    need(offPal == offC2 + 4 * n2, 'palette data place')
    need(offPal + 8 * nPal == len(d), 'end of palette data')
    textures, at, atC = [], 0, 0
    for name, a, b, e in texs:
        off, params, unk04 = struct.unpack('<HHI', e)
        s1, s2 = dataSizes(params)
        if params >> 10 & 7 == 5:
            need(off * 8 == atC, f'place of {name!r}')
            textures.append((name, a, b, params, unk04, d[offC1 + atC:offC1 + atC + s1],
                             d[offC2 + atC // 2:offC2 + atC // 2 + s2]))
            atC += s1
        else:
            need(off * 8 == at, f'place of {name!r}')
            textures.append((name, a, b, params, unk04, d[off1 + at:off1 + at + s1], b''))
            at += s1
    need(at == 8 * n1 and atC == 8 * n2, 'texture data sizes')
    starts = [struct.unpack_from('<H', e[3])[0] for e in pals] + [nPal]
    need(starts == sorted(starts) and starts[0] == 0, 'palette places')
    palettes = []
    for i, (name, a, b, e) in enumerate(pals):
        k = struct.unpack('<HH', e)[1]
        raw = d[offPal + 8 * starts[i]:offPal + 8 * starts[i + 1]]
        palettes.append((name, a, b, k, struct.unpack(f'<{len(raw) // 2}H', raw)))
    return dict(unks=(u08, u10, u18, u20, u2C, u32_), textures=textures, palettes=palettes)


def readNsbtx(d):
    need(d[:4] == b'BTX0', 'magic')
    need(struct.unpack_from('<HHIHHI', d, 4) == (0xFEFF, 1, len(d), 0x10, 1, 0x14), 'NSBTX header')
    return readTex0(d[0x14:])


def readNsbmd(d):
    need(d[:4] == b'BMD0', 'magic')
    *head, o1, o2 = struct.unpack_from('<HHIHHII', d, 4)
    need(head == [0xFEFF, 2, len(d), 0x10, 2], 'NSBMD header')
    need(o1 == 0x18, 'first block')
    need(struct.unpack_from('<I', d, o1 + 4)[0] == o2 - o1, 'first block size')
    return d[o1:o2], readTex0(d[o2:])


def rgb(c):
    return (c & 31, c >> 5 & 31, c >> 10 & 31)


def mix(p, q, a, b):
    """Weighted mean of two colours, channel by channel."""
    return tuple((x * a + y * b) // (a + b) for x, y in zip(rgb(p), rgb(q)))


def pixel(fmt, d1, d2, w, x, y, pal, clear0):
    """(r5, g5, b5, a5) of one pixel, from the hardware's definition"""
    i = y * w + x
    if fmt == 1:
        v = d1[i]
        return rgb(pal[v % 32]) + ([0, 4, 9, 13, 18, 22, 27, 31][v // 32],)
    if fmt == 6:
        v = d1[i]
        return rgb(pal[v % 8]) + (v // 8,)
    if fmt == 7:
        v = d1[2 * i] + 256 * d1[2 * i + 1]
        return rgb(v) + (31 * (v >> 15),)
    if fmt in (2, 3, 4):
        bits = BITS[fmt]
        per = 8 // bits
        v = d1[i // per] >> (bits * (i % per)) & ((1 << bits) - 1)
        return rgb(pal[v]) + (0 if v == 0 and clear0 else 31,)
    block = (y // 4) * (w // 4) + x // 4
    v = d1[4 * block + y % 4] >> (2 * (x % 4)) & 3
    p = d2[2 * block] + 256 * d2[2 * block + 1]
    base, mode = 2 * (p % 16384), p // 16384
    if v < 2:
        return rgb(pal[base + v]) + (31,)
    if mode == 0:
        return rgb(pal[base + 2]) + (31,) if v == 2 else (0, 0, 0, 0)
    if mode == 1:
        return mix(pal[base], pal[base + 1], 1, 1) + (31,) if v == 2 else (0, 0, 0, 0)
    if mode == 2:
        return rgb(pal[base + v]) + (31,)
    return (mix(pal[base], pal[base + 1], 5, 3) if v == 2 else mix(pal[base], pal[base + 1], 3, 5)) + (31,)
