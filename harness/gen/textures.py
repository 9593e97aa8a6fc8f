import struct

from ndspy import color, model, texture
from ref import tex


def name(rng, taken):
    while True:
        n = rng.choice([rng.randrange(0, 4), rng.randrange(17), 16])
        if rng.random() < 0.7:
            s = ''.join(rng.choice('abcXYZ_0189') for _ in range(n))
        else:
            s = ''.join(chr(rng.randrange(1, 256)) for _ in range(n))
            if n > 2 and rng.random() < 0.3:
                s = s[0] + '\0' + s[2:]
        if taken is None or s not in taken:
            if taken is not None:
                taken.add(s)
            return s


def w16(rng):
    return rng.choice([0, 1, 65535, rng.randrange(65536)])


def w32(rng):
    return rng.choice([0, 1, 0xFFFFFFFF, rng.randrange(2 ** 32)])


def tex_(rng, taken, big=False):
    fmt = rng.choice([1, 2, 3, 4, 5, 6, 7, 5, 0] if not big else [1, 2, 3, 4, 5, 6, 7])
    top = 6 if big else 3
    params = rng.randrange(16) | rng.randrange(top) << 4 | rng.randrange(top) << 7 | fmt << 10 | rng.randrange(8) << 13
    if rng.random() < 0.03:
        params = params & ~0x3F0 | rng.choice([5, 6, 7]) << rng.choice([4, 7])
    a, b = tex.dataSizes(params)
    return (name(rng, taken), w16(rng), w16(rng), params, w32(rng), rng.randbytes(a), rng.randbytes(b))


def palette(rng, taken, count=None):
    n = rng.choice([4, 8, 16, 32, 256, 12]) if count is None else count
    return (name(rng, taken), w16(rng), w16(rng), w16(rng), tuple(rng.randrange(65536) for _ in range(n)))


def file(rng, size=None):
    large = size == 'large'
    if large:
        size = None
    n = rng.choice([0, 1, 2, 3, 8]) if size is None else size
    taken = set() if rng.random() < 0.7 else None
    texs = [tex_(rng, taken) for _ in range(n)]
    if large:
        # offsets are in units of 8 bytes and have 16 bits
        texs[:0] = [tex_(rng, taken, True) for _ in range(6)]
        params = rng.choice([6 << 4 | 6 << 7 | 4 << 10, 7 << 4 | 7 << 7 | 5 << 10, 5 << 4 | 6 << 7 | 7 << 10])
        texs.insert(1, texs[0][:3] + (params, 0) + tuple(rng.randbytes(n) for n in tex.dataSizes(params)))
        texs[1] = (name(rng, taken),) + texs[1][1:]
    for i in range(1, len(texs)):
        if rng.random() < 0.1:
            texs[i] = (texs[i][0],) + texs[i - 1][1:]
    while large and max(sum(len(t[5]) for t in texs if (t[3] >> 10 & 7 == 5) == c) for c in (False, True)) > 0x7F000:
        texs.pop(0)
    n = rng.choice([0, 1, 2, 3, 8]) if size is None else size
    taken = set() if rng.random() < 0.7 else None
    pals = [palette(rng, taken) for _ in range(n)]
    if large:
        pals.insert(0, palette(rng, taken, rng.choice([0x4000, 0x8400, 0x20000])))
    for i in range(1, len(pals)):
        if rng.random() < 0.2:
            pals[i] = (pals[i][0],) + pals[i - 1][1:]
        if rng.random() < 0.1:
            pals[i] = pals[i - 1][:4] + pals[i][4:]
    while large and sum(2 * len(p[4]) for p in pals) > 0x7F000:
        pals.pop(0)
    return dict(unks=tuple(w32(rng) for _ in range(5)) + (w16(rng),), textures=texs, palettes=pals)


def toTexture(rng, t):
    _, a, b, params, unk04, d1, d2 = t
    if rng.random() < 0.5:
        return texture.Texture(a, b, params, unk04, d1, d2)
    w, h = tex.size(params)
    return texture.Texture.fromFlags(a, b, *(bool(params >> k & 1) for k in range(4)), w, h,
        texture.TextureFormat(params >> 10 & 7), bool(params & 0x2000),
        texture.TextureCoordinatesTransformationMode(params >> 14), unk04, d1, d2)


def colors(values):
    return [(v & 31, v >> 5 & 31, v >> 10 & 31, v >> 15) for v in values]


def toPalette(rng, p):
    _, a, b, c, values = p
    if rng.random() < 0.5:
        return texture.Palette(a, b, c, struct.pack(f'<{len(values)}H', *values))
    return texture.Palette.fromColors(a, b, c, colors(values))


def lists(rng, m):
    return [(t[0], toTexture(rng, t)) for t in m['textures']], [(p[0], toPalette(rng, p)) for p in m['palettes']]


def toNsbtx(rng, m):
    return texture.NSBTX.fromTexturesAndPalettes(*m['unks'], *lists(rng, m))


def describe(unks, textures, palettes):
    """Model of what a loaded object shows"""
    ts, ps = [], []
    for n, t in textures:
        params = (t.repeatS * 1 | t.repeatT * 2 | t.mirrorS * 4 | t.mirrorT * 8 | (t.width.bit_length() - 4) << 4 |
                  (t.height.bit_length() - 4) << 7 | int(t.format) << 10 | t.isColor0Transparent * 0x2000 |
                  int(t.coordsTransformationMode) << 14)
        if tuple(t.size) != (t.width, t.height):
            params = 'size differs'
        ts.append((n, t.unk00, t.unk02, params, t.unk04, bytes(t.data1), bytes(t.data2)))
    for n, p in palettes:
        ps.append((n, p.unk00, p.unk02, p.unkHeader02, tuple(r | g << 5 | b << 10 | a << 15 for r, g, b, a in
                                                           p.colors)))
    return dict(unks=tuple(unks), textures=ts, palettes=ps)


def ofNsbtx(o):
    return describe((o.unk08, o.unk10, o.unk18, o.unk20, o.unk2C, o.unk32), o.textures, o.palettes)


def ofNsbmd(o):
    return describe((o.texUnk08, o.texUnk10, o.texUnk18, o.texUnk20, o.texUnk2C, o.texUnk32), o.textures, o.palettes)


PARAMS = {0: 0, 0x10: 1, 0x11: 0, 0x12: 1, 0x13: 1, 0x14: 1, 0x15: 0, 0x16: 16, 0x17: 12, 0x18: 16, 0x19: 12, 0x1A: 9,
          0x1B: 3, 0x1C: 3, 0x20: 1, 0x21: 1, 0x22: 1, 0x23: 2, 0x24: 1, 0x25: 1, 0x26: 1, 0x27: 1, 0x28: 1, 0x29: 1,
          0x2A: 1, 0x2B: 1, 0x30: 1, 0x31: 1, 0x32: 1, 0x33: 1, 0x34: 32, 0x40: 1, 0x41: 0, 0x50: 1, 0x60: 1, 0x70: 3,
          0x71: 2, 0x72: 1}


def displayList(rng):
    out = b''
    for _ in range(rng.randrange(4)):
        ids = [rng.choice(list(PARAMS)) for _ in range(4)]
        out += bytes(ids) + rng.randbytes(4 * sum(PARAMS[i] for i in ids))
    return out


def mdl0(rng, makeList=displayList):
    """A model block: (bytes, [names])"""
    n = rng.choice([0, 1, 1, 2, 3])
    names = [name(rng, None) for _ in range(n)]
    head = b'MDL0' + bytes(4) + bytes([0, n]) + tex.u16(rng.randrange(65536)) + tex.u16(8, 12 + 4 * n) + tex.u32(0x17F)
    head += b''.join(tex.u16(w16(rng), w16(rng)) for _ in range(n)) + tex.u16(4, 4 + 4 * n)
    offsAt = len(head)
    head += bytes(4 * n) + b''.join(s.encode('latin-1').ljust(16, b'\0') for s in names)
    out = bytearray(head)

    def inf(count, payloads):
        return tex.info([(name(rng, None), w16(rng), w16(rng), p) for p in payloads], 4)

    for i in range(n):
        start = len(out)
        struct.pack_into('<I', out, offsAt + 4 * i, start)
        body = bytearray(0x40)
        body[0x14:0x40] = rng.randbytes(0x2C)
        bones = len(body)
        body += rng.randbytes(rng.randrange(0, 20))
        mats = len(body)
        k = rng.randrange(3)
        body += rng.randbytes(4) + inf(k, [tex.u32(rng.randrange(1000)) for _ in range(k)])
        for k in (rng.randrange(3), rng.randrange(3)):
            body += inf(k, [rng.randbytes(4) for _ in range(k)])
        polys = len(body)
        k = rng.randrange(3)
        lists_ = [makeList(rng) for _ in range(k)]
        at = len(inf(k, [bytes(4)] * k))
        offs, tail = [], b''
        for d in lists_:
            offs.append(tex.u32(at + len(tail)))
            tail += rng.randbytes(8) + tex.u32(0x10, len(d)) + d
        body += inf(k, offs) + tail
        end = len(body)
        body += rng.randbytes(rng.randrange(0, 20))
        struct.pack_into('<5I', body, 0, len(body), bones, mats, polys, end)
        out += body
    struct.pack_into('<I', out, 4, len(out))
    return bytes(out), names
