"""
Independent NARC reader and writers.
"""
from ref import fnt
from ref.fnt import Bad


def u16(b, o):
    return int.from_bytes(b[o:o + 2], 'little')


def u32(b, o):
    if o + 4 > len(b):
        raise Bad(f'field at {o:#x} is outside the file')
    return int.from_bytes(b[o:o + 4], 'little')


def parse(data, strict=True):
    """-> dict(files, tree, endianness); with strict, check everything the format promises."""
    if len(data) < 0x10:
        raise Bad('no header')
    if data[:4] != b'NARC':
        raise Bad('magic')
    bom = data[4:6]
    if bom == b'\xff\xfe':
        endian, version = '<', u16(data, 6)
    elif bom == b'\xfe\xff':
        endian, version = '>', int.from_bytes(data[6:8], 'big')
    else:
        raise Bad(f'byte-order mark {bom.hex()}')
    if version != 1:
        raise Bad(f'version {version}')
    if u32(data, 8) != len(data):
        raise Bad(f'header says {u32(data, 8)} bytes, file has {len(data)}')
    if u16(data, 12) != 0x10:
        raise Bad(f'header size {u16(data, 12)}')
    if u16(data, 14) != 3:
        raise Bad(f'block count {u16(data, 14)}')
    pos = 0x10
    blocks = []
    for magic in (b'BTAF', b'BTNF', b'GMIF'):
        if data[pos:pos + 4] != magic:
            raise Bad(f'no {magic} block at {pos:#x}')
        if pos % 4:
            raise Bad(f'{magic} block not aligned ({pos:#x})')
        size = u32(data, pos + 4)
        if size < 8 or pos + size > len(data):
            raise Bad(f'{magic} block size {size}')
        blocks.append((pos, size))
        pos += size
    if pos != len(data):
        raise Bad(f'blocks end at {pos:#x}, file at {len(data):#x}')
    (fat, fatSize), (nam, namSize), (img, imgSize) = blocks
    count = u32(data, fat + 8)
    if fatSize != 12 + 8 * count:
        raise Bad(f'allocation block of {fatSize} bytes for {count} files')
    files, spans = [], []
    for i in range(count):
        a, b = u32(data, fat + 12 + 8 * i), u32(data, fat + 16 + 8 * i)
        if not a <= b <= imgSize - 8:
            raise Bad(f'file {i} range {a:#x}-{b:#x} outside the {imgSize:#x}-byte data block')
        if strict and a % 4:
            raise Bad(f'file {i} not aligned ({a:#x})')
        files.append(bytes(data[img + 8 + a:img + 8 + b]))
        spans.append((a, b))
    if strict:
        spans = sorted(s for s in spans if s[0] != s[1])
        for (a, b), (c, d) in zip(spans, spans[1:]):
            if b > c:
                raise Bad('files overlap')
    tree, used = fnt.parse(bytes(data[nam + 8:nam + namSize]), strict)
    if strict and not 0 <= namSize - 8 - used < 4:
        raise Bad(f'name block has {namSize - 8} bytes, {used} used')
    return {'files': files, 'tree': tree, 'endianness': endian}


def header(total, endian):
    bom = b'\xff\xfe\x01\x00' if endian == '<' else b'\xfe\xff\x00\x01'
    return b'NARC' + bom + total.to_bytes(4, 'little') + b'\x10\x00\x03\x00'


def block(magic, body):
    return magic + (len(body) + 8).to_bytes(4, 'little') + body


def build(files, tree, endian='<'):
    """Canonical archive."""
    fat = bytearray(len(files).to_bytes(4, 'little'))
    img = bytearray()
    for f in files:
        fat += len(img).to_bytes(4, 'little') + (len(img) + len(f)).to_bytes(4, 'little')
        img += f
        img += bytes(-len(img) % 4)
    names = fnt.build(tree)
    names += b'\xff' * (-len(names) % 4)
    body = block(b'BTAF', bytes(fat)) + block(b'BTNF', names) + block(b'GMIF', bytes(img))
    return header(len(body) + 16, endian) + body


def buildForeign(files, tree, endian, rng):
    """Same contents; data placed in any order with any padding, identical files possibly stored once."""
    order = list(range(len(files)))
    if rng.random() < 0.6:
        rng.shuffle(order)
    align = rng.choice([1, 4, 16, 32])
    fill = rng.choice([b'\0', b'\xff'])
    img = bytearray(fill * rng.choice([0, 0, 3, 8]))
    share = rng.random() < 0.5
    known = {}
    spans = {}
    for i in order:
        f = files[i]
        if share and f in known:
            spans[i] = known[f]
            continue
        img += fill * (-len(img) % align)
        spans[i] = known[f] = (len(img), len(img) + len(f))
        img += f
    img += fill * rng.choice([-len(img) % 4, rng.randrange(0, 40)])
    fat = bytearray(len(files).to_bytes(4, 'little'))
    for i in range(len(files)):
        fat += spans[i][0].to_bytes(4, 'little') + spans[i][1].to_bytes(4, 'little')
    fat += rng.choice([b'', b'', b'\0' * 4])
    names = fnt.buildForeign(tree, rng)
    names += rng.choice([b'\xff', b'\0']) * rng.choice([-len(names) % 4, rng.randrange(0, 20)])
    body = block(b'BTAF', bytes(fat)) + block(b'BTNF', names) + block(b'GMIF', bytes(img))
    return header(len(body) + 16, endian) + body
