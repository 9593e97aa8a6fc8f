"""
Independent ROM reader and writers. A model is a dict:
  one entry per header field in FIELDS, plus pad200, arm9, arm9PostData,
  arm7, arm9OverlayTable, arm7OverlayTable, iconBanner, debugRom,
  rsaSignature (bytes), tree (see ref.fnt), files (list), order (list).
"""
from ref import fnt
from ref.fnt import Bad

# (attribute, offset, size); size in bytes, raw bytes if negative
FIELDS = [
    ('name', 0x00, -12), ('idCode', 0x0C, -4), ('developerCode', 0x10, -2),
    ('unitCode', 0x12, 1), ('encryptionSeedSelect', 0x13, 1), ('deviceCapacity', 0x14, 1),
    ('pad015', 0x15, 1), ('pad016', 0x16, 1), ('pad017', 0x17, 1), ('pad018', 0x18, 1),
    ('pad019', 0x19, 1), ('pad01A', 0x1A, 1), ('pad01B', 0x1B, 1), ('pad01C', 0x1C, 1),
    ('region', 0x1D, 1), ('version', 0x1E, 1), ('autostart', 0x1F, 1),
    ('arm9EntryAddress', 0x24, 4), ('arm9RamAddress', 0x28, 4),
    ('arm7EntryAddress', 0x34, 4), ('arm7RamAddress', 0x38, 4),
    ('normalCardControlRegisterSettings', 0x60, 4), ('secureCardControlRegisterSettings', 0x64, 4),
    ('secureAreaChecksum', 0x6C, 2), ('secureTransferDelay', 0x6E, 2),
    ('arm9CodeSettingsPointerAddress', 0x70, 4), ('arm7CodeSettingsPointerAddress', 0x74, 4),
    ('secureAreaDisable', 0x78, -8), ('pad088', 0x88, -0x38), ('nintendoLogo', 0xC0, -0x9C),
    ('debugRomAddress', 0x168, 4), ('pad16C', 0x16C, -0x94),
]
PARTS = ['pad200', 'arm9', 'arm9PostData', 'arm7', 'arm9OverlayTable', 'arm7OverlayTable', 'iconBanner',
         'debugRom', 'rsaSignature']
BANNER = {1: 0x840, 2: 0x940, 3: 0x1240, 0x103: 0x23C0}

_TABLE = []
for _i in range(256):
    _c = _i
    for _ in range(8):
        _c = (_c >> 1) ^ 0xA001 if _c & 1 else _c >> 1
    _TABLE.append(_c)


def crc16(data):
    c = 0xFFFF
    for b in data:
        c = _TABLE[(c ^ b) & 0xFF] ^ (c >> 8)
    return c


def u32(b, o):
    return int.from_bytes(b[o:o + 4], 'little')


def u16(b, o):
    return int.from_bytes(b[o:o + 2], 'little')


def put32(b, o, v):
    b[o:o + 4] = v.to_bytes(4, 'little')


def overlayFileIds(table):
    return [u32(table, i + 0x18) for i in range(0, len(table), 32)]


def readFields(data):
    out = {}
    for name, off, size in FIELDS:
        raw = bytes(data[off:off + abs(size)])
        out[name] = raw if size < 0 else int.from_bytes(raw, 'little')
    out['name'] = out['name'].rstrip(b'\0')
    return out


def parse(data):
    """Strict: everything must be where the header says, in bounds, disjoint and aligned."""
    if len(data) < 0x4000:
        raise Bad('shorter than its header area')
    m = readFields(data)
    spans = []

    def part(label, off, size, align):
        if off + size > len(data):
            raise Bad(f'{label}: {off:#x}+{size:#x} is outside the image of {len(data):#x} bytes')
        if align and off % align:
            raise Bad(f'{label} at {off:#x} is not aligned to {align:#x}')
        if size:
            spans.append((off, off + size, label))
        return bytes(data[off:off + size])

    def opt(label, off, size, align):
        if off == 0:
            if size:
                raise Bad(f'{label}: {size} bytes but no offset')
            return b''
        return part(label, off, size, align)

    if u32(data, 0x84) != 0x4000:
        raise Bad(f'header size {u32(data, 0x84):#x}')
    arm9 = u32(data, 0x20)
    part('header', 0, 0x4000, 1)
    m['pad200'] = bytes(data[0x200:arm9])
    m['arm9'] = part('arm9', arm9, u32(data, 0x2C), 0x4000)
    m['arm7'] = part('arm7', u32(data, 0x30), u32(data, 0x3C), 0x200)
    post = arm9 + u32(data, 0x2C)
    n = 0
    while data[post + n:post + n + 4] == b'\x21\x06\xc0\xde':
        n += 12
    m['arm9PostData'] = part('data after arm9', post, n, 1)
    names = part('names', u32(data, 0x40), u32(data, 0x44), 0x200)
    fat = part('allocation table', u32(data, 0x48), u32(data, 0x4C), 0x200)
    m['arm9OverlayTable'] = opt('arm9 overlay table', u32(data, 0x50), u32(data, 0x54), 0x200)
    m['arm7OverlayTable'] = opt('arm7 overlay table', u32(data, 0x58), u32(data, 0x5C), 0x200)
    icon = u32(data, 0x68)
    m['iconBanner'] = b''
    if icon:
        m['iconBanner'] = part('banner', icon, BANNER.get(u16(data, icon), 0x840), 0x200)
    m['debugRom'] = opt('debug rom', u32(data, 0x160), u32(data, 0x164), 0x200)
    if u16(data, 0x15C) != crc16(data[0xC0:0x15C]):
        raise Bad(f'logo checksum {u16(data, 0x15C):#x}')
    if u16(data, 0x15E) != crc16(data[:0x15E]):
        raise Bad(f'header checksum {u16(data, 0x15E):#x}')
    m['tree'], used = fnt.parse(names)
    if used != len(names):
        raise Bad(f'name table of {len(names)} bytes, {used} used')
    if len(fat) % 8:
        raise Bad('allocation table size')
    m['files'], starts = [], []
    for i in range(len(fat) // 8):
        a, b = u32(fat, 8 * i), u32(fat, 8 * i + 4)
        if b < a:
            raise Bad(f'file {i}: {a:#x}-{b:#x}')
        m['files'].append(part(f'file {i}', a, b - a, 0x200))
        starts.append(a)
    m['starts'] = starts
    sig = u32(data, 0x80)
    if u32(data, 0x1000) != sig:
        raise Bad(f'signature at {sig:#x} per the header, {u32(data, 0x1000):#x} per offset 0x1000')
    m['sigOffset'] = sig
    if sig > len(data):
        raise Bad(f'signature at {sig:#x} of {len(data):#x}')
    if sig % 0x20:
        raise Bad(f'signature at {sig:#x}')
    spans.sort()
    for (a, b, x), (c, d, y) in zip(spans, spans[1:]):
        if b > c:
            raise Bad(f'{x} ({a:#x}-{b:#x}) and {y} ({c:#x}-{d:#x}) overlap')
    if sig < max(b for a, b, _ in spans):
        raise Bad('signature offset inside other data')
    m['usedEnd'] = spans[-1][1]
    if len(data) % 0x400:
        raise Bad(f'image size {len(data):#x} not a multiple of 0x400')
    m['rsaSignature'] = bytes(data[sig:sig + 0x88])
    return m


def writeFields(data, m):
    for name, off, size in FIELDS:
        v = m[name]
        data[off:off + abs(size)] = v.ljust(-size, b'\0') if size < 0 else v.to_bytes(size, 'little')


def build(m):
    """The layout the library documents, written independently. Returns bytes."""
    out = bytearray(0x200) + m['pad200']
    out += bytes(-len(out) % 0x4000)

    def pad(n=0x200, fill=b'\xff'):
        nonlocal out
        out += fill * (-len(out) % n)

    where = {}
    head = {}
    for cpu, offField, lenField, tabField in (('arm9', 0x20, 0x2C, 0x50), ('arm7', 0x30, 0x3C, 0x58)):
        head[offField] = len(out)
        head[lenField] = len(m[cpu])
        out += m[cpu]
        if cpu == 'arm9':
            out += m['arm9PostData']
        pad()
        table = m[cpu + 'OverlayTable']
        head[tabField] = len(out) if table else 0
        head[tabField + 4] = len(table)
        out += table
        pad()
        for fid in overlayFileIds(table):
            where[fid] = len(out)
            out += m['files'][fid]
            pad()
    names = fnt.build(m['tree'])
    head[0x40], head[0x44] = len(out), len(names)
    out += names
    pad()
    head[0x48], head[0x4C] = len(out), 8 * len(m['files'])
    out += bytes(8 * len(m['files']))
    pad()
    head[0x68] = len(out) if m['iconBanner'] else 0
    out += m['iconBanner']
    pad()
    head[0x160], head[0x164] = (len(out) if m['debugRom'] else 0), len(m['debugRom'])
    out += m['debugRom']
    pad()
    rest = [i for i in m['order'] if i < len(m['files'])]
    for fid in rest + list(range(len(m['files']))):
        if fid not in where:
            pad()
            where[fid] = len(out)
            out += m['files'][fid]
    for i, f in enumerate(m['files']):
        put32(out, head[0x48] + 8 * i, where[i])
        put32(out, head[0x48] + 8 * i + 4, where[i] + len(f))
    pad(0x20, b'\0')
    head[0x80] = len(out)
    head[0x84] = 0x4000
    put32(out, 0x1000, len(out))
    out += m['rsaSignature']
    pad(0x400, b'\0')
    writeFields(out, m)
    for k, v in head.items():
        put32(out, k, v)
    out[0x15C:0x15E] = crc16(out[0xC0:0x15C]).to_bytes(2, 'little')
    out[0x15E:0x160] = crc16(out[:0x15E]).to_bytes(2, 'little')
    return bytes(out)


def buildForeign(m, rng):
    """
    The same contents placed anywhere, in any order, with any alignment.
    Returns (image, expected pad200 or None, signature or None).
    """
    arm9At = rng.choice([0x200, 0x4000, 0x4000, 0x8000, 0x4010])
    pad200 = (m['pad200'] + rng.randbytes(arm9At))[:arm9At - 0x200]
    out = bytearray(0x200) + pad200
    if arm9At > 0x1004:
        put32(out, 0x1000, 0)
    assert len(out) == arm9At
    out += m['arm9']
    out += m['arm9PostData']
    # something that is not arm9 post data
    out += rng.choice([b'\xff' * 4, b'\0\0\xc0\xde', b'\x21\x06\0\0', b'\xde\xc0\x06\x21', b'\x21\x06\xc0\xdf',
                       b'\0\x21\x06\xc0']) + b'\xff' * 8
    head = {0x20: arm9At, 0x2C: len(m['arm9'])}
    pieces = [('arm7', (0x30, 0x3C), m['arm7']), ('names', (0x40, 0x44), fnt.buildForeign(m['tree'], rng)),
              ('fat', (0x48, 0x4C), bytes(8 * len(m['files']))), ('ov9', (0x50, 0x54), m['arm9OverlayTable']),
              ('ov7', (0x58, 0x5C), m['arm7OverlayTable']), ('icon', (0x68, None), m['iconBanner']),
              ('debug', (0x160, 0x164), m['debugRom'])]
    share = rng.random() < 0.4
    known = {}
    pieces += [('file', i, f) for i, f in enumerate(m['files'])]
    rng.shuffle(pieces)
    align = rng.choice([1, 4, 0x20, 0x200])
    fill = rng.choice([b'\0', b'\xff'])
    where = {}
    for kind, key, body in pieces:
        if kind == 'file' and share and body in known:
            where[key] = known[body]
            continue
        out += fill * (-len(out) % align)
        at = len(out)
        out += body
        if kind == 'file':
            where[key] = known[body] = at
        else:
            head[key[0]] = at if body else 0
            if kind in ('names', 'fat'):
                head[key[0]] = at
            if key[1] is not None:
                head[key[1]] = len(body)
    for i, f in enumerate(m['files']):
        put32(out, head[0x48] + 8 * i, where[i])
        put32(out, head[0x48] + 8 * i + 4, where[i] + len(f))
    used = len(out)
    sig = None
    if arm9At > 0x1004:
        if rng.random() < 0.5:
            out += b'\0' * (-len(out) % 0x20)
            used = len(out)
            sig = rng.randbytes(0x88)
            if rng.random() < 0.5:
                put32(out, 0x1000, used)  # the real offset recorded there
                head80 = used + 0x1000
            else:
                head80 = used
            out += sig
        else:
            head80 = used
            sig = b''
    else:
        head80 = used
    writeFields(out, m)
    head[0x80] = head80
    head[0x84] = rng.choice([0x4000, 0x200])
    for k, v in head.items():
        put32(out, k, v)
    out[0x15C:0x15E] = crc16(out[0xC0:0x15C]).to_bytes(2, 'little')
    out[0x15E:0x160] = crc16(out[:0x15E]).to_bytes(2, 'little')
    return bytes(out), bytes(out[0x200:arm9At]), sig
