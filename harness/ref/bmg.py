"""
Independent BMG reader and writers. A model is a dict with
  messages: [(info bytes, [str or (type, data)], isNull)]
  instructions: [8 bytes], labels: [(bmgID, index)], scripts: [(id, index)]
  id, encoding, endian ('<' or '>'), unk: (a, b, c)
"""
from ref.fnt import Bad

CODES = {'cp1252': 1, 'utf-16': 2, 'shift-jis': 3, 'utf-8': 4}


def codec(m):
    if m['encoding'] == 'utf-16':
        return 'utf-16-le' if m['endian'] == '<' else 'utf-16-be'
    return m['encoding']


def order(m):
    return 'little' if m['endian'] == '<' else 'big'


def messageBytes(parts, enc):
    out = bytearray()
    esc = '\x1a'.encode(enc)
    for p in parts:
        if isinstance(p, str):
            out += p.encode(enc)
        else:
            out += esc + bytes([len(esc) + 2 + len(p[1]), p[0]]) + p[1]
    return bytes(out + '\0'.encode(enc))


def normal(parts):
    """Adjacent strings become one, empty ones disappear."""
    out = []
    for p in parts:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    return out


def section(magic, body, o, declared=None):
    return magic + (declared if declared is not None else len(body) + 8).to_bytes(4, o) + body


def pad32(b, extra):
    return b + bytes(-(len(b) + extra) % 32)


def sections(m, rng=None):
    """Section bodies; with rng, the text is placed in another order, with gaps and shared strings."""
    o, enc = order(m), codec(m)
    null = '\0'.encode(enc)
    dat = bytearray(null)
    offs = [0] * len(m['messages'])
    seq = list(range(len(offs)))
    if rng is not None and rng.random() < 0.6:
        rng.shuffle(seq)
    known = {}
    for i in seq:
        info, parts, isNull = m['messages'][i]
        if isNull:
            continue
        b = messageBytes(parts, enc)
        if rng is not None:
            if b in known and rng.random() < 0.7:
                offs[i] = known[b]
                continue
            dat += null * rng.choice([0, 0, 1])
        offs[i] = known[b] = len(dat)
        dat += b
    size = 4 + (len(m['messages'][0][0]) if m['messages'] else 0)
    inf = bytearray(len(offs).to_bytes(2, o) + size.to_bytes(2, o) + m['id'].to_bytes(4, o))
    for (info, _, _), at in zip(m['messages'], offs):
        inf += at.to_bytes(4, o) + info
    out = [(b'INF1', pad32(bytes(inf), 8), None), (b'DAT1', pad32(bytes(dat), 8), None)]
    if m['instructions'] or m['labels']:
        ins = list(m['instructions'])
        ins += [bytes(8)] * (len(ins) % 2)
        lab = list(m['labels'])
        lab += [(0, 0)] * (-len(lab) % 8)
        b = len(ins).to_bytes(2, o) + len(lab).to_bytes(2, o) + bytes(4) + b''.join(ins)
        b += b''.join(i.to_bytes(2, o, signed=True) for _, i in lab)
        b += b''.join(k.to_bytes(1, o, signed=True) for k, _ in lab)
        out.append((b'FLW1', pad32(b, 8), None))
    if m['scripts']:
        b = len(m['scripts']).to_bytes(2, o) + b'\x08'.rjust(2, b'\0') if o == 'big' else \
            len(m['scripts']).to_bytes(2, o) + b'\x08\0'
        b += bytes(4)
        for sid, idx in m['scripts']:
            b += sid.to_bytes(4, o) + idx.to_bytes(2, o) + bytes(2)
        out.append((b'FLI1', b, len(b) + 8 + (-(len(b) + 8) % 32)))
    return out


def header(m, total, count):
    o = order(m)
    h = b'MESGbmg1' + total.to_bytes(4, o) + count.to_bytes(4, o) + bytes([CODES[m['encoding']]])
    h += b''.join(u.to_bytes(4, o) for u in m['unk'])
    return h + bytes(3)


def build(m):
    secs = sections(m)
    body = b''.join(section(a, b, order(m), d) for a, b, d in secs)
    total = 0x20 + len(body)
    return header(m, total + -total % 32, len(secs)) + body


def buildForeign(m, rng):
    secs = [(a, pad32(b, 8), None) for a, b, _ in sections(m, rng)]
    if rng.random() < 0.5:
        rng.shuffle(secs)
    body = b''.join(section(a, b, order(m)) for a, b, _ in secs)
    return header(m, 0x20 + len(body), len(secs)) + body


def parse(data):
    """Strict reader."""
    if data[:8] != b'MESGbmg1':
        raise Bad('magic')
    m = {}
    count = data[12:16]
    if count[1:] == b'\0\0\0':
        m['endian'] = '<'
    elif count[:3] == b'\0\0\0':
        m['endian'] = '>'
    else:
        raise Bad('section count')
    o = order(m)

    def num(off, size, signed=False):
        if off + size > len(data):
            raise Bad(f'field at {off:#x} outside the file')
        return int.from_bytes(data[off:off + size], o, signed=signed)

    total = num(8, 4)
    if total % 32 or not 0 <= total - len(data) < 32:
        raise Bad(f'header says {total} bytes, file has {len(data)}')
    names = {v: k for k, v in CODES.items()}
    if data[16] not in names:
        raise Bad(f'encoding {data[16]}')
    m['encoding'] = names[data[16]]
    m['unk'] = tuple(num(17 + 4 * i, 4) for i in range(3))
    if any(data[29:32]):
        raise Bad('header padding')
    enc = codec(m)
    pos = 0x20
    secs = {}
    order_ = []
    for i in range(num(12, 4)):
        magic, size = bytes(data[pos:pos + 4]), num(pos + 4, 4)
        if pos % 32 or size % 32:
            raise Bad(f'section {magic} at {pos:#x}, size {size:#x}: not aligned')
        if magic in secs:
            raise Bad('section repeated')
        if pos + size > total:
            raise Bad(f'section {magic} runs past the end')
        secs[magic] = (pos, size)
        order_.append(magic)
        pos += size
    if pos != total:
        raise Bad(f'sections end at {pos:#x}, header says {total:#x}')
    for need in (b'INF1', b'DAT1'):
        if need not in secs:
            raise Bad(f'no {need} section')
    for magic in order_[:-1] if order_[-1] == b'FLI1' else order_:
        if sum(secs[magic]) > len(data):
            raise Bad(f'{magic} truncated')
    m['sections'] = order_
    inf, infSize = secs[b'INF1']
    n, size = num(inf + 8, 2), num(inf + 10, 2)
    m['id'] = num(inf + 12, 4)
    if size < 4 or 16 + n * size > infSize or infSize - (16 + n * size) >= 32:
        raise Bad(f'{n} entries of {size} bytes in a section of {infSize}')
    if any(data[inf + 16 + n * size:inf + infSize]):
        raise Bad('INF1 padding')
    dat, datSize = secs[b'DAT1']
    m['messages'] = []
    null, esc = '\0'.encode(enc), '\x1a'.encode(enc)
    w = len(null)
    used = w
    if data[dat + 8:dat + 8 + w] != null:
        raise Bad('text does not start with a null character')
    for i in range(n):
        at = inf + 16 + i * size
        off = num(at, 4)
        info = bytes(data[at + 4:at + size])
        if off == 0:
            m['messages'].append((info, [], True))
            continue
        parts = []
        p = dat + 8 + off
        text = bytearray()
        while True:
            if p + w > dat + datSize:
                raise Bad(f'message {i} runs past the text section')
            unit = bytes(data[p:p + w])
            if unit == null:
                p += w
                break
            if unit == esc:
                if text:
                    parts.append(text.decode(enc))
                    text = bytearray()
                k = data[p + w]
                parts.append((data[p + w + 1], bytes(data[p + w + 2:p + k])))
                if k < w + 2:
                    raise Bad(f'message {i}: escape length {k}')
                p += k
            else:
                text += unit
                p += w
        if text:
            parts.append(text.decode(enc))
        m['messages'].append((info, parts, False))
        used = max(used, p - dat - 8)
    if any(data[dat + 8 + used:dat + datSize]) or datSize - 8 - used >= 32:
        raise Bad('text padding')
    m['instructions'], m['labels'], m['scripts'] = [], [], []
    if b'FLW1' in secs:
        a, s = secs[b'FLW1']
        ni, nl = num(a + 8, 2), num(a + 10, 2)
        if ni % 2 or nl % 8 or 16 + 8 * ni + 3 * nl > s:
            raise Bad(f'{ni} instructions, {nl} labels in {s} bytes')
        m['instructions'] = [bytes(data[a + 16 + 8 * i:a + 24 + 8 * i]) for i in range(ni)]
        b = a + 16 + 8 * ni
        m['labels'] = [(num(b + 2 * nl + i, 1, True), num(b + 2 * i, 2, True)) for i in range(nl)]
    if b'FLI1' in secs:
        a, s = secs[b'FLI1']
        k = num(a + 8, 2)
        if num(a + 10, 2) != 8 or 16 + 8 * k > s:
            raise Bad('FLI1 header')
        m['scripts'] = [(num(a + 16 + 8 * i, 4), num(a + 20 + 8 * i, 2)) for i in range(k)]
    return m
