"""
BMG models (see ref.bmg).
"""
from ndspy import bmg
from ref import bmg as ref

_pools = {}


def pool(encoding):
    """Every character that the encoding can hold, apart from the two with a special meaning."""
    if encoding not in _pools:
        if encoding == 'utf-16':
            probe, top = 'utf-16-le', 0x110000
        else:
            probe, top = encoding, 0x110000 if encoding == 'utf-8' else 0x10000
        out = []
        for c in range(1, top):
            if c == 0x1A or 0xD800 <= c < 0xE000:
                continue
            if c > 0x3000 and top > 0x10000 and c % 97 and c & 0xFF not in (0, 0x1A) and c >> 8 & 0xFF not in (0, 0x1A):
                continue
            ch = chr(c)
            try:
                if ch.encode(probe).decode(probe) == ch:
                    out.append(ch)
            except (UnicodeEncodeError, UnicodeDecodeError):
                pass
        _pools[encoding] = out
    return _pools[encoding]


def text(rng, encoding):
    p = pool(encoding)
    k = rng.random()
    n = rng.choice([1, 2, 5, 20, rng.randrange(1, 60)])
    if k < 0.4:
        return ''.join(rng.choice('Hello, world!\nabc 0123') for _ in range(n))
    if k < 0.6:
        tricky = [c for c in ('\x01', '\x19', '\x1b', '\x7f', '\xff', 'Ā', 'ᨀ', '\u001b', 'ਚ',
                              'あ', '表', '̀', 'ｱ', '\U0001F600', '€') if c in _set(encoding)]
        return ''.join(rng.choice(tricky) for _ in range(n))
    return ''.join(rng.choice(p) for _ in range(n))


_sets = {}


def _set(encoding):
    if encoding not in _sets:
        _sets[encoding] = set(pool(encoding))
    return _sets[encoding]


def parts(rng, encoding):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, rng.randrange(0, 8)])):
        if rng.random() < 0.6:
            out.append(text(rng, encoding))
        else:
            n = rng.choice([0, 1, 2, 3, 4, rng.randrange(0, 30), 251])
            n = min(n, 251)
            out.append((rng.choice([0, 1, 4, 255, rng.randrange(256)]),
                        rng.choice([bytes(n), b'\x1a' * n, rng.randbytes(n)])))
    return ref.normal(out)


def many(rng, usual):
    return rng.choice(usual) if rng.random() < 0.995 else rng.choice([255, 256, 257, 1000, 9000])


def model(rng):
    m = {'encoding': rng.choice(['cp1252', 'utf-16', 'utf-16', 'shift-jis', 'utf-8']), 'endian': rng.choice('<<>')}
    n = rng.choice([0, 1, 2, 5, rng.randrange(0, 40)]) if rng.random() < 0.999 else rng.choice([255, 256, 257, 1500])
    infoLen = rng.choice([0, 0, 1, 3, 4, 8, rng.randrange(0, 40)])
    m['messages'] = []
    for _ in range(n):
        k = rng.random()
        info = rng.choice([bytes(infoLen), rng.randbytes(infoLen)])
        if k < 0.15:
            m['messages'].append((info, [], True))
        elif k < 0.25 and m['messages']:
            m['messages'].append((info,) + rng.choice(m['messages'])[1:])
        else:
            m['messages'].append((info, parts(rng, m['encoding']), False))
    m['instructions'] = [rng.choice([rng.randbytes(8), rng.randbytes(8), bytes(8), b'\0' * 7 + b'\1'])
                         for _ in range(many(rng, [0, 0, 1, 2, 3, rng.randrange(0, 20)]))]
    if m['instructions'] and not any(m['instructions'][-1]):
        m['instructions'][-1] = b'\1' + bytes(7)
    m['labels'] = [(rng.choice([0, 1, -1, 127, -128, rng.randrange(-128, 128)]),
                    rng.choice([0, 1, -1, 32767, -32768, rng.randrange(-32768, 32768)]))
                   for _ in range(many(rng, [0, 0, 1, 7, 8, 9, rng.randrange(0, 30)]))]
    if m['labels'] and m['labels'][-1] == (0, 0):
        m['labels'][-1] = (0, 5)
    m['scripts'] = [(rng.choice([0, 1, 0xFFFFFFFF, rng.randrange(1 << 32)]),
                     rng.choice([0, 1, 0xFFFF, rng.randrange(1 << 16)]))
                    for _ in range(many(rng, [0, 0, 1, 2, 3, 4, rng.randrange(0, 20)]))]
    m['id'] = rng.choice([0, 1, 0xFFFFFFFF, rng.randrange(1 << 32)])
    m['unk'] = tuple(rng.choice([0, 0, rng.randrange(1 << 32)]) for _ in range(3))
    return m


def sized(rng, total, endian):
    """A file of exactly `total` bytes (a multiple of 32)."""
    m = {'encoding': 'cp1252', 'endian': endian, 'messages': [(b'', ['x' * (total - 0x20 - 32 - 8 - 2)], False)],
         'instructions': [], 'labels': [], 'scripts': [], 'id': 7, 'unk': (0, 0, 0)}
    assert len(ref.build(m)) == total, (hex(len(ref.build(m))), hex(total))
    return m


class Instruction:
    def __init__(self, data):
        self.data = data

    def save(self):
        return self.data


def toMessage(x):
    info, ps, isNull = x
    return bmg.Message(info, [p if isinstance(p, str) else bmg.Message.Escape(p[0], p[1]) for p in ps], isNull)


def toBmg(m, rng):
    msgs = [toMessage(x) for x in m['messages']]
    if rng.random() < 0.5:
        b = bmg.BMG.fromMessages(msgs, list(m['instructions']), list(m['labels']), list(m['scripts']), id=m['id'])
    else:
        b = bmg.BMG(id=m['id'])
        b.messages = msgs
        b.instructions = [Instruction(i) if rng.random() < 0.3 else i for i in m['instructions']]
        b.labels = list(m['labels'])
        b.scripts = list(m['scripts'])
    b.encoding = m['encoding'] if rng.random() < 0.8 else m['encoding'].upper()
    b.endianness = m['endian']
    b.unk14, b.unk18, b.unk1C = m['unk']
    return b


def describe(b):
    def part(p):
        return p if isinstance(p, str) else (p.type, bytes(p.data))
    return {
        'messages': [(bytes(x.info), [part(p) for p in x.stringParts], bool(x.isNull)) for x in b.messages],
        'instructions': [bytes(i.save() if hasattr(i, 'save') else i) for i in b.instructions],
        'labels': [tuple(x) for x in b.labels], 'scripts': [tuple(x) for x in b.scripts],
        'id': b.id, 'encoding': b.encoding.lower(), 'endian': b.endianness, 'unk': (b.unk14, b.unk18, b.unk1C),
    }
