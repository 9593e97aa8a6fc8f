"""BMG messages survive saving and loading."""

from ndspy import bmg
from gen import bmgs
from ref import bmg as ref

CASES = {'quick': 56000, 'thorough': 336000}
RULE = ('Random message files in all four encodings and both byte orders: characters drawn from everything the'
        ' encoding can hold, escapes of every type with 0-251 data bytes (including bytes that look like escapes'
        ' or terminators), attributes of 0-39 bytes, null and empty messages, plus files of sizes whose byte-swapped'
        ' form is smaller; saved and reloaded, and loaded from independently written files with reordered sections'
        ' and shared text. Non-trivial = at least one message with text or an escape.')
REQUIRED = {'messages survive': 2000, 'file settings survive': 2000, 'foreign file': 2000,
            'every character of the encoding': 4, 'large file byte order': 6}
ASSUMPTIONS = ['Adjacent text parts may come back joined; empty parts may disappear.',
               'NUL and U+001A cannot appear in text.']
SIZES = [0x10000, 0x10100, 0x20100, 0x30200, 0xFF00, 0x11100]


def case(ctx, rng, index):
    if index < 4:
        enc = ('cp1252', 'utf-16', 'shift-jis', 'utf-8')[index]
        chars = ''.join(bmgs.pool(enc))
        m = bmgs.model(rng)
        m['encoding'] = enc
        m['messages'] = [(b'', [chars[i:i + 500]], False) for i in range(0, len(chars), 500)]
    elif index < 4 + 2 * len(SIZES):
        m = bmgs.sized(rng, SIZES[(index - 4) // 2], '<>'[index % 2])
    elif index == 40:
        m = bmgs.model(rng)
        m['messages'] = [(b'ab', ['m%d' % i], False) for i in range(20000)]
    elif index == 41:
        m = bmgs.model(rng)
        m['messages'] = [(b'', ['%x' % i], False) for i in range(65535)]
    elif index % 2000 == 42:
        m = bmgs.model(rng)
        m['messages'][1:] = [(m['messages'][0][0] if m['messages'] else b'', ref.normal([x for _ in range(rng.choice([300, 3000])) for x in
                              bmgs.parts(rng, m['encoding'])]), False)]
    else:
        m = bmgs.model(rng)
    for k, v in m.items():
        ctx.info(k, v)
    b = bmgs.toBmg(m, rng)
    data = b.save()
    got = bmgs.describe(bmg.BMG(data))
    ctx.eq('messages survive', got['messages'], m['messages'], 'messages')
    for k in ('id', 'encoding', 'endian', 'unk'):
        ctx.eq('file settings survive', got[k], m[k], k)
    if index < 4:
        ctx.check('every character of the encoding', True)
    elif index < 4 + 2 * len(SIZES):
        ctx.check('large file byte order', got['endian'] == m['endian'], 'byte order')
    foreign = ref.buildForeign(m, rng)
    got = bmgs.describe(bmg.BMG(foreign, id=rng.randrange(9)))
    ctx.eq('foreign file', got['messages'], m['messages'], 'messages of a file from another tool')
    ctx.eq('foreign file', (got['id'], got['encoding'], got['endian']), (m['id'], m['encoding'], m['endian']),
        'settings of a file from another tool')
    for (info, parts, isNull), msg in zip(m['messages'][:5], b.messages):
        want = b'' if isNull else ref.messageBytes(parts, ref.codec(m))
        ctx.bytesEq('single message', msg.save(ref.codec(m)), want, f'message {parts!r:.200}')
    # text split into several parts must come back as the same text
    if index % 4 == 0:
        split = []
        for info, parts, isNull in m['messages']:
            q = []
            for p in parts:
                if isinstance(p, str):
                    k = rng.randrange(len(p) + 1)
                    q += [p[:k], p[k:]]
                else:
                    q.append(p)
            split.append((info, q, isNull))
        c = bmgs.toBmg(dict(m, messages=split), rng)
        again = bmgs.describe(bmg.BMG(c.save()))
        ctx.eq('text in several parts', again['messages'], m['messages'], 'split text')
    if any(p for _, p, _ in m['messages']):
        ctx.nontrivial(data)
    if index in (41, 50):
        ctx.sample(f'{len(m["messages"])} messages, {m["encoding"]} {m["endian"]}, {len(data)} bytes; first:'
                   f' {m["messages"][:1]!r:.150}')
