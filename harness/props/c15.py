"""Saved BMG files are structurally valid."""

from ndspy import bmg
from gen import bmgs
from ref import bmg as ref

CASES = {'quick': 60000, 'thorough': 360000}
RULE = ('The message files of C14 with instructions, labels and scripts (extreme and null values included, up to 65534 of each) in both'
        ' byte orders, judged by a strict independent reader; reloaded; and independently written files loaded.'
        ' Non-trivial = has instructions, labels or scripts.')
REQUIRED = {'strict reader accepts': 2000, 'independent reader: messages': 2000,
            'independent reader: instructions, labels, scripts': 2000, 'instructions, labels, scripts survive': 2000,
            'optional sections only when needed': 2000}
ASSUMPTIONS = ['Null instructions and labels at the very end cannot be told from padding and are excluded.',
               'The last section may be declared with its padding without the padding being stored.']
LONG = {12: 32767, 15: 32768, 18: 40000, 21: 65534}


def flow(d):
    return d['instructions'], d['labels'], d['scripts']


def case(ctx, rng, index):
    m = bmgs.model(rng)
    if index % 3 == 0:
        m['messages'] = m['messages'][:2]
    if index in LONG:
        n = LONG[index]
        m['instructions'] = [b'\1' + i.to_bytes(4, 'little') + bytes(3) for i in range(n)]
        m['labels'] = [(i % 256 - 128, i % 65521 - 32768) for i in range(n - 7)]
        m['scripts'] = [(i * 65537 % (1 << 32), i % 65521) for i in range(n - 3)]
    elif index == 30:
        m['messages'] = [(rng.randbytes(n), ['x'], False) for n in (65527, 65527)]
    elif index == 33:
        m['messages'] = [(rng.randbytes(n), ['x'], False) for n in (32769, 32769)]
    for k, v in m.items():
        ctx.info(k, v)
    b = bmgs.toBmg(m, rng)
    data = b.save()
    try:
        p = ref.parse(data)
    except ref.Bad as e:
        ctx.check('strict reader accepts', False, str(e))
    ctx.check('strict reader accepts', True)
    ctx.eq('independent reader: messages', p['messages'], m['messages'], 'messages')
    for k in ('id', 'encoding', 'endian', 'unk'):
        ctx.eq('independent reader: settings', p[k], m[k], k)
    ni = len(m['instructions'])
    nl = len(m['labels'])
    ctx.check('independent reader: instructions, labels, scripts',
        p['instructions'][:ni] == m['instructions'] and not any(any(x) for x in p['instructions'][ni:])
        and len(p['instructions']) - ni < 2
        and p['labels'][:nl] == m['labels'] and not any(x != (0, 0) for x in p['labels'][nl:])
        and len(p['labels']) - nl < 8
        and p['scripts'] == m['scripts'], lambda: f'{flow(p)} instead of {flow(m)}')
    ctx.eq('optional sections only when needed', p['sections'],
        [b'INF1', b'DAT1'] + [b'FLW1'] * bool(ni or nl) + [b'FLI1'] * bool(m['scripts']), 'sections')
    got = bmgs.describe(bmg.BMG(data))
    ctx.eq('instructions, labels, scripts survive', flow(got), flow(m), 'after reloading')
    want = ref.build(m)
    back = bmgs.describe(bmg.BMG(want))
    ctx.eq('independent file loads', back, m, 'independently written file')
    ctx.bytesEq('independent file saved back', bmg.BMG(want).save(), want, 'independently written file')
    got = bmgs.describe(bmg.BMG(ref.buildForeign(m, rng)))
    ctx.eq('foreign file', flow(got), flow(m), 'file with reordered sections')
    if any(flow(m)):
        ctx.nontrivial(data)
    if index in (41, 50):
        ctx.sample(f'{len(m["messages"])} messages, {ni} instructions, {nl} labels, {len(m["scripts"])} scripts,'
                   f' {m["endian"]}: sections {p["sections"]}')
