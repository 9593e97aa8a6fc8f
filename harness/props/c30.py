"""Screen layout files (BNBL, BNCL) round-trip."""

import struct

from ndspy import Alignment as A, bnbl, bncl

CASES = {'quick': 150000, 'thorough': 900000}
RULE = ('Lists of 0-30 (sometimes 700, once 65535) touch areas and image positions: coordinates over all of 0-4095, sizes 0-255,'
        ' 32-bit image IDs, all nine alignments; also independently built files with every position word.'
        ' Non-trivial = at least two entries.')
REQUIRED = {'BNBL saved bytes': 30000, 'BNCL saved bytes': 30000, 'BNBL reloaded': 30000, 'BNCL reloaded': 30000,
            'corner': 100000, 'foreign BNBL': 30000, 'foreign BNCL': 30000, 'wrong magic refused': 5000}
ASSUMPTIONS = ['Coordinates are within 0-4095 (twelve bits) and each alignment has one horizontal and one vertical'
               ' part.']

H = {A.LEFT: 0, A.H_CENTER: 1, A.RIGHT: 2}
V = {A.TOP: 0, A.V_CENTER: 1, A.BOTTOM: 2}


def pos(rng):
    return rng.choice([0, 4095, rng.randrange(256), rng.randrange(4096)])


def words(x, y, align):
    h = next(H[k] for k in H if align & k)
    v = next(V[k] for k in V if align & k)
    return struct.pack('<HH', x + 4096 * h, y + 4096 * v)


def corner(x, y, w, h, align):
    if align & A.H_CENTER:
        x -= -(-w // 2)
    if align & A.RIGHT:
        x -= w
    if align & A.V_CENTER:
        y -= -(-h // 2)
    if align & A.BOTTOM:
        y -= h
    return x, y


def case(ctx, rng, index):
    n = rng.choice([0, 1, 2, 5, rng.randrange(30)]) if index % 500 else rng.randrange(700)
    if index in (6, 10, 14):
        n = {6: 32767, 10: 32768, 14: 65535}[index]
    unk = rng.choice([0, 1, 65535, rng.randrange(65536)])
    areas = [(pos(rng), pos(rng), rng.choice([0, 1, 255, rng.randrange(256)]), rng.choice([0, 255, rng.randrange(256)]),
              rng.choice(list(H)) | rng.choice(list(V))) for _ in range(n)]
    ctx.info('areas', [unk, areas])
    want = b'JNBL' + struct.pack('<HH', unk, n) + b''.join(words(x, y, a) + bytes([w, h]) for x, y, w, h, a in areas)
    if rng.random() < 0.5:
        o = bnbl.BNBL.fromTouchAreas([bnbl.BNBLTouchArea(*t) for t in areas], unk)
    else:
        o = bnbl.BNBL()
        o.unk04 = unk
        for t in areas:
            o.touchAreas.append(bnbl.BNBLTouchArea(*t))
    data = bytes(o.save())
    ctx.bytesEq('BNBL saved bytes', data, want, 'touch areas')

    def seen(o):
        return (o.unk04, [(t.x, t.y, t.width, t.height, t.alignment) for t in o.touchAreas])

    back = bnbl.BNBL(want)
    ctx.eq('BNBL reloaded', seen(back), (unk, areas), 'touch areas')
    ctx.bytesEq('BNBL saved bytes', back.save(), want, 'touch areas loaded and saved')
    for t, a in zip(back.touchAreas, areas):
        ctx.eq('corner', tuple(t.getTopLeft()), corner(*a), f'{a}')
    # every position word, also with the alignment value that has no meaning of its own
    raw = [(rng.randrange(0x4000), rng.randrange(0x4000), rng.randrange(256), rng.randrange(256)) for _ in range(6)]
    hs, vs = [A.LEFT, A.H_CENTER, A.RIGHT, A.LEFT], [A.TOP, A.V_CENTER, A.BOTTOM, A.TOP]
    f = bnbl.BNBL(b'JNBL' + struct.pack('<HH', unk, 6) + b''.join(struct.pack('<HHBB', *r) for r in raw) +
                  rng.randbytes(rng.choice([0, 0, 3])))
    ctx.eq('foreign BNBL', seen(f), (unk, [(x % 4096, y % 4096, w, h, hs[x >> 12] | vs[y >> 12]) for x, y, w, h in raw]),
        f'{raw}')

    pics = [(x, y, a, rng.choice([0, 1, 0xFFFFFFFF, rng.randrange(2 ** 32)])) for x, y, _, _, a in areas]
    want = b'JNCL' + struct.pack('<HH', unk, n) + b''.join(words(x, y, a) + struct.pack('<I', i) for x, y, a, i in pics)
    if rng.random() < 0.5:
        o = bncl.BNCL.fromImagePositions([bncl.BNCLImagePosition(*t) for t in pics], unk)
    else:
        o = bncl.BNCL()
        o.unk04 = unk
        o.imagePositions += [bncl.BNCLImagePosition(*t) for t in pics]
    ctx.bytesEq('BNCL saved bytes', bytes(o.save()), want, 'image positions')

    def seen2(o):
        return (o.unk04, [(t.x, t.y, t.alignment, t.imageID) for t in o.imagePositions])

    back2 = bncl.BNCL(want)
    ctx.eq('BNCL reloaded', seen2(back2), (unk, pics), 'image positions')
    ctx.bytesEq('BNCL saved bytes', back2.save(), want, 'image positions loaded and saved')
    f = bncl.BNCL(b'JNCL' + struct.pack('<HH', unk, 6) + b''.join(struct.pack('<HHI', x, y, w * 77777777 % 2 ** 32)
        for x, y, w, _ in raw))
    ctx.eq('foreign BNCL', seen2(f), (unk, [(x % 4096, y % 4096, hs[x >> 12] | vs[y >> 12], w * 77777777 % 2 ** 32)
        for x, y, w, _ in raw]), f'{raw}')
    # edits
    if areas:
        i = rng.randrange(n)
        t = (pos(rng), pos(rng), rng.randrange(256), rng.randrange(256), rng.choice(list(H)) | rng.choice(list(V)))
        ta = back.touchAreas[i]
        ta.x, ta.y, ta.width, ta.height, ta.alignment = t
        ctx.eq('edited', seen(bnbl.BNBL(back.save())), (unk, areas[:i] + [t] + areas[i + 1:]), f'entry {i}')
        ctx.eq('corner', tuple(ta.getTopLeft()), corner(*t), f'{t}')
        p = (t[0], t[1], t[4], 5)
        ip = back2.imagePositions[i]
        ip.x, ip.y, ip.alignment, ip.imageID = p
        ctx.eq('edited', seen2(bncl.BNCL(back2.save())), (unk, pics[:i] + [p] + pics[i + 1:]), f'entry {i}')
    if index % 4 == 0:
        for cls, other in ((bnbl.BNBL, b'JNCL'), (bncl.BNCL, b'JNBL')):
            bad = rng.choice([other, b'NARC', b'jnbl', b'BNBL', bytes(4)])
            ctx.raises('wrong magic refused', lambda: cls(bad + bytes(8)), (ValueError,), f'{bad}')
    if n > 1:
        ctx.nontrivial(data)
    if index in (3, 5):
        ctx.sample(f'{n} areas: {areas[:3]} {data[:32].hex()}')
