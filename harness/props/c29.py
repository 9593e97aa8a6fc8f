"""Colour conversions are lossless where possible and accurate."""

from ndspy import color as c

CASES = {'quick': 150000, 'thorough': 900000}
RULE = ('All 65536 16-bit colours through every conversion pair, helper and lookup table; all 256 values of each'
        ' 8-bit channel; random 8-bit and 5-bit-alpha colours; palettes of 0-300 colours. Non-trivial = a colour'
        ' with differing channels.')
REQUIRED = {'conversions of a 16-bit colour': 65536, 'lookup tables': 65536, 'helpers': 65536,
            'conversions of an 8-bit colour': 20000, 'conversions of a 5-bit alpha colour': 20000,
            'conversion and back': 65536, 'palette load and save': 3000, 'every channel value': 256}
ASSUMPTIONS = ['Colours are within the range of their format (documented as undefined otherwise).']

F = c.ColorFormat
NAMES = [F.INT_16, F.BYTES_2, F.TUPLE_RGB5A1, F.TUPLE_RGB5A5, F.TUPLE_RGBA255]
WIDE = [v * 8 + v // 4 for v in range(32)]
NEAREST = [min(range(32), key=lambda k: abs(WIDE[k] - v)) for v in range(256)]
TIES = [sum(1 for k in range(32) if abs(WIDE[k] - v) == abs(WIDE[NEAREST[v]] - v)) > 1 for v in range(256)]


def forms(r, g, b, a):
    """All representations of a 5-bit, 1-bit alpha colour."""
    n = r + 32 * g + 1024 * b + 32768 * a
    return {F.INT_16: n, F.BYTES_2: bytes([n % 256, n // 256]), F.TUPLE_RGB5A1: (r, g, b, a),
            F.TUPLE_RGB5A5: (r, g, b, 31 * a), F.TUPLE_RGBA255: (WIDE[r], WIDE[g], WIDE[b], 255 * a)}


def norm(x):
    return tuple(x) if isinstance(x, tuple) else x


def near(got, v):
    """Whether a 5-bit value is nearest to an 8-bit one."""
    return 0 <= got < 32 and abs(WIDE[got] - v) == abs(WIDE[NEAREST[v]] - v)


def everyForm(ctx, monitor, x, frm, r, g, b, a, what):
    """x, given in 5-bit channels, to the formats with 1-bit alpha"""
    for to in (F.INT_16, F.BYTES_2, F.TUPLE_RGB5A1):
        ctx.eq(monitor, norm(c.convert(x, frm, to)), forms(r, g, b, a)[to], f'{what} to {to}')


def case(ctx, rng, index):
    if index < 512:
        for n in range(128 * index, 128 * index + 128):
            r, g, b, a = n % 32, n // 32 % 32, n // 1024 % 32, n // 32768
            f = forms(r, g, b, a)
            got = {(p, q): norm(c.convert(f[p], p, q)) for p in NAMES for q in NAMES}
            ctx.eq('conversions of a 16-bit colour', got, {(p, q): f[q] for p in NAMES for q in NAMES}, f'{n:#06x}')
            ctx.check('conversion and back', all(norm(c.convert(got[F.INT_16, q], q, F.INT_16)) == n for q in NAMES),
                f'{n:#06x}')
            five, wide = f[F.TUPLE_RGB5A1], f[F.TUPLE_RGBA255]
            got = [tuple(c.unpack(n)), c.pack(*five), tuple(c.unpack255(n)), c.pack255(*wide), tuple(c.expand(*five)),
                   tuple(c.contract(*wide)), tuple(c.load(f[F.BYTES_2])), bytes(c.save(*five))]
            ctx.eq('helpers', got, [five, n, wide, n, wide, five, five, f[F.BYTES_2]], f'{n:#06x}')
            if a:
                got = [c.pack(*five[:3]), c.pack255(*wide[:3]), tuple(c.expand(*five[:3])),
                       tuple(c.contract(*wide[:3])), bytes(c.save(*five[:3]))]
                ctx.eq('default alpha', got, [n, n, wide, five, f[F.BYTES_2]], f'{n:#06x}')
            c.prepareLUTs()
            R, G, B, A = wide
            got = [tuple(c.LUT_UNPACKED[n]), tuple(c.LUT_UNPACKED_255[n]), c.LUT_RGBA_255[n], c.LUT_ARGB_255[n],
                   c.LUT_BGRA_255[n], c.LUT_ABGR_255[n]]
            want = [five, wide] + [int.from_bytes(bytes(t), 'big') for t in ((R, G, B, A), (A, R, G, B), (B, G, R, A),
                                                                           (A, B, G, R))]
            ctx.eq('lookup tables', got, want, f'{n:#06x}')
        ctx.nontrivial(index)
    if index < 256:
        v = index
        for k in range(4):
            x = [rng.randrange(256) for _ in range(4)]
            x[k] = v
            five = c.convert(tuple(x), F.TUPLE_RGBA255, F.TUPLE_RGB5A5)
            one = c.convert(tuple(x), F.TUPLE_RGBA255, F.TUPLE_RGB5A1)
            ctx.check('every channel value', near(five[k], v), f'{x} became {five}')
            ctx.check('every channel value', (near(one[k], v) if k < 3 else one[k] == (v >= 128)), f'{x} became {one}')

    for _ in range(8):
        x = tuple(rng.choice([0, 255, 127, 128, 129, 4, 5, rng.randrange(256)]) for _ in range(4))
        ctx.info('colour', x)
        five = c.convert(x, F.TUPLE_RGBA255, F.TUPLE_RGB5A5)
        ctx.check('conversions of an 8-bit colour', all(near(p, q) for p, q in zip(five, x)), f'{x} became {five}')
        r, g, b, _ = five
        a = int(x[3] >= 128)
        everyForm(ctx, 'conversions of an 8-bit colour', x, F.TUPLE_RGBA255, r, g, b, a, str(x))
        ctx.eq('conversions of an 8-bit colour', norm(c.convert(x, F.TUPLE_RGBA255, F.TUPLE_RGBA255)), x, 'itself')
        ctx.eq('helpers', (tuple(c.contract(*x)), c.pack255(*x)), ((r, g, b, a), forms(r, g, b, a)[F.INT_16]), str(x))
        if x[0] != x[1]:
            ctx.nontrivial(x)

        y = tuple(rng.choice([0, 31, 15, 16, rng.randrange(32)]) for _ in range(4))
        everyForm(ctx, 'conversions of a 5-bit alpha colour', y, F.TUPLE_RGB5A5, *y[:3], int(y[3] >= 16), str(y))
        w = norm(c.convert(y, F.TUPLE_RGB5A5, F.TUPLE_RGBA255))
        ctx.eq('conversions of a 5-bit alpha colour', w, tuple(WIDE[k] for k in y), f'{y}')
        ctx.eq('conversion and back', norm(c.convert(w, F.TUPLE_RGBA255, F.TUPLE_RGB5A5)), y, f'{y}')
        ctx.eq('conversion and back', norm(c.convert(y, F.TUPLE_RGB5A5, F.TUPLE_RGB5A5)), y, f'{y}')

    n = rng.choice([0, 1, 16, 256, rng.randrange(300)])
    data = rng.randbytes(2 * n)
    cols = [(v % 32, v // 32 % 32, v // 1024 % 32, v // 32768) for v in
            (data[2 * i] + 256 * data[2 * i + 1] for i in range(n))]
    got = c.loadPalette(data if rng.random() < 0.5 else bytearray(data))
    ctx.eq('palette load and save', [tuple(x) for x in got], cols, 'palette')
    ctx.bytesEq('palette load and save', c.savePalette(got), data, 'palette')
    ctx.bytesEq('palette load and save', c.savePalette(cols), data, 'palette of plain tuples')
    if index in (3, 5):
        ctx.sample(f'{x} -> {five}; {y} -> {w}')
