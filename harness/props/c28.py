"""Texture rendering decodes every format correctly."""

import struct

from ndspy import texture
from gen import textures
from ref import tex

CASES = {'quick': 20000, 'thorough': 120000}
RULE = ('Random texture data of all seven formats, sizes 8-64 (sometimes up to 1024) in both directions, random and'
        ' extreme palettes, colour 0 transparent or not; every pixel compared with an independent decoder. Block'
        ' textures use all four modes, all pixel values and palette offsets over the whole palette, which'
        ' sometimes has 32768 colours.'
        ' Non-trivial = more than one colour shown.')
REQUIRED = {f'pixels of format {f}': 500 for f in (1, 2, 3, 4, 5, 6, 7)}
REQUIRED.update({'through the objects': 5000, 'image agrees': 5000, 'through a saved file': 4000,
                 'unknown format refused': 100, 'palette offset over the whole range': 100})
ASSUMPTIONS = ['The palette covers every index the data uses; PIL is installed.']

NEED = {1: 32, 2: 4, 3: 16, 4: 256, 5: None, 6: 8, 7: 0}


def case(ctx, rng, index):
    fmt = index % 7 + 1
    top = 4 if rng.random() < 0.97 else 6
    p = rng.randrange(16) | rng.randrange(top if fmt in (2, 5) else min(top, 4)) << 4 | rng.randrange(4) << 7 | \
        fmt << 10 | rng.randrange(8) << 13
    if index % 400 == 12:
        p = p & ~0x3F0 | rng.choice([7 << 4, 7 << 7, 6 << 4 | 1 << 7, 6 << 7 | 1 << 4, 5 << 4 | 2 << 7])
    huge = fmt == 5 and index % 350 == 4
    if huge:
        p &= ~0x3F0  # 8x8, with a palette as large as block palette offsets reach
    w, h = tex.size(p)
    n1, n2 = tex.dataSizes(p)
    count = NEED[fmt]
    if fmt == 5:
        count = 0x8000 if huge else rng.choice([4, 8, 64, 256])
    if not huge:
        count += rng.choice([0, 0, 4, 16])
    palette = list(struct.unpack('<32768H', rng.randbytes(65536))) if huge else [rng.choice([0, 0x7FFF, 0xFFFF, 0x8000, 0x7C1F, 0x03E0, rng.randrange(65536), rng.randrange(65536)])
               for _ in range(count)]
    d1 = rng.randbytes(n1) if rng.random() < 0.8 else bytes(rng.choice([0, 0x1B, 0xE4, 0xFF, 1]) for _ in range(n1))
    d2 = b''
    if fmt == 5:
        for _ in range(n2 // 2):
            mode = rng.randrange(4)
            ctx.note(f'block mode {mode}')
            reach = 2 if mode & 1 else 3 if mode == 0 else 4
            base = rng.randrange((count - reach) // 2 + 1)
            if huge:
                ctx.check('palette offset over the whole range', True)
            d2 += tex.u16(mode << 14 | base)
    clear0 = bool(p & 0x2000)
    ctx.info('texture', [fmt, (w, h), clear0, palette, d1, d2])
    want = [tex.pixel(fmt, d1, d2, w, x, y, palette, clear0) for y in range(h) for x in range(w)]
    F = texture.TextureFormat(fmt)
    quads = textures.colors(palette)
    lists = [palette, quads] if count else [None, palette]

    def out(x):
        return [tuple(c) for c in x]

    for colors in lists:
        got = out(texture.renderTextureData(d1, d2, F, w, h, colors, clear0))
        ctx.eq(f'pixels of format {fmt}', got, want, f'{w}x{h}')
    if clear0:
        ctx.eq('default transparency', out(texture.renderTextureData(d1, d2, F, w, h, lists[1])), want, 'default')
    t = textures.toTexture(rng, ('', 0, 0, p, 0, d1, d2))
    pal = textures.toPalette(rng, ('', 0, 0, 0, palette)) if fmt != 7 or rng.random() < 0.3 else None
    ctx.eq('through the objects', out(t.render(pal)), want, 'Texture.render')
    expand = lambda v: v * 8 + v // 4
    raw = bytes(expand(v) for px in want for v in px)
    for img in (t.renderAsImage(pal), texture.renderTextureDataAsImage(d1, d2, F, w, h, lists[1], clear0)):
        ctx.eq('image size', (img.size, img.mode), ((w, h), 'RGBA'), 'image')
        ctx.bytesEq('image agrees', img.tobytes(), raw, 'image')
    if count % 4 == 0:
        f = texture.NSBTX(texture.NSBTX.fromTexturesAndPalettes(0, 0, 0, 0, 0, 0, [('t', t)],
            [('p', pal)] if pal else []).save())
        ctx.eq('through a saved file', out(f.textures[0][1].render(f.palettes[0][1] if pal else None)), want, 'reloaded')
    if index % 7 == 3:
        ctx.raises('unknown format refused', lambda: texture.renderTextureData(d1, d2,
            texture.TextureFormat.UNKNOWN_0, w, h, palette), (ValueError,), 'format 0')
    if len(set(want)) > 1:
        ctx.nontrivial(want)
    if index in (3, 4):
        ctx.sample(f'format {fmt} {w}x{h}, {count} colours: {d1[:16].hex()} {d2[:8].hex()} -> {want[:3]}')
