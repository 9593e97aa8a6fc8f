"""Tile rendering shows the right pixels."""

from ndspy import graphics2D as g

CASES = {'quick': 23000, 'thorough': 138000}
RULE = ('Random tiles of both depths with random colours (whose alpha is random too), palette numbers, widths 1-64,'
        ' counts that do and do not fill the last row, tilemaps of both formats with flips, palettes and tile number'
        ' offsets (sometimes 1024 tiles with numbers up to 1023); every pixel is compared with its definition. Non-trivial = some pixel is opaque.')
REQUIRED = {'tile pixels': 3000, 'tile list pixels': 2500, 'tilemap tile pixels': 3000, 'tilemap pixels': 2500,
            'image agrees': 5000, 'number below offset refused': 200}
ASSUMPTIONS = ['The palette has a colour for every pixel value used; PIL is installed.']

CLEAR = (0, 0, 0, 0)


def expand(v):
    return v * 8 + v // 4


def imageEq(ctx, img, pixels, width, height, what):
    ctx.eq('image size', (img.size, img.mode), ((width, height), 'RGBA'), what)
    want = bytes(x for r, gr, b, a in pixels for x in (expand(r), expand(gr), expand(b), 255 if a else 0))
    ctx.bytesEq('image agrees', img.tobytes(), want, what)


def shown(pixels, fmt, colors, pal):
    size = 256 if fmt is g.ImageFormat.I8 else 16
    return [CLEAR if p == 0 else tuple(colors[pal * size + p][:3]) + (1,) for p in pixels]


def case(ctx, rng, index):
    fmt = rng.choice([g.ImageFormat.I8, g.ImageFormat.I4])
    depth = 256 if fmt is g.ImageFormat.I8 else 16
    pals = rng.choice([1, 2, 3]) if depth == 256 else rng.choice([1, 2, 16])
    colors = [(rng.randrange(32), rng.randrange(32), rng.randrange(32), rng.randrange(2)) for _ in range(depth * pals)]
    few = rng.choice([2, depth])
    n = rng.choice([0, 1, 2, 3, 7, 8, 9, 31, 32, 33])
    many = index % 400 == 11
    if many:
        n = rng.choice([255, 256, 257, 300, 600, 1024])
    width = rng.choice([1, 2, 3, 5, 8, 31, 32, 33, n or 1])
    tiles = []
    for _ in range(n):
        tiles.append(g.ImageTile.fromPixels([rng.randrange(few) for _ in range(64)], fmt))
    ctx.info('tiles', [str(fmt), n, width, pals, [t.pixels for t in tiles][:3]])
    pal = rng.randrange(pals)

    def out(x):
        return [tuple(c) for c in x]

    for t in tiles[:4]:
        want = shown(t.pixels, fmt, colors, pal)
        ctx.eq('tile pixels', out(t.render(colors, pal)), want, f'one tile, palette {pal}')
        ctx.eq('tile pixels', out(t.render(colors)), shown(t.pixels, fmt, colors, 0), 'one tile, no palette number')
        imageEq(ctx, t.renderAsImage(colors, pal), want, 8, 8, 'one tile')

    rows = (n + width - 1) // width
    want = []
    for y in range(rows * 8):
        for x in range(width * 8):
            i = (y // 8) * width + x // 8
            if i < n:
                p = tiles[i].pixels[y % 8 * 8 + x % 8]
                want.append(CLEAR if p == 0 else colors[pal * depth + p][:3] + (1,))
            else:
                want.append(CLEAR)
    kw = {} if width == 32 and pal == 0 else {'paletteNum': pal, 'width': width}
    ctx.eq('tile list pixels', out(g.renderImageTiles(tiles, colors, **kw)), want, f'{n} tiles, width {width}')
    if n:
        imageEq(ctx, g.renderImageTilesAsImage(tiles, colors, **kw), want, width * 8, rows * 8, f'{n} tiles')

    # tilemaps
    if not n:
        return
    tf = rng.choice([g.TilemapFormat.I10H1V1P4, g.TilemapFormat.I10H1V1P4, g.TilemapFormat.I8])
    offset = rng.choice([0, 0, 1, 5, 200])
    count = rng.choice([1, 2, 5, 9, 20])
    usable = n
    if many:
        offset = rng.choice([0, 0, 1, 300, 1023]) if tf is g.TilemapFormat.I10H1V1P4 else rng.choice([0, 1, 200])
        usable = min(n, (1024 if tf is g.TilemapFormat.I10H1V1P4 else 256) - offset)
        count = rng.choice([20, 300])
    width = rng.choice([1, 2, 3, 5, count, count + 1, 64 if many else 8])
    tm = []
    for _ in range(count):
        t = g.TilemapTile.fromParameters(rng.randrange(usable) + offset, tf, rng.random() < 0.5, rng.random() < 0.5,
            rng.randrange(pals))
        tm.append(t)
    ctx.info('tilemap', [str(tf), offset, width, [(t.tileNum, t.hFlip, t.vFlip, t.paletteNum) for t in tm]])

    def pixel(t, x, y):
        p = 0
        if tf is g.TilemapFormat.I10H1V1P4:
            x = 7 - x if t.hFlip else x
            y = 7 - y if t.vFlip else y
            p = t.paletteNum
        v = tiles[t.tileNum - offset].pixels[8 * y + x]
        return CLEAR if v == 0 else colors[p * depth + v][:3] + (1,)

    for t in tm[:4]:
        want = [pixel(t, x, y) for y in range(8) for x in range(8)]
        it = tiles[t.tileNum - offset]
        ctx.eq('tilemap tile pixels', out(t.renderSingle(it, colors)), want, 'renderSingle')
        args = () if offset == 0 and rng.random() < 0.5 else (offset,)
        ctx.eq('tilemap tile pixels', out(t.render(tiles, colors, *args)), want, 'render')
        imageEq(ctx, t.renderSingleAsImage(it, colors), want, 8, 8, 'renderSingleAsImage')
        imageEq(ctx, t.renderAsImage(tiles, colors, *args), want, 8, 8, 'renderAsImage')
    rows = (count + width - 1) // width
    want = []
    for y in range(rows * 8):
        for x in range(width * 8):
            i = y // 8 * width + x // 8
            want.append(pixel(tm[i], x % 8, y % 8) if i < count else CLEAR)
    ctx.eq('tilemap pixels', out(g.renderTilemapTiles(tm, tiles, colors, width, offset)), want,
        f'{count} tilemap tiles, width {width}')
    imageEq(ctx, g.renderTilemapTilesAsImage(tm, tiles, colors, width, offset), want, width * 8, rows * 8, 'tilemap')
    if offset:
        low = g.TilemapTile.fromParameters(rng.randrange(offset), tf)
        for f in (low.render, low.renderAsImage):
            ctx.raises('number below offset refused', lambda: f(tiles, colors, offset), (ValueError,), 'low number')
    if any(c[3] for c in want):
        ctx.nontrivial(want)
    if index in (3, 5):
        ctx.sample(f'{n} tiles {fmt}, tilemap {tf} of {count} width {width} offset {offset}')
