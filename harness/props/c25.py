"""Tile and tilemap data round-trip."""

from ndspy import graphics2D as g

CASES = {'quick': 150000, 'thorough': 900000}
RULE = ('Random tile graphics (0-40 tiles and sometimes up to 2500, 4 and 8 bits per pixel) and tilemap data (0-200 entries and sometimes up to 70000, both formats;'
        ' every 16-bit tilemap value occurs once per run), coordinates inside, on and beyond every edge.'
        ' Non-trivial = not all bytes equal.')
REQUIRED = {'image tile pixels': 10000, 'image tiles saved': 10000, 'tilemap fields': 10000, 'tilemap saved': 10000,
            'tile lookup': 100000, 'tile replacement': 20000, 'every 16-bit tilemap value': 65536,
            'value set': 10000, 'trailing part of a tile': 1000, 'mixed formats refused': 1000, 'wrong tile size refused': 1000}
ASSUMPTIONS = ['Pixels and tile numbers are within the range of their format.']


def someBytes(rng, n):
    k = rng.randrange(4)
    if k == 0:
        return bytes([rng.randrange(256)]) * n
    if k == 1:
        return bytes(rng.choice([0, 1, 0x0F, 0x10, 0xF0, 0xFF]) for _ in range(n))
    return rng.randbytes(n)


def case(ctx, rng, index):
    kind = rng.choice([bytes, bytes, bytearray])
    fmt = rng.choice([g.ImageFormat.I8, g.ImageFormat.I4])
    n = rng.choice([0, 1, 2, 5, rng.randrange(40)])
    if index % 1500 == 7:
        n = rng.choice([255, 256, 257, 1023, 1024, 1025, 2500])
    per = 64 if fmt is g.ImageFormat.I8 else 32
    data = someBytes(rng, n * per)
    ctx.info('tiles', [str(fmt), data])
    default = fmt is g.ImageFormat.I8 and rng.random() < 0.5
    tiles = g.loadImageTiles(kind(data)) if default else g.loadImageTiles(kind(data), fmt)
    ctx.eq('image tile count', len(tiles), n, 'tiles')
    for i, t in enumerate(tiles):
        raw = data[i * per:(i + 1) * per]
        if fmt is g.ImageFormat.I8:
            want = list(raw)
        else:
            want = [raw[p // 2] >> (4 * (p % 2)) & 15 for p in range(64)]
        ctx.eq('image tile pixels', (list(t.pixels), t.format), (want, fmt), f'tile {i}')
        ctx.bytesEq('one tile saved', t.save(), raw, f'tile {i}')
        made = g.ImageTile.fromPixels(want, fmt)
        ctx.bytesEq('one tile saved', made.save(), raw, f'tile {i} from pixels')
    ctx.bytesEq('image tiles saved', g.saveImageTiles(tiles), data, 'tiles')
    # Edits of single pixels
    for _ in range(3 if tiles else 0):
        i, p = rng.randrange(n), rng.randrange(64)
        v = rng.randrange(256 if per == 64 else 16)
        tiles[i].pixels[p] = v
        b = bytearray(g.saveImageTiles(tiles))
        want = bytearray(data)
        if per == 64:
            want[i * 64 + p] = v
        else:
            at = i * 32 + p // 2
            want[at] = want[at] & (0xF0 if p % 2 == 0 else 0x0F) | v << (4 * (p % 2))
        ctx.bytesEq('edited pixel saved', bytes(b), bytes(want), f'tile {i} pixel {p}')
        data = bytes(want)
    extra = rng.randrange(1, per)
    cut = g.loadImageTiles(data + someBytes(rng, extra), fmt)
    ctx.bytesEq('trailing part of a tile', g.saveImageTiles(cut), data, f'{extra} extra bytes')
    wrong = rng.choice([0, 1, per - 1, per + 1, 96 - per, 200])
    ctx.raises('wrong tile size refused', lambda: g.ImageTile(bytes(wrong), fmt), (ValueError,),
        f'{wrong} bytes for a tile of {per}')
    if n > 1:
        other = g.ImageTile(None, g.ImageFormat.I4 if per == 64 else g.ImageFormat.I8)
        mixed = list(tiles)
        mixed[rng.randrange(n)] = other
        ctx.raises('mixed formats refused', lambda: g.saveImageTiles(mixed), (ValueError,), 'mixed formats')

    # tilemaps
    if index < 1024:
        values = list(range(64 * index, 64 * index + 64))
        for v in values:
            t = g.TilemapTile(v)
            ctx.eq('every 16-bit tilemap value', (t.tileNum, t.hFlip, t.vFlip, t.paletteNum, t.value),
                (v & 0x3FF, bool(v & 0x400), bool(v & 0x800), v >> 12, v), f'value {v:#06x}')
    tf = rng.choice([g.TilemapFormat.I10H1V1P4, g.TilemapFormat.I8])
    n = rng.choice([0, 1, 33, rng.randrange(200)])
    if index % 300 == 8:
        n = rng.choice([255, 256, 257, 768, 1024, 2048, 4096, 4097, 16384, 70000])
    data2 = someBytes(rng, n * (1 if tf is g.TilemapFormat.I8 else 2))
    ctx.info('tilemap', [str(tf), data2])
    default = tf is g.TilemapFormat.I10H1V1P4 and rng.random() < 0.5
    tm = g.loadTilemapTiles(kind(data2)) if default else g.loadTilemapTiles(kind(data2), tf)
    ctx.eq('tilemap count', len(tm), n, 'tilemap tiles')
    want = []
    for i in range(n):
        if tf is g.TilemapFormat.I8:
            want.append((data2[i], False, False, 0))
        else:
            lo, hi = data2[2 * i:2 * i + 2]
            want.append((lo + 256 * (hi % 4), hi // 4 % 2 == 1, hi // 8 % 2 == 1, hi // 16))
    got = [(t.tileNum, t.hFlip, t.vFlip, t.paletteNum) for t in tm]
    ctx.eq('tilemap fields', got, want, f'{n} tilemap tiles')
    ctx.bytesEq('tilemap saved', g.saveTilemapTiles(tm), data2, 'tilemap')
    made = [g.TilemapTile.fromParameters(w[0], tf, *w[1:]) for w in want]
    ctx.bytesEq('tilemap saved', g.saveTilemapTiles(made), data2, 'tilemap from parameters')
    if n > 1:
        mixed = list(tm)
        mixed[rng.randrange(n)] = g.TilemapTile(0, g.TilemapFormat.I8 if tf is not g.TilemapFormat.I8 else
            g.TilemapFormat.I10H1V1P4)
        ctx.raises('mixed formats refused', lambda: g.saveTilemapTiles(mixed), (ValueError,), 'mixed formats')

    if tm:
        # Setting the number of a tile
        t = rng.choice(tm)
        before = (t.hFlip, t.vFlip, t.paletteNum) if tf is g.TilemapFormat.I8 else None
        if before and rng.random() < 0.5:
            t.hFlip, t.vFlip, t.paletteNum = before = (rng.random() < 0.5, rng.random() < 0.5, rng.randrange(16))
        v = rng.randrange(256 if before else 65536)
        t.value = v
        want = (v,) + before if before else (v & 0x3FF, bool(v & 0x400), bool(v & 0x800), v >> 12)
        ctx.eq('value set', (t.tileNum, t.hFlip, t.vFlip, t.paletteNum, t.value), want + (v,), f'{tf} value set to {v:#x}')

    # lookup and replacement
    items = [f'{i}' for i in range(n)]
    width = rng.choice([32, 32, 1, 2, 8, n or 1, n + 1, rng.randrange(1, 70)])
    kw = {} if width == 32 and rng.random() < 0.5 else {'width': width}
    rows = (n + width - 1) // width
    spots = [(x, y) for x in (-1, 0, 1, width - 1, width, width + 1) for y in (-1, 0, rows - 1, rows)]
    spots += [(rng.randrange(-2, width + 2), rng.randrange(-2, rows + 2)) for _ in range(6)]
    for x, y in spots:
        inside = 0 <= x < width and y >= 0 and y * width + x < n
        want = items[y * width + x] if inside else None
        ctx.eq('tile lookup', g.tileAt(items, x, y, **kw), want, f'({x}, {y}) of {n}, width {width}')
    for x, y in rng.sample(spots, 8):
        inside = 0 <= x < width and y >= 0 and y * width + x < n
        work = list(items)
        expect = list(items)
        if inside:
            expect[y * width + x] = 'new'
        ok = g.putTile(work, x, y, 'new', **kw)
        ctx.eq('tile replacement', (bool(ok), work), (inside, expect), f'({x}, {y}) of {n}, width {width}')
    if len(set(data)) > 1 or len(set(data2)) > 1:
        ctx.nontrivial(data, data2)
    if index in (3, 5):
        ctx.sample(f'{len(tiles)} tiles {fmt}, {n} tilemap tiles {tf}, width {width}: {data2[:32].hex()}')
