"""Compressed code follows the DS in-place format."""

from ndspy import codeCompression as cc
from gen import blobs, codeblobs
from ref import lz

CASES = {'quick': 90000, 'thorough': 540000}
RULE = ('One third compresses generated data and expands the result in place with an independent'
        ' console-style expander; one third encodes random legal token streams (any header padding,'
        ' 0-0x1C appended bytes) independently and decompresses them; one third feeds data without a'
        ' well-formed footer. Non-trivial = really compressed, or containing a back-reference, or a'
        ' footer look-alike.')
REQUIRED = {'console-style expansion gives the data': 700, 'foreign image decodes': 1200,
            'foreign image with appended data': 500, 'data without footer returned unmodified': 1200,
            'first 16 KiB left raw': 100, 'size within greedy model': 300}
ASSUMPTIONS = ['The reference expander follows the published backwards LZ format used by the SDK.']


def compressCase(ctx, rng, index):
    arm9 = index % 5 == 0
    if arm9:
        n = rng.choice([rng.randrange(0, 0x4000), 0x4000, 0x4000 + rng.randrange(0, 2000), 0x4000 + 600])
        data = blobs.codeLike(rng, min(n, 0x4000)) + blobs.lzLike(rng, max(0, n - 0x4000))
    elif index % 3000 == 3:
        data = (blobs.huge(rng, rng.randrange(0x10000, 0x180000)) if rng.random() < 0.6
                else blobs.lzLike(rng, rng.randrange(0x10000, 0x40000)))
    elif index % 300 == 3:
        data = blobs.blob(rng, rng.randrange(4000, 20000))
    else:
        data = codeblobs.codeData(rng, index // 3)
    ctx.info('data', data)
    comp = bytes(cc.compress(data, arm9))
    ctx.info('compressed', comp)
    prefixLen = min(0x4000, len(data)) if arm9 else 0
    if arm9:
        ctx.bytesEq('first 16 KiB left raw', comp[:prefixLen], data[:prefixLen], 'start of compressed main code')
    part = data[prefixLen:]
    if len(comp) >= len(data) + 4 or not part:
        # Stored: data, padding to a word, and a zero word
        want = data + bytes(-len(part) % 4 if part else 0) + bytes(4)
        ctx.bytesEq('stored form', comp, want, 'uncompressible data')
        cost = None
        if len(part) <= 5000:
            cost = lz.greedyCost(part[::-1], 0x1002)
            ctx.check('stored only when compression would not help', cost + 16 >= len(part),
                lambda: f'{len(part)} bytes stored although greedy coding needs {cost} bytes')
        return
    try:
        image, stop, tokens = lz.backwardExpandInPlace(comp)
    except lz.Bad as e:
        ctx.check('console-style expansion gives the data', False, str(e))
    ctx.bytesEq('console-style expansion gives the data', image, data, 'in-place expansion')
    headerLen, compressedLen, extra = lz.footerAt(comp, 0)
    ctx.eq('footer: total size', len(comp) + extra, len(data), 'file size + extra size')
    ctx.check('footer: header length', 8 <= headerLen <= 11, f'header length {headerLen}')
    ctx.eq('word-aligned size', (len(comp) - prefixLen) % 4, 0, 'compressed size')
    ctx.check('compressed area after raw prefix', len(comp) - compressedLen >= prefixLen,
        'compressed area reaches into the raw prefix')
    if len(part) <= 5000:
        cost = lz.greedyCost(part[::-1], 0x1002)
        ctx.check('size within greedy model', len(comp) - prefixLen <= (cost + 3 & ~3) + 8,
            lambda: f'{len(comp) - prefixLen} bytes, greedy coding needs {cost}')
    ctx.nontrivial(b'c', data, arm9)
    if index in (300, 303, 306):
        ctx.sample(f'compress {len(data)} bytes -> {len(comp)}; raw prefix {stop}, {tokens} tokens, extra {extra}')


def randomTokens(rng, limit):
    tokens = []
    n = 0
    p = rng.choice([0.4, 0.6, 0.85, 0.97])
    while n < limit:
        if n >= 3 and rng.random() < p:
            length = rng.choice([3, 17, 18, rng.randrange(3, 19)])
            k = rng.random()
            if k < 0.35:
                dist = rng.randrange(3, min(n, 20) + 1)
            elif k < 0.5:
                dist = min(n, 0x1002)
            else:
                dist = rng.randrange(3, min(n, 0x1002) + 1)
            tokens.append(('ref', length, dist))
            n += length
        else:
            tokens.append(('lit', rng.randrange(256)))
            n += 1
    return tokens


def foreignCase(ctx, rng, index):
    for _ in range(50):
        tokens = randomTokens(rng, rng.choice([20, 60, 300, 300, 2000, 6000]) if index % 3000 != 1 else
            rng.choice([0x10000, 0x40000, 0x100000]) + rng.randrange(0x1000))
        passthrough = rng.choice([b'', blobs.blob(rng, rng.randrange(0, 80)), rng.randbytes(rng.randrange(0, 9))])
        if index % 100 == 1:
            passthrough = blobs.codeLike(rng, rng.choice([0x4000, 0x4000, 0x4000, 0x12000]))
        padding = rng.choice([0, 1, 2, 3, rng.randrange(0, 12), rng.randrange(0, 248)])
        appended = rng.choice([b'', b'\x21\x06\xC0\xDE' + rng.randbytes(4) + b'\0\0\0\0',
                               rng.randbytes(4 * rng.randrange(0, 8)), rng.randbytes(0x1C), bytes(4 * rng.randrange(0, 8)),
                               b'\xff' * (4 * rng.randrange(0, 8))])
        built = lz.backwardEncode(tokens, passthrough, padding, appended)
        if built is None:
            continue
        image, want = built
        if any(lz.footerAt(image, a) for a in range(0, len(appended), 4)):
            continue  # the appended bytes happen to look like a footer themselves
        break
    else:
        ctx.note('could not build a foreign image')
        return
    ctx.info('image', image)
    ctx.info('padding, appended', (padding, appended))
    got = cc.decompress(bytearray(image) if index % 4 == 0 else image)
    ctx.bytesEq('foreign image decodes', got, want, 'decompress of a foreign image')
    if appended:
        ctx.check('foreign image with appended data', True)
    ctx.nontrivial(b'f', image)
    if index in (301, 304):
        ctx.sample(f'foreign image {len(image)} bytes ({len(tokens)} tokens, padding {padding},'
                   f' {len(appended)} appended) -> {len(want)}')


def plainCase(ctx, rng, index):
    k = rng.randrange(4)
    if k == 0:
        data = codeblobs.footerLikeEnd(rng)
    elif k == 1:
        data = blobs.blob(rng, rng.randrange(0, 48))
    elif k == 2:
        data = blobs.codeLike(rng, rng.randrange(0, 400)) + b'\x21\x06\xC0\xDE\xDE\xC0\x06\x21' + bytes(4 * rng.randrange(0, 5))
    else:
        data = codeblobs.codeData(rng, rng.randrange(1000))
    if lz.anyFooter(data):
        ctx.note('plain data with a footer by chance')
        return
    ctx.info('data', data)
    got = cc.decompress(data)
    ctx.bytesEq('data without footer returned unmodified', got, data, 'decompress of uncompressed data')
    if k == 0:
        ctx.nontrivial(b'p', data)


def case(ctx, rng, index):
    (compressCase, foreignCase, plainCase)[index % 3](ctx, rng, index)
