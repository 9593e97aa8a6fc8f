"""LZ10 streams interoperate with other tools."""

from ndspy import lz10
from gen import blobs
from ref import lz

CASES = {'quick': 28000, 'thorough': 168000}
RULE = ('Even cases compress generated byte strings and judge the stream with a strict'
        ' independent decoder and a greedy size model; odd cases encode random legal token'
        ' streams with an independent encoder and decompress them. Non-trivial = contains at'
        ' least one back-reference.')
REQUIRED = {'stream valid for strict decoder': 1000, 'size within greedy model': 500,
            'foreign stream decodes': 1000, 'overlapping references decode': 300,
            'longest reference seen': 20, 'farthest reference seen': 20,
            'non-LZ10 data refused': 100}
ASSUMPTIONS = ['The reference decoder implements the published LZ10 (type 0x10) format.']


def compressCase(ctx, rng, index):
    if index % 2000 == 98:
        data = blobs.huge(rng, rng.choice([0x10000, 0x18000, 0x120000]) + rng.randrange(0x8000))
    elif index % 10 == 0:
        data = blobs.farRepeat(rng, rng.randrange(10))
    elif index % 64 == 2:
        data = blobs.blob(rng, rng.randrange(3000, 20000))
    elif index < 80:
        data = [bytes(index), bytes(range(index))][index // 2 % 2]
    else:
        data = blobs.blob(rng, big=2000)
    ctx.info('data', data)
    stream = lz10.compress(data)
    ctx.info('stream', stream)
    try:
        out, tokens, used = lz.lz10Decode(bytes(stream))
    except lz.Bad as e:
        ctx.check('stream valid for strict decoder', False, str(e))
    ctx.bytesEq('stream valid for strict decoder', out, data, 'independent decoding')
    ctx.eq('declared length', int.from_bytes(stream[1:4], 'little'), len(data), 'length field')
    tail = bytes(stream[used:])
    ctx.check('only padding after the last token', len(tail) <= 16 and not any(tail),
        f'{len(tail)} stray bytes after the stream: {tail[:20].hex()}')
    refs = [t for t in tokens if t[0] == 'ref']
    for t in refs:
        if t[1] == 18:
            ctx.check('longest reference seen', True)
        if t[2] >= 4096 - 1:
            ctx.check('farthest reference seen', True)
    if len(data) <= 5000:
        cost = 4 + lz.greedyCost(data, 4096) + 7
        ctx.check('size within greedy model', len(stream) <= cost,
            lambda: f'{len(stream)} bytes, greedy longest-match coding needs at most {cost}')
    if refs:
        ctx.nontrivial(b'c', data)
    if index in (300, 302):
        ctx.sample(f'compress {len(data)} bytes: {len(tokens)} tokens, {len(refs)} references, {len(stream)} bytes')


def randomTokens(rng, limit):
    tokens = []
    n = 0
    style = rng.randrange(4)
    while n < limit:
        if n and rng.random() < (0.2, 0.5, 0.8, 0.97)[style]:
            length = rng.choice([3, 4, 17, 18, rng.randrange(3, 19)])
            k = rng.random()
            if k < 0.35:
                dist = rng.randrange(1, min(n, 20) + 1)
            elif k < 0.55:
                dist = min(n, 4096)
            else:
                dist = rng.randrange(1, min(n, 4096) + 1)
            tokens.append(('ref', length, dist))
            n += length
        else:
            tokens.append(('lit', rng.randrange(256)))
            n += 1
    return tokens, n


def decodeCase(ctx, rng, index):
    limit = rng.choice([0, 1, 8, 60, 300, 300, 2000, 6000])
    if index % 1000 == 97:
        limit = rng.choice([0x10000, 0x20000, 0x100000]) + rng.randrange(0x1000)
        ctx.note('foreign streams above 64 KiB')
    tokens, n = randomTokens(rng, limit)
    want = lz.expand(tokens)
    total = len(want)
    if tokens and tokens[-1][0] == 'ref' and rng.random() < 0.2:
        # Some encoders let the last reference run past the end; the
        # declared length rules.
        cut = rng.randrange(1, tokens[-1][1])
        total -= cut
        want = want[:total]
        ctx.note('streams ending inside a reference')
    stream = lz.lz10Encode(tokens, total)
    tail = rng.choice([b'', b'', b'\0', b'\0\0\0', b'\xff\xff', rng.randbytes(rng.randrange(1, 9))])
    stream += tail
    ctx.info('tokens', tokens[:60])
    ctx.info('stream', stream)
    form = bytearray(stream) if index % 4 == 1 else stream
    got = lz10.decompress(form)
    ctx.bytesEq('foreign stream decodes', got, want, 'decompress of a foreign stream')
    if any(t[0] == 'ref' and t[2] < t[1] for t in tokens):
        ctx.check('overlapping references decode', True)
    if any(t[0] == 'ref' for t in tokens):
        ctx.nontrivial(b'd', stream)
    if index % 8 == 3:
        first = rng.choice([0, 0x11, 0x40, 0x30, 0x0F, 0x50, 0x90, 0xFF, 0x01, rng.randrange(256)])
        if first != 0x10:
            bad = bytes([first]) + stream[1:]
            ctx.raises('non-LZ10 data refused', lambda: lz10.decompress(bad), Exception,
                f'decompress of data with type byte {first:#x}')
    if index in (301, 303):
        ctx.sample(f'decompress {len(tokens)} foreign tokens -> {total} bytes')


def case(ctx, rng, index):
    if index % 2 == 0:
        compressCase(ctx, rng, index)
    else:
        decodeCase(ctx, rng, index)
