"""LZ10 compression is lossless."""

from ndspy import lz10
from gen import blobs

CASES = {'quick': 19000, 'thorough': 114000}
RULE = ('Byte strings: edge lengths 0-40 exhaustively in three fillings, then random,'
        ' periodic, LZ-structured, code-like and window-straddling data; non-trivial ='
        ' at least 3 bytes long. Distinct by content.')
REQUIRED = {'decompress(compress(x)) == x': 1000, 'input unchanged': 500,
            'bytearray gives same result': 300}
ASSUMPTIONS = ['Of sizes above 64 KiB a few dozen per run are tried, up to the format limit of 16 MiB - 1.']


def makeData(ctx, rng, index):
    if index < 123:
        n = index // 3
        return [bytes(n), bytes(i & 255 for i in range(n)), b'ab' * (n // 2) + b'c' * (n & 1)][index % 3]
    if index == 123:
        return rng.randbytes(0x10000 + 5)
    if index == 124:
        return b'\xAA' * 0x10123
    if index == 125:
        return blobs.lzLike(rng, 0x20000)
    if index == 126:
        return blobs.codeLike(rng, 0x11000)
    if index == 127:
        return bytes(0x030201)
    if index == 128:
        return blobs.huge(rng, 0x110203)
    if index == 129:
        # the largest size the 24-bit length field can express
        return b'\xA5' * (0xFFFFFF - 700) + rng.randbytes(700)
    if index == 130:
        return blobs.huge(rng, 0x810000 + rng.randrange(0x10000))
    if index % 1000 == 131:
        return blobs.huge(rng, rng.randrange(0x10000, 0x200000))
    if index % 8 == 0:
        return blobs.farRepeat(rng, rng.randrange(10))
    if index % 50 == 1:
        return blobs.blob(rng, rng.randrange(4000, 30000))
    return blobs.blob(rng, big=2500)


def case(ctx, rng, index):
    data = makeData(ctx, rng, index)
    ctx.info('data', data)
    keep = bytes(data)
    comp = lz10.compress(data)
    out = lz10.decompress(comp)
    ctx.bytesEq('decompress(compress(x)) == x', out, keep, 'round trip')
    if index % 5 == 0:
        buf = bytearray(data)
        comp2 = lz10.compress(buf)
        ctx.bytesEq('input unchanged', buf, keep, 'compress changed its input')
        cbuf = bytearray(comp2)
        out2 = lz10.decompress(cbuf)
        ctx.bytesEq('input unchanged', cbuf, comp2, 'decompress changed its input')
        ctx.bytesEq('bytearray gives same result', comp2, comp, 'compress(bytearray)')
        ctx.bytesEq('bytearray gives same result', out2, keep, 'decompress(bytearray)')
    if len(keep) >= 3:
        ctx.nontrivial(keep)
    ctx.note('bytes compressed', len(keep))
    ctx.note('bytes of compressed output', len(comp))
    if index in (200, 201, 208):
        ctx.sample(f'{len(keep)} bytes -> {len(comp)} -> {len(out)}; starts {keep[:24].hex()}')
