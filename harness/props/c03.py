"""Code compression is lossless."""

from ndspy import codeCompression as cc
from gen import blobs, codeblobs
from ref import lz

CASES = {'quick': 9300, 'thorough': 60000}
RULE = ('Byte strings around the compress/store threshold, with footer-like ends, code-like and'
        ' LZ-structured data, all lengths 0-60 in three fillings, with the main-code option on'
        ' data shorter and longer than 16 KiB. Non-trivial = at least 4 bytes; distinct by'
        ' content and option.')
REQUIRED = {'decompress(compress(x)) == x': 2000, 'stored data comes back': 500,
            'main-code option round trip': 300, 'input unchanged': 200}
ASSUMPTIONS = ['Data that, once stored, ends in a well-formed footer is inherently ambiguous'
               ' in this format and is skipped (counted under workload).']


def ambiguous(data, arm9):
    """Would the stored form of this data itself read as compressed?"""
    part = data[0x4000:] if arm9 else data
    stored = bytearray(data) + bytes(-len(part) % 4 if part else 0) + bytes(4)
    return lz.anyFooter(bytes(stored)) or lz.anyFooter(bytes(data) + bytes(4))


def makeData(rng, index):
    if index < 183:
        n = index // 3
        return [bytes(n), bytes(i * 7 & 255 for i in range(n)), b'abc' * n][index % 3], False
    if index == 183:
        return blobs.lzLike(rng, 0x60000), False
    if index == 184:
        return blobs.huge(rng, 0x4000) + blobs.huge(rng, 0x310000), True
    if index % 600 == 185:
        return (blobs.huge(rng, rng.randrange(0x10000, 0x180000)) if rng.random() < 0.6
                else blobs.lzLike(rng, rng.randrange(0x10000, 0x40000))), rng.random() < 0.5
    if index % 16 == 7:
        n = rng.choice([0, 3, 8, 100, 0x3FFC, 0x4000 - 1, 0x4000, 0x4001, 0x4004, 0x4000 + rng.randrange(0, 900)])
        base = blobs.codeLike(rng, n) if rng.random() < 0.5 else blobs.lzLike(rng, min(n, 0x4000)) + blobs.blob(rng, max(0, n - 0x4000))
        return base[:n] + codeblobs.nearThreshold(rng) * rng.randrange(0, 3), True
    if index % 200 == 9:
        return blobs.blob(rng, rng.randrange(4000, 20000)), rng.random() < 0.4
    return codeblobs.codeData(rng, index), rng.random() < 0.1


def case(ctx, rng, index):
    data, arm9 = makeData(rng, index)
    ctx.info('data', data)
    ctx.info('isArm9', arm9)
    keep = bytes(data)
    src = bytearray(data) if index % 6 == 0 else data
    comp = cc.compress(src, arm9) if arm9 or index % 3 else cc.compress(src)
    if isinstance(src, bytearray):
        ctx.bytesEq('input unchanged', src, keep, 'compress changed its input')
    ctx.info('compressed', comp)
    amb = ambiguous(keep, arm9)
    cin = bytearray(comp) if index % 6 == 3 else comp
    if amb:
        # Only the compress direction has a defined answer here
        ctx.note('ambiguous data skipped')
        try:
            out = cc.decompress(cin)
        except Exception:
            return
        if bytes(out) != keep:
            return
    else:
        out = cc.decompress(cin)
    if isinstance(cin, bytearray):
        ctx.bytesEq('input unchanged', cin, comp, 'decompress changed its input')
    if bytes(out) == keep:
        ctx.check('decompress(compress(x)) == x', True)
    else:
        extra = bytes(out)[len(keep):]
        ctx.check('stored data comes back',
            bytes(out)[:len(keep)] == keep and len(extra) <= 7 and not any(extra),
            lambda: f'got {len(out)} bytes {bytes(out)[:64].hex()}, expected {len(keep)} bytes'
                    f' {keep[:64].hex()} (compressed form has {len(comp)} bytes)')
        # Only incompressible data may come back with padding
        ctx.check('padding only when stored', len(comp) >= len(keep),
            'padding was added although the data was really compressed')
    if arm9:
        ctx.check('main-code option round trip', True)
    if len(keep) >= 4:
        ctx.nontrivial(keep, arm9)
    if index in (200, 201, 215):
        ctx.sample(f'{len(keep)} bytes (main-code {arm9}) -> {len(comp)} -> {len(out)}')
