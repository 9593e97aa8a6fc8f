"""
Workload for code compression: data around the compress/store decision and
data whose end resembles a footer.
"""
from gen import blobs


def nearThreshold(rng):
    """Barely compressible data: literals with just a few repeats."""
    n = rng.randrange(4, 160)
    out = bytearray(rng.randbytes(n))
    for _ in range(rng.randrange(0, 6)):
        if len(out) > 10:
            ln = rng.randrange(3, 20)
            s = rng.randrange(0, len(out))
            p = rng.randrange(0, len(out))
            out[p:p + ln] = out[s:s + ln]
    if rng.random() < 0.5:
        out += bytes([rng.choice([0, 0xFF, 1])]) * rng.randrange(0, 30)
    return bytes(out)


def footerLikeEnd(rng):
    """Data whose final bytes look a bit like a footer without being one."""
    body = bytearray(blobs.blob(rng, rng.randrange(0, 120)))
    while len(body) % 4:
        body.append(rng.randrange(256))
    headerLen = rng.choice([8, 8, 9, 10, 11, 12, 16, 40, 200, 255, rng.randrange(256), 7])
    compLen = rng.choice([0, 4, 7, headerLen, len(body), len(body) + 8, len(body) + 9,
                          0xFFFFFF, rng.randrange(0, 300)])
    extra = rng.choice([0, 0, 1, 4, rng.randrange(1, 100), 0xFFFFFFFF])
    body += compLen.to_bytes(3, 'little') + bytes([headerLen]) + extra.to_bytes(4, 'little')
    body += rng.choice([b'', b'\0' * 4, rng.randbytes(4 * rng.randrange(0, 8)),
                        b'\x21\x06\xC0\xDE' + rng.randbytes(4) + b'\0\0\0\0'])
    return bytes(body)


def codeData(rng, index):
    k = index % 8
    if k == 0:
        return nearThreshold(rng)
    if k == 1:
        return footerLikeEnd(rng)
    if k == 2:
        return blobs.blob(rng, rng.randrange(0, 40))
    if k == 3:
        return blobs.farRepeat(rng, 10, 0x1002)[::-1] if rng.random() < 0.3 else nearThreshold(rng) * 2
    if k == 4:
        # incompressible start, compressible end (leaves a raw prefix) and vice versa
        a, b = rng.randbytes(rng.randrange(0, 300)), blobs.lzLike(rng, rng.randrange(0, 400))
        return a + b if rng.random() < 0.6 else b + a
    if k == 5:
        return blobs.codeLike(rng, rng.randrange(0, 1500))
    return blobs.blob(rng, big=1500)
