"""
Byte-string workloads: realistic, periodic, incompressible and boundary-hugging.
"""


def randBytes(rng, n):
    return rng.randbytes(n) if n else b''


def size(rng, big=4000):
    """A length, biased to small and to multiples/near-multiples of powers of two."""
    k = rng.random()
    if k < 0.12:
        return rng.randrange(0, 9)
    if k < 0.45:
        return rng.randrange(0, 80)
    if k < 0.75:
        return rng.randrange(0, 600)
    if k < 0.85:
        p = 1 << rng.randrange(2, max(3, big.bit_length()))
        return max(0, min(big, p + rng.randrange(-3, 4)))
    return rng.randrange(0, big + 1)


def lzLike(rng, n, window=0x1000, maxLen=24, alphabet=None):
    """Data assembled from literals and copies of earlier data at assorted distances."""
    out = bytearray()
    pCopy = rng.choice([0.2, 0.5, 0.8, 0.95])
    alpha = alphabet or rng.choice([None, None, b'\0\xff', b'abcdefgh', bytes(range(16))])
    while len(out) < n:
        if out and rng.random() < pCopy:
            k = rng.random()
            if k < 0.3:
                dist = rng.randrange(1, min(len(out), 20) + 1)
            elif k < 0.6:
                dist = min(len(out), max(1, window + rng.randrange(-20, 21)))
            else:
                dist = rng.randrange(1, len(out) + 1)
            length = rng.choice([rng.randrange(1, 5), rng.randrange(3, maxLen), 17, 18, 19, 36])
            for _ in range(length):
                out.append(out[-dist])
        else:
            m = rng.randrange(1, rng.choice([3, 12, 40]))
            if alpha:
                out += bytes(rng.choice(alpha) for _ in range(m))
            else:
                out += rng.randbytes(m)
    return bytes(out[:n])


def codeLike(rng, n):
    """Something like ARM code: words sharing their high bytes, pools of addresses."""
    ops = [0xE5900000, 0xE1A00000, 0xEB000000, 0xE92D4000, 0xE3A01000, 0x02000000]
    out = bytearray()
    while len(out) < n:
        w = rng.choice(ops) | (rng.randrange(16) << 12) | rng.randrange(rng.choice([4, 256, 4096]))
        out += (w & 0xFFFFFFFF).to_bytes(4, 'little')
    return bytes(out[:n])


def huge(rng, n):
    """Large data that is cheap to code: runs, repeats and short random stretches."""
    out = bytearray()
    while len(out) < n:
        k = rng.randrange(3)
        if k == 0:
            out += bytes([rng.randrange(256)]) * rng.randrange(1, 60000)
        elif k == 1:
            unit = rng.randbytes(rng.randrange(1, 3000))
            out += unit * rng.randrange(1, 40000 // len(unit) + 2)
        else:
            out += rng.randbytes(rng.randrange(1, 300))
    return bytes(out[:n])


def farRepeat(rng, n, window=0x1000):
    """A chunk, incompressible filler of about one window, then the chunk again."""
    chunk = rng.randbytes(rng.randrange(3, 40))
    filler = rng.randbytes(max(0, window - len(chunk) + rng.randrange(-4, 5)))
    return (chunk + filler + chunk + rng.randbytes(rng.randrange(0, 9)))[:max(n, 1) + window + 60]


def blob(rng, n=None, big=4000):
    if n is None:
        n = size(rng, big)
    k = rng.randrange(9)
    if k == 0:
        return randBytes(rng, n)
    if k == 1:
        return bytes([rng.choice([0, 0xFF, rng.randrange(256)])]) * n
    if k == 2:
        unit = rng.randbytes(rng.randrange(1, 40))
        return (unit * (n // len(unit) + 1))[:n]
    if k == 3:
        return bytes(rng.randrange(2) for _ in range(n))
    if k == 4:
        return codeLike(rng, n)
    if k == 5:
        base = bytearray(lzLike(rng, n))
        for _ in range(rng.randrange(0, 6)):
            if base:
                base[rng.randrange(len(base))] = rng.randrange(256)
        return bytes(base)
    if k == 6:
        a = randBytes(rng, n // 2)
        return a + a[:n - len(a)] + bytes(max(0, n - 2 * len(a)))
    if k == 7:
        return lzLike(rng, n, alphabet=b'\0\xff\x10\x11')
    return lzLike(rng, n)


def exact(rng, n):
    b = blob(rng, n)
    if len(b) < n:
        b += bytes(n - len(b))
    return b[:n]
