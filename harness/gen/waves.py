from ndspy import WaveType, soundWave
from gen import blobs


def wave(rng, limit=400):
    loop = rng.choice([0, 0, 1, 65535, rng.randrange(65536)])
    total = loop + rng.choice([0, 1, 100, 0xFFFFFFFF, rng.randrange(1 << 16), rng.randrange(1 << 32)])
    data = rng.choice([lambda: b'', lambda: rng.randbytes(rng.randrange(0, limit)),
                       lambda: rng.randbytes(4 * rng.randrange(0, limit // 4)),
                       lambda: bytes(rng.randrange(0, limit)), lambda: blobs.blob(rng, rng.randrange(0, limit))])()
    return (rng.randrange(3), rng.random() < 0.5, rng.choice([8000, 32728, 0, 65535, rng.randrange(65536)]),
            rng.choice([0, 65535, rng.randrange(65536)]), loop, total, data)


KEYS = ('waveType', 'isLooped', 'sampleRate', 'time', 'loopOffset', 'totalLength')


def toWave(w):
    kw = dict(zip(KEYS, w))
    kw['waveType'] = WaveType(w[0])
    return soundWave.SWAV.fromData(w[6], **kw)


def describe(s):
    return tuple(int(getattr(s, k)) if k != 'isLooped' else bool(getattr(s, k)) for k in KEYS) + (bytes(s.data),)


def size(rng, channels):
    return rng.choice([0, 1, 2, 3, 4, 5, 16, 31, 32, 512, rng.randrange(0, 700)])


def stream(rng):
    """(fields, channels, settings)"""
    from ref.waves import STRM_FIELDS
    u32 = lambda: rng.choice([0, 0, 1, 0xFFFFFFFF, rng.randrange(1 << 32)])
    f = {k: u32() for k in STRM_FIELDS}
    n = rng.choice([1, 1, 2, 2, 3, 8])
    blocks = rng.choice([1, 1, 2, 3, 10]) if rng.random() < 0.999 else rng.choice([255, 256, 300])
    if rng.random() < 0.001:
        n = rng.choice([16, 17, 128, 255])
    f['waveType'] = rng.randrange(3)
    f['isLooped'] = rng.random() < 0.5
    f['unk03'] = rng.randrange(256)
    f['sampleRate'] = rng.choice([8000, 32728, 65535, rng.randrange(65536)])
    f['time'] = rng.randrange(65536)
    f['samplesPerBlock'] = rng.choice([0, 1, 1016, rng.randrange(1 << 20)])
    f['samplesInLastBlock'] = rng.choice([0, 1, 1016, rng.randrange(1 << 20)])
    k = rng.random()
    if k < 0.04:
        n = 0
    elif k < 0.08:
        blocks = 0
    if n == 0 or blocks == 0:
        f['samplesPerBlock'] = 0
    per, last = size(rng, n), size(rng, n)
    if rng.random() < 0.5:
        last = min(last, per)
    if blocks == 1:
        per = last
        if f['waveType'] == 2:
            last = per = max(4, last)
    channels = [[rng.randbytes(last if b == blocks - 1 else per) for b in range(blocks)] for _ in range(n)]
    settings = (rng.randrange(1 << 16),) + tuple(rng.randrange(256) for _ in range(4))
    return f, channels, settings
