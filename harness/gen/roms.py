"""
ROM models (see ref.rom) and archive contents.
"""
from ndspy import rom
from gen import blobs, trees
from ref import rom as ref


def number(rng, size):
    top = 1 << (8 * size)
    return rng.choice([0, 1, top - 1, top >> 1, rng.randrange(top), rng.randrange(top)])


def files(rng, n, big=1500):
    out = []
    for _ in range(n):
        k = rng.random()
        if k < 0.15:
            out.append(b'')
        elif k < 0.3 and out:
            out.append(rng.choice(out))
        elif k < 0.4:
            out.append(blobs.exact(rng, rng.choice([1, 2, 3, 4, 5, 0x1FF, 0x200, 0x201, 0x400])))
        else:
            out.append(blobs.blob(rng, big=big))
    return out


def overlayTable(rng, fileIds, idBase=0):
    out = bytearray()
    for k, fid in enumerate(fileIds):
        words = [idBase + k, rng.randrange(1 << 32), rng.randrange(1 << 24), rng.randrange(1 << 16),
                 rng.randrange(1 << 32), rng.randrange(1 << 32), fid, rng.randrange(1 << 25)]
        for w in words:
            out += w.to_bytes(4, 'little')
    return bytes(out)


def banner(rng):
    version = rng.choice([1, 1, 2, 3, 0x103, 7, 0])
    n = ref.BANNER.get(version, 0x840)
    return version.to_bytes(2, 'little') + blobs.exact(rng, n - 2)


def model(rng, maxFiles=14, big=1500):
    m = {}
    for name, off, size in ref.FIELDS:
        m[name] = rng.randbytes(-size) if size < 0 else number(rng, size)
    m['name'] = rng.choice([b'', b'GAME', b'TWELVE BYTES', b'A\0B', rng.randbytes(12)]).rstrip(b'\0')
    if rng.random() < 0.5:
        m['nintendoLogo'] = bytes(rom.NintendoDSRom().nintendoLogo)
    m['pad200'] = rng.choice([bytes(0x3E00), blobs.exact(rng, 0x3E00), blobs.exact(rng, 0x7E00)])
    m['arm9'] = notMagic(blobs.blob(rng, big=big * 2))
    m['arm9PostData'] = b''.join(b'\x21\x06\xc0\xde' + rng.randbytes(8) for _ in range(rng.choice([0, 0, 1, 2])))
    if m['arm9PostData'] == b'' and rng.random() < 0.5:
        # exercise code filling its slot exactly, and one more or less
        m['arm9'] = blobs.exact(rng, rng.choice([0x200, 0x1FF, 0x201, 0]))
    m['arm7'] = blobs.blob(rng, big=big)
    if m['arm7'][:4] == b'\x21\x06\xc0\xde':
        m['arm7'] = b''
    n = rng.choice([0, 1, 2, rng.randrange(0, maxFiles + 1), maxFiles]) if maxFiles < 200 else maxFiles
    fs = files(rng, n, big)
    ids = list(range(n))
    rng.shuffle(ids)
    k9 = rng.choice([0, 0, 1, rng.randrange(0, n + 1)]) if n else 0
    k7 = rng.choice([0, 0, rng.randrange(0, n - k9 + 1)]) if n else 0
    m['arm9OverlayTable'] = overlayTable(rng, ids[:k9])
    m['arm7OverlayTable'] = overlayTable(rng, ids[k9:k9 + k7])
    m['iconBanner'] = rng.choice([b'', banner(rng)])
    m['debugRom'] = rng.choice([b'', b'', blobs.blob(rng, big=big)])
    m['rsaSignature'] = rng.choice([b'', rng.randbytes(0x88)])
    m['tree'] = trees.tree(rng, maxFolders=8, maxFiles=4, firstStart=rng.choice([0, k9 + k7]))[0]
    m['files'] = fs
    order = list(range(n))
    style = rng.randrange(4)
    if style == 1:
        rng.shuffle(order)
    elif style == 2:
        rng.shuffle(order)
        order = order[:rng.randrange(0, n + 1)]
    elif style == 3:
        order = []
    m['order'] = order
    return m


def notMagic(b):
    return b


def toRom(m):
    r = rom.NintendoDSRom()
    for name, _, _ in ref.FIELDS:
        setattr(r, name, m[name])
    for part in ref.PARTS:
        setattr(r, part, m[part])
    r.filenames = trees.toFolder(m['tree'])
    r.files = list(m['files'])
    r.sortedFileIds = list(m['order'])
    return r


def describe(r):
    """Everything visible about a ROM object, as plain comparable data."""
    d = {}
    for name, _, size in ref.FIELDS:
        v = getattr(r, name)
        d[name] = bytes(v) if size < 0 else v
    for part in ref.PARTS:
        d[part] = bytes(getattr(r, part))
    d['tree'] = trees.fromFolder(r.filenames)
    d['files'] = [bytes(f) for f in r.files]
    d['order'] = list(r.sortedFileIds)
    return d


def expectedPad200(m, sigOffset):
    """What the area between header and code holds after saving: padded, signature offset patched in."""
    b = bytearray(0x200) + m['pad200']
    b += bytes(-len(b) % 0x4000)
    b[0x1000:0x1004] = sigOffset.to_bytes(4, 'little')
    return bytes(b[0x200:])
