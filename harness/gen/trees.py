"""
Folder trees. A tree is (firstID, [file names], [(folder name, subtree)]).
"""
from ndspy import fnt

NICE = ['data', 'a', 'b', 'ab', 'A', 'file.bin', 'file.bin2', 'readme.txt', '0', '00', '1', 'sound_data.sdat',
        'x' * 127, 'y' * 126, 'z' * 64, 'name with space', '.', '..', 'caf\xe9', '\xff\xfe', 'na\x01me', 'TEX']


def name(rng, used, slash=False):
    while True:
        k = rng.random()
        if k < 0.6:
            n = rng.choice(NICE)
        elif k < 0.8:
            n = ''.join(rng.choice('abcABC01_.-') for _ in range(rng.randrange(1, 9)))
        else:
            n = ''.join(chr(rng.choice([rng.randrange(1, 256), rng.randrange(32, 127)]))
                        for _ in range(rng.choice([1, 2, rng.randrange(1, 128), 127])))
        if not slash:
            n = n.replace('/', '_')
        if n and n not in used:
            return n


def tree(rng, maxFolders=12, maxFiles=6, depth=6, firstStart=0, sequential=True, distinct=True):
    """
    With sequential, file ids are handed out without overlaps (in an
    order that depends on the style); otherwise first ids are arbitrary.
    """
    budget = [rng.randrange(0, maxFolders + 1)]
    style = rng.randrange(3)

    def make(d):
        used = set()
        files, folders = [], []
        for _ in range(rng.choice([0, 1, 2, rng.randrange(0, maxFiles + 1)])):
            n = name(rng, used)
            used.add(n)
            files.append(n)
        if rng.random() < 0.3:
            used = set()  # a folder may share its name with a file
        while budget[0] > 0 and d < depth and rng.random() < (0.9 if d == 0 else 0.55):
            budget[0] -= 1
            n = name(rng, used)
            used.add(n)
            folders.append([n, make(d + 1)])
        return [0, files, folders]

    root = make(0)
    nextId = [firstStart]

    def assign(t):
        # depth-first, before or after the subfolders
        if style == 1:
            for _, s in t[2]:
                assign(s)
        t[0] = nextId[0] if sequential else rng.choice([0, 1, 0xFFFF, rng.randrange(0x10000)])
        nextId[0] += len(t[1])
        if sequential and style == 2 and rng.random() < 0.3:
            nextId[0] += rng.randrange(0, 4)  # gap in the ids
        if style != 1:
            for _, s in t[2]:
                assign(s)
    assign(root)

    def freeze(t):
        return (t[0], list(t[1]), [(n, freeze(s)) for n, s in t[2]])
    return freeze(root), nextId[0]


def chain(rng, depth):
    t = (7, ['leaf'], [])
    for i in range(depth):
        t = (i & 0xFFFF, ['f%d' % i] if i % 3 == 0 else [], [('d%d' % i, t)])
    return t


def wide(rng, n):
    return (1, ['root.bin'], [('dir%04d' % i, (i + 2, ['f'] if i % 2 else [], [])) for i in range(n)])


def toFolder(t):
    return fnt.Folder([(n, toFolder(s)) for n, s in t[2]], list(t[1]), t[0])


def fromFolder(f):
    return (f.firstID, list(f.files), [(n, fromFolder(s)) for n, s in f.folders])


def allFiles(t, prefix=''):
    """[(path, id)]"""
    out = [(prefix + f, t[0] + i) for i, f in enumerate(t[1])]
    for n, s in t[2]:
        out += allFiles(s, prefix + n + '/')
    return out


def allFolders(t, prefix=''):
    out = []
    for n, s in t[2]:
        out.append((prefix + n, s))
        out += allFolders(s, prefix + n + '/')
    return out
