"""
Independently written files of every format, with one way to load and save them all.
"""

import enum
import struct

import ndspy
from ndspy import (bmg, bnbl, bncl, code, color, fnt, graphics2D, model, narc, rom, soundArchive, soundBank,
                   soundSequence, soundSequenceArchive, soundStream, soundWave, soundWaveArchive, texture)
from gen import banks, blobs, bmgs, codeblobs, maincode, roms, sdats, seqs, textures, trees, waves
from ref import bmg as rbmg, fnt as rfnt, lz, narc as rnarc, rom as rrom, sbnk, sdat, seq, sndfile, tex
from ref import waves as rwaves


def w16(rng):
    return rng.choice([0, 1, 65535, rng.randrange(65536)])


def byte(rng):
    return rng.choice([0, 127, 255, rng.randrange(256)])


def saved(x):
    """The result of a save function in a comparable form: (file, settings...)"""
    if isinstance(x, tuple):
        return (bytes(x[0]),) + tuple(tuple(v) if isinstance(v, list) else v for v in x[1:])
    return (bytes(x),)


class Kind:
    """
    A format. file(rng) gives (bytes, constructor arguments); magic tells
    whether the loader can recognise its format at all.
    """
    cls = None
    magic = True

    def load(self, data, args):
        return self.cls(data, *args)

    def save(self, obj):
        return saved(obj.save())

    def fromFile(self, path, args):
        return self.cls.fromFile(path, *args)

    def toFile(self, obj, path):
        obj.saveToFile(path)

    def resaved(self, data, args):
        """What saving must give for an object loaded from such a file."""
        return (data,) + tuple(tuple(v) if isinstance(v, list) else v for v in args)


class Rom(Kind):
    cls = rom.NintendoDSRom
    magic = False

    def file(self, rng):
        return rrom.build(roms.model(rng, 6, 300)), ()


class Narc(Kind):
    cls = narc.NARC

    def file(self, rng):
        tree, n = trees.tree(rng, 4, 4, 3)
        files = [blobs.blob(rng, rng.randrange(60)) for _ in range(max(n, rng.randrange(6)))]
        return rnarc.build(files, tree, rng.choice('<<>')), ()


class Fnt(Kind):
    magic = False

    def file(self, rng):
        return rfnt.build(trees.tree(rng, 6, 5, 4)[0]), ()

    def load(self, data, args):
        return fnt.load(data)

    def save(self, obj):
        return saved(fnt.save(obj))

    fromFile = toFile = None


class Bmg(Kind):
    cls = bmg.BMG

    def file(self, rng):
        m = bmgs.model(rng)
        m['unk'] = m['unk'][:2] + (m['unk'][2] & 0xFF if m['endian'] == '<' else m['unk'][2] & 0xFF000000,)
        return rbmg.build(m), ()


class Bnbl(Kind):
    cls = bnbl.BNBL

    def file(self, rng):
        n = rng.choice([0, 1, 2, 5, 9])
        out = b''.join(struct.pack('<HHBB', rng.randrange(3) << 12 | rng.randrange(4096), rng.randrange(3) << 12 |
                                   rng.randrange(4096), byte(rng), byte(rng)) for _ in range(n))
        return b'JNBL' + struct.pack('<HH', w16(rng), n) + out, ()


class Bncl(Kind):
    cls = bncl.BNCL

    def file(self, rng):
        n = rng.choice([0, 1, 2, 5, 9])
        out = b''.join(struct.pack('<HHI', rng.randrange(3) << 12 | rng.randrange(4096), rng.randrange(3) << 12 |
                                   rng.randrange(4096), rng.randrange(1 << 32)) for _ in range(n))
        return b'JNCL' + struct.pack('<HH', w16(rng), n) + out, ()


class Sseq(Kind):
    cls = soundSequence.SSEQ

    def file(self, rng):
        events, _ = seqs.program(rng, rng.choice([2, 4, 8]))
        return sndfile.buildSseq(seq.encodeAll(events)[0]), (w16(rng), w16(rng)) + tuple(byte(rng) for _ in range(4))


class Parsed:
    def load(self, data, args):
        o = super().load(data, args)
        o.parse()
        return o

    def fromFile(self, path, args):
        o = super().fromFile(path, args)
        o.parse()
        return o


class ParsedSseq(Parsed, Sseq):
    pass


class Ssar(Kind):
    cls = soundSequenceArchive.SSAR

    def file(self, rng):
        n = rng.choice([1, 2, 4])
        events, where = seqs.program(rng, rng.choice([2, 4, 8]), n)
        data, offsets = seq.encodeAll(events)
        starts = list(where) + [rng.choice(list(where) + [None]) for _ in range(rng.randrange(3))]
        rng.shuffle(starts)
        entries = [(None if t is None else offsets[t], w16(rng)) + tuple(byte(rng) for _ in range(4)) for t in starts]
        if rng.random() < 0.1:
            entries, data = [], b''
        return (sndfile.buildSsar(entries, data),
                (w16(rng), [rng.choice([None, f'SE_{i}', 'SE']) for i in range(len(entries))]))


class ParsedSsar(Parsed, Ssar):
    pass


class Sbnk(Kind):
    cls = soundBank.SBNK

    def file(self, rng):
        return sbnk.build(banks.model(rng, small=True)), (w16(rng), banks.archiveIDs(rng))


class Swav(Kind):
    cls = soundWave.SWAV

    def file(self, rng):
        return rwaves.buildSwav(waves.wave(rng, 80)), ()


class Swar(Kind):
    cls = soundWaveArchive.SWAR

    def file(self, rng):
        return rwaves.buildSwar([waves.wave(rng, 60) for _ in range(rng.choice([0, 1, 2, 5]))]), (w16(rng),)


class Strm(Kind):
    cls = soundStream.STRM

    def file(self, rng):
        f, channels, settings = waves.stream(rng)
        channels = [[b[:60] for b in c] for c in channels]
        return rwaves.buildStrm(f, channels), settings


class Sdat(Kind):
    cls = soundArchive.SDAT

    def file(self, rng):
        return sdat.build(sdats.model(rng), sdat.DEFAULTS)[0], ()


class MainCode(Kind):
    cls = code.MainCodeFile
    magic = False

    def file(self, rng):
        while True:
            m = maincode.Model(rng)
            data = m.image()
            if maincode.isClean(data) and not m.endByChance(data):
                return data, (m.ram, m.pointer)

    def save(self, obj):
        return saved(obj.save())

    def resaved(self, data, args):
        return (data,)

    def fromFile(self, path, args):
        if args[1] is None:
            return code.MainCodeFile.fromFile(path, args[0])
        return None


class Overlays(Kind):
    """A table with its files behind it."""
    magic = False
    fromFile = toFile = None

    def file(self, rng):
        n = rng.randrange(5)
        table, files = b'', []
        for i in range(n):
            data = codeblobs.codeData(rng, rng.randrange(8)) if rng.random() < 0.5 else blobs.lzLike(rng, 100)
            flags = rng.choice([0, 1, 2, 3, byte(rng)])
            file = lz.backwardCompress(data) if flags & 1 else data
            if file is None:
                flags, file = flags & ~1, data
            files.append(file)
            table += struct.pack('<8I', i, *(rng.randrange(1 << 32) for _ in range(5)), i, len(file) | flags << 24)
        return table, (tuple(files),)

    def load(self, data, args):
        return code.loadOverlayTable(data, lambda o, i: args[0][i])

    def save(self, obj):
        return (bytes(code.saveOverlayTable(obj)),)

    def resaved(self, data, args):
        return (data,)


class Nsbtx(Kind):
    cls = texture.NSBTX
    fromFile = toFile = None

    def file(self, rng):
        return tex.nsbtx(textures.file(rng, rng.choice([0, 1, 2]))), ()


class Nsbmd(Kind):
    cls = model.NSBMD
    fromFile = toFile = None

    def file(self, rng):
        return tex.nsbmd(textures.mdl0(rng)[0], textures.file(rng, rng.choice([0, 1, 2]))), ()


class Listed(Kind):
    """Lists of small things that have load and save functions."""
    magic = False

    def save(self, obj):
        return (bytes(self.saveFunction(obj)),)

    def load(self, data, args):
        return self.loadFunction(data, *args)

    def fromFile(self, path, args):
        return self.fileLoader(path, *args)

    def toFile(self, obj, path):
        self.fileSaver(obj, path)

    def resaved(self, data, args):
        return (data,)


class Palette(Listed):
    loadFunction = staticmethod(color.loadPalette)
    saveFunction = staticmethod(color.savePalette)
    fileLoader = staticmethod(color.loadPaletteFromFile)
    fileSaver = staticmethod(color.savePaletteToFile)

    def file(self, rng):
        return rng.randbytes(2 * rng.choice([0, 1, 16, 40])), ()


class ImageTiles(Listed):
    loadFunction = staticmethod(graphics2D.loadImageTiles)
    saveFunction = staticmethod(graphics2D.saveImageTiles)
    fileLoader = staticmethod(graphics2D.loadImageTilesFromFile)
    fileSaver = staticmethod(graphics2D.saveImageTilesToFile)

    def file(self, rng):
        fmt = rng.choice(list(graphics2D.ImageFormat))
        return rng.randbytes((64 if fmt is graphics2D.ImageFormat.I8 else 32) * rng.randrange(6)), (fmt,)


class TilemapTiles(Listed):
    loadFunction = staticmethod(graphics2D.loadTilemapTiles)
    saveFunction = staticmethod(graphics2D.saveTilemapTiles)
    fileLoader = staticmethod(graphics2D.loadTilemapTilesFromFile)
    fileSaver = staticmethod(graphics2D.saveTilemapTilesToFile)

    def file(self, rng):
        fmt = rng.choice(list(graphics2D.TilemapFormat))
        return rng.randbytes((1 if fmt is graphics2D.TilemapFormat.I8 else 2) * rng.choice([0, 1, 7, 40])), (fmt,)


KINDS = {k.__name__: k() for k in (Rom, Narc, Fnt, Bmg, Bnbl, Bncl, Sseq, ParsedSseq, Ssar, ParsedSsar, Sbnk, Swav, Swar,
                                   Strm, Sdat, MainCode, Overlays, Nsbtx, Nsbmd, Palette, ImageTiles, TilemapTiles)}


# -- Looking at objects from the outside

ATOMS = (type(None), bool, int, float, str, bytes)


def isOurs(x):
    return type(x).__module__.split('.')[0] == 'ndspy'


def publicNames(x):
    names = set(getattr(x, '__dict__', ()))
    for c in type(x).__mro__:
        for n, v in vars(c).items():
            if isinstance(v, property) or type(v).__name__ == 'member_descriptor':
                names.add(n)
    return sorted(n for n in names if not n.startswith('_'))


def public(x):
    """[(name, value or raised error)]"""
    out = []
    for n in publicNames(x):
        try:
            v = getattr(x, n)
        except Exception as e:
            v = ('raises', type(e).__name__)
        if not callable(v) or isOurs(v):
            out.append((n, v))
    return out


class Walk:
    """Everything reachable through the public attributes of an object."""
    def __init__(self, root):
        self.index = {}    # id -> number
        self.alive = []
        self.mutable = []  # [(object, path)]
        self.state = self.visit(root, '')

    def visit(self, x, path):
        if isinstance(x, enum.Enum):
            return (type(x).__name__, x.name if isinstance(x.name, str) else x.value)
        if isinstance(x, ATOMS):
            return (type(x).__name__, x) if isinstance(x, (bool, float)) else x
        if isinstance(x, (bytearray, memoryview)):
            if isinstance(x, bytearray):
                self.mutable.append((x, path))
            return bytes(x)
        if isinstance(x, tuple):
            return tuple(self.visit(v, f'{path}[{i}]') for i, v in enumerate(x))
        if isinstance(x, (type, type(public))) or not (isOurs(x) or isinstance(x, (list, dict, set, frozenset))):
            return ('?', type(x).__name__)
        if id(x) in self.index:
            return ('seen', self.index[id(x)])
        self.alive.append(x)
        if isinstance(x, frozenset):
            return ('frozenset', tuple(sorted(map(repr, x))))
        self.mutable.append((x, path))
        if isinstance(x, list):
            return ('list',) + tuple(self.visit(v, f'{path}[{i}]') for i, v in enumerate(x))
        if isinstance(x, set):
            return ('set', tuple(sorted(map(repr, x))))
        if isinstance(x, dict):
            return ('dict',) + tuple((self.visit(k, path + '.key'), self.visit(v, f'{path}[{k!r}]'))
                                     for k, v in x.items())
        self.index[id(x)] = len(self.index)
        return (type(x).__name__,) + tuple((n, self.visit(v, f'{path}.{n}')) for n, v in public(x))


def state(x):
    return Walk(x).state


def difference(a, b, path=''):
    """Where two states differ, as text."""
    if a == b:
        return ''
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) == len(b):
            for i, (p, q) in enumerate(zip(a, b)):
                if p != q:
                    label = a[0] if isinstance(a[0], str) and len(a) == 2 and i == 1 else i
                    return difference(p, q, f'{path}/{label}')
        return f'{path}: {len(a)} and {len(b)} items: {a!r:.200} / {b!r:.200}'
    return f'{path}: {a!r:.200} / {b!r:.200}'
