"""Wrong or unrepresentable data is refused, not silently mangled."""

import time

from ndspy import (bmg, bnbl, bncl, code, codeCompression, color, fnt, graphics2D, lz10, model, narc, rom, soundArchive,
                   soundBank, soundGroup, soundSequence, soundSequenceArchive, soundSequencePlayer, soundStream,
                   soundStreamPlayer, soundWave, soundWaveArchive, texture)
from gen import blobs, corpus
from ref import lz, rom as rrom, seq

CASES = {'quick': 40000, 'thorough': 240000}
RULE = ('Valid files of every format with their identification, version and block marks changed, or given to the'
        ' loader of another format; every number stored in a field of fixed size at its limits and beyond them; lists,'
        ' names and data of every limited length at the limit and one beyond; files and compressed data cut'
        ' at every length. Non-trivial = a refusal was expected and observed, with the accepted neighbour checked too.')
REQUIRED = {'wrong identification': 1500, 'other format': 1000, 'wrong version': 500, 'wrong block mark': 400,
            'number refused': 2500, 'number kept': 2500, 'event number refused': 1200, 'event number kept': 1200,
            'limit refused': 1200, 'limit kept': 1200, 'header length refused': 200, 'cut file ends': 5000,
            'cut compressed data ends': 5000}
ASSUMPTIONS = ['Any exception counts as a refusal.',
               'Values that are masked on purpose are left out: colours, the raw value of tilemap entries, over-long'
               ' game titles; so are settings that only steer the saver (merge and order keys, alignments).',
               'Truncated files may load as something else; they must only not hang or exhaust memory. Counts and'
               ' sizes inside a file are otherwise trusted, so files with damaged counts are not part of this.']

U8, U16, U32, S16 = (0, 0xFF), (0, 0xFFFF), (0, 0xFFFFFFFF), (-0x8000, 0x7FFF)
SETTINGS = {'SSEQ.unk02': U16, 'SSEQ.bankID': U16, 'SSEQ.volume': U8, 'SSEQ.channelPressure': U8,
            'SSEQ.polyphonicPressure': U8, 'SSEQ.playerID': U8}
NOTE = {'NoteDefinition.waveID': U16, 'NoteDefinition.waveArchiveIDID': U16, 'NoteDefinition.dutyCycle': U16,
        'NoteDefinition.pitch': U8, 'NoteDefinition.attack': U8, 'NoteDefinition.decay': U8,
        'NoteDefinition.sustain': U8, 'NoteDefinition.release': U8, 'NoteDefinition.pan': U8}
TEXTURE = {'Texture.unk00': U16, 'Texture.unk02': U16, 'Texture.unk04': U32, 'Palette.unk00': U16,
           'Palette.unk02': U16, 'Palette.unkHeader02': U16}
SSAR = {f'SSARSequence.{n}': U8 for n in ('volume', 'channelPressure', 'polyphonicPressure', 'playerID')}
SSAR['SSARSequence.bankID'] = U16
WAVE = {'SWAV.sampleRate': U16, 'SWAV.time': U16}
NUMBERS = {
    'Bmg': {'BMG.id': U32, 'BMG.unk14': U32, 'BMG.unk18': U32, 'BMG.unk1C': U32, 'Escape.type': U8},
    'Bnbl': {'BNBL.unk04': U16, 'BNBLTouchArea.x': (0, 0xFFF), 'BNBLTouchArea.y': (0, 0xFFF),
             'BNBLTouchArea.width': U8, 'BNBLTouchArea.height': U8},
    'Bncl': {'BNCL.unk04': U16, 'BNCLImagePosition.x': (0, 0xFFF), 'BNCLImagePosition.y': (0, 0xFFF),
             'BNCLImagePosition.imageID': U32},
    'Fnt': {'Folder.firstID': U16}, 'Narc': {'Folder.firstID': U16},
    'Nsbmd': {**TEXTURE, 'NSBMD.texUnk08': U32, 'NSBMD.texUnk10': U32, 'NSBMD.texUnk18': U32, 'NSBMD.texUnk20': U32,
              'NSBMD.texUnk2C': U32, 'NSBMD.texUnk32': U16},
    'Nsbtx': {**TEXTURE, 'NSBTX.unk08': U32, 'NSBTX.unk10': U32, 'NSBTX.unk18': U32, 'NSBTX.unk20': U32,
              'NSBTX.unk2C': U32, 'NSBTX.unk32': U16},
    'Overlays': {**{f'Overlay.{n}': U32 for n in ('ramAddress', 'ramSize', 'bssSize', 'staticInitStart',
                                                  'staticInitEnd')},
                 'Overlay.compressedSize': (0, 0xFFFFFF)},
    'ParsedSsar': SSAR, 'Ssar': SSAR, 'Sbnk': NOTE,
    'Strm': {'STRM.loopOffset': U32, 'STRM.sampleRate': U16, 'STRM.time': U16, 'STRM.unk03': U8,
             **{f'STRM.unk{n}': U32 for n in ('28', '2C', '30', '34', '38', '3C', '40', '44')}},
    'Swar': WAVE, 'Swav': WAVE,
    'Rom': {'Folder.firstID': U16, **{f'NintendoDSRom.{n}': (0, 256 ** s - 1) for n, _, s in rrom.FIELDS if s > 0}},
    'TilemapTiles': {'TilemapTile.paletteNum': (0, 15)},
    'Sdat': {**SETTINGS, 'GroupEntry.id': U32, 'SBNK.unk02': U16, 'SSAR.unk02': U16, 'SWAR.unk02': U16,
             'STRM.unk02': U16, 'STRM.volume': U8, 'STRM.priority': U8, 'STRM.playerID': U8, 'STRM.unk07': U8,
             'SequencePlayer.heapSize': U32, 'SequencePlayer.maxSequences': U16},
}


def beyond(rng, limits):
    lo, hi = limits
    return rng.choice([lo - 1, hi + 1, hi + 1, hi * 2 + 3, lo - 256, -1 << 33, 1 << 33])


def refused(ctx, monitor, f, what):
    try:
        got = f()
    except Exception:
        ctx.check(monitor, True)
        return
    ctx.check(monitor, False, lambda: f'{what}: accepted, giving {got!r:.300}')


def numbers(ctx, rng, index):
    name = list(NUMBERS)[index % len(NUMBERS)]
    kind = corpus.KINDS[name]
    table = NUMBERS[name]
    for _ in range(12):
        data, args = kind.file(rng)
        places = [(i, n) for i, (x, _) in enumerate(corpus.Walk(kind.load(data, args)).mutable) if corpus.isOurs(x)
                  for n, v in corpus.public(x) if f'{type(x).__name__}.{n}' in table and type(v) is int]
        if places:
            break
    else:
        ctx.note(f'{name}: nothing to change')
        return
    # Choose evenly over the fields, not over the places
    def label(p):
        o = corpus.Walk(kind.load(data, args)).mutable[p[0]][0]
        return f'{type(o).__name__}.{p[1]}'
    byField = {}
    for p in places if len(places) < 200 else rng.sample(places, 200):
        byField.setdefault(p[1], []).append(p)
    i, attr = rng.choice(byField[rng.choice(sorted(byField))])
    field = label((i, attr))
    limits = table[field]
    if field == 'TilemapTile.paletteNum' and args[0] is graphics2D.TilemapFormat.I8:
        return
    ctx.info('kind', [name, args])
    ctx.info('data', data)
    ctx.info('field', [field, i, limits])

    def attempt(value):
        obj = kind.load(data, args)
        setattr(corpus.Walk(obj).mutable[i][0], attr, value)
        return obj

    v = beyond(rng, limits)
    obj = attempt(v)
    refused(ctx, 'number refused', lambda: kind.save(obj), f'{name} with {field} = {v:#x}')
    v = rng.choice(limits)
    obj = attempt(v)
    out = kind.save(obj)
    back = kind.load(out[0], out[1:] or args)
    places = [x for x, _ in corpus.Walk(back).mutable]
    ctx.eq('number kept', getattr(places[i], attr) if i < len(places) else None, v, f'{name}, {field}',)
    ctx.nontrivial(name, field, data)
    if index < 60:
        ctx.sample(f'{field}: {limits[0]:#x} to {limits[1]:#x}')


def romLengths(ctx, rng, index):
    data, _ = corpus.KINDS['Rom'].file(rng)
    r = rom.NintendoDSRom(data)
    n, _, size = rng.choice([f for f in rrom.FIELDS if f[2] < 0 and f[0] not in ('name', 'secureAreaDisable')])
    wrong = rng.choice([bytes(-size - 1), bytes(-size + 1), b'', bytes(-size * 2)])
    ctx.info('field', [n, len(wrong)])
    setattr(r, n, wrong)
    refused(ctx, 'header length refused', r.save, f'game image with {len(wrong)} bytes of {n}')
    ctx.nontrivial(n, len(wrong), data)


# -- Sequence events

def eventCases(rng):
    """[(what, accepted event tuples, refused objects)]"""
    q = soundSequence

    def ev(kind, *a):
        return getattr(q, kind + 'SequenceEvent')(*a)

    kind = rng.choice(['Note', 'Note', 'Note', 'InstrumentSwitch', 'BeginTrack', 'Random', 'FromVariable',
                       'DefineTracks', 'Rest', rng.choice(list(seq.ARITH)), rng.choice(list(seq.ARITH)),
                       rng.choice(list(seq.BYTE)), rng.choice(list(seq.BYTE)), rng.choice(list(seq.WORD))])
    if kind == 'Note':
        which = rng.choice(['pitch', 'velocity', 'duration'])
        a = {'pitch': 60, 'velocity': 100, 'duration': 48}
        lim = (0, 0xFFFFFFFF) if which == 'duration' else (0, 127)
        good = rng.choice(lim)
        a[which] = good
        ok = ('Note', a['pitch'], a['velocity'], False, a['duration'])
        bad = ev('Note', 60, 100, 48)
        v = -1 if which == 'duration' else rng.choice([-1, 128, 256, 1000])

        def make():
            setattr(bad, which, v)
            return bad
        return f'Note {which} = {v}', ok, make
    if kind == 'Rest':
        return 'Rest duration -1', ('Rest', rng.choice([0, 0xFFFFFFFF])), lambda: ev('Rest', rng.choice([-1, -128]))
    if kind == 'InstrumentSwitch':
        if rng.random() < 0.7:
            return 'instrument out of range', (kind, rng.randrange(300), rng.choice([0, 127])), \
                lambda: ev(kind, rng.randrange(300), rng.choice([-1, 128, 255, 256]))
        return 'bank -1', (kind, 0, 5), lambda: ev(kind, -1, 5)
    if kind == 'BeginTrack':
        return 'track number', ('BeginTrack', rng.choice([0, 255]), ('@', 1)), None
    if kind == 'DefineTracks':
        return 'track numbers', (kind, (0, 15)), lambda: ev(kind, {0, rng.choice([16, 17, 40, -1])})
    if kind == 'Random':
        good = [0xC0, (), rng.choice(S16), rng.choice(S16)]
        bad = [0xC0, [], 5, 6]
        k = rng.randrange(4)
        bad[k] = [rng.choice([256, -1]), [rng.choice([256, -1])], beyond(rng, S16), beyond(rng, S16)][k]
        return f'Random argument {k}', (kind, *good), lambda: ev(kind, *bad)
    if kind == 'FromVariable':
        good = [rng.choice([0xC0, 0xE1]), rng.choice([0, 255]), None]
        return 'variable number', (kind, *good), lambda: ev(kind, 0xC0, rng.choice([-1, 256, 1000]), None)
    if kind in seq.ARITH:
        if rng.random() < 0.5:
            return f'{kind} variable', (kind, rng.choice(U8), 1), lambda: ev(kind, rng.choice([-1, 256]), 1)
        return f'{kind} value', (kind, 3, rng.choice(S16)), lambda: ev(kind, 3, beyond(rng, S16))
    if kind == 'MonoPoly':
        return 'MonoPoly', (kind, rng.randrange(2)), lambda: ev(kind, rng.choice([-1, 256]))
    if kind == 'VibratoType':
        return 'VibratoType', (kind, rng.randrange(3)), lambda: ev(kind, rng.choice([-1, 256]))
    lim = U8 if kind in seq.BYTE else U16
    return kind, (kind, rng.choice(lim)), lambda: ev(kind, beyond(rng, lim))


def events(ctx, rng, index):
    what, ok, bad = eventCases(rng)
    ctx.info('event', [what, ok])
    if ok[0] == 'BeginTrack':
        first = soundSequence.EndTrackSequenceEvent()
        good = soundSequence.BeginTrackSequenceEvent(ok[1], first)
        objs = [good, first]
        want = bytes([0x93, ok[1]]) + bytes([5, 0, 0]) + b'\xff'

        def bad():
            return soundSequence.BeginTrackSequenceEvent(rng.choice([-1, 256, 1000]), first)
        out = [first]
    else:
        objs = [seq.make(ok), soundSequence.EndTrackSequenceEvent()]
        want = seq.encode(ok) + b'\xff'
        out = [soundSequence.EndTrackSequenceEvent()]
    got = bytes(soundSequence.SSEQ.fromEvents(objs).save()[0])
    ctx.bytesEq('event number kept', got[0x1C:0x1C + len(want)], want, f'{ok}')

    def save():
        e = bad()
        return soundSequence.SSEQ.fromEvents([e] + out).save()[0]
    refused(ctx, 'event number refused', save, what)

    # References to events that are not there
    q = soundSequence
    stray = q.RestSequenceEvent(5)
    e = rng.choice([q.JumpSequenceEvent(stray), q.CallSequenceEvent(stray), q.BeginTrackSequenceEvent(1, stray)])
    s = q.SSEQ.fromEvents([e, q.EndTrackSequenceEvent()])
    refused(ctx, 'event number refused', s.save, 'reference to an event outside the list')
    s = q.SSEQ.fromEvents([e, stray, q.EndTrackSequenceEvent()])
    s.save()
    ctx.nontrivial(what, ok)


# -- Limited lengths and things that must agree

def sdat(**kw):
    s = soundArchive.SDAT()
    for k, v in kw.items():
        getattr(s, k).append(('X', v))
    return s


def named(rng, name):
    s = soundArchive.SDAT()
    part = rng.choice(['sequences', 'sequenceArchives', 'banks', 'waveArchives', 'sequencePlayers', 'groups',
                       'streamPlayers', 'streams', 'inner'])
    if part == 'inner':
        a = soundSequenceArchive.SSAR.fromEventsAndSequences([soundSequence.EndTrackSequenceEvent()],
            [('x', soundSequenceArchive.SSARSequence(None)), (name, soundSequenceArchive.SSARSequence(None))])
        s.sequenceArchives.append(('a', a))
    else:
        getattr(s, part).append((name, None))
    return s


def bmgOf(rng, **kw):
    b = bmg.BMG.fromMessages([bmg.Message(b'ab', ['hi'])])
    b.encoding = rng.choice(['cp1252', 'utf-16', 'shift-jis', 'utf-8'])
    b.endianness = rng.choice('<>')
    for k, v in kw.items():
        setattr(b, k, v)
    return b


def message(rng, parts, encoding=None):
    b = bmg.BMG.fromMessages([bmg.Message(b'', parts)])
    b.encoding = encoding or rng.choice(['cp1252', 'utf-16', 'shift-jis', 'utf-8'])
    return b


def textureFile(rng, name='tex', paletteName='pal', width=8, height=8, colors=4, data2=None, as3d=False, fmt=None):
    t = texture.NSBTX()
    fmt = texture.TextureFormat.I2 if fmt is None else fmt
    d1 = bytes(width * height // 4)
    x = texture.Texture(0, 0, 0, 0, d1, data2)
    x.format, x.width, x.height = fmt, width, height
    t.textures.append((name, x))
    t.palettes.append((paletteName, texture.Palette.fromColors(0, 0, 0, [(i % 32, 3, 5, 0) for i in range(colors)])))
    return t


class Saver:
    def __init__(self, f):
        self.save = f


def folder(name, where):
    f = fnt.Folder()
    f.firstID = 0
    if where == 'file':
        f.files.append(name)
    else:
        f.folders.append((name, fnt.Folder(firstID=0, files=[], folders=[])))
    return Saver(lambda: fnt.save(f))


def regions(pitches):
    n = soundBank.NoteDefinition()
    return soundBank.SBNK.fromInstruments([soundBank.RegionalInstrument(
        [soundBank.RegionalInstrument.Region(p, n) for p in pitches])])


def tiles(fmt, pixels):
    t = graphics2D.ImageTile(format=fmt)
    t.pixels = pixels
    return Saver(lambda: graphics2D.saveImageTiles([t]))


def mixedTiles(a, b):
    x, y = graphics2D.ImageTile(bytes(32 if a.name == 'I4' else 64), a), \
        graphics2D.ImageTile(bytes(32 if b.name == 'I4' else 64), b)
    return Saver(lambda: graphics2D.saveImageTiles([x, y]))


def tilemap(fmt, num):
    t = graphics2D.TilemapTile.fromParameters(num, fmt)
    return Saver(lambda: graphics2D.saveTilemapTiles([t]))


def mixedTilemap(a, b):
    x, y = graphics2D.TilemapTile(1, a), graphics2D.TilemapTile(2, b)
    return Saver(lambda: graphics2D.saveTilemapTiles([x, y]))


def stream(channels):
    s = soundStream.STRM.fromChannels([list(c) for c in channels])
    s.samplesPerBlock = s.samplesInLastBlock = 4
    return s


def wave(loop, total, sdatLike=False):
    w = soundWave.SWAV.fromData(bytes(40))
    w.loopOffset, w.totalLength = loop, total
    return w if not sdatLike else soundWaveArchive.SWAR.fromWaves([soundWave.SWAV.fromData(b'abcd'), w])


def bank(ids):
    b = soundBank.SBNK.fromInstruments([])
    b.waveArchiveIDs = list(ids)
    return sdat(banks=b)


def rangeInstrument(first, n):
    return soundBank.SBNK.fromInstruments([soundBank.RangeInstrument(first,
        [soundBank.NoteDefinition() for _ in range(n)])])


def banner(version, n):
    r = rom.NintendoDSRom()
    r.iconBanner = version.to_bytes(2, 'little') + bytes(n - 2)
    return r


def many(cls, listName, item, n):
    o = cls()
    setattr(o, listName, [item] * n)
    return o


def bmgMany(n):
    m = bmg.Message()
    m.info = b''
    return bmg.BMG.fromMessages([m] * n)


I4, I8 = graphics2D.ImageFormat.I4, graphics2D.ImageFormat.I8
T8, T16 = graphics2D.TilemapFormat.I8, graphics2D.TilemapFormat.I10H1V1P4
# name: (accepted, refused), each a function of rng giving something with a save function
LIMITS = {
    'file name length': (lambda r: folder('n' * 127, 'file'), lambda r: folder('n' * r.choice([128, 129, 255, 400]),
                                                                              'file')),
    'folder name length': (lambda r: folder('n' * 127, 'folder'),
                           lambda r: folder('n' * r.choice([128, 129, 255, 400]), 'folder')),
    'name characters': (lambda r: folder('\xff', r.choice(['file', 'folder'])),
                        lambda r: folder('あ', r.choice(['file', 'folder']))),
    'empty file name': (lambda r: folder('', 'folder'), lambda r: folder('', 'file')),
    'null in a sound name': (lambda r: named(r, 'a'), lambda r: named(r, r.choice(['\0', 'a\0', '\0b', 'a\0b']))),
    'null at the end of a texture name': (lambda r: textureFile(r, 'a\0b'),
                                          lambda r: textureFile(r, *r.choice([('a\0',), ('\0',), ('x', 'y\0')]))),
    'regions': (lambda r: regions([10 * i + 5 for i in range(8)]), lambda r: regions(range(1, r.choice([9, 10, 20]) + 1))),
    'no region': (lambda r: regions([0]), lambda r: regions([])),
    'empty regions': (lambda r: regions([0, 5, 9]), lambda r: regions(r.choice([[3, 0], [0, 0], [1, 2, 0, 5]]))),
    'range of pitches': (lambda r: rangeInstrument(200, 56), lambda r: rangeInstrument(200, r.choice([57, 60, 300]))),
    'wave archives': (lambda r: bank(range(4)), lambda r: bank(range(r.choice([5, 6, 10])))),
    'wave archive number': (lambda r: bank([0x7FFF]), lambda r: bank([r.choice([0x8000, 0x10000, -0x8001])])),
    'sequence player channels': (lambda r: sdat(sequencePlayers=soundSequencePlayer.SequencePlayer(1, {0, 15}, 2)),
                                 lambda r: sdat(sequencePlayers=soundSequencePlayer.SequencePlayer(
                                     1, {0, r.choice([16, 17, -1])}, 2))),
    'stream player channels': (lambda r: sdat(streamPlayers=soundStreamPlayer.StreamPlayer([1] * 16)),
                               lambda r: sdat(streamPlayers=soundStreamPlayer.StreamPlayer([1] * r.choice([17, 18, 300])))),
    'stream player channel': (lambda r: sdat(streamPlayers=soundStreamPlayer.StreamPlayer([255])),
                              lambda r: sdat(streamPlayers=soundStreamPlayer.StreamPlayer([r.choice([256, -1])]))),
    'pixels': (lambda r: tiles(r.choice([I4, I8]), [1] * 64),
               lambda r: tiles(r.choice([I4, I8]), [1] * r.choice([0, 1, 63, 65, 62, 66, 128]))),
    'pixel values, 4 bits': (lambda r: tiles(I4, [15] * 64), lambda r: tiles(I4, [0] * 40 + [r.choice([16, 255, -1])] +
                                                                              [0] * 23)),
    'pixel values, 8 bits': (lambda r: tiles(I8, [255] * 64), lambda r: tiles(I8, [0] * 9 + [r.choice([256, -1])] +
                                                                               [0] * 54)),
    'tile formats': (lambda r: mixedTiles(I8, I8), lambda r: mixedTiles(*r.choice([(I4, I8), (I8, I4)]))),
    'tilemap formats': (lambda r: mixedTilemap(T8, T8), lambda r: mixedTilemap(*r.choice([(T8, T16), (T16, T8)]))),
    'tile numbers': (lambda r: tilemap(T16, 0x3FF), lambda r: tilemap(T16, r.choice([0x400, 0x1000, -1]))),
    'tile numbers, 8 bits': (lambda r: tilemap(T8, 0xFF), lambda r: tilemap(T8, r.choice([0x100, 0x3FF, -1]))),
    'blocks per channel': (lambda r: stream([[b'ab', b'cd'], [b'ef', b'gh']]),
                           lambda r: stream(r.choice([[[b'ab', b'cd'], [b'ab']], [[b'ab'], [b'ab', b'cd']],
                                                      [[b'ab'], []], [[b'a'] * 2, [b'a'] * 2, [b'a'] * 3]]))),
    'block lengths': (lambda r: stream([[b'abcd', b'abcd', b'ab']] * 2),
                      lambda r: stream(r.choice([[[b'abcd', b'ab', b'ab']] * 2, [[b'abcd', b'abcd', b'ab'],
                                                 [b'abcd', b'ab', b'ab']], [[b'abcd', b'ab'], [b'abc', b'ab']],
                                                 [[b'ab', b'cd', b'e'], [b'ab', b'c', b'e']]]))),
    'last block lengths': (lambda r: stream([[b'abcd', b'ab'], [b'efgh', b'cd']]),
                           lambda r: stream(r.choice([[[b'abcd', b'ab'], [b'efgh', b'c']], [[b'ab'], [b'abc']],
                                                      [[b'abcd', b'ab'], [b'efgh', b'abcd']]]))),
    'channels': (lambda r: stream([[b'']] * 255), lambda r: stream([[b'']] * 256)),
    'loop after the end': (lambda r: wave(7, 7, r.random() < 0.5), lambda r: wave(r.choice([8, 9, 100]), 7, r.random() <
                                                                               0.5)),
    'loop beyond the field': (lambda r: wave(0xFFFF, 0x20000), lambda r: wave(0x10000, 0x20000)),
    'texture name': (lambda r: textureFile(r, 'n' * 16), lambda r: textureFile(r, 'n' * r.choice([17, 18, 40]))),
    'palette name': (lambda r: textureFile(r, paletteName='n' * 16),
                     lambda r: textureFile(r, paletteName='n' * r.choice([17, 18, 40]))),
    'texture width': (lambda r: textureFile(r, width=r.choice([8, 16, 1024])),
                      lambda r: textureFile(r, width=r.choice([0, 4, 7, 12, 24, 1023, 2048]))),
    'texture height': (lambda r: textureFile(r, height=r.choice([8, 16, 1024])),
                       lambda r: textureFile(r, height=r.choice([0, 4, 7, 12, 24, 1023, 2048]))),
    'palette length': (lambda r: textureFile(r, colors=r.choice([0, 4, 256])),
                       lambda r: textureFile(r, colors=r.choice([1, 2, 3, 5, 255]))),
    'texel data': (lambda r: textureFile(r, data2=bytes(8), fmt=texture.TextureFormat.TEXELED),
                   lambda r: textureFile(r, data2=bytes(r.choice([0, 4, 16, 9])), fmt=texture.TextureFormat.TEXELED)),
    'instruction length': (lambda r: bmgOf(r, instructions=[b'12345678']),
                           lambda r: bmgOf(r, instructions=[b'12345678', bytes(r.choice([0, 7, 9, 16]))])),
    'label': (lambda r: bmgOf(r, labels=[(r.choice([-128, 127]), r.choice([-0x8000, 0x7FFF]))]),
              lambda r: bmgOf(r, labels=[r.choice([(-129, 0), (128, 0), (0, 0x8000), (0, -0x8001)])])),
    'script': (lambda r: bmgOf(r, scripts=[(r.choice(U32), r.choice(U16))]),
               lambda r: bmgOf(r, scripts=[r.choice([(-1, 0), (1 << 32, 0), (0, -1), (0, 0x10000)])])),
    'encoding': (lambda r: bmgOf(r, encoding=r.choice(['cp1252', 'utf-16', 'shift-jis', 'utf-8', 'UTF-8'])),
                 lambda r: bmgOf(r, encoding=r.choice(['', 'ascii', 'utf-32', 'latin-1', None, 3]))),
    'byte order': (lambda r: bmgOf(r, endianness=r.choice('<>')),
                   lambda r: bmgOf(r, endianness=r.choice(['', '=', '<>', '!', '@', 'little']))),
    'info lengths': (lambda r: bmg.BMG.fromMessages([bmg.Message(b'ab'), bmg.Message(b'cd')]),
                     lambda r: bmg.BMG.fromMessages([bmg.Message(a) for a in r.choice([[b'ab', b'abc'], [b'ab', b'a'],
                         [b'', b'a'], [b'a', b''], [b'ab', b'cd', b'e']])])),
    'null character': (lambda r: message(r, ['a\1b']), lambda r: message(r, r.choice([['a\0b'], ['\0'], ['x', '\0']]))),
    'escape character': (lambda r: message(r, ['a\x1bb']), lambda r: message(r, r.choice([['a\x1ab'], ['\x1a']]))),
    'characters': (lambda r: message(r, ['\xe9'], 'cp1252'), lambda r: message(r, ['あ'], 'cp1252')),
    'characters, Japanese': (lambda r: message(r, ['あ'], 'shift-jis'), lambda r: message(r, ['€'],
                                                                                             'shift-jis')),
    'escape data': (lambda r: message(r, [bmg.Message.Escape(1, bytes(252))], r.choice(['cp1252', 'utf-8'])),
                    lambda r: message(r, [bmg.Message.Escape(1, bytes(r.choice([253, 254, 255, 300])))])),
    'number of messages': (None, lambda r: bmgMany(0x10000)),
    'number of areas': (None, lambda r: many(bnbl.BNBL, 'touchAreas', bnbl.BNBLTouchArea(), 0x10000)),
    'number of positions': (None, lambda r: many(bncl.BNCL, 'imagePositions', bncl.BNCLImagePosition(), 0x10000)),
    'banner length': (lambda r: banner(*r.choice(list(rrom.BANNER.items()))),
                      lambda r: banner(*r.choice([(1, 0x83F), (1, 0x841), (2, 0x840), (3, 0x840), (0x103, 0x1240),
                                                  (1, 0x940)]))),
    'group entry type': (lambda r: sdat(groups=[soundGroup.GroupEntry(0, 0xF, 1)]),
                         lambda r: sdat(groups=[soundGroup.GroupEntry(r.choice([256, -1]), 3, 1)])),
    'parsed and unparsed sequences': (lambda r: soundSequenceArchive.SSAR.fromEventsAndSequences([], []),
                                      lambda r: stray()),
}
SLOW = {'number of messages', 'number of areas', 'number of positions', 'channels', 'range of pitches'}


def stray():
    q = soundSequence
    s = soundSequenceArchive.SSARSequence(q.RestSequenceEvent(3), parsed=True)
    return soundSequenceArchive.SSAR.fromEventsAndSequences([q.EndTrackSequenceEvent()], [('X', s)])


def limit(ctx, rng, index):
    names = list(LIMITS)
    name = names[index % len(names)]
    if name in SLOW and rng.random() < 0.8:
        name = rng.choice([n for n in names if n not in SLOW])
    ctx.info('limit', name)
    good, bad = LIMITS[name]
    seed = rng.random()
    ctx.info('seed', seed)
    if good is not None:
        o = good(rng)
        corpus.saved(o.save())
        ctx.check('limit kept', True)
    refused(ctx, 'limit refused', lambda: corpus.saved(bad(rng).save()), name)
    ctx.nontrivial(name, seed)


# -- Loaders

MAGIC = [n for n in corpus.KINDS if corpus.KINDS[n].magic]
MAGIC_LENGTH = {'Bmg': 8}
VERSION = {  # where the version is, in files whose version the loader examines
    'Narc': 6, 'Sseq': 6, 'ParsedSseq': 6, 'Ssar': 6, 'ParsedSsar': 6, 'Sbnk': 6, 'Swav': 6, 'Swar': 6, 'Strm': 6,
    'Sdat': 6, 'Nsbtx': 6, 'Nsbmd': 6,
}


def marks(name, data):
    """Offsets of the block marks in a file."""
    if name in ('Sbnk', 'Swav', 'Swar'):
        return [(0x10, 4)]
    if name in ('Ssar', 'ParsedSsar'):
        return [(0x10, 4)]
    if name == 'Strm':
        return [(0x10, 4), (0x60, 4)]
    if name == 'Nsbtx':
        return [(int.from_bytes(data[0x10:0x14], 'little'), 4)]
    if name == 'Nsbmd':
        n = int.from_bytes(data[0xE:0x10], 'little')
        return [(int.from_bytes(data[0x10 + 4 * i:0x14 + 4 * i], 'little'), 4) for i in range(n)]
    if name == 'Narc':
        return [(0x10, 4)] + [(i, 4) for i in [0x10 + int.from_bytes(
            data[0x14:0x18], 'big' if data[4:6] == b'\xfe\xff' else 'little')] if i + 4 < len(data)]
    if name == 'Sdat':
        at = [int.from_bytes(data[o:o + 4], 'little') for o in (0x10, 0x18, 0x20)]
        return [(o, 4) for o in at if o]
    if name == 'Bmg':
        return [(0x20, 4)]
    return []


def identification(ctx, rng, index):
    name = MAGIC[index % len(MAGIC)]
    kind = corpus.KINDS[name]
    data, args = kind.file(rng)
    ctx.info('kind', [name, args])
    ctx.info('data', data)
    kind.load(data, args)
    n = MAGIC_LENGTH.get(name, 4)
    bad = bytearray(data)
    k = rng.random()
    if k < 0.5:
        i = rng.randrange(n)
        bad[i] ^= 1 << rng.randrange(8)
    elif k < 0.7:
        bad[:n] = bytes(bad[:n])[::-1] if name != 'Narc' else b'XXXX'
    elif k < 0.85:
        bad[:n] = bytes(n)
    else:
        bad[:n] = rng.randbytes(n)
    if bytes(bad[:n]) != data[:n]:
        refused(ctx, 'wrong identification', lambda: kind.load(bytes(bad), args), f'{name} starting {bytes(bad[:n])}')
        ctx.nontrivial(name, bad)
    if name in VERSION:
        v = VERSION[name]
        bad = bytearray(data)
        bad[v:v + 2] = rng.choice([bytes(2), b'\xff\xff', bytes([data[v], data[v + 1] ^ (1 << rng.randrange(8))]),
                                   bytes([data[v] ^ (1 << rng.randrange(8)), data[v + 1]])])
        if bytes(bad) != data and bytes(bad[v:v + 2]) != data[v:v + 2]:
            refused(ctx, 'wrong version', lambda: kind.load(bytes(bad), args),
                f'{name}, version {bytes(bad[v:v + 2]).hex()} instead of {data[v:v + 2].hex()}')
    at = [m for m in marks(name, data) if m[0] + 4 <= len(data)]
    if at:
        o, n = rng.choice(at)
        bad = bytearray(data)
        bad[o + rng.randrange(4)] ^= 1 << rng.randrange(8)
        refused(ctx, 'wrong block mark', lambda: kind.load(bytes(bad), args), f'{name}, mark {bytes(bad[o:o + 4])} at {o:#x}')
    other = rng.choice([n for n in corpus.KINDS if n.replace('Parsed', '') != name.replace('Parsed', '')])
    foreign, _ = corpus.KINDS[other].file(rng)
    n = MAGIC_LENGTH.get(name, 4)
    if foreign[:n] != data[:n]:
        refused(ctx, 'other format', lambda: kind.load(foreign, args), f'{other} file as {name}')


def ends(ctx, monitor, f, what, limit=8):
    """Must come to an end soon, one way or the other."""
    started = time.process_time()
    try:
        f()
        ctx.note('loads all the same')
    except MemoryError:
        ctx.check(monitor, False, f'{what}: memory exhausted')
    except Exception:
        ctx.note('refused')
    took = time.process_time() - started
    ctx.check(monitor, took < limit, lambda: f'{what}: took {took:.1f} s')


def use(kind, data, args):
    """Load and look at the result (lazily parsed parts included)."""
    o = kind.load(data, args)
    if hasattr(o, 'parse'):
        o.parse()
    return str(o)


def cut(ctx, rng, index):
    name = list(corpus.KINDS)[index % len(corpus.KINDS)]
    kind = corpus.KINDS[name]
    data, args = kind.file(rng)
    if name == 'Overlays':
        args = ({i: f for i, f in enumerate(args[0])},)
    ctx.info('kind', [name, args])
    ctx.info('data', data)
    n = len(data)
    lengths = range(n) if n <= 60 else sorted({0, 1, 2, 3, 4, 8, 12, 16, n - 1, n - 2, n - 4, n // 2,
                                               *(rng.randrange(n) for _ in range(12))})
    for i in lengths:
        ends(ctx, 'cut file ends', lambda: use(kind, data[:i], args), f'{name} cut to {i} of {n} bytes')
    ctx.nontrivial(name, data)


def compressed(ctx, rng, index):
    plain = blobs.lzLike(rng, 200)
    ctx.info('plain', plain)
    a = bytes(lz10.compress(plain))
    b = bytes(lz.backwardCompress(plain) or plain)
    for x, f in ((a, lz10.decompress), (b, codeCompression.decompress)):
        for i in range(0, len(x), rng.choice([1, 3, 7])):
            ends(ctx, 'cut compressed data ends', lambda: f(x[:i]), f'compressed data cut to {i} bytes')
    start = bytearray(a)
    if start:
        start[0] = rng.choice([i for i in range(256) if i != 0x10])
        refused(ctx, 'wrong identification', lambda: lz10.decompress(bytes(start)), f'LZ10 starting {start[0]:#x}')


PARTS = [numbers, numbers, numbers, events, limit, identification, identification, cut, cut, compressed]


def case(ctx, rng, index):
    k = index % 20
    if k == 19:
        romLengths(ctx, rng, index)
    else:
        PARTS[k % 10](ctx, rng, index // 20 * 2 + k // 10)
