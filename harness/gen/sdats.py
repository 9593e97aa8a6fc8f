from ndspy import soundArchive, soundBank, soundGroup, soundSequence, soundSequenceArchive, soundSequencePlayer, \
    soundStream, soundStreamPlayer, soundWaveArchive, WaveType
from gen import banks, seqs, waves
from ref import sbnk, sdat, seq, sndfile, waves as rw


def name(rng):
    k = rng.random()
    if k < 0.25:
        return None
    if rng.random() < 0.002:
        return 'LONG_' * rng.choice([20, 60, 300])
    if k < 0.3:
        return ''
    if k < 0.4:
        return 'SAME'
    if k < 0.5:
        return ''.join(chr(rng.randrange(1, 256)) for _ in range(rng.randrange(1, 12)))
    return f'{rng.choice(["BGM", "SE", "WAVE", "PLAYER"])}_{rng.randrange(1000)}' + 'x' * rng.randrange(4)


def b8(rng):
    return rng.choice([0, 127, 255, rng.randrange(256)])


def w16(rng):
    return rng.choice([0, 0, 1, 65535, rng.randrange(65536)])


def fresh(rng, part):
    """A model entry."""
    if part == 'sequences':
        events, _ = seqs.program(rng, rng.choice([2, 6]))
        return (sndfile.buildSseq(seq.encodeAll(events)[0]), w16(rng), w16(rng)) + tuple(b8(rng) for _ in range(4))
    if part == 'sequenceArchives':
        n = rng.choice([0, 1, 3])
        events, where = seqs.program(rng, 3, 1)
        data, offs = seq.encodeAll(events)
        entries = [(offs[rng.choice(where)] if rng.random() < 0.8 else None, w16(rng)) + tuple(b8(rng) for _ in range(4))
                   for _ in range(n)]
        return (sndfile.buildSsar(entries, data), w16(rng), tuple(name(rng) for _ in range(n)))
    if part == 'banks':
        m = banks.model(rng, rng.choice([0, 1, 3]), True)
        ids = [None if rng.random() < 0.4 else rng.choice([0, 1, 0x7FFF, rng.randrange(500)]) for _ in range(4)]
        return (sbnk.build(m), w16(rng), tuple(ids))
    if part == 'waveArchives':
        return (rw.buildSwar([waves.wave(rng, 40) for _ in range(rng.choice([0, 1, 3]))]), w16(rng))
    if part == 'sequencePlayers':
        return (w16(rng), frozenset(rng.sample(range(16), rng.randrange(17))), rng.choice([0, 0x1000, 0xFFFFFFFF]))
    if part == 'groups':
        return tuple((rng.randrange(4), rng.randrange(16), rng.choice([0, 5, 0xFFFFFFFF])) for _ in
                     range(rng.choice([0, 1, 2, 5]) if rng.random() < 0.99 else rng.choice([127, 128, 255, 256, 300])))
    if part == 'streamPlayers':
        return tuple(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 16])))
    f, channels, settings = waves.stream(rng)
    channels = [[b[:64] for b in c] for c in channels]
    return (rw.buildStrm(f, channels),) + settings


def model(rng, size=None):
    out = {}
    large = {}
    tail = ''
    if isinstance(size, tuple):
        return vast(rng, *size)
    if size == 'long':
        tail = rng.choice(['', '_' * 300])
        large = {rng.choice(sdat.PARTS): rng.choice([255, 256, 257, 400]) for _ in range(2)}
        size = None
    for part in sdat.PARTS:
        n = rng.choice([0, 0, 1, 2, 3, 6]) if size is None else size
        n = large.get(part, n)
        entries = []
        for _ in range(n):
            if rng.random() < 0.15:
                e = None
            elif entries and rng.random() < 0.3 and entries[-1][1] is not None:
                e = entries[-1][1]
                if part in ('sequences', 'streams', 'waveArchives'):
                    e = (e[0], w16(rng)) + e[2:]
            else:
                e = fresh(rng, part)
            s = name(rng)
            entries.append((s + tail if s and n > 200 else s, e))
        out[part] = entries
    if rng.random() < 0.1:
        for part in sdat.PARTS:
            out[part] = [(None, e) for _, e in out[part]]
        if rng.random() < 0.6:
            out['sequenceArchives'] = [(None, e and (e[0], e[1], (None,) * len(e[2]))) for _, e in
                                       out['sequenceArchives']]
    return out


VAST = {20 + 3 * i: ('slots', p) for i, p in enumerate(sdat.PARTS)}
VAST.update({2: ('group',), 11: ('files',)})


def vast(rng, kind, part=None):
    """Archives whose counts, offsets or file numbers do not fit in (signed) 16 bits."""
    out = model(rng)
    if kind == 'group':
        out['groups'].append(('MANY', tuple((i % 4, i % 16, i * 7) for i in range(66000))))
    elif kind == 'slots':
        out[part] = [(None, None)] * 65600 + out[part] + [('LAST', fresh(rng, part))]
    else:
        out['sequences'] = [(None, (sndfile.buildSseq(bytes([0x80, i % 100, 0x3C, i // 100 % 100, i // 10000, 0xFF])),
                                    0, i, 127, 64, 50, 0)) for i in range(32900)]
        for p in ('sequenceArchives', 'banks', 'waveArchives', 'streams'):
            out[p].append(('AFTER', fresh(rng, p)))
    return out


def toObject(part, e):
    if e is None:
        return None
    if part == 'sequences':
        return soundSequence.SSEQ(*e)
    if part == 'sequenceArchives':
        return soundSequenceArchive.SSAR(*e)
    if part == 'banks':
        return soundBank.SBNK(e[0], e[1], list(e[2]))
    if part == 'waveArchives':
        return soundWaveArchive.SWAR(*e)
    if part == 'sequencePlayers':
        return soundSequencePlayer.SequencePlayer(e[0], set(e[1]), e[2])
    if part == 'groups':
        return [soundGroup.GroupEntry(*g) for g in e]
    if part == 'streamPlayers':
        return soundStreamPlayer.StreamPlayer(list(e))
    return soundStream.STRM(*e)


def toSdat(m, settings=None, mergeIds=None):
    s = soundArchive.SDAT()
    for part in sdat.PARTS:
        setattr(s, part, [(n, toObject(part, e)) for n, e in m[part]])
    for (part, i), v in (mergeIds or {}).items():
        getattr(s, part)[i][1].dataMergeOptimizationID = v
    apply(s, settings or sdat.DEFAULTS)
    return s


def apply(s, settings):
    for k, v in settings.items():
        setattr(s, k, v)


def settingsOf(s):
    return {k: getattr(s, k) for k in sdat.DEFAULTS}


def fromObject(part, x):
    if x is None:
        return None
    if part == 'sequencePlayers':
        return (x.maxSequences, frozenset(x.channels), x.heapSize)
    if part == 'groups':
        return tuple((int(g.type) if isinstance(g.type, soundGroup.GroupEntryType) else repr(g.type),
                      (1 if g.loadSSEQ else 0) | (2 if g.loadSBNKSWARsFrom == 1 else 0) |
                      (4 if g.loadSWAR else 0) | (8 if g.loadSSAR else 0), g.id) for g in x)
    if part == 'streamPlayers':
        return tuple(x.channels)
    f = x.save()
    data = bytes(f[0])
    if part == 'banks':
        return (data, x.unk02, tuple(x.waveArchiveIDs) + (None,) * (4 - len(x.waveArchiveIDs)))
    if part == 'sequenceArchives':
        return (data, x.unk02, tuple(n for n, _ in x.sequences))
    if part == 'waveArchives':
        return (data, x.unk02)
    if part == 'sequences':
        return (data, x.unk02, x.bankID, x.volume, x.channelPressure, x.polyphonicPressure, x.playerID)
    return (data, x.unk02, x.volume, x.priority, x.playerID, x.unk07)


def describe(s):
    return {part: [(n, fromObject(part, x)) for n, x in getattr(s, part)] for part in sdat.PARTS}


def settings(rng):
    a = rng.choice([0x20, 0x20, 0x20, 0x200, 0x100, 0x80, 0x40, 0x10, 8, 4, 2, 1])
    return dict(fileAlignment=a, firstFileAlignment=rng.choice([None, None, None, 0x40, 0x200, 0x100]),
                fatLengthsIncludePadding=rng.random() < 0.3, padAtEnd=rng.random() < 0.7,
                padSymbSizeTo4InSDATHeader=rng.random() < 0.3)


def mergeIds(rng, m):
    return {(part, i): rng.randrange(3) for part in sdat.WITH_FILE for i, (_, e) in enumerate(m[part]) if e is not None}
