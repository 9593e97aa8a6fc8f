from ndspy import soundBank as sb


def note(rng):
    k = rng.random()
    if k < 0.6:
        return (rng.randrange(0, 300), rng.randrange(0, 4), rng.randrange(1, 128)) + tuple(
            rng.choice([127, 64, 0, rng.randrange(128)]) for _ in range(5))
    return (rng.choice([0, 7, 255, 256, 65535, rng.randrange(65536)]), rng.choice([0, 3, 65535, rng.randrange(65536)]),
            rng.choice([0, 60, 127, 128, 255])) + tuple(rng.randrange(256) for _ in range(5))


def single(rng):
    return ('single', rng.choice([1, 1, 2, 3, rng.randrange(1, 16)]), note(rng))


def rangeInst(rng):
    n = rng.choice([1, 1, 2, 5, 12, 60, 128]) if rng.random() < 0.9 else rng.randrange(1, 256)
    first = rng.choice([0, 36, 35, 256 - n, rng.randrange(0, 257 - n)])
    first = min(first, 256 - n)
    return ('range', first, tuple((rng.choice([1, 1, 2, 3, 0, rng.randrange(1 << 16)]), note(rng)) for _ in range(n)))


def regional(rng):
    n = rng.choice([1, 2, 3, 7, 8, 8, rng.randrange(1, 9)])
    if rng.random() < 0.8:
        ends = sorted(rng.sample(range(1, 128), n))
        if rng.random() < 0.7:
            ends[-1] = 127
    else:
        ends = [rng.randrange(1, 256) for _ in range(n)]
        if rng.random() < 0.3:
            ends[0] = 0
    return ('regional', tuple((e, rng.choice([1, 1, 2, 3, 0, rng.randrange(1 << 16)]), note(rng)) for e in ends))


def instrument(rng, small=False):
    k = rng.random()
    if k < 0.15:
        return None
    if k < 0.5:
        return single(rng)
    if k < 0.7 and not small:
        return rangeInst(rng)
    return regional(rng)


def model(rng, size=None, small=False):
    n = rng.choice([0, 1, 2, 3, 6, 12, 30]) if size is None else size
    out = []
    for _ in range(n):
        if out and rng.random() < 0.25:
            x = rng.choice(out)
            if x is not None and x[0] == 'single' and rng.random() < 0.4:
                x = ('single', rng.randrange(1, 16), x[2])  # same bytes, other type
            out.append(x)
        else:
            out.append(instrument(rng, small))
    from ref import sbnk
    while sum(len(sbnk.record(x)) for x in out if x) + 0x3C + 4 * len(out) > 0xFFF0:
        out.pop()
    return out


def toNote(t, n):
    return sb.NoteDefinition(*n, t)


def toInstrument(m):
    if m is None:
        return None
    if m[0] == 'single':
        return sb.SingleNoteInstrument(toNote(m[1], m[2]))
    if m[0] == 'range':
        return sb.RangeInstrument(m[1], [toNote(t, n) for t, n in m[2]])
    return sb.RegionalInstrument([sb.RegionalInstrument.Region(e, toNote(t, n)) for e, t, n in m[1]])


def fromNote(n):
    return (n.waveID, n.waveArchiveIDID, n.pitch, n.attack, n.decay, n.sustain, n.release, n.pan)


def describe(x):
    if x is None:
        return None
    if isinstance(x, sb.SingleNoteInstrument):
        return ('single', int(x.type), fromNote(x.noteDefinition))
    if isinstance(x, sb.RangeInstrument):
        return ('range', x.firstPitch, tuple((int(n.type), fromNote(n)) for n in x.noteDefinitions))
    if isinstance(x, sb.RegionalInstrument):
        return ('regional', tuple((r.lastPitch, int(r.noteDefinition.type), fromNote(r.noteDefinition))
                                  for r in x.regions))
    return ('?', type(x).__name__)


def archiveIDs(rng):
    n = lambda: rng.choice([0, 255, 256, 0x7FFF, rng.randrange(1000), rng.randrange(1000)])
    return [rng.choice([None, n()]) for _ in range(rng.randrange(0, 4))] + [n()] if rng.random() < 0.8 else []
