"""
Sequence programs: structured lists of events (see ref.seq) with known control flow.
"""
from ref import seq


def dur(rng):
    return rng.choice([0, 1, 48, 127, 128, 129, 0x3FFF, 0x4000, 0x1FFFFF, 0x200000, 0xFFFFFFF, 0x10000000,
                       0xFFFFFFFF, rng.randrange(1 << 14),
                       rng.randrange(200), rng.randrange(1 << 28)])


def byte(rng, top=256):
    return rng.choice([0, 1, 63, 64, 127, top - 1, rng.randrange(top)])


def word(rng):
    return rng.choice([0, 1, 120, 255, 256, 0x7FFF, 0x8000, 0xFFFF, rng.randrange(1 << 16)])


def s16(rng):
    return rng.choice([0, 1, -1, 127, 255, 256, -256, 32767, -32768, rng.randrange(-32768, 32768)])


RANDOM_PLAIN = [0x80, 0x81] + [b for k, b in seq.BYTE.items()]
SOLO = ['Note', 'Rest', 'InstrumentSwitch', 'Random', 'FromVariable', 'DefineTracks'] + list(seq.ARITH) + \
    list(seq.BYTE) + list(seq.WORD)


def plain(rng, kind=None):
    """An event without references and without influence on the control flow."""
    if kind is None:
        kind = rng.choice(['Note', 'Note', 'Note', 'Rest', 'Rest', rng.choice(SOLO), rng.choice(SOLO)])
    if kind == 'Note':
        return (kind, byte(rng, 128), byte(rng, 128), rng.random() < 0.2, dur(rng))
    if kind == 'Rest':
        return (kind, dur(rng))
    if kind == 'InstrumentSwitch':
        return (kind, rng.choice([0, 0, 1, 127, 128, 300, rng.randrange(1 << 14)]), byte(rng, 128))
    if kind == 'Random':
        sub = rng.choice([rng.randrange(128), rng.choice(RANDOM_PLAIN), rng.choice(RANDOM_PLAIN)])
        args = (byte(rng),) if sub < 0x80 else ()
        return (kind, sub, args, s16(rng), s16(rng))
    if kind == 'FromVariable':
        sub = rng.choice([rng.randrange(128), rng.choice(RANDOM_PLAIN), 0xB0 + rng.randrange(14), 0xE1, 0xE3])
        if 0xB0 <= sub <= 0xBD:
            return (kind, sub, byte(rng) - 128, rng.randrange(-128, 128))
        return (kind, sub, byte(rng), None)
    if kind == 'DefineTracks':
        return (kind, tuple(sorted(rng.sample(range(16), rng.randrange(17)))))
    if kind in seq.ARITH:
        return (kind, byte(rng), s16(rng))
    if kind == 'MonoPoly':
        return (kind, rng.randrange(2))
    if kind == 'VibratoType':
        return (kind, rng.randrange(3))
    if kind in seq.BYTE:
        return (kind, byte(rng))
    if kind in seq.WORD:
        return (kind, word(rng))
    raise KeyError(kind)


class Block:
    """Consecutive events; references are ('L', label)."""
    def __init__(self):
        self.events = []
        self.labels = {}   # label -> index within the block


def body(rng, counter, size, subs, way=None):
    """
    A run of events; may contain conditional jumps forward/backward within
    itself and calls. way limits the conditional jumps to 'forward' or 'back'.
    """
    b = Block()
    own = []
    pending = []
    for _ in range(size):
        for lab in list(pending):
            if rng.random() < 0.4:
                b.labels[lab] = len(b.events)
                own.append(lab)
                pending.remove(lab)
        k = rng.random()
        if k < 0.12:
            counter[0] += 1
            b.labels[counter[0]] = len(b.events)
            own.append(counter[0])
        if k < 0.72:
            b.events.append(plain(rng))
        elif k < 0.80 and subs:
            if rng.random() < 0.3:
                b.events.append(('If',))
            b.events.append(('Call', ('L', rng.choice(subs))))
        elif k < 0.86:
            b.events.append(('If',))
            b.events.append(plain(rng))
        elif k < 0.92 and own and way != 'forward':
            b.events.append(('If',))
            b.events.append(('Jump', ('L', rng.choice(own))))
        elif k < 0.96 and way != 'back':
            counter[0] += 1
            pending.append(counter[0])
            b.events.append(('If',))
            b.events.append(('Jump', ('L', counter[0])))
        else:
            b.events += [('BeginLoop', byte(rng)), plain(rng), ('EndLoop',)]
    b.pending = pending
    b.own = own
    return b


def close(b, ev):
    for lab in b.pending:
        b.labels[lab] = len(b.events)
    b.events.append(ev)


def program(rng, size=8, starts=1, far=False, anyFirst=False):
    """
    (events, start indices). Everything except Raw events is reachable
    from the starts; Raw events never are, and never touch each other.
    With far, some code lies more than 64 KiB behind the beginning. With
    anyFirst, anything can stand at the beginning, unreachable bytes too.
    """
    counter = [0]

    def newLabel(b, at=0):
        counter[0] += 1
        b.labels[counter[0]] = at
        return counter[0]

    blocks = []
    subs = []
    tails = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        b = body(rng, counter, rng.randrange(0, size), list(subs), rng.choice(['forward', 'back']))
        if tails and rng.random() < 0.4:
            close(b, ('Jump', ('L', rng.choice(tails))))
        else:
            close(b, ('Return',))
            if rng.random() < 0.6:
                tails.append(newLabel(b, len(b.events) - 1))
        subs.append(newLabel(b))
        blocks.append(b)
    # code that never returns, for calls with nothing behind them
    enders = Enders(newLabel, rng.choice([0, 0, 0, 0.4]))
    tracks = []
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        b = body(rng, counter, rng.randrange(1, size + 1), subs)
        finish(rng, b, tracks, enders)
        tracks.append(newLabel(b))
        blocks.append(b)
    mains = []
    for s in range(starts):
        b = body(rng, counter, rng.randrange(0, size + 1), subs)
        if s == 0:
            head = []
            if tracks and rng.random() < 0.8:
                head.append(('DefineTracks', tuple(range(min(16, len(tracks) + 1)))))
            for i, t in enumerate(tracks):
                head.append(('BeginTrack', rng.randrange(16) if rng.random() < 0.95 else byte(rng), ('L', t)))
            if tracks and rng.random() < 0.3:
                head.append(('BeginTrack', 5, ('L', rng.choice(tracks))))
            for sub in subs:  # make sure that every subroutine is reached, twice now and then
                head.append(('Call', ('L', sub)))
                if rng.random() < 0.3:
                    head.append(('Call', ('L', sub)))
            b.events = head + b.events
            b.labels = {k: v + len(head) for k, v in b.labels.items()}
        finish(rng, b, tracks if s == 0 else [], enders)
        mains.append(b)
        newLabel(b)
    blocks += [b for b, labels in enders.all]
    first = mains[0]
    rest = mains[1:] + blocks
    rng.shuffle(rest)
    order = [first] + rest
    if anyFirst:
        rng.shuffle(order)
    events = []
    where = {}
    startAt = {}
    wasRaw = False
    for b in order:
        if far and len(events) and not wasRaw and not any(len(e) == 2 and e[0] == 'Raw' and len(e[1]) > 60000 for e in events):
            events.append(('Raw', rng.choice([bytes, rng.randbytes])(rng.choice([0xFFFC, 0x10000, 0x10080, 0x20001]))))
            wasRaw = True
        elif (events or anyFirst) and rng.random() < 0.25 and not wasRaw:
            events.append(('Raw', rng.choice([b'\0', b'\0\0\0', b'\xff', rng.randbytes(rng.randrange(1, 12))])))
            wasRaw = True
        else:
            wasRaw = False
        base = len(events)
        startAt[id(b)] = base
        for lab, i in b.labels.items():
            where[lab] = base + i
        events += b.events
        if b.events:
            wasRaw = False
    if rng.random() < 0.4 and events[-1][0] != 'Raw':
        events.append(('Raw', bytes(rng.randrange(1, 4))))

    def fix(e):
        return tuple(('@', where[x[1]]) if isinstance(x, tuple) and len(x) == 2 and x[0] == 'L' else x for x in e)
    events = [fix(e) for e in events]
    return events, [startAt[id(b)] for b in mains]


class Enders:
    """Code blocks that never return."""
    def __init__(self, newLabel, chance):
        self.newLabel = newLabel
        self.chance = chance
        self.all = []

    def pick(self, rng):
        if self.all and rng.random() < 0.5:
            return rng.choice(rng.choice(self.all)[1])
        b = Block()
        b.pending, b.events = [], [plain(rng) for _ in range(rng.randrange(4))]
        labels = [self.newLabel(b)]
        if b.events:
            labels.append(self.newLabel(b, rng.randrange(len(b.events) + 1)))
        k = rng.random()
        if k < 0.3:
            close(b, (rng.choice(['Call', 'Call', 'Jump']), ('L', self.pick(rng))))
        elif k < 0.6 and b.events:
            close(b, ('Jump', ('L', rng.choice(labels))))
        else:
            close(b, ('EndTrack',))
        self.all.append((b, labels))
        return labels[0]


def finish(rng, b, tracks, enders):
    if rng.random() < enders.chance:
        close(b, ('Call', ('L', enders.pick(rng))))
    elif b.own and rng.random() < 0.4:
        close(b, ('Jump', ('L', rng.choice(b.own))))
    elif tracks and rng.random() < 0.1:
        close(b, ('Jump', ('L', rng.choice(tracks))))
    else:
        close(b, ('EndTrack',))


TERMINATORS = ('Return', 'EndTrack', 'Raw')


def targets(events):
    out = set()
    for e in events:
        for x in e[1:]:
            if isinstance(x, tuple) and len(x) == 2 and x[0] == '@':
                out.add(x[1])
    return out


def shift(events, fn):
    """Renumber references."""
    def fix(e):
        return tuple(('@', fn(x[1])) if isinstance(x, tuple) and len(x) == 2 and x[0] == '@' else x for x in e)
    return [fix(e) for e in events]


def fallsThrough(events, i):
    """Does control flow from event i into event i + 1 (unconditionally continuing)?"""
    e = events[i]
    if e[0] in TERMINATORS:
        return False
    if e[0] == 'Jump':
        return i > 0 and events[i - 1][0] == 'If'
    if e[0] == 'Call':
        return returns(events, e[1][1])
    return True


def returns(events, i):
    """Does the code at event i return to its caller?"""
    seen = set()
    while i not in seen:
        seen.add(i)
        e = events[i]
        if e[0] == 'Return':
            return True
        if e[0] == 'EndTrack':
            return False
        if e[0] == 'Jump' and (i == 0 or events[i - 1][0] != 'If'):
            i = e[1][1]
            continue
        if e[0] == 'Call' and not returns(events, e[1][1]):
            return False
        i += 1
    return False
