"""
Songs of one or more tracks, and an independent player for event lists (see ref.seq for the notation).
"""
from gen import seqs
from ref import seq

QUIET = [k for k in list(seq.BYTE) + ['Tempo', 'SweepPitch'] if k not in ('BeginLoop', 'MonoPoly', 'Transpose')]
FLOW = ('DefineTracks', 'BeginTrack', 'Jump', 'Call', 'Return', 'EndTrack')


def duration(rng):
    return rng.choice([0, 1, 2, 3, 12, 24, 48, 96, 127, 128, 192, rng.randrange(1, 500), rng.randrange(1, 20000)])


def straight(rng, instruments, size):
    """
    Events without jumps: an instrument is selected before the first note.
    instruments: [(instrumentID, playable pitches)].
    """
    out = []
    for k in rng.sample(QUIET, rng.choice([0, 0, 1, 3, 6])):
        out.append(seqs.plain(rng, k))
    current = None
    mono = True
    for _ in range(size):
        k = rng.random()
        if current is None or k < 0.08:
            current = rng.choice(instruments)
            out.append(('InstrumentSwitch', 0, current[0]))
        elif k < 0.14:
            mono = not mono if rng.random() < 0.8 else mono
            out.append(('MonoPoly', int(mono)))
        elif k < 0.55 and current[1]:
            out.append(('Note', rng.choice(current[1]), rng.randrange(128), rng.random() < 0.1, duration(rng)))
        elif k < 0.85:
            out.append(('Rest', duration(rng)))
        else:
            out.append(seqs.plain(rng, rng.choice(QUIET)))
    return out


def timeline(events, mono=True):
    """[(start time, event)] of straight events, and the total time."""
    out, t = [], 0
    for e in events:
        out.append((t, e))
        if e[0] == 'MonoPoly':
            mono = bool(e[1])
        elif e[0] == 'Rest' or e[0] == 'Note' and mono:
            t += e[-1]
    return out, t


def winding(rng, events):
    """
    Adds conditional events, loops, conditional jumps and subroutines to straight events. References are
    ('@', index in the result).
    """
    events = list(events)
    for _ in range(rng.randrange(1, 5)):
        at = rng.randrange(len(events) + 1)
        k = rng.random()
        if k < 0.3:
            new = [('If',), ('Pan', rng.randrange(128))]
        elif k < 0.5:
            new = [('BeginLoop', rng.randrange(5)), ('Rest', 7), ('EndLoop',)]
        elif k < 0.6:
            new = [('If',), ('EndTrack',)]
        elif k < 0.7:
            new = [('VariableAssignment', rng.randrange(16), rng.randrange(99))]
        elif events:
            to = rng.randrange(len(events))
            while to and events[to - 1] == ('If',):
                to -= 1
            new = [('If',), ('Jump', ('@', to))]
        else:
            new = []
        # never between an If and what it rules
        while at and events[at - 1] == ('If',):
            at -= 1
        fixed = seqs.shift(events, lambda n: n + len(new) if n >= at else n)
        new = seqs.shift(new, lambda n: n + len(new) if n >= at else n)
        events = fixed[:at] + new + fixed[at:]
    if rng.random() < 0.3 and events:
        # a subroutine behind the end
        at = rng.randrange(len(events) + 1)
        while at and events[at - 1] == ('If',):
            at -= 1
        events = seqs.shift(events, lambda n: n + 1 if n >= at else n)
        events = events[:at] + [('Call', ('@', len(events) + 2))] + events[at:]
        events += [('EndTrack',), ('Expression', rng.randrange(128)), ('Rest', 5), ('Return',)]
    return events


class Song:
    """
    tracks: number -> events, without a final EndTrack, references within the track.
    ends: number -> how the track ends: 'end' or ('jump', index).
    """
    def __init__(self, rng, instruments, wind=True, sizes=(0, 1, 2, 5, 12, 30), loops=True, empty=True):
        k = rng.random()
        if k < 0.25:
            numbers = [0]
        else:
            numbers = sorted(rng.sample(range(1, 16), rng.choice([1, 2, 3, 5, 15])))
            if rng.random() < 0.93:
                numbers = [0] + numbers
        self.tracks, self.ends = {}, {}
        for n in numbers:
            size = rng.choice(sizes)
            ev = straight(rng, instruments, size)
            if not ev and not empty:
                ev = [('Rest', 48)]
            end = ('EndTrack',)
            if wind and rng.random() < 0.4:
                ev = winding(rng, ev)
            elif loops and ev and rng.random() < 0.3:
                end = ('Jump', ('@', rng.randrange(len(ev))))
            if not (ev and ev[-1] == ('Return',)):
                ev = ev + [end]
            self.tracks[n] = ev
        self.order = numbers[:]
        rest = [n for n in numbers if n]
        rng.shuffle(rest)
        self.order = ([0] if 0 in self.tracks else []) + rest
        self.single = numbers == [0] and rng.random() < 0.8
        self.begins = rest[:]
        rng.shuffle(self.begins)

    def flat(self):
        """The whole event list; every track has its own part of it."""
        head = [] if self.single else [('DefineTracks', tuple(sorted(self.tracks)))]
        base, out = {}, []
        size = len(head) + (0 if self.single else len(self.begins))
        for n in self.order:
            base[n] = size + len(out)
            out += seqs.shift(self.tracks[n], lambda i, n=n: i + base[n])
        if not self.single:
            head += [('BeginTrack', n, ('@', base[n])) for n in self.begins]
        return head + out


def play(events, limit=400):
    """
    track number -> what it plays: [event, ...], ending with 'end', or cut off after limit events. Whether an If is
    fulfilled depends on how many the track has met.
    """
    out = {}
    waiting = [(0, 0)]
    defined = None
    while waiting:
        number, at = waiting.pop(0)
        if number in out:
            raise ValueError(f'track {number} starts twice')
        played = out[number] = []
        stack = []
        ifs = 0
        steps = 0
        while len(played) < limit and steps < 3 * limit:
            if at >= len(events):
                played.append('ran off the end')
                break
            e = events[at]
            at += 1
            steps += e[0] not in ('BeginTrack', 'DefineTracks')
            if e[0] == 'If':
                ifs += 1
                if (ifs * 7 // 3) % 2:
                    at += 1   # not fulfilled
                continue
            if e[0] == 'Jump':
                at = e[1][1]
            elif e[0] == 'Call':
                stack.append(at)
                at = e[1][1]
            elif e[0] == 'Return':
                if not stack:
                    played.append('return without call')
                    break
                at = stack.pop()
            elif e[0] == 'EndTrack':
                played.append('end')
                break
            elif e[0] == 'BeginTrack':
                waiting.append((e[1], e[2][1]))
            elif e[0] == 'DefineTracks':
                defined = e[1]
            else:
                played.append(e)
    return out, defined
