"""Sequence archives (SSAR) keep their sequences."""

from collections import Counter

from ndspy import soundSequenceArchive as sa, soundSequence as q
from gen import seqs
from ref import seq, sndfile

CASES = {'quick': 120000, 'thorough': 720000}
RULE = ('Sequence archives with 0-12 (sometimes up to 1000, once 5600) sequences (shared starts, sequences without events, sequences that start in the'
        ' middle of another one) over structured programs; loaded from independently built files, resaved unparsed'
        ' and parsed, edited, reloaded, and created from events and sequences.'
        ' Non-trivial = at least three sequences.')
REQUIRED = {'unparsed: entries': 8000, 'unparsed: event data': 8000, 'parsed: entries': 8000,
            'parsed: event data': 8000, 'start events': 8000, 'names': 8000, 'sizes are true': 16000,
            'mixed states refused': 4000, 'access refused': 8000, 'edited archive': 6000}
ASSUMPTIONS = ['Variable-length integers are in shortest form.',
               'An archive with event data has at least one sequence with a start, or a program at offset 0.']


def described(s):
    return (s.bankID, s.volume, s.channelPressure, s.polyphonicPressure, s.playerID)


def verify(ctx, saved, entries, names, unk02, data, what):
    ctx.eq('save gives a triple', len(saved), 3, what)
    try:
        gotEntries, gotData = sndfile.parseSsar(saved[0])
    except sndfile.Bad as e:
        ctx.check('sizes are true', False, f'{what}: {e}')
    ctx.check('sizes are true', True)
    kind = what.split(' ')[0]
    ctx.eq(kind + ': entries', gotEntries, entries, what)
    ctx.bytesEq(kind + ': event data', gotData, data, what)
    ctx.eq('names', list(saved[2]), names, what)
    ctx.eq('extra value', saved[1], unk02, what)


def starts(archive):
    index = {id(e): i for i, e in enumerate(archive.events)}
    return [None if s.firstEvent is None else index.get(id(s.firstEvent), 'not in list')
            for _, s in archive.sequences]


def case(ctx, rng, index):
    n = rng.choice([0, 1, 2, 3, 5, 12]) if index % 1000 != 6 else rng.choice([127, 128, 255, 256, 300, 1000])
    if index == 14:
        n = 5600
    if n == 0 and rng.random() < 0.5:
        events, where = [], []
    else:
        events, where = seqs.program(rng, rng.choice([3, 8]) if index % 1000 != 9 else rng.choice([200, 1000]), max(1, min(n, rng.choice([1, 2, 4]))),
                                     far=index % 1000 == 7, anyFirst=n > 0 and index % 4 == 2)
    data, offsets = seq.encodeAll(events)
    model = []  # (name, start event index or None, settings)
    # All starts of the program must be used for everything to be reached
    targets = list(where) + [rng.choice(where + [None]) if where else None for _ in range(max(0, n - len(where)))]
    if n == 0:
        targets = []
    rng.shuffle(targets)
    counts = Counter(targets)
    for t in targets:
        if rng.random() < 0.1 and t is not None and where and counts[t] > 1:
            # start at some other plain event that is reached in sequence
            options = []
            for i in range(where[0] + 1, len(events)):
                if not seqs.fallsThrough(events, i - 1):
                    break
                if events[i - 1][0] != 'If':
                    options.append(i)
            if options:
                t = rng.choice(options)
        model.append((rng.choice([None, f'SE_{len(model)}', 'same name']), t,
                      (rng.randrange(1 << 16),) + tuple(rng.randrange(256) for _ in range(4))))
    if not targets and not events:
        ctx.note('empty archive')
    used = {t for _, t, _ in model if t is not None}
    if model and not set(where) <= used:
        # a start was redirected: put it back
        for i, w in enumerate(w for w in where if w not in used):
            model.append((None, w, (0, 1, 2, 3, 4)))
    if not model and len(where) > 1:
        return
    names = [m[0] for m in model]
    unk02 = rng.randrange(1 << 16)
    ctx.info('events', events)
    ctx.info('sequences', model)
    entries = [(None if t is None else offsets[t],) + s for _, t, s in model]
    gap = rng.choice([b'', b'', b'', rng.randbytes(rng.randrange(0, 20))])
    trailing = rng.choice([b'', b'', b'', rng.randbytes(rng.randrange(1, 9))])
    f = sndfile.buildSsar(entries, data, gap, trailing)

    given = rng.choice(['all', 'all', 'none', 'short'])
    a = {'all': lambda: sa.SSAR(f, unk02, list(names)), 'none': lambda: sa.SSAR(f, unk02=unk02),
         'short': lambda: sa.SSAR(f, unk02, tuple(names[:-1]))}[given]()
    want = {'all': names, 'none': [None] * len(names), 'short': names[:-1] + [None] * bool(names)}[given]
    ctx.eq('names', [x for x, _ in a.sequences], want, f'names given: {given}')
    a.sequences = [(nm, s) for nm, (_, s) in zip(names, a.sequences)]
    ctx.check('state', not a.parsed and all(not s.parsed for _, s in a.sequences), 'loaded archive counts as parsed')
    ctx.raises('access refused', lambda: a.events, Exception, 'events before parsing')
    ctx.eq('attributes', [described(s) for _, s in a.sequences], [m[2] for m in model], 'settings after loading')
    ctx.eq('start offsets', [s.firstEventOffset for _, s in a.sequences], [e[0] for e in entries], 'offsets')
    if a.sequences:
        ctx.raises('access refused', lambda: a.sequences[0][1].firstEvent, Exception, 'firstEvent before parsing')
    ctx.bytesEq('raw data', a.eventsData, data, 'eventsData')
    saved = a.save()
    verify(ctx, saved, entries, names, unk02, data, 'unparsed')
    if not gap and not trailing:
        ctx.bytesEq('file reproduced', saved[0], f, 'unparsed, resaved')
    if a.sequences and rng.random() < 0.5:
        mixed = sa.SSAR(*saved)
        mixed.sequences.append(('x', sa.SSARSequence(None)))
        ctx.raises('mixed states refused', mixed.save, Exception, 'parsed sequence in an unparsed archive')

    a.parse()
    ctx.check('state', a.parsed and all(s.parsed for _, s in a.sequences), 'parsed archive counts as unparsed')
    ctx.raises('access refused', lambda: a.eventsData, Exception, 'eventsData after parsing')
    if a.sequences:
        ctx.raises('access refused', lambda: a.sequences[0][1].firstEventOffset, Exception, 'offset after parsing')
    ctx.eq('events', seq.describeAll(a.events), events, 'events')
    ctx.eq('start events', starts(a), [m[1] for m in model], 'start events')
    ctx.eq('attributes', [described(s) for _, s in a.sequences], [m[2] for m in model], 'settings after parsing')
    old = a.events
    a.parse()
    ctx.check('parsing again changes nothing', a.events is old, 'event list replaced')
    verify(ctx, a.save(), entries, names, unk02, data, 'parsed')
    b = sa.SSAR(*a.save())
    b.parse()
    ctx.eq('start events', starts(b), [m[1] for m in model], 'start events after reloading')
    ctx.eq('events', seq.describeAll(b.events), events, 'events after reloading')

    if model and rng.random() < 0.5:
        b.sequences.append(('x', sa.SSARSequence(0, parsed=False)))
        ctx.raises('mixed states refused', b.save, Exception, 'unparsed sequence in a parsed archive')
        b.sequences.pop()

    # edit: events put in front, sequences added, removed and swapped
    if model:
        k = rng.randrange(1, 4)
        new = [seqs.plain(rng) for _ in range(k - 1)] + [('EndTrack',)]
        b.events[0:0] = [seq.make(e) for e in new]
        ev2 = new + seqs.shift(events, lambda i: i + k)
        m2 = [(nm, None if t is None else t + k, s) for nm, t, s in model]
        m2.append(('front', 0, (1, 2, 3, 4, 5)))
        b.sequences.append(('front', sa.SSARSequence(b.events[0], 1, 2, 3, 4, 5)))
        m2.append(('nothing', None, (0, 127, 64, 50, 0)))
        b.sequences.append(('nothing', sa.SSARSequence(None)))
        order = list(range(len(m2)))
        rng.shuffle(order)
        m2 = [m2[i] for i in order]
        b.sequences = [b.sequences[i] for i in order]
        b.sequences[0][1].volume = 77
        m2[0] = (m2[0][0], m2[0][1], (m2[0][2][0], 77) + m2[0][2][2:])
        data2, off2 = seq.encodeAll(ev2)
        saved = b.save()
        verify(ctx, saved, [(None if t is None else off2[t],) + s for _, t, s in m2], [m[0] for m in m2], unk02,
               data2, 'parsed and edited')
        c = sa.SSAR(*saved)
        c.parse()
        ctx.eq('edited archive', (seq.describeAll(c.events), starts(c)), (ev2, [m[1] for m in m2]), 'after reloading')
        # a start outside the list is refused
        b.sequences.append(('foreign', sa.SSARSequence(q.EndTrackSequenceEvent())))
        ctx.raises('foreign start refused', b.save, Exception, 'start event not in the list')

    objs = seq.makeAll(events)
    sl = [(nm, sa.SSARSequence(None if t is None else objs[t], *s)) for nm, t, s in model]
    d = sa.SSAR.fromEventsAndSequences(objs, sl, unk02)
    verify(ctx, d.save(), entries, names, unk02, data, 'parsed from events and sequences')
    if model and rng.random() < 0.3:
        s = sl[0][1]
        ctx.eq('sequence tuple', s.save(), (s.firstEvent,) + model[0][2], 'SSARSequence.save')
        s = sa.SSARSequence(-1, parsed=False)
        ctx.eq('sequence tuple', s.save(), (None, 0, 127, 64, 50, 0), 'SSARSequence.save, unparsed')
    if len(model) >= 3:
        ctx.nontrivial(f)
    if index in (3, 5):
        ctx.sample(f'{len(events)} events, sequences {str(model)[:200]}')
