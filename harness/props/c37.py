"""Music helpers keep what a song plays."""

import copy

from ndspy import soundBank as sb, soundSequence as q, soundWaveArchive
from ndspy.extras import music
from gen import banks, songs, waves
from ref import seq

CASES = {'quick': 75000, 'thorough': 450000}
RULE = ('Generated songs of 1-16 tracks (made of objects or loaded from bytes) are split, edited with every helper and'
        ' reassembled; an independent player runs the event lists before and after and compares what every track'
        ' plays. Loops, durations and moves in time are compared with timelines of an independent model. Banks over'
        ' one to four wave archives are minified by one or more songs, and every note is looked up in the bank and'
        ' wave archives before and after. Non-trivial = at least two tracks, or at least three notes looked up.')
REQUIRED = {'reassembled song plays the same': 1500, 'reassembled file plays the same': 1200, 'split into tracks': 1500,
            'looped song plays': 700, 'looped track': 700, 'impossible loop refused': 100, 'collapsed tracks': 700,
            'velocities': 700, 'velocity out of range refused': 60, 'move in time': 3000, 'duration': 1500,
            'simultaneous changes': 700, 'initial setting': 3000, 'note keeps its sound': 8000,
            'only what is used remains': 700, 'waves that are never played are dropped': 700, 'minified bank survives saving': 700, 'minified song plays the same': 700, 'regions still cover all pitches': 100}
ASSUMPTIONS = [
    'A note is played by the instrument selected before it in its track as written; transposing, random and variable'
    ' events are not taken into account when minifying.',
    'Songs: every track has its own consecutive events and selects an instrument (of bank 0) before its first note;'
    ' the event that ends a track is not a jump target; every archive is given once.',
    'Times do not count jumps, calls and inner loops (documented).',
]

INITIAL = {'Instrument': 'InstrumentSwitch', 'Pan': 'Pan', 'Volume': 'TrackVolume', 'Transpose': 'Transpose',
           'Priority': 'TrackPriority', 'MonoPoly': 'MonoPoly', 'AttackRate': 'AttackRate', 'DecayRate': 'DecayRate',
           'SustainRate': 'SustainRate', 'ReleaseRate': 'ReleaseRate', 'Tempo': 'Tempo'}
ANY = [(i, list(range(128))) for i in (0, 1, 5, 127)]


def stops(events):
    """Does it contain a conditional end, behind which files are not parsed?"""
    return any(a == ('If',) and b == ('EndTrack',) for a, b in zip(events, events[1:]))


def song(ctx, rng, instruments=ANY, **kw):
    """(model, flat events, SSEQ)"""
    s = songs.Song(rng, instruments, **kw)
    flat = s.flat()
    ctx.info('song', flat)
    if rng.random() < 0.3:
        flat = flat + [('Raw', bytes(rng.randrange(1, 4)))]
    if stops(flat) or rng.random() < 0.5:
        sseq = q.SSEQ.fromEvents(seq.makeAll(flat))
    else:
        sseq = q.SSEQ(fileOf(flat))
        if rng.random() < 0.3:
            sseq.parse()
    return s, flat, sseq


def fileOf(flat):
    data = seq.encodeAll(flat)[0]
    size = 0x1C + len(data)
    return (b'SSEQ\xff\xfe\x00\x01' + size.to_bytes(4, 'little') + b'\x10\x00\x01\x00DATA'
            + (size - 0x10).to_bytes(4, 'little') + b'\x1c\x00\x00\x00' + data)


def played(sseq):
    return songs.play(seq.describeAll(sseq.events))


def compare(ctx, monitor, got, want, numbers, what):
    (gt, gd), (wt, wd) = got, want
    numbers = sorted(numbers)
    for n in numbers:
        ctx.check(monitor, n in gt and gt[n] == wt[n],
                  lambda: f'{what}: track {n} plays {gt.get(n)} instead of {wt[n]}')
    extra = set(gt) - set(numbers) - {0}
    ctx.check(monitor, not extra, f'{what}: extra tracks {sorted(extra)}')
    if numbers != [0]:
        ctx.eq(monitor, gd, tuple(numbers), f'{what}: defined tracks')


def reload(ctx, sseq):
    """Saves and loads again."""
    data = sseq.save()[0]
    new = q.SSEQ(data)
    new.parse()
    return new


def reassemble(ctx, rng):
    s, flat, sseq = song(ctx, rng)
    want = songs.play(flat)
    m = music.SSEQMusic(sseq)
    ctx.eq('split into tracks', sorted(m.tracks), sorted(s.tracks), 'track numbers')
    for n, t in m.tracks.items():
        # the events of the track, without the end (and padding) - played alone
        ev = [e for e in (seq.describe(x, {}) for x in t.events) if e[0] not in songs.FLOW + ('Raw',)]
        mine = [e for e in s.tracks[n] if e[0] not in songs.FLOW]
        ctx.eq('split into tracks', ev, mine, f'events of track {n}')
    for _ in range(rng.randrange(1, 3)):
        out = m.save()
        ctx.check('reassembled song plays the same', out[0] is sseq and out[1] is None and out[2] is None,
                  'save() returns other objects')
        compare(ctx, 'reassembled song plays the same', played(sseq), want, s.tracks, 'reassembled')
    if not stops(flat):
        compare(ctx, 'reassembled file plays the same', played(reload(ctx, sseq)), want, s.tracks,
                'reassembled and saved')
    again = music.SSEQMusic(sseq)
    again.save()
    compare(ctx, 'reassembled song plays the same', played(sseq), want, s.tracks, 'reassembled twice')
    if len(s.tracks) > 1:
        ctx.nontrivial('song', len(s.tracks), s.single)


def possible(events, t):
    """Can a loop start or end at time t?"""
    tl, total = songs.timeline(events)
    if t >= total or any(a == t for a, _ in tl):
        return True
    return any(e[0] == 'Rest' and a < t < a + e[1] for a, e in tl)


def candidates(rng, tracks):
    out = {0}
    for ev in tracks:
        tl, total = songs.timeline(ev)
        for a, e in tl:
            out |= {a, a + 1, max(0, a - 1)}
            if e[0] == 'Rest' and e[1]:
                out.add(a + rng.randrange(e[1]))
        out |= {total, total + 1, total + rng.randrange(1, 999)}
    return sorted(out)


def noRest(tl):
    return [(t, e) for t, e in tl if e[0] != 'Rest']


def loops(ctx, rng):
    s, flat, sseq = song(ctx, rng, wind=False, loops=False, sizes=(1, 2, 5, 12, 25))
    padded = flat[-1][0] == 'Raw'
    m = music.SSEQMusic(sseq)
    straight = {n: s.tracks[n][:-1] for n in s.tracks}
    one = rng.random() < 0.4
    numbers = [rng.choice(sorted(s.tracks))] if one else sorted(s.tracks)
    if padded and s.order[-1] in numbers:
        return  # the end stays in the middle of the track
    chosen = [straight[n] for n in numbers]
    times = candidates(rng, chosen)
    good = [t for t in times if all(possible(ev, t) for ev in chosen)]
    if rng.random() < 0.8:
        a, b = sorted(rng.sample(good, 2))
    else:
        a, b = sorted(rng.sample(times, 2))
    clear = rng.random() < 0.7
    ctx.info('loop', [a, b, clear, numbers])
    kw = {} if clear and rng.random() < 0.5 else {'clearTrailing': clear}

    def run():
        if one:
            m.tracks[numbers[0]].loop(a, b, **kw)
        else:
            m.loop(a, b, **kw)
    if not (a in good and b in good):
        before = {n: noRest(songs.timeline([seq.describe(e, {}) for e in t.events])[0]) for n, t in m.tracks.items()}
        ctx.raises('impossible loop refused', run, RuntimeError, 'loop inside a note')
        for n in numbers:
            if not (possible(straight[n], a) and possible(straight[n], b)):
                ctx.eq('impossible loop refused',
                       noRest(songs.timeline([seq.describe(e, {}) for e in m.tracks[n].events])[0]), before[n],
                       'track after a refused loop')
        return
    run()
    expected = {}
    for n in numbers:
        t = m.tracks[n]
        ev = seq.describeAll(t.events)
        tl, total = songs.timeline(straight[n])
        jumps = [i for i, e in enumerate(ev) if e[0] == 'Jump']
        ctx.eq('looped track', len(jumps), 1, 'jumps in a looped track')
        ctx.check('looped track', t.looped, 'a looped track does not say so')
        j = jumps[0]
        k = ev[j][1][1]
        body, length = songs.timeline(ev[:j])
        ctx.eq('looped track', noRest(body), noRest([x for x in tl if x[0] < b]), 'times of the events up to the loop end')
        ctx.eq('looped track', length, b, 'time at the end of the loop')
        ctx.check('looped track', isinstance(k, int) and k < j and body[k][0] == a,
                  lambda: f'the loop goes back to {body[k] if isinstance(k, int) and k < j else k}, not to time {a}')
        ctx.eq('looped track', noRest(body[k:]), noRest([x for x in tl if a <= x[0] < b]), 'events in the loop')
        if clear:
            ctx.eq('looped track', len(ev), j + 1, 'length with trailing events cleared')
        else:
            ctx.eq('looped track', noRest(songs.timeline(ev[:j] + ev[j + 1:])[0]), noRest(tl),
                   'all events, with the ones behind the loop kept')
        first = [e for u, e in tl if u < b]
        body = [e for u, e in tl if a <= u < b]
        expected[n] = [e for e in first + body * 3 if e[0] != 'Rest']
        ctx.raises('looped track', lambda t=t: t.loop(a, b), RuntimeError, 'looping a looped track')
    m.save()
    for src, what in ((sseq, 'looped'), (reload(ctx, sseq), 'looped and saved')):
        got, _ = played(src)
        for n in s.tracks:
            if n in expected:
                g = [e for e in got[n] if e[0] != 'Rest'][:len(expected[n])]
                ctx.eq('looped song plays', g, expected[n][:len(g)], f'{what}: track {n}')
                ctx.check('looped song plays', len(g) == len(expected[n]) or len(got[n]) >= 400,
                          f'{what}: track {n} stops')
            else:
                ctx.eq('looped song plays', got[n], songs.play(straight[n] + [('EndTrack',)])[0][0],
                       f'{what}: track {n}, which is not looped')
    ctx.nontrivial('loop', one, clear)


def collapse(ctx, rng):
    s, flat, sseq = song(ctx, rng)
    want, _ = songs.play(flat)
    m = music.SSEQMusic(sseq)
    m.collapseTrackIDs()
    old = sorted(s.tracks)
    ctx.eq('collapsed tracks', sorted(m.tracks), list(range(len(old))), 'track numbers')
    m.save()
    compare(ctx, 'collapsed tracks', played(sseq), ({i: want[n] for i, n in enumerate(old)}, None), range(len(old)),
            'collapsed')
    ctx.nontrivial('collapse', len(old))


def velocities(ctx, rng):
    s, flat, sseq = song(ctx, rng)
    m = music.SSEQMusic(sseq)
    n = rng.choice(sorted(m.tracks))
    before = {k: seq.describeAll(t.events) for k, t in m.tracks.items()}
    t = m.tracks[n]
    if rng.random() < 0.5:
        amount = rng.choice([0, 1, -1, 10, -10, 127, -127, 200, rng.randrange(-130, 130)])
        f, call = (lambda v: v + amount), t.addToNoteVelocities
    else:
        amount = rng.choice([0, 1, 0.5, 2, 0.9, 1.1, 3.0, 10, rng.random() * 2])
        f, call = (lambda v: int(v * amount)), t.multiplyNoteVelocitiesBy
    clamp = rng.random() < 0.6
    kw = {} if clamp and rng.random() < 0.5 else {'clamp': clamp}
    ctx.info('velocities', [n, amount, call.__name__, clamp])
    fits = all(0 <= f(e[2]) <= 127 for e in before[n] if e[0] == 'Note')
    if not fits and not clamp:
        ctx.raises('velocity out of range refused', lambda: call(amount, **kw), ValueError, 'velocity out of range')
        return
    call(amount, **kw)
    for k, t in m.tracks.items():
        want = before[k]
        if k == n:
            want = [e[:2] + (min(127, max(0, f(e[2]))),) + e[3:] if e[0] == 'Note' else e for e in want]
        ctx.eq('velocities', seq.describeAll(t.events), want, f'track {k} (changed: {n})')
    ctx.nontrivial('velocities', amount)


def moves(ctx, rng):
    ev = songs.straight(rng, ANY, rng.choice([0, 1, 3, 8, 20]))
    ctx.info('events', ev)
    M = q.MonoPolySequenceEvent.Value
    mono = rng.random() < 0.7
    tl, total = songs.timeline(ev, mono)
    objs = seq.makeAll(ev)
    kw = {} if mono and rng.random() < 0.5 else {'initialMonoPolyMode': M(mono)}
    ctx.eq('duration', music.durationOf(objs, **kw), total, 'duration')
    i, j = sorted((rng.randrange(len(ev) + 1), rng.randrange(len(ev) + 1)))
    ctx.eq('duration', music.durationOf(objs[i:j], M(mono)), songs.timeline(ev[i:j], mono)[1], f'duration of {i}:{j}')
    times = candidates(rng, [ev])
    for _ in range(3):
        objs = seq.makeAll(ev)
        i = rng.choice([0, 0, rng.randrange(len(ev) + 1)])
        part, rest = songs.timeline(ev[i:], mono)
        t = rng.choice(times)
        cut, append = rng.random() < 0.5, rng.random() < 0.5
        ctx.info('move', [i, t, mono, cut, append])
        idx, moved, mode = music.moveInTime(objs, i, t, initialMonoPolyMode=M(mono), cut=cut, append=append)
        after = seq.describeAll(objs)
        starts = [a for a, _ in part] + [rest]
        want = list(ev)
        if t == 0:
            w = (i, 0)
        elif t in starts:
            w = (i + starts.index(t), t)
        elif t > rest:
            w = (len(ev), rest)
            if append:
                want.append(('Rest', t - rest))
                w = (len(want), t)
        else:
            k = max(n for n, a in enumerate(starts) if a < t)
            # the event at k goes past the target
            w = (i + k, starts[k])
            if cut and part[k][1][0] == 'Rest':
                want[i + k:i + k + 1] = [('Rest', t - starts[k]), ('Rest', starts[k] + part[k][1][1] - t)]
                w = (i + k + 1, t)
        ctx.eq('move in time', after, want, 'events after moving')
        ctx.eq('move in time', (idx, moved), w, 'place and time moved')
        m = mono
        for e in want[i:idx]:
            if e[0] == 'MonoPoly':
                m = bool(e[1])
        ctx.eq('move in time', bool(mode), m, 'mono/poly mode there')
    ctx.raises('move in time', lambda: music.moveInTime(objs, 0, -1), ValueError, 'moving backwards')
    ctx.raises('move in time', lambda: music.moveInTime(objs, len(objs) + 1, 5), ValueError, 'start behind the end')
    if len(ev) > 3:
        ctx.nontrivial('move', len(ev))


def simultaneous(ctx, rng):
    n = rng.randrange(0, 9)
    events = seq.makeAll([('Pan', i) for i in range(n)])
    orig = list(events)
    added = {i: [] for i in range(n + 1)}
    replaced, deleted, log = {}, set(), []
    with music.SimultaneousEventsModifier(events) as mod:
        for k in range(rng.randrange(0, 12)):
            op = rng.choice(['insert', 'insert', 'set', 'del'])
            new = q.RestSequenceEvent(k)
            if op == 'insert' or not n:
                i = rng.randrange(n + 1)
                mod.insert(i, new)
                added[i].append(new)
            else:
                i = rng.randrange(n)
                if op == 'set':
                    mod[i] = new
                    replaced[i] = new
                else:
                    del mod[i]
                    deleted.add(i)
            log.append((op, i))
            ctx.check('simultaneous changes', len(events) == n and all(a is b for a, b in zip(events, orig)),
                      lambda: f'the list changes before the end: {log}')
    want = []
    for i in range(n + 1):
        want += added[i]
        if i < n:
            if i in replaced:
                want.append(replaced[i])
            elif i not in deleted:
                want.append(orig[i])
    ctx.check('simultaneous changes', len(want) == len(events) and all(a is b for a, b in zip(events, want)),
              lambda: f'{log}: {events} instead of {want}')
    if len(log) > 3:
        ctx.nontrivial('simultaneous', n, len(log))


def initial(ctx, rng):
    for _ in range(3):
        name = rng.choice(list(INITIAL))
        kind = INITIAL[name]
        ev = songs.straight(rng, ANY, rng.choice([0, 2, 6, 12]))
        head = 0
        while head < len(ev) and ev[head][0] not in ('Note', 'Rest'):
            head += 1
        # at most one setting of this kind at the beginning
        lead = [e for e in ev[:head] if e[0] != kind]
        value = lambda: ((0, rng.randrange(128)) if kind == 'InstrumentSwitch' else rng.randrange(2)
                         if kind == 'MonoPoly' else rng.randrange(128) if kind != 'Tempo' else rng.randrange(400))
        old = None
        if rng.random() < 0.5:
            old = value()
            lead.insert(rng.randrange(len(lead) + 1), (kind,) + (old if isinstance(old, tuple) else (old,)))
        ev = lead + ev[head:]
        ctx.info('track', ev)
        t = music.SSEQMusic.Track(seq.makeAll(ev) + [q.EndTrackSequenceEvent()])
        attr = 'initial' + name
        ctx.eq('initial setting', getattr(t, attr), old, attr)
        new = None if rng.random() < 0.25 else value()
        ctx.info('set', [attr, old, new])
        setattr(t, attr, q.MonoPolySequenceEvent.Value(new) if kind == 'MonoPoly' and new is not None else new)
        ctx.eq('initial setting', getattr(t, attr), new, f'{attr} after setting it')
        got = seq.describeAll(t.events)
        mine = []
        for i, e in enumerate(got):
            if e[0] in ('Note', 'Rest'):
                break
            if e[0] == kind:
                mine.append(i)
        want = [] if new is None else [(kind,) + (new if isinstance(new, tuple) else (new,))]
        ctx.eq('initial setting', [got[i] for i in mine], want, f'{attr} events before the first note or rest')
        ctx.eq('initial setting', [e for i, e in enumerate(got) if i not in mine], [e for i, e in enumerate(ev)
               if not (e[0] == kind and i < len(lead))], f'everything but {attr}')
        if old is not None and new is not None:
            ctx.eq('initial setting', mine, [i for i, e in enumerate(lead) if e[0] == kind], f'place of {attr}')
    ctx.nontrivial('initial')


def makeBank(rng):
    """(SBNK, SWARs, [(instrumentID, pitches it can play)])"""
    archives = [[waves.wave(rng, 24)[:6] + (bytes([a, w]) + rng.randbytes(2),) for w in range(rng.choice([1, 2, 4, 9]))]
                for a in range(rng.randrange(1, 5))]

    def definition():
        kind = sb.NoteType(rng.choice([1, 1, 1, 1, 2, 3]))
        a = rng.randrange(len(archives))
        w = rng.randrange(len(archives[a]))
        if kind != sb.NoteType.PCM:
            w = rng.randrange(8)
        return sb.NoteDefinition(w, a, *(rng.randrange(128) for _ in range(6)), kind)
    pool = [definition() for _ in range(rng.randrange(1, 6))]

    def d():
        return rng.choice(pool) if rng.random() < 0.3 else definition()
    instruments, playable = [], []
    for i in range(rng.choice([1, 2, 4, 8, 20])):
        k = rng.random()
        if k < 0.1:
            instruments.append(None)
            pitches = []
        elif k < 0.4:
            instruments.append(sb.SingleNoteInstrument(d()))
            pitches = list(range(128))
        elif k < 0.65:
            n = rng.choice([1, 2, 5, 12, 40])
            first = rng.randrange(0, 128 - n)
            instruments.append(sb.RangeInstrument(first, [d() for _ in range(n)]))
            pitches = list(range(first, first + n))
        elif k < 0.95 or not instruments:
            ends = sorted(rng.sample(range(1, 128), rng.randrange(1, 9)))
            if rng.random() < 0.7:
                ends[-1] = 127
            if rng.random() < 0.1:
                ends[0] = 0
                ends = sorted(set(ends))
            instruments.append(sb.RegionalInstrument([sb.RegionalInstrument.Region(e, d()) for e in ends]))
            pitches = list(range(ends[-1] + 1))
        else:
            j = rng.randrange(len(instruments))
            instruments.append(instruments[j])
            pitches = playable[j][1]
        playable.append((i, pitches))
    sbnk = sb.SBNK.fromInstruments(instruments, waveArchiveIDs=list(range(len(archives))))
    if rng.random() < 0.3:
        sbnk.inaccessibleInstruments = {0x1000: sb.SingleNoteInstrument(definition())}
    swars = [soundWaveArchive.SWAR.fromWaves([waves.toWave(w) for w in ws]) for ws in archives]
    few = [p for p in playable if rng.random() < 0.6] or playable
    return sbnk, swars, [(i, p if rng.random() < 0.5 else rng.sample(p, min(3, len(p)))) for i, p in few]


def sound(sbnk, swars, instrument, pitch):
    """What a note sounds like: its settings and its sample."""
    if not 0 <= instrument < len(sbnk.instruments):
        return f'no instrument {instrument}'
    x = sbnk.instruments[instrument]
    d = None
    if isinstance(x, sb.SingleNoteInstrument):
        d = x.noteDefinition
    elif isinstance(x, sb.RangeInstrument):
        if x.firstPitch <= pitch < x.firstPitch + len(x.noteDefinitions):
            d = x.noteDefinitions[pitch - x.firstPitch]
    elif isinstance(x, sb.RegionalInstrument):
        for r in x.regions:
            if pitch <= r.lastPitch:
                d = r.noteDefinition
                break
    if d is None:
        return 'silence'
    out = (int(d.type), d.pitch, d.attack, d.decay, d.sustain, d.release, d.pan)
    if d.type != sb.NoteType.PCM:
        return out + (d.waveID,)
    if swars is None:
        return out + (d.waveArchiveIDID, d.waveID)
    try:
        return out + (d.waveArchiveIDID, waves.describe(swars[d.waveArchiveIDID].waves[d.waveID]))
    except IndexError:
        return out + ('no such wave',)


def notes(events, sbnk, swars):
    """What the notes of a track sound like."""
    out, inst = [], None
    for e in events:
        if e[0] == 'InstrumentSwitch':
            inst = e[2]
        elif e[0] == 'Note':
            out.append((e[1], sound(sbnk, swars, inst, e[1])))
    return out


def definitions(sbnk):
    for x in sbnk.instruments:
        if isinstance(x, sb.SingleNoteInstrument):
            yield x.noteDefinition
        elif isinstance(x, sb.RangeInstrument):
            yield from x.noteDefinitions
        elif isinstance(x, sb.RegionalInstrument):
            yield from (r.noteDefinition for r in x.regions)


def playableWaves(sbnk, selected, pitches):
    """Waves that some selected instrument uses for one of these pitches."""
    out = set()

    def use(d):
        if d.type == sb.NoteType.PCM:
            out.add((d.waveArchiveIDID, d.waveID))
    for i in selected:
        x = sbnk.instruments[i]
        if isinstance(x, sb.SingleNoteInstrument):
            use(x.noteDefinition)
        elif isinstance(x, sb.RangeInstrument):
            for p, d in enumerate(x.noteDefinitions, x.firstPitch):
                if p in pitches:
                    use(d)
        elif isinstance(x, sb.RegionalInstrument):
            low = 0
            for r in x.regions:
                if any(low <= p <= r.lastPitch for p in pitches):
                    use(r.noteDefinition)
                low = r.lastPitch + 1
    return out


def minify(ctx, rng):
    sbnk, swars, playable = makeBank(rng)
    ctx.info('bank', [banks.describe(x) for x in sbnk.instruments])
    ctx.info('archives', [len(s.waves) for s in swars])
    given = swars if rng.random() < 0.8 else None
    how = rng.choice(['sseq', 'sseqs', 'music', 'events'])
    count = rng.choice([1, 2, 3]) if how in ('sseqs', 'events') else 1
    made = [song(ctx, rng, playable, sizes=(1, 4, 10, 25)) for _ in range(count)]
    orig = copy.deepcopy((sbnk, swars))
    before = [{n: notes(t, *orig) for n, t in s.tracks.items()} for s, _, _ in made]
    plain = [{n: [e[:1] if e[0] == 'InstrumentSwitch' else e for e in p]
              for n, p in songs.play(flat)[0].items()} for _, flat, _ in made]
    selected = {e[2] for s, _, _ in made for t in s.tracks.values() for e in t if e[0] == 'InstrumentSwitch'}
    archiveIDs = list(sbnk.waveArchiveIDs)
    sseqs = [x for _, _, x in made]
    if how != 'sseqs':
        for x in sseqs:
            x.parse()
    ctx.info('how', [how, count, given is not None])
    if how == 'sseq':
        music.minifyBySseq(sseqs[0], sbnk, *([] if given is None else [given]))
    elif how == 'sseqs':
        music.minifyBySseqs(sseqs, sbnk, given)
    elif how == 'events':
        music.minifyByEvents((e for x in sseqs for e in x.events), sbnk, given)
    else:
        if given:
            ctx.raises('one archive instead of a list refused', lambda: music.SSEQMusic(sseqs[0], sbnk, given[0]))
        m = music.SSEQMusic(sseqs[0], sbnk, given)
        m.minify()
        ctx.check('minified song plays the same', m.save() == (sseqs[0], sbnk, given), 'save() returns other objects')
    ctx.eq('only what is used remains', len(sbnk.instruments), len(selected), 'number of instruments')
    ctx.eq('only what is used remains', dict(sbnk.inaccessibleInstruments), {}, 'inaccessible instruments')
    ctx.eq('only what is used remains', list(sbnk.waveArchiveIDs), archiveIDs, 'wave archive IDs of the bank')
    if given is None:
        ctx.eq('only what is used remains', [[waves.describe(w) for w in s.waves] for s in swars],
               [[waves.describe(w) for w in s.waves] for s in orig[1]], 'wave archives that were not given')
    else:
        used = {(d.waveArchiveIDID, d.waveID) for d in definitions(sbnk) if d.type == sb.NoteType.PCM}
        left = {(a, w) for a, s in enumerate(swars) for w in range(len(s.waves))}
        ctx.check('only what is used remains', left <= used, lambda: f'unused waves kept: {sorted(left - used)[:5]}')
        ctx.eq('only what is used remains', len(swars), len(orig[1]), 'number of wave archives')
        for old, new in zip(sorted(selected), sbnk.instruments):
            x = orig[0].instruments[old]
            if isinstance(new, sb.RegionalInstrument) and x.regions[-1].lastPitch == 127:
                # the console looks for a region until it finds one
                ctx.eq('regions still cover all pitches', new.regions[-1].lastPitch, 127, f'last pitch of instrument {old}')
        pitches = {e[1] for s, _, _ in made for t in s.tracks.values() for e in t if e[0] == 'Note'}
        wanted = playableWaves(orig[0], selected, pitches)
        for a, s in enumerate(swars):
            n = sum(1 for x in wanted if x[0] == a)
            ctx.check('waves that are never played are dropped', len(s.waves) <= n,
                      f'archive {a} keeps {len(s.waves)} waves; {n} of them can be played')
    total = 0
    data, ids = sbnk.save()[:1][0], list(sbnk.waveArchiveIDs)
    stored = sb.SBNK(data, waveArchiveIDs=ids)
    for i, (s, flat, x) in enumerate(made):
        m = music.SSEQMusic(x)
        for n, t in m.tracks.items():
            ev = seq.describeAll(t.events)
            for source, monitor in ((sbnk, 'note keeps its sound'), (stored, 'minified bank survives saving')):
                got = notes(ev, source, swars)
                ctx.eq(monitor, [p for p, _ in got], [p for p, _ in before[i][n]], f'song {i} track {n}: pitches')
                for k, (g, w) in enumerate(zip(got, before[i][n])):
                    ctx.check(monitor, g == w, lambda: f'song {i} track {n} note {k} (pitch {w[0]}): {g[1]}'
                              f' instead of {w[1]}')
                total += len(got)
        got = {n: [e[:1] if e[0] == 'InstrumentSwitch' else e for e in p] for n, p in played(x)[0].items()}
        ctx.check('minified song plays the same', all(got.get(n) == plain[i][n] for n in s.tracks),
                  lambda: f'song {i}: {got} instead of {plain[i]}'[:3000])
    if total > 3:
        ctx.nontrivial('minify', how, count, given is None)


PARTS = [reassemble, reassemble, loops, loops, collapse, velocities, moves, moves, simultaneous, initial, minify, minify]


def case(ctx, rng, index):
    part = PARTS[index % len(PARTS)]
    ctx.info('part', part.__name__)
    part(ctx, rng)
