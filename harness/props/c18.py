"""Sequence files (SSEQ) round-trip and are well formed."""

from ndspy import soundSequence as q
from gen import seqs
from ref import seq, sndfile

CASES = {'quick': 140000, 'thorough': 840000}
RULE = ('Sequence files built independently (also with a gap before the events and bytes behind the file) around'
        ' structured programs, with random settings: resaved unparsed, parsed, parsed twice, after a failed parse,'
        ' after edits, and created from events; saved files go through an independent reader.'
        ' Non-trivial = program of at least five events.')
REQUIRED = {'unparsed: event data': 8000, 'parsed: event data': 5000, 'settings': 8000, 'sizes are true': 8000,
            'access refused': 5000, 'parsing again changes nothing': 5000, 'reloaded events': 5000,
            'failed parse leaves the file usable': 150, 'from events': 2000}
ASSUMPTIONS = ['Variable-length integers are in shortest form.']
FIELDS = ('unk02', 'bankID', 'volume', 'channelPressure', 'polyphonicPressure', 'playerID')


def settings(rng):
    return (rng.randrange(1 << 16), rng.randrange(1 << 16)) + tuple(rng.randrange(256) for _ in range(4))


def fields(s):
    return tuple(getattr(s, f) for f in FIELDS)


def verify(ctx, saved, data, setting, what):
    ctx.eq('save gives a 7-tuple', len(saved), 7, what)
    try:
        got = sndfile.parseSseq(saved[0])
    except sndfile.Bad as e:
        ctx.check('sizes are true', False, f'{what}: {e}')
    ctx.check('sizes are true', True)
    ctx.bytesEq(what.split(' ')[0] + ': event data' if what.startswith(('unparsed', 'parsed')) else 'event data',
        got, data, what)
    ctx.eq('settings', tuple(saved[1:]), setting, what)


def case(ctx, rng, index):
    setting = settings(rng)
    if index % 50 == 9:
        # Data that is no valid sequence: kept, and still kept after the failed attempt to parse it
        data = rng.choice([b'', b'\x80', b'\x3c\x40', b'\x80\xff', b'\x94\x77\x77\x77', b'\xfd',
                           b'\x80\x05', b'\x90\xff', b'\xc0'])
        f = sndfile.buildSseq(data)
        s = q.SSEQ(f, *setting)
        try:
            s.parse()
        except Exception:
            pass
        else:
            ctx.check('failed parse leaves the file usable', False, f'{data.hex()} was parsed')
        ctx.check('failed parse leaves the file usable', not s.parsed, 'counts as parsed')
        verify(ctx, s.save(), data, setting, 'unparsed after failed parse')
        return
    events, _ = seqs.program(rng, rng.choice([3, 8, 20]) if index % 1000 != 8 else 3000, far=index % 1000 == 7)
    data, offsets = seq.encodeAll(events)
    ctx.info('events', events)
    gap = rng.choice([b'', b'', b'', bytes(4), rng.randbytes(rng.randrange(0, 20))])
    trailing = rng.choice([b'', b'', b'', rng.randbytes(rng.randrange(1, 9))])
    f = sndfile.buildSseq(data, gap, trailing)
    s = q.SSEQ(f, *setting) if rng.random() < 0.7 else q.SSEQ(f, **dict(zip(FIELDS, setting)))
    ctx.eq('settings', fields(s), setting, 'attributes after loading')
    ctx.check('state', s.parsed is False, 'loaded file counts as parsed')
    ctx.raises('access refused', lambda: s.events, Exception, 'events before parsing')
    ctx.raises('state is read-only', lambda: setattr(s, 'parsed', True), Exception, 'setting parsed')
    ctx.bytesEq('raw data', s.eventsData, data, 'eventsData')
    saved = s.save()
    verify(ctx, saved, data, setting, 'unparsed')
    if not gap and not trailing:
        ctx.bytesEq('file reproduced', saved[0], f, 'unparsed, resaved')
    s.parse()
    ctx.check('state', s.parsed is True, 'parsed file counts as unparsed')
    ctx.raises('access refused', lambda: s.eventsData, Exception, 'eventsData after parsing')
    ctx.eq('events', seq.describeAll(s.events), events, 'events')
    before = list(s.events)
    s.parse()
    ctx.check('parsing again changes nothing', len(before) == len(s.events) and
        all(a is b for a, b in zip(before, s.events)), 'event list replaced')
    saved = s.save()
    verify(ctx, saved, data, setting, 'parsed')
    s2 = q.SSEQ(*saved)
    ctx.eq('settings', fields(s2), setting, 'reloaded')
    s2.parse()
    ctx.eq('reloaded events', seq.describeAll(s2.events), events, 'after reloading')
    # change settings and an event, save, reload
    other = settings(rng)
    for n, v in zip(FIELDS, other):
        setattr(s2, n, v)
    model = [seqs.plain(rng)] + seqs.shift(events, lambda n: n + 1)
    s2.events.insert(0, seq.make(model[0]))
    data2, _ = seq.encodeAll(model)
    verify(ctx, s2.save(), data2, other, 'parsed and edited')
    # raw data can be exchanged before parsing
    s3 = q.SSEQ(f)
    ctx.eq('default settings', fields(s3), (0, 0, 127, 64, 50, 0), 'defaults')
    s3.eventsData = data2
    verify(ctx, s3.save(), data2, (0, 0, 127, 64, 50, 0), 'unparsed with other data')
    s3.parse()
    ctx.eq('events', seq.describeAll(s3.events), model, 'parsed from exchanged data')
    if index % 3 == 0:
        objs = seq.makeAll(events)
        s4 = q.SSEQ.fromEvents(objs, *setting)
        ctx.check('from events', s4.parsed and s4.events is objs and fields(s4) == setting, 'fromEvents')
        verify(ctx, s4.save(), data, setting, 'event data of fromEvents')
        s5 = q.SSEQ.fromEvents(objs)
        ctx.eq('default settings', fields(s5), (0, 0, 127, 64, 50, 0), 'fromEvents defaults')
        s6 = q.SSEQ(None, *setting)
        s6.events = objs
        verify(ctx, s6.save(), data, setting, 'event data of assigned events')
    if len(events) >= 5:
        ctx.nontrivial(data, setting)
    if index in (3, 5):
        ctx.sample(f'{len(events)} events, {len(data)} bytes, settings {setting}, gap {len(gap)}')
