"""Sequence events encode and decode losslessly."""

from ndspy import soundSequence as q
from gen import seqs
from ref import seq

CASES = {'quick': 150000, 'thorough': 900000}
RULE = ('Every event kind with random and boundary arguments on its own (all kinds in turn), and structured programs'
        ' of events with subroutines, tracks, loops, conditions and unreachable bytes; encodings are compared with'
        ' an independent encoder and decoding with the original list. Non-trivial = program of at least five events.')
REQUIRED = {'encoding of a single event': 3000, 'reported length': 3000, 'single event decodes': 2000,
            'list encodes': 1000, 'list decodes': 1000, 'unreachable bytes kept': 200,
            'event listed repeatedly': 500}
ASSUMPTIONS = ['Variable-length integers are in shortest form, as every known tool writes them.',
               'Randomised events are checked for notes and events with one 8-bit or variable-length argument.']
ALL = seqs.SOLO + list(seq.BARE) + ['BeginTrack', 'Jump', 'Call', 'Raw']


def one(ctx, rng, kind):
    if kind in seq.BARE:
        ev = (kind,)
    elif kind == 'BeginTrack':
        ev = (kind, rng.randrange(256), ('@', 0))
    elif kind in ('Jump', 'Call'):
        ev = (kind, ('@', 0))
    elif kind == 'Raw':
        ev = (kind, rng.randbytes(rng.randrange(0, 9)))
    else:
        ev = seqs.plain(rng, kind)
    ctx.info('event', ev)
    obj = seq.make(ev)
    off = rng.choice([0, 1, 0xFFFFFF, rng.randrange(1 << 24)])
    offsets = None
    if kind in seq.REFS:
        dest = q.EndTrackSequenceEvent()
        if kind == 'BeginTrack':
            obj.firstEvent = dest
        else:
            obj.destination = dest
        offsets = {dest: off, obj: 5}
    want = seq.encode(ev, [off])
    got = obj.save(offsets) if offsets else (obj.save() if rng.random() < 0.5 else obj.save({}))
    ctx.bytesEq('encoding of a single event', got, want, f'{ev}')
    ctx.eq('reported length', obj.dataLength, len(want), f'{ev}')
    if kind == 'Note':
        ctx.eq('note properties', (obj.pitch, obj.type), (ev[1], ev[1]), f'{ev}')
        obj.pitch = 60
        ctx.eq('note properties', (obj.pitch, obj.type, bytes(obj.save())[0]), (60, 60, 60), f'{ev} with another pitch')
    elif kind != 'Raw':
        ctx.eq('type value', obj.type, want[0], f'{ev}')
    if kind in ('EndTrack', 'Return'):
        back = type(obj).fromData(want[0], want)
        ctx.eq('single event decodes', (type(back), seq.describe(back, {})), (type(obj), ev), f'fromData of {want.hex()}')
        return
    if kind == 'Raw' or kind in seq.REFS:
        return
    # decode, directly and in place
    prefix = rng.randbytes(rng.randrange(0, 5))
    back = type(obj).fromData(want[0], prefix + want + b'\xff\xff', len(prefix))
    ctx.eq('single event decodes', seq.describe(back, {}), ev, f'fromData of {want.hex()}')
    ctx.eq('single event decodes', seq.describe(type(obj).fromData(want[0], want + b'\xff'), {}), ev,
           f'fromData of {want.hex()} without an offset')
    ctx.check('same class', type(back) is type(obj), f'{type(back)}')
    evs, notable = q.readSequenceEvents(want + b'\xff', rng.choice([[], [0], None]))
    ctx.eq('single event decodes', seq.describeAll(evs), [ev, ('EndTrack',)], f'reading {want.hex()}ff')


def case(ctx, rng, index):
    if index % 2 == 0:
        kind = ALL[(index // 2) % len(ALL)]
        one(ctx, rng, kind)
        return
    events, starts = seqs.program(rng, rng.choice([3, 8, 20]) if index % 1000 != 8 else 3000, far=index % 1000 == 7)
    if index % 40 == 1:
        # a long straight run
        events = [seqs.plain(rng) for _ in range(400)] + [('EndTrack',)]
        starts = [0]
    ctx.info('events', events)
    data, offsets = seq.encodeAll(events)
    ctx.info('data', data)
    objs = seq.makeAll(events)
    got, _ = q.saveSequenceEvents(objs)
    ctx.bytesEq('list encodes', got, data, 'saved list')
    evs, notable = q.readSequenceEvents(bytes(data), rng.choice([[0], []]))
    ctx.eq('list decodes', seq.describeAll(evs), events, 'list read from bytes')
    ctx.eq('lengths add up', sum(e.dataLength for e in evs), len(data), 'total length')
    if any(e[0] == 'Raw' for e in events):
        raws = [bytes(e.data) for e in evs if isinstance(e, q.RawDataSequenceEvent)]
        ctx.eq('unreachable bytes kept', raws, [e[1] for e in events if e[0] == 'Raw'], 'raw data')
    again, _ = q.saveSequenceEvents(evs, None)
    ctx.bytesEq('read and written back', again, data, 'bytes read and written back')
    # the same object at several places in the list
    again = [e for e in objs if isinstance(e, (q.NoteSequenceEvent, q.RestSequenceEvent, q.PanSequenceEvent))]
    if again and index % 6 == 1:
        at = [rng.randrange(len(again)) for _ in range(rng.randrange(2, 9))]
        where = {id(e): i for i, e in enumerate(objs)}
        listed = [again[i] for i in at] + [q.EndTrackSequenceEvent()]
        want, _ = seq.encodeAll([events[where[id(again[i])]] for i in at] + [('EndTrack',)])
        got, _ = q.saveSequenceEvents(rng.choice([list, tuple, iter])(listed))
        ctx.bytesEq('event listed repeatedly', got, want, f'events {at} of the list, then the end')
    if len(events) >= 5:
        ctx.nontrivial(data)
    if index in (3, 5):
        ctx.sample(f'{len(events)} events, {len(data)} bytes: {str(events)[:250]}')
