"""Jumps, calls and tracks keep pointing at the same events."""

from ndspy import soundSequence as q
from gen import seqs
from ref import seq

CASES = {'quick': 140000, 'thorough': 840000}
RULE = ('Structured programs with jumps (conditional and not), calls, shared subroutine tails, tracks and several'
        ' start positions, read from independently encoded bytes; then 1-12 random edits (insert, delete, resize'
        ' events, move unreachable bytes, retarget) mirrored in a model; saved, compared with the independent'
        ' encoder and reloaded. Non-trivial = at least two references and one edit.')
REQUIRED = {'targets after reading': 2000, 'start events after reading': 2000, 'bytes after editing': 1500,
            'targets after editing and reloading': 1500, 'start offsets after editing': 1500,
            'dangling reference refused': 500}
ASSUMPTIONS = ['Edits keep the control flow well formed (nothing is inserted behind an event that never continues).']


CROSSING = 'conditional jumps crossing inside a subroutine'


def crossing(ctx, rng):
    """A subroutine with a conditional jump forward past a loop that jumps back before its target."""
    a, b = seqs.plain(rng, 'Rest'), seqs.plain(rng, 'Note')
    events = [('Call', ('@', 3)), b, ('EndTrack',),
              ('If',), ('Jump', ('@', 6)),      # forward
              a,
              b, ('If',), ('Jump', ('@', 5)),   # back, over the target of the first one
              ('Return',)]
    data, offsets = seq.encodeAll(events)
    evs, _ = q.readSequenceEvents(bytes(data), [0])
    ctx.eq('targets after reading', seq.describeAll(evs), events, 'call of a subroutine with crossing conditional'
        ' jumps', CROSSING)


def case(ctx, rng, index):
    if index % 500 == 7:
        crossing(ctx, rng)
        return
    nStarts = rng.choice([1, 1, 2, 3])
    events, starts = seqs.program(rng, rng.choice([3, 8, 16]), nStarts, far=index % 1000 == 8, anyFirst=index % 4 == 2)
    data, offsets = seq.encodeAll(events)
    ctx.info('events', events)
    ctx.info('starts', starts)
    asked = [offsets[s] for s in starts]
    if rng.random() < 0.3:
        asked.append(rng.choice(asked))
        starts = starts + [starts[asked.index(asked[-1])]]
    evs, notable = q.readSequenceEvents(bytes(data), list(asked))
    ctx.eq('targets after reading', seq.describeAll(evs), events, 'events')
    ctx.check('start events after reading', len(notable) == len(starts) and
        all(n is evs[s] for n, s in zip(notable, starts)), 'start events are not the events at the start offsets')
    # very same objects
    for e, o in zip(events, evs):
        if e[0] in ('Jump', 'Call'):
            ctx.check('reference is the object in the list', o.destination is evs[e[1][1]], f'{e}')
        elif e[0] == 'BeginTrack':
            ctx.check('reference is the object in the list', o.firstEvent is evs[e[2][1]], f'{e}')

    # edits
    model = list(events)
    live = list(evs)
    startSet = list(starts)
    history = []
    for _ in range(rng.choice([1, 3, 12])):
        k = rng.random()
        keep = seqs.targets(model) | set(startSet)
        i = rng.randrange(len(model))
        if k < 0.4:
            # insert before i, where control falls into i (and not right after a condition)
            if i == 0 or not seqs.fallsThrough(model, i - 1) or model[i - 1][0] == 'If' or model[i][0] == 'Raw':
                continue
            new = seqs.plain(rng)
            model = seqs.shift(model, lambda n: n + (n >= i))
            startSet = [s + (s >= i) for s in startSet]
            model.insert(i, new)
            live.insert(i, seq.make(new))
            history.append(('insert', i, new))
        elif k < 0.6:
            if i in keep or model[i][0] in seq.BARE or model[i][0] in seq.REFS or (i and model[i - 1][0] == 'If'):
                continue
            if model[i][0] == 'Raw':
                pass
            elif not seqs.fallsThrough(model, i):
                continue
            # removing what lies between two stretches of unreachable bytes would join them
            model = seqs.shift(model, lambda n: n - (n > i))
            startSet = [s - (s > i) for s in startSet]
            history.append(('delete', i, model[i]))
            del model[i]
            del live[i]
        elif k < 0.9:
            e = model[i]
            if e[0] in ('Rest', 'Note'):
                d = seqs.dur(rng)
                live[i].duration = d
                model[i] = e[:-1] + (d,)
            elif e[0] == 'InstrumentSwitch':
                live[i].bankID = 5000
                model[i] = (e[0], 5000, e[2])
            elif e[0] == 'Raw':
                raw = rng.randbytes(rng.randrange(1, 20))
                live[i].data = raw
                model[i] = ('Raw', raw)
            else:
                continue
            history.append(('change', i, model[i]))
        else:
            # point a track start or call at another event of the same kind of block
            refs = [n for n, e in enumerate(model) if e[0] in ('BeginTrack', 'Call')]
            if len(refs) < 2:
                continue
            a, b = rng.sample(refs, 2)
            if model[a][0] != model[b][0]:
                continue
            if sum(1 for n in refs if model[n][-1] == model[a][-1]) < 2:
                continue  # the old target would become unreachable
            if model[a][0] == 'Call' and a > min(n for n in refs if model[n][0] == 'Call') and model[b][-1][1] > a:
                continue
            if model[a][0] == 'Call':
                continue
            live[a].firstEvent = live[model[b][-1][1]]
            model[a] = model[a][:-1] + (model[b][-1],)
            history.append(('retarget', a, model[a]))
    ctx.info('edits', history)
    want, offs = seq.encodeAll(model)
    got, notableOffs = q.saveSequenceEvents(live, [live[s] for s in startSet])
    ctx.bytesEq('bytes after editing', got, want, 'saved after editing')
    ctx.eq('start offsets after editing', list(notableOffs), [offs[s] for s in startSet], 'start offsets')
    back, notable = q.readSequenceEvents(bytes(got), list(notableOffs))
    ctx.eq('targets after editing and reloading', seq.describeAll(back), model, 'reloaded after editing')
    ctx.check('starts after editing and reloading', all(n is back[s] for n, s in zip(notable, startSet)),
        'start events')

    # dangling references
    # (an event that is only referred to by itself may go)
    refs = sorted({t for n, e in enumerate(model) for t in seqs.targets([e]) if t != n})
    if refs:
        gone = rng.choice(refs)
        short = [o for n, o in enumerate(live) if n != gone]
        ctx.raises('dangling reference refused', lambda: q.saveSequenceEvents(short, []), Exception,
            f'saving without event {gone}, which is referred to')
    ctx.raises('dangling reference refused',
        lambda: q.saveSequenceEvents(live, [q.EndTrackSequenceEvent()]), Exception, 'foreign start event')
    if sum(1 for e in events if e[0] in seq.REFS) >= 2 and history:
        ctx.nontrivial(data, history)
    if index in (3, 5):
        ctx.sample(f'{len(events)} events, starts {starts}, edits {str(history)[:200]}')
