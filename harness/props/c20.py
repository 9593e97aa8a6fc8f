"""Sound banks (SBNK) keep their instruments."""

import copy

from ndspy import soundBank as sb
from gen import banks
from ref import sbnk

CASES = {'quick': 70000, 'thorough': 420000}
RULE = ('Banks of 0-30 (sometimes up to 600) instruments of all kinds, with empty slots, repeated contents, equal'
        ' bytes under different types, extreme values, merge and order settings; created from objects and loaded from'
        ' independently built files (other record order, unshared records, stored but unlisted instruments).'
        ' Non-trivial = at least three instruments of two kinds.')
REQUIRED = {'saved bank read independently': 5000, 'reloaded instruments': 5000, 'wave archive list': 5000,
            'resave is byte-exact': 5000, 'foreign bank instruments': 2500, 'foreign bank resaved': 2500,
            'edit stays in its slot': 2500, 'records do not overlap': 5000, 'note definitions': 2000,
            'merge settings respected': 500, 'unlisted instruments kept': 300}
ASSUMPTIONS = ['Regional instruments have 1-8 regions, with no zero end after the first.',
               'Unlisted records are only checked between instruments of the same kind, where nothing is guessed.']


def mutate(rng, x):
    n = x.noteDefinition if isinstance(x, sb.SingleNoteInstrument) else (
        x.noteDefinitions[0] if isinstance(x, sb.RangeInstrument) else x.regions[-1].noteDefinition)
    f = rng.choice(['attack', 'decay', 'sustain', 'release', 'pan', 'pitch', 'waveID', 'waveArchiveIDID'])
    setattr(n, f, getattr(n, f) ^ 1)


def parse(ctx, data, what):
    try:
        return sbnk.parse(data)
    except sbnk.Bad as e:
        ctx.check('saved bank read independently', False, f'{what}: {e}')


def verify(ctx, bank, model, what):
    saved = bank.save()
    ctx.eq('save gives a triple', len(saved), 3, what)
    got, extents = parse(ctx, saved[0], what)
    ctx.eq('saved bank read independently', got, model, what)
    last = None
    for a, b, i in sorted(extents):
        if last is not None and (a, b) != last[:2]:
            ctx.check('records do not overlap', a >= last[1], lambda: f'{what}: slots {last[2]} and {i} overlap')
        last = (a, b, i)
    ctx.check('records do not overlap', True)
    return saved, extents


def case(ctx, rng, index):
    if index % 4 == 3:
        foreign(ctx, rng, index)
        return
    if index % 100 == 1:
        # many slots
        model = [rng.choice([None, banks.single(rng)]) for _ in range(rng.choice([200, 256, 600]))]
    elif index % 500 == 2:
        model = banks.model(rng, rng.choice([200, 400]))  # as large as offsets can reach
    else:
        model = banks.model(rng)
    ctx.info('instruments', model)
    objs = [banks.toInstrument(m) for m in model]
    unk02 = rng.randrange(1 << 16)
    ids = banks.archiveIDs(rng)
    given = ids + [None] * rng.choice([0, 0, 1, 4 - len(ids)])
    for m, o in zip(model, objs):
        if o is not None:
            ctx.eq('attributes', banks.describe(o), m, 'created instrument')
    settings = index % 4 == 2 and model
    if settings:
        merges = rng.choice([range(3), [0, 1, 256, 0x1000, 0x10000, 1 << 32, -1]])
        orders = rng.choice([range(5), [-3, -1, 0, 1, 255, 256, 0xFFFF, 0x10000, 0x10001, 1 << 40]])
        for o in objs:
            if o is not None:
                o.dataMergeOptimizationID = rng.choice(merges)
                o.bankOrderKey = rng.choice(orders)
    if rng.random() < 0.5:
        bank = sb.SBNK.fromInstruments(objs, unk02, given)
    else:
        bank = sb.SBNK(None, unk02, tuple(given))
        bank.instruments = objs
    saved, extents = verify(ctx, bank, model, 'new bank')
    ctx.eq('wave archive list', (saved[1], list(saved[2])), (unk02, ids), 'saved settings')
    if settings:
        at = {i: a for a, _, i in extents}
        for i in at:
            for j in at:
                if i < j and at[i] == at[j]:
                    ctx.check('merge settings respected', objs[i].dataMergeOptimizationID ==
                        objs[j].dataMergeOptimizationID, f'slots {i} and {j} share a record')
        for kind in ('single', 'range', 'regional'):
            slots = [i for i, m in enumerate(model) if m and m[0] == kind]
            seen = {}
            for i in slots:
                k = seen.setdefault(at[i], objs[i].bankOrderKey)
                seen[at[i]] = min(k, objs[i].bankOrderKey)
            keys = [seen[a] for a in sorted(seen)]
            ctx.check('order settings respected', keys == sorted(keys), f'{kind}: order keys {keys}')
    else:
        # equal contents of slots without special settings are stored once
        at = {}
        for a, b, i in extents:
            at.setdefault(sbnk.record(model[i]), set()).add(a)
        ctx.note('shared records', sum(1 for v in at.values() if len(v) == 1))
    again = sb.SBNK(*saved)
    ctx.eq('reloaded instruments', [banks.describe(x) for x in again.instruments], model, 'reloaded')
    ctx.eq('wave archive list', (again.unk02, list(again.waveArchiveIDs)), (unk02, ids), 'reloaded settings')
    ctx.eq('nothing unlisted appears', {k: v for k, v in again.inaccessibleInstruments.items() if v}, {},
        'unlisted instruments')
    resaved = again.save()
    ctx.bytesEq('resave is byte-exact', resaved[0], saved[0], 'reopened and saved')
    # editing one slot
    slots = [i for i, m in enumerate(model) if m is not None]
    for _ in range(rng.choice([1, 3])):
        if not slots:
            break
        i = rng.choice(slots)
        mutate(rng, again.instruments[i])
        m2 = list([banks.describe(x) for x in again.instruments])
        ctx.eq('edit stays in its slot', m2[:i] + m2[i + 1:], model[:i] + model[i + 1:], f'objects after editing {i}')
        ctx.check('edit stays in its slot', m2[i] != model[i], 'edit has no effect')
        model = m2
        verify(ctx, again, m2, f'after editing slot {i}')
    # structural edits
    if model:
        i = rng.randrange(len(model))
        new = banks.instrument(rng, True)
        kind = rng.choice(['insert', 'delete', 'replace', 'same object'])
        if kind == 'insert':
            model.insert(i, new)
            again.instruments.insert(i, banks.toInstrument(new))
        elif kind == 'delete':
            del model[i], again.instruments[i]
        elif kind == 'replace':
            model[i] = new
            again.instruments[i] = banks.toInstrument(new)
        else:
            j = rng.randrange(len(model))
            model[i] = model[j]
            again.instruments[i] = again.instruments[j]
        saved, _ = verify(ctx, again, model, f'after {kind} at {i}')
        ctx.eq('reloaded instruments', [banks.describe(x) for x in sb.SBNK(*saved).instruments], model,
            f'after {kind}')
    noteCase(ctx, rng)
    if len(slots) >= 3 and len({m[0] for m in model if m}) >= 2:
        ctx.nontrivial(saved[0])
    if index in (2, 4):
        ctx.sample(f'{len(model)} slots: {str(model)[:250]}')


def noteCase(ctx, rng):
    n = banks.note(rng)
    t = rng.choice([1, 2, 3, 0, 4, 65535])
    nd = sb.NoteDefinition(*n, t)
    ctx.eq('note definitions', (banks.fromNote(nd), int(nd.type), nd.dutyCycle), (n, t, n[0]), 'attributes')
    ctx.bytesEq('note definitions', nd.save(), sbnk.noteBytes(n), 'save')
    ctx.bytesEq('note definitions', nd.saveWithType(), t.to_bytes(2, 'little') + sbnk.noteBytes(n), 'saveWithType')
    b = sb.NoteDefinition.fromData(nd.save(), t)
    c = sb.NoteDefinition.fromDataWithType(nd.saveWithType())
    ctx.eq('note definitions', [(banks.fromNote(x), int(x.type)) for x in (b, c)], [(n, t)] * 2, 'read back')
    nd.dutyCycle = 6
    ctx.eq('note definitions', nd.waveID, 6, 'dutyCycle is waveID')
    if t in (1, 2, 3):
        ctx.check('note types', all(isinstance(x.type, sb.NoteType) for x in (nd, b, c)), f'type {t}')
    default = sb.NoteDefinition()
    ctx.eq('note definitions', (banks.fromNote(default), int(default.type)),
        ((0, 0, 60, 127, 127, 127, 127, 64), 1), 'defaults')
    s = sb.SingleNoteInstrument(nd)
    s.type = 3
    ctx.eq('note types', (s.type, int(nd.type)), (3, 3), 'type of a single-note instrument')
    for k in range(18):
        cls = sb.instrumentClass(k)
        want = None if k == 0 else sb.SingleNoteInstrument if k < 16 else (sb.RangeInstrument if k == 16
                                                                          else sb.RegionalInstrument)
        ctx.check('instrument class', cls is want, f'type {k}: {cls}')


def foreign(ctx, rng, index):
    model = banks.model(rng)
    order = list(range(len(model)))
    if rng.random() < 0.5:
        rng.shuffle(order)
    share = rng.random() < 0.5
    hidden = {}
    if rng.random() < 0.5:
        # unlisted records between two listed ones of the same kind
        for kind in ('single', 'range', 'regional'):
            slots = [i for i in order if model[i] and model[i][0] == kind]
            if kind == 'single':
                pool = lambda: banks.single(rng)
            elif kind == 'range':
                pool = lambda: banks.rangeInst(rng)
            else:
                pool = lambda: banks.regional(rng)
            # after the first, if something of the same kind follows in another record
            if len(slots) >= 2 and sbnk.record(model[slots[-1]]) not in [sbnk.record(model[i]) for i in slots[:-1]]:
                extra = [sbnk.record(pool()) for _ in range(rng.choice([1, 1, 2]))]
                extra = [r for r in extra if r not in [sbnk.record(model[i]) for i in slots]]
                if len(set(extra)) == len(extra):
                    hidden[slots[0]] = extra
    f = sbnk.build(model, order, share, hidden)
    if len(f) > 0xFFF0:
        return
    ctx.info('instruments', model)
    ctx.info('order, shared, unlisted', (order, share, hidden))
    unk02 = rng.randrange(1 << 16)
    ids = banks.archiveIDs(rng)
    bank = sb.SBNK(f, unk02, ids)
    ctx.eq('foreign bank instruments', [banks.describe(x) for x in bank.instruments], model, 'loaded')
    total = sum(len(v) for v in hidden.values())
    if total:
        got = []
        for v in bank.inaccessibleInstruments.values():
            for x in v:
                got.append(sbnk.record(banks.describe(x)))
        ctx.eq('unlisted instruments kept', sorted(got), sorted(r for v in hidden.values() for r in v), 'unlisted')
    saved = bank.save()
    got, extents = parse(ctx, saved[0], 'foreign bank resaved')
    ctx.eq('foreign bank resaved', got, model, 'foreign bank resaved')
    ctx.bytesEq('foreign bank resaved', saved[0], f, 'foreign bank in canonical category order')
    ctx.eq('wave archive list', (saved[1], list(saved[2])), (unk02, ids), 'saved settings')
    slots = [i for i, m in enumerate(model) if m is not None]
    if slots:
        i = rng.choice(slots)
        mutate(rng, bank.instruments[i])
        want = list(model)
        want[i] = banks.describe(bank.instruments[i])
        got, _ = parse(ctx, bank.save()[0], 'after edit')
        ctx.eq('edit stays in its slot', got, want, f'foreign bank after editing slot {i}')
    if len(slots) >= 3:
        ctx.nontrivial(f)
