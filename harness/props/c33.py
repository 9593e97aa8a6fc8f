"""Saving is repeatable and does not change the object."""

import copy
import random

from ndspy import (bmg, bnbl, bncl, code, fnt, graphics2D, model, narc, rom, soundArchive, soundBank, soundGroup,
                   soundSequence, soundSequenceArchive, soundSequencePlayer, soundStream, soundStreamPlayer, soundWave,
                   soundWaveArchive, texture)
from gen import codeblobs, corpus

CASES = {'quick': 27000, 'thorough': 162000}
RULE = ('Independently built files of every format loaded twice from one writable buffer; one copy is saved, printed'
        ' and looked at in random order (sometimes after a few of its numbers were set to 0), the other is edited everywhere it can be edited; everything reachable'
        ' through public attributes is compared before and after, and the two copies, the buffer and a third load'
        ' must have no changeable part in common. The same for newly created objects of every class.'
        ' Non-trivial = object with at least five changeable parts.')
REQUIRED = {'saving again': 10000, 'observable state': 10000, 'input buffer': 10000, 'no shared parts': 10000,
            'edits do not spread': 6000, 'new objects': 3000, 'new objects after edits': 3000,
            'documented updates only': 600, 'edit after saving': 8000, 'changing the output': 3000}
ASSUMPTIONS = ['Lists handed to a constructor by the caller may be kept by it.']

NEW = {
    'BMG': bmg.BMG, 'BMG.fromMessages': lambda: bmg.BMG.fromMessages([]), 'Message': bmg.Message, 'BNBL': bnbl.BNBL,
    'Message with info': lambda: bmg.Message(b'abc'), 'BMG with messages': lambda: bmg.BMG.fromMessages([bmg.Message()]),
    'touch area': bnbl.BNBLTouchArea, 'BNCL': bncl.BNCL, 'image position': bncl.BNCLImagePosition,
    'Folder': fnt.Folder, 'NARC': narc.NARC, 'NARC.fromFilesAndNames': lambda: narc.NARC.fromFilesAndNames([]),
    'NARC from files': lambda: narc.NARC.fromFilesAndNames([b'a', b'b']), 'ROM': rom.NintendoDSRom,
    'SDAT': soundArchive.SDAT, 'SSEQ': soundSequence.SSEQ, 'SSEQ.fromEvents': lambda: soundSequence.SSEQ.fromEvents([]),
    'SSAR': soundSequenceArchive.SSAR, 'SSAR.fromEventsAndSequences':
        lambda: soundSequenceArchive.SSAR.fromEventsAndSequences([], []), 'SSARSequence':
        lambda: soundSequenceArchive.SSARSequence(None), 'SBNK': soundBank.SBNK,
    'SBNK.fromInstruments': lambda: soundBank.SBNK.fromInstruments([]), 'NoteDefinition': soundBank.NoteDefinition,
    'single': lambda: soundBank.SingleNoteInstrument(soundBank.NoteDefinition()),
    'range': lambda: soundBank.RangeInstrument(5, [soundBank.NoteDefinition()]),
    'regional': lambda: soundBank.RegionalInstrument(
        [soundBank.RegionalInstrument.Region(9, soundBank.NoteDefinition())]),
    'SequencePlayer': soundSequencePlayer.SequencePlayer, 'StreamPlayer': soundStreamPlayer.StreamPlayer,
    'GroupEntry': soundGroup.GroupEntry, 'GroupEntry.fromFlags': lambda: soundGroup.GroupEntry.fromFlags(
        soundGroup.GroupEntryType.SSEQ, 0, loadSSEQ=True),
    'STRM': soundStream.STRM, 'STRM.fromChannels': lambda: soundStream.STRM.fromChannels([]), 'SWAV': soundWave.SWAV,
    'SWAV.fromData': lambda: soundWave.SWAV.fromData(b'abcd'), 'SWAR': soundWaveArchive.SWAR,
    'SWAR.fromWaves': lambda: soundWaveArchive.SWAR.fromWaves([]), 'NSBTX': texture.NSBTX, 'NSBMD': model.NSBMD,
    'ImageTile': graphics2D.ImageTile, 'TilemapTile': graphics2D.TilemapTile,
    'Palette.fromColors': lambda: texture.Palette.fromColors(0, 0, 0, []),
    'code file': lambda: code.MainCodeFile(bytes(64), 0x2000000),
    'code section': lambda: code.MainCodeFile.Section(b'abcd', 0x2000000, 0, implicit=True),
    'Overlay': lambda: code.Overlay(b'abcd', 1, 2, 3, 4, 5, 6, 7, 8),
}
for _n in dir(model):
    if _n.startswith('GeometryCommand_'):
        NEW[_n] = getattr(model, _n)


def edit(rng, walk):
    """Change everything that can be changed."""
    for x, _ in walk.mutable:
        try:
            if isinstance(x, list):
                rng.choice([x.clear, x.reverse, lambda: x.append(x[0] if x else 0), lambda: x.pop()])()
            elif isinstance(x, bytearray):
                x[:] = b'edited' + x[::-1]
            elif isinstance(x, (dict, set)):
                x.clear()
            else:
                for n, v in list(vars(x).items()):
                    if isinstance(v, bool):
                        setattr(x, n, not v)
                    elif type(v) is int:
                        setattr(x, n, v ^ 1)
                    elif type(v) is bytes:
                        setattr(x, n, v[::-1] + b'edited')
        except Exception:
            pass


def tweak(rng, walk):
    """Change one to three things a little."""
    for _ in range(rng.randrange(1, 4)):
        x, _ = rng.choice(walk.mutable)
        k, i = rng.random(), rng.random()
        try:
            if isinstance(x, list):
                i = int(i * len(x))
                if k < 0.4:
                    x.insert(i, copy.copy(x[i]))
                elif k < 0.7:
                    del x[i]
                else:
                    x[i], x[-1] = x[-1], x[i]
            elif isinstance(x, bytearray):
                x[int(i * len(x))] ^= 1
            elif isinstance(x, dict):
                x.pop(list(x)[int(i * len(x))])
            elif not isinstance(x, set):
                items = [(n, v) for n, v in corpus.public(x) if type(v) in (int, bool, bytes, str)]
                n, v = items[int(i * len(items))]
                setattr(x, n, not v if isinstance(v, bool) else v ^ 1 if isinstance(v, int) else v[:-1] if k < 0.5 else
                    v + v[:1])
        except Exception:
            pass


def zero(rng, walk):
    """Set a few numbers to 0."""
    for _ in range(rng.randrange(1, 5)):
        x, _ = rng.choice(walk.mutable)
        if not isinstance(x, (list, bytearray, dict, set)):
            names = [n for n, v in corpus.public(x) if type(v) is int]
            if names:
                try:
                    setattr(x, rng.choice(names), 0)
                except Exception:
                    pass


def outcome(kind, obj):
    try:
        return kind.save(obj)
    except Exception as e:
        return type(e).__name__


def disjoint(ctx, monitor, a, b, what):
    ids = {id(x): p for x, p in a.mutable}
    common = [(ids[id(x)], p) for x, p in b.mutable if id(x) in ids]
    ctx.check(monitor, not common, lambda: f'{what}: shared {common[:4]}')


def same(ctx, monitor, obj, want, what):
    got = corpus.state(obj)
    ctx.check(monitor, got == want, lambda: f'{what}: {corpus.difference(want, got)}')


def show(rng, obj):
    """Things that only look."""
    f = rng.choice([str, repr, lambda o: o == o, lambda o: [str(v) for _, v in corpus.public(o)],
                    lambda o: copy.deepcopy(o), lambda o: corpus.state(o)])
    f(obj)


def loaded(ctx, rng, index):
    name = list(corpus.KINDS)[index % len(corpus.KINDS)] if rng.random() < 0.8 else rng.choice(['Sdat', 'ParsedSsar'])
    kind = corpus.KINDS[name]
    data, args = kind.file(rng)
    ctx.info('kind', [name, args])
    ctx.info('data', data)
    buf = bytearray(data) if rng.random() < 0.7 else bytes(data)
    zeroSeed = rng.random() if rng.random() < 0.25 else None

    def load(data):
        o = kind.load(data, copy.deepcopy(args))
        if zeroSeed is not None and corpus.Walk(o).mutable:
            zero(random.Random(zeroSeed), corpus.Walk(o))
        return o

    if zeroSeed is not None and not isinstance(outcome(kind, load(type(buf)(data))), tuple):
        zeroSeed = None
    ctx.info('zeroed', zeroSeed)
    a = load(buf)
    b = load(buf)
    ctx.bytesEq('input buffer', buf, data, f'{name}: the input of two loads')
    wa, wb = corpus.Walk(a), corpus.Walk(b)
    ctx.check('observable state', wa.state == wb.state, lambda: f'two loads: {corpus.difference(wa.state, wb.state)}')
    disjoint(ctx, 'no shared parts', wa, wb, f'{name} loaded twice')
    ctx.check('no shared parts', all(x is not buf for x, _ in wa.mutable), f'{name} keeps the input buffer')
    first = kind.save(a)
    same(ctx, 'observable state', a, wa.state, f'{name} saved')
    for _ in range(rng.randrange(1, 4)):
        if rng.random() < 0.6:
            show(rng, a)
            same(ctx, 'observable state', a, wa.state, f'{name} printed or compared')
        ctx.eq('saving again', kind.save(a), first, f'{name}, saved again')
    same(ctx, 'observable state', a, wa.state, f'{name} saved several times')
    ctx.bytesEq('input buffer', buf, data, f'{name}: the input after saving')

    # The output is the caller's
    if hasattr(a, 'save') and name != 'Fnt':
        out = a.save()
        out = out[0] if isinstance(out, tuple) else out
        if isinstance(out, bytearray):
            out[:] = b'changed' * 3
            same(ctx, 'changing the output', a, wa.state, f'{name}, output changed')
        else:
            ctx.check('changing the output', True)
    if isinstance(buf, bytearray):
        buf[:] = bytes(len(buf))
        same(ctx, 'input buffer', a, wa.state, f'{name}: input buffer overwritten')

    # Edits of one copy
    edit(rng, wb)
    same(ctx, 'edits do not spread', a, wa.state, f'{name}, other copy edited')
    ctx.eq('edits do not spread', kind.save(a), first, f'{name} saved after the other copy was edited')
    c = load(type(buf)(data))
    same(ctx, 'edits do not spread', c, wa.state, f'{name} loaded again after a copy was edited')
    ctx.eq('saving again', kind.save(c), first, f'{name}, third copy')
    disjoint(ctx, 'no shared parts', corpus.Walk(c), wa, f'{name} loaded a third time')

    # After an edit, it does not matter what happened before
    seed = rng.random()
    for o in (a, c):
        if corpus.Walk(o).mutable:
            tweak(random.Random(seed), corpus.Walk(o))
    d = load(type(buf)(data))
    if corpus.Walk(d).mutable:
        tweak(random.Random(seed), corpus.Walk(d))
    want = outcome(kind, d)
    ctx.note('edited object saved' if isinstance(want, tuple) else 'edited object refused')
    ctx.eq('edit after saving', outcome(kind, a), want, f'{name}: saved, printed, edited and saved')
    ctx.eq('edit after saving', outcome(kind, c), want, f'{name}: saved, edited and saved')
    if len(wa.mutable) >= 5:
        ctx.nontrivial(name, data)
    if index < 40:
        ctx.sample(f'{name}: {len(data)} bytes, {len(wa.mutable)} changeable parts')


def created(ctx, rng, index):
    name = list(NEW)[index % len(NEW)]
    ctx.info('created', name)
    a, b = NEW[name](), NEW[name]()
    wa, wb = corpus.Walk(a), corpus.Walk(b)
    ctx.check('new objects', wa.state == wb.state, lambda: f'{name}: {corpus.difference(wa.state, wb.state)}')
    disjoint(ctx, 'new objects', wa, wb, name)
    if hasattr(a, 'save') and name not in ('NSBMD', 'ImageTile', 'STRM.fromChannels') and 'Geom' not in name:
        try:
            first = corpus.saved(a.save())
        except Exception:
            first = None
            ctx.note(f'cannot be saved when new: {name}')
        if first is not None:
            if name != 'Overlay':
                same(ctx, 'observable state', a, wa.state, f'new {name} saved')
            ctx.eq('saving again', corpus.saved(a.save()), first, name)
            ctx.eq('saving again', corpus.saved(NEW[name]().save()), first, f'another new {name}')
    edit(rng, wb)
    if name != 'Overlay':
        same(ctx, 'new objects after edits', a, wa.state, f'{name}, other one edited')
    edit(rng, corpus.Walk(a))
    same(ctx, 'new objects after edits', NEW[name](), wb.state, f'new {name} after others were edited')


def updates(ctx, rng, index):
    """Saving with options that update fields updates just those."""
    which = rng.choice(['wave', 'stream', 'rom', 'overlay', 'code'])
    ctx.info('which', which)
    allowed, kw = set(), {}
    if which == 'overlay':
        data = codeblobs.codeData(rng, rng.randrange(8))
        o = code.Overlay(data, *(rng.randrange(1 << 32) for _ in range(6)), rng.randrange(1 << 24),
            2 * rng.randrange(128))
        kw = {'compress': rng.random() < 0.5}
        allowed = {'ramSize', 'compressedSize', 'compressed', 'flags'}
    else:
        name = {'wave': 'Swav', 'stream': 'Strm', 'rom': 'Rom', 'code': 'MainCode'}[which]
        data, args = corpus.KINDS[name].file(rng)
        o = corpus.KINDS[name].load(data, args)
        if which == 'wave':
            o.sampleRate, o.loopOffset, o.totalLength = 8000, 1, 50
            o.data = bytes(o.data) + bytes(40)
            kw = {k: rng.random() < 0.5 for k in ('updateTime', 'updateTotalLength')}
            allowed = {k for k, n in (('time', 'updateTime'), ('totalLength', 'updateTotalLength')) if kw[n]}
        elif which == 'stream':
            o.sampleRate = 8000
            kw = {'updateTime': rng.random() < 0.7}
            allowed = {'time'} if kw['updateTime'] else set()
        elif which == 'rom':
            kw = {'updateDeviceCapacity': rng.random() < 0.5}
            o.deviceCapacity = rng.choice([0, 0, 1, 5, 0xFF])
            if rng.random() < 0.3:
                o.files.append(bytes(rng.choice([0x20000, 0x40000, 0x90000])))
            allowed = {'deviceCapacity'} if kw['updateDeviceCapacity'] else set()
        else:
            kw = {'compress': rng.random() < 0.7}
    before = dict(corpus.state(o)[1:])
    first = corpus.saved(o.save(**kw))
    after = dict(corpus.state(o)[1:])
    changed = {k for k in before if before[k] != after.get(k)} | (set(after) - set(before))
    ctx.check('documented updates only', changed <= allowed, f'{which} saved with {kw}: changed {changed - allowed}')
    ctx.eq('saving again', corpus.saved(o.save(**kw)), first, f'{which} with {kw}')
    again = dict(corpus.state(o)[1:])
    ctx.eq('documented updates only', again, after, f'{which} saved again')


def case(ctx, rng, index):
    if index % 3 == 2:
        created(ctx, rng, index // 3)
    elif index % 9 == 1:
        updates(ctx, rng, index)
    else:
        loaded(ctx, rng, index)
