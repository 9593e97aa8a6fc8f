"""Printing any object works and tells the truth."""

import re

import ndspy
from ndspy import (bmg, bnbl, bncl, code, fnt, narc, rom, soundArchive, soundBank, soundGroup, soundSequence,
                   soundSequenceArchive, soundSequencePlayer, soundStream, soundStreamPlayer, soundWave,
                   soundWaveArchive, texture)
from ndspy.extras import music
from gen import banks, bmgs, blobs, corpus, roms, sdats, seqs, textures, trees, waves
from props import c33
from ref import seq

CASES = {'quick': 100000, 'thorough': 600000}
RULE = ('Objects of every class - loaded from independently built files, new, and edited - and everything in them are'
        ' printed both ways; nothing may fail or change. Listings are compared with the contents (indices or IDs,'
        ' items, references, labels, previews, in order); constructor-like representations of small objects are'
        ' evaluated and the result is compared. Non-trivial = listing of at least two items, or object with parts.')
REQUIRED = {'prints': 40000, 'printing changes nothing': 5000, 'new objects print': 1500, 'edited objects print': 3000,
            'numbered listing': 1500, 'event listing': 1500, 'folder listing': 800, 'archive listing': 800,
            'sequence archive labels': 500, 'evaluated representation': 5000, 'event text': 10000,
            'bytes preview': 2000, 'instrument text': 1500, 'summary text': 1000, 'drawing': 500}
ASSUMPTIONS = ['Enumeration members in representations (<Name.MEMBER: 1>) are read as these members.',
               'Representations of objects with much data are shortened and not evaluated.',
               'Sequence names within an archive are distinct.']

ENUM = re.compile(r'<([A-Za-z_][\w.]*?)(?:\.[A-Z_\d|]+)?: (\d+)>')
BYTES = re.compile(r"b'(?:[^'\\]|\\.)*'")
MODULES = [bmg, bnbl, bncl, code, fnt, narc, rom, soundArchive, soundBank, soundGroup, soundSequence,
           soundSequenceArchive, soundSequencePlayer, soundStream, soundStreamPlayer, soundWave, soundWaveArchive,
           texture]


def namespace():
    out = {'Alignment': ndspy.Alignment, 'WaveType': ndspy.WaveType}
    for m in MODULES:
        out.update({k: v for k, v in vars(m).items() if isinstance(v, type)})
    out.update(Escape=bmg.Message.Escape, Region=soundBank.RegionalInstrument.Region,
               Section=code.MainCodeFile.Section)
    return out


NAMES = namespace()
ALIGNMENTS = [x | y for x in (1, 2, 4) for y in (0x10, 0x20, 0x40)]


def evaluate(text):
    def member(name, number):
        x = NAMES[name.split('.')[0]]
        for part in name.split('.')[1:]:
            x = getattr(x, part)
        return x(number)
    return eval(ENUM.sub(r'_member("\1", \2)', text), dict(NAMES, _member=member))


def note(p):
    """Helmholtz notation."""
    octave, step = divmod(p, 12)
    name = ['c', 'c♯', 'd', 'd♯', 'e', 'f', 'f♯', 'g', 'g♯', 'a', 'a♯', 'b'][step]
    if octave >= 4:
        return name + "'" * (octave - 4)
    return name[0].upper() + name[1:] + '͵' * (3 - octave)


WORDS = {'Pan': 'pan', 'TrackVolume': 'track volume', 'GlobalVolume': 'global volume', 'Transpose': 'transpose',
         'Portamento': 'portamento', 'PortamentoRange': 'portamento range', 'TrackPriority': 'track priority',
         'VibratoDepth': 'vibrato depth', 'VibratoSpeed': 'vibrato speed', 'VibratoRange': 'vibrato range',
         'PortamentoDuration': 'portamento duration', 'AttackRate': 'attack rate', 'DecayRate': 'decay rate',
         'SustainRate': 'sustain rate', 'ReleaseRate': 'release rate', 'BeginLoop': 'begin loop',
         'Expression': 'expression', 'PrintVariable': 'print variable', 'VibratoDelay': 'vibrato delay',
         'Tempo': 'tempo', 'SweepPitch': 'sweep pitch'}
SYMBOLS = dict(zip(seq.ARITH, ['=', '+=', '-=', '*=', '/=', '<<=', '[rand]', '[nop]', '==', '>=', '>', '<=', '<',
                               '!=']))


def eventText(e):
    kind, a = e[0], e[1:]
    if kind == 'Note':
        return f'<{note(a[0])} velocity={a[1]} duration={a[3]}{" unknown-flag" if a[2] else ""}>'
    if kind == 'Rest':
        return f'<rest {a[0]}>'
    if kind == 'InstrumentSwitch':
        return f'<instrument {a[0]}/{a[1]}>'
    if kind == 'BeginTrack':
        return f'<begin track {a[0]} @{a[1][1]}>'
    if kind in ('Jump', 'Call'):
        return f'<{kind.lower()} @{a[0][1]}>'
    if kind == 'Random':
        return f'<random {a[0]:#x} ' + ''.join(f'{x} ' for x in a[1]) + f'({a[2]}, {a[3]})>'
    if kind == 'FromVariable':
        return f'<from variable {a[0]:#x} {a[1]}' + (f' {a[2]}' if a[2] is not None else '') + '>'
    if kind in SYMBOLS:
        return f'<(var {a[0]}) {SYMBOLS[kind]} {a[1]}>'
    if kind in WORDS:
        return f'<{WORDS[kind]} {a[0]}>'
    if kind == 'MonoPoly':
        return '<mono>' if a[0] else '<poly>'
    if kind in ('Tie', 'PortamentoOnOff'):
        return f'<{"tie" if kind == "Tie" else "portamento"} {["off", "on"][a[0]] if a[0] < 2 else a[0]}>'
    if kind == 'PortamentoFrom':
        return f'<portamento from {note(a[0])}>'
    if kind == 'VibratoType':
        return f'<vibrato type {["pitch", "volume", "pan"][a[0]]}>'
    if kind == 'DefineTracks':
        return '<define tracks ' + ' '.join(map(str, sorted(a[0]))) + '>'
    if kind == 'Raw':
        return f'<raw data {a[0]!r}>'
    return {'If': '<if>', 'EndLoop': '<end loop>', 'Return': '<return>', 'EndTrack': '<end track>'}[kind]


def prints(ctx, monitor, x, what):
    """Both texts of an object."""
    s, r = str(x), repr(x)
    ctx.check(monitor, type(s) is str and type(r) is str, lambda: f'{what}: {type(s)} and {type(r)}')
    return s, r


def printAll(ctx, monitor, root, what, rng):
    walk = corpus.Walk(root)
    parts = [x for x in walk.alive if corpus.isOurs(x)]
    if len(parts) > 25:
        parts = [parts[0]] + rng.sample(parts, 25)
    for x in parts:
        first = prints(ctx, monitor, x, f'{type(x).__name__} in {what}')
        if rng.random() < 0.2:
            ctx.eq(monitor, prints(ctx, monitor, x, what), first, f'{what}: printed again')
    got = corpus.state(root)
    ctx.check('printing changes nothing', got == walk.state, lambda: f'{what}: {corpus.difference(walk.state, got)}')
    if len(parts) > 1:
        ctx.nontrivial('print', what, len(parts))


def tweak(rng, obj):
    """Changes something, but not whether something counts as parsed."""
    walk = corpus.Walk(obj)
    parsed = [(x, x.parsed) for x in walk.alive if isinstance(x, (soundSequenceArchive.SSARSequence,
                                                                       soundSequenceArchive.SSAR))]
    c33.tweak(rng, walk)
    for x, p in parsed:
        x.parsed = p


def loaded(ctx, rng, index):
    name = rng.choice(list(corpus.KINDS))
    kind = corpus.KINDS[name]
    data, args = kind.file(rng)
    ctx.info('kind', [name, args])
    ctx.info('data', data)
    obj = kind.load(data, args)
    printAll(ctx, 'prints', obj, name, rng)
    tweak(rng, obj)
    printAll(ctx, 'edited objects print', obj, 'edited ' + name, rng)


def new(ctx, rng, index):
    name = list(c33.NEW)[index // 8 % len(c33.NEW)]
    ctx.info('class', name)
    obj = c33.NEW[name]()
    printAll(ctx, 'new objects print', obj, 'new ' + name, rng)
    tweak(rng, obj)
    printAll(ctx, 'new objects print', obj, f'new {name}, edited', rng)
    cls = rng.choice([getattr(soundSequence, n) for n in vars(soundSequence) if n.endswith('SequenceEvent')])
    if cls in (soundSequence.JumpSequenceEvent, soundSequence.CallSequenceEvent):
        a, b = cls(None), cls(None)
        a.destination = rng.choice([None, a, b, soundSequence.BeginTrackSequenceEvent(1, a)])
        b.destination = rng.choice([None, a, b])
        prints(ctx, 'new objects print', a, 'jump')
        for events in ([a, b], [a], [b]):
            prints(ctx, 'new objects print', soundSequence.SSEQ.fromEvents(events), 'sequence of jumps')


def numbered(ctx, text, items, what, start=1, tail=None):
    """A listing: one line per item, each with its index."""
    lines = text.split('\n')
    ctx.check('numbered listing', lines[0].startswith('<') and lines[-1].strip() == '>', lambda: f'{what}: {text!r}')
    width = len(str(max(0, len(items) - 1)))
    want = [f'    [{i:{width}}] {x}' for i, x in enumerate(items)]
    got = lines[start:-1] if tail is None else lines[start:start + len(items)]
    if tail is None:
        ctx.eq('numbered listing', got, want, what)
    else:
        ctx.eq('numbered listing', [g[:len(w)] for g, w in zip(got, want)], want, what)
    if len(items) > 1:
        ctx.nontrivial('listing', what, len(items))


def listings(ctx, rng, index):
    k = rng.randrange(4)
    if k == 0:
        b = soundBank.SBNK.fromInstruments([banks.toInstrument(m) for m in banks.model(rng, small=True)],
                                           waveArchiveIDs=banks.archiveIDs(rng))
        text = str(b)
        ctx.check('numbered listing', text.split('\n')[0] == f'<sbnk waveArchiveIDs={b.waveArchiveIDs}', text[:200])
        numbered(ctx, text, [instrumentText(banks.describe(x)) for x in b.instruments], 'bank')
    elif k == 1:
        ws = [waves.wave(rng, 40) for _ in range(rng.choice([0, 1, 2, 9, 10, 11, 101]))]
        s = soundWaveArchive.SWAR.fromWaves([waves.toWave(w) for w in ws])
        numbered(ctx, str(s), [f'<swav {["PCM8", "PCM16", "ADPCM"][w[0]]} {w[2]}Hz{" looped" if w[1] else ""}>'
                               for w in ws], 'wave archive')
    elif k == 2:
        data, _ = corpus.KINDS['Bncl'].file(rng)
        b = bncl.BNCL(data)
        text = str(b)
        ctx.check('numbered listing', text.split('\n')[0] == '<bncl' + (f' unk04={b.unk04}' if b.unk04 else ''), text)
        numbered(ctx, text, [f'<bncl image position: {alignment(p.alignment)} of image {p.imageID} at ({p.x}, {p.y})>'
                             for p in b.imagePositions], 'BNCL')
    else:
        touch(ctx, rng)


def alignment(a):
    # left, center, right; top, center, bottom
    a = int(a)
    A = ndspy.Alignment
    x = 'center' if a & A.H_CENTER else 'right' if a & A.RIGHT else 'left'
    y = 'center' if a & A.V_CENTER else 'bottom' if a & A.BOTTOM else 'top'
    return 'center' if x == y == 'center' else f'{y}-{x}'


def touch(ctx, rng):
    areas = []
    for _ in range(rng.choice([0, 1, 2, 5, 10])):
        a = rng.choice(ALIGNMENTS)
        areas.append(bnbl.BNBLTouchArea(rng.randrange(300), rng.randrange(220), 2 * rng.randrange(128), 2 * rng.randrange(100),
                                        a))
    b = bnbl.BNBL.fromTouchAreas(areas, rng.choice([0, 0, 7]))
    text = str(b)
    items = [f'<bnbl touch area: {alignment(t.alignment)} at ({t.x}, {t.y}), size {t.width}x{t.height}>' for t in areas]
    numbered(ctx, text, items, 'BNBL', tail=True)
    lines = text.split('\n')
    column = max([len(f'    [0] {x}') for x in items] + [len('<bnbl unk04=7' if b.unk04 else '<bnbl')]) + 4
    cells = [[' '] * 32 for _ in range(12)]

    def put(x, y, c):
        if 0 <= x < 32 and 0 <= y < 12:
            cells[y][x] = c
    for i, t in enumerate(areas):
        x, y = t.x, t.y
        A = ndspy.Alignment
        x -= t.width // 2 if t.alignment & A.H_CENTER else t.width if t.alignment & A.RIGHT else 0
        y -= t.height // 2 if t.alignment & A.V_CENTER else t.height if t.alignment & A.BOTTOM else 0
        l, r, u, d = x // 8, (x + t.width) // 8, y // 16, (y + t.height) // 16
        put(l, u, '.')
        put(r, u, '.')
        put(l, d, "'")
        put(r, d, "'")
        for j in range(l + 1, r):
            put(j, u, '-')
            put(j, d, '-')
        for j in range(u + 1, d):
            put(l, j, '|')
            put(r, j, '|')
        put((l + r) // 2, (u + d) // 2, str(i))
    want = ['.' + '=' * 34 + '.'] + [f'| {"".join(c)} |' for c in cells] + ["'" + '=' * 34 + "'"]
    ctx.eq('drawing', [x[column:] for x in lines[:14]], want, f'drawing of {items}')


DUTY = ['12.5%', '25%', '37.5%', '50%', '62.5%', '75%', '87.5%', '0%']


def definitionText(kind, n):
    what = (f'PSG square wave: {DUTY[n[0] & 7]} duty cycle' if kind == 2 else 'PSG white noise' if kind == 3
            else f'PCM: SWAR {n[1]}, SWAV {n[0]}')
    return f'<note def {note(n[2])} ({what})>'


def instrumentText(m):
    if m is None:
        return 'None'
    if m[0] == 'single':
        return f'<single-note instrument {definitionText(m[1], m[2])}>'
    if m[0] == 'range':
        inner = ', '.join(f'{note(m[1] + i)}: {definitionText(t, n)}' for i, (t, n) in enumerate(m[2]))
        return f'<range instrument starting at {note(m[1])} {{{inner}}}>'
    low, out = 0, []
    for end, t, n in m[1]:
        a, b = ('min' if p == 0 else 'max' if p == 127 else note(p) for p in (low, end))
        out.append(f'{a}-{b}: {definitionText(t, n)}')
        low = end + 1
    return f'<regional instrument {{{", ".join(out)}}}>'


def eventLines(lines, prefix, events):
    """[(label, index, text)] of a listing."""
    out, label = [], ''
    for line in lines:
        m = re.match(re.escape(prefix) + r'(.*?)  \[( *\d+)\] (.*)$', line, re.S)
        if not m:
            label += line[len(prefix):]
            continue
        out.append((label + m[1], int(m[2]), m[3]))
        label = ''
    return out, label


def listing(ctx, text, flat, prefix, labels, what):
    """The event listing between the first and last line of a text."""
    lines = text.split('\n')
    ctx.eq('event listing', lines[-1], '>', f'{what}: last line')
    lines = lines[1:-1]
    if not flat:
        return lines
    got, rest = eventLines(lines, prefix, flat)
    ctx.eq('event listing', rest, '', f'{what}: text after the last event')
    ctx.eq('event listing', [(i, t) for _, i, t in got],
           [(i, eventText(e) + (',' if i < len(flat) - 1 else '')) for i, e in enumerate(flat)], what)
    ctx.note('events listed', len(flat))
    if len(flat) > 1:
        ctx.nontrivial('events', what, len(flat))
    if labels is not None:
        for (text, i, _), want in zip(got, labels):
            text = text.strip()
            ctx.eq('sequence archive labels', text, want + ':' if want else '', f'{what}: label of event {i}')


def eventLists(ctx, rng, index):
    flat, starts = seqs.program(rng, rng.choice([2, 5, 9]), rng.choice([1, 1, 2, 4]))
    ctx.info('events', flat)
    objs = seq.makeAll(flat)
    kind = rng.randrange(4)
    if kind == 0:
        s = soundSequence.SSEQ.fromEvents(objs, 0, *[rng.randrange(128) for _ in range(5)])
        text = str(s)
        ctx.eq('summary text', text.split('\n')[0], f'<sseq bankID={s.bankID} volume={s.volume} channelPressure='
               f'{s.channelPressure} polyphonicPressure={s.polyphonicPressure} playerID={s.playerID}', 'sequence')
        listing(ctx, text, flat, '  ', None, 'sequence')
    elif kind == 1:
        t = music.SSEQMusic.Track(objs)
        listing(ctx, str(t), seq.describeAll(t.events) if flat[-1][0] != 'EndTrack' else
                [fix(e, len(flat) - 1) for e in flat[:-1]], '  ', None, 'track')
        m = music.SSEQMusic(soundSequence.SSEQ.fromEvents(objs))
        m.tracks = {n: t for n in rng.sample(range(16), rng.randrange(1, 16))}
        ctx.eq('summary text', str(m), f'<sseq music [tracks: {", ".join(map(str, sorted(m.tracks)))}]>', 'music')
        prints(ctx, 'prints', m, 'music')
    else:
        n = rng.choice([0, 1, 2, 5, 12])
        sequences = []
        named = [[] for _ in flat]
        none = []
        for i in range(n):
            name = rng.choice([None, f'SE_{i}', f'A_RATHER_LONG_SOUND_EFFECT_NAME_{i}_{"x" * rng.randrange(40)}', f'q{i}'])
            at = rng.choice([rng.choice(starts), rng.randrange(len(flat)), None])
            sequences.append((name, soundSequenceArchive.SSARSequence(None if at is None else objs[at])))
            shown = str(i) if name is None else name
            if at is None:
                none.append(shown)
            else:
                named[at].append(shown)
        ctx.info('sequences', sequences)
        s = soundSequenceArchive.SSAR.fromEventsAndSequences(objs, sequences)
        text = str(s)
        lines = text.split('\n')
        ctx.eq('sequence archive labels', lines[1:1 + len(none)], [f'    {x}: (none)' for x in none],
               'sequences without events')
        listing(ctx, '\n'.join(lines[:1] + lines[1 + len(none):]), flat, '    ', [', '.join(x) for x in named], 'SSAR')


def fix(e, end):
    """References to the dropped last event."""
    return tuple(('@', 'NOWHERE') if isinstance(x, tuple) and len(x) == 2 and x[0] == '@' and x[1] == end else x
                 for x in e)


def shown(ctx, text, data, limit, what):
    """A possibly shortened bytes literal at the start of a text; returns what follows."""
    m = BYTES.match(text)
    ctx.check('bytes preview', bool(m), lambda: f'{what}: {text[:80]!r}')
    if not m:
        return text
    ctx.bytesEq('bytes preview', eval(m[0]), bytes(data[:limit]), f'{what}: {m[0]}')
    text = text[m.end():]
    if len(data) > limit:
        ctx.check('bytes preview', text.startswith('...'), lambda: f'{what}: {m[0]}{text[:20]}, {len(data)} bytes')
        text = text[3:]
    return text


def previewData(rng):
    return rng.choice([lambda: b'', lambda: rng.randbytes(rng.randrange(40)), lambda: bytes(rng.choice(
        b'\x00\x01\x07\x08\x09019\'"\\\n\xff') for _ in range(rng.randrange(40))), lambda: blobs.blob(
            rng, rng.randrange(40))])()


def folders(ctx, rng, index):
    def build(depth, first):
        names = [rng.choice(['a', 'some file.bin', 'ünï', "quo'te", '0001', 'x' * 30]) + str(i)
                 for i in range(rng.choice([0, 1, 2, 5]))]
        out = fnt.Folder([], names, first)
        lines = [(first + i, depth * 4, n, True) for i, n in enumerate(names)]
        at = first + len(names)
        for i in range(rng.choice([0, 0, 1, 2, 3]) if depth < 4 else 0):
            sub, inner, at2 = build(depth + 1, at)
            out.folders.append((f'dir {i}', sub))
            lines += [(at, depth * 4, f'dir {i}/', False)] + inner
            at = at2
        return out, lines, at
    f, lines, end = build(0, rng.choice([0, 0, 0, 7, 9990, 61440]))
    texts = [f'{i:04d} {" " * pad}{n}' for i, pad, n, _ in lines]
    ctx.info('folder', texts)
    ctx.eq('folder listing', str(f), '\n'.join(texts), 'folder')
    again = evaluate(repr(f))
    ctx.check('evaluated representation', corpus.state(again) == corpus.state(f), lambda: repr(f)[:300])
    files = [previewData(rng) for _ in range(rng.choice([min(end, 40), min(end, 40) + 2, 3]))]
    a = narc.NARC.fromFilesAndNames(files, f)
    if rng.random() < 0.3:
        a.endiannessOfBeginning = '>'
    text = str(a)
    head = "<narc endiannessOfBeginning='>'" if a.endiannessOfBeginning == '>' else '<narc'
    ctx.check('archive listing', text.startswith(head + '\n') and text.endswith('\n>'), lambda: text[:200])
    text = text[len(head):-2]
    column = max([len(t) for t in texts] + [0]) + 4
    for (i, _, _, isFile), t in zip(lines, texts):
        ok = text.startswith('\n    ' + t)
        ctx.check('archive listing', ok, lambda: f'{t!r} expected at {text[:80]!r}')
        if not ok:
            return
        text = text[5 + len(t):]
        if isFile and i < len(files):
            ctx.check('archive listing', text.startswith(' ' * (column - len(t)) + "b'"), lambda: f'preview of {t!r}'
                      f' in another column: {text[:80]!r}')
            text = shown(ctx, text.lstrip(' '), files[i], 0x10, f'file {i}')
    ctx.eq('archive listing', text.strip(), '', 'text after the last file')
    prints(ctx, 'prints', a, 'archive')
    r = repr(a)
    ctx.check('archive listing', r.startswith('NARC.fromFilesAndNames(['), lambda: r[:100])
    if files:
        rest = shown(ctx, r[len('NARC.fromFilesAndNames(['):], files[0], 0x20, 'first file')
        ctx.check('archive listing', rest.startswith((', ...' if len(files) > 1 else '') + '], '), lambda: rest[:60])
    if len(lines) > 1:
        ctx.nontrivial('folder', len(lines))


def small(rng):
    """A small object whose representation is complete."""
    b = lambda: rng.choice([0, 1, 127, 255, rng.randrange(256)])
    short = lambda: previewData(rng)[:32]
    A = ALIGNMENTS
    k = rng.randrange(20)
    if k < 3:
        kind = rng.choice(seqs.SOLO + list(seq.BARE) + ['Raw'])
        return seq.make(('Raw', short()) if kind == 'Raw' else (kind,) if kind in seq.BARE else seqs.plain(rng, kind))
    if k == 3:
        return bnbl.BNBLTouchArea(b(), b(), b(), b(), rng.choice(A))
    if k == 4:
        return bncl.BNCLImagePosition(b(), b(), rng.choice(A), rng.randrange(1 << 32))
    if k == 5:
        return bnbl.BNBL.fromTouchAreas([bnbl.BNBLTouchArea(b(), b(), b(), b(), rng.choice(A))
                                         for _ in range(rng.randrange(3))], rng.choice([0, 9]))
    if k == 6:
        return bncl.BNCL.fromImagePositions([bncl.BNCLImagePosition(b(), b(), rng.choice(A), b())
                                             for _ in range(rng.randrange(3))], rng.choice([0, 9]))
    if k in (7, 8):
        m = banks.instrument(rng, rng.random() < 0.8)
        # the type of a definition is an enumeration
        if m is None:
            m = banks.single(rng)
        x = banks.toInstrument(m)
        ds = [x.noteDefinition] if m[0] == 'single' else x.noteDefinitions if m[0] == 'range' else [
            r.noteDefinition for r in x.regions]
        for d in ds:
            if d.type in (1, 2, 3):
                d.type = soundBank.NoteType(d.type)
        return rng.choice([x, x, ds[0]])
    if k == 9:
        return soundSequencePlayer.SequencePlayer(b(), {rng.randrange(16) for _ in range(rng.randrange(16))}, b())
    if k == 10:
        return soundStreamPlayer.StreamPlayer([b() for _ in range(rng.randrange(0, 9))])
    if k == 11:
        return soundGroup.GroupEntry(soundGroup.GroupEntryType(rng.randrange(4)), rng.randrange(16), b())
    if k == 12:
        w = waves.wave(rng)
        return waves.toWave(w[:6] + (w[6][:32],))
    if k == 13:
        return code.MainCodeFile.Section(short(), rng.randrange(1 << 32), rng.randrange(1 << 20),
                                         implicit=rng.random() < 0.5)
    if k == 14:
        return code.Overlay(short(), *[rng.randrange(1 << 24) for _ in range(5)], b(), rng.randrange(1 << 20),
                            b() & 0xFE)
    if k == 15:
        parts = [rng.choice(['', 'text', "qu'ote", 'new\nline', bmg.Message.Escape(b(), short())])
                 for _ in range(rng.randrange(4))]
        return rng.choice([bmg.Message(short(), parts), bmg.Message(short(), [], True), bmg.Message.Escape(b(), short())])
    if k == 16:
        return soundSequenceArchive.SSARSequence(rng.choice([-1, rng.randrange(1 << 24)]), rng.randrange(1 << 16), b(), b(),
                                                 b(), b(), parsed=False)
    if k == 17:
        return soundStream.STRM.fromChannels(rng.choice([[], [[]], [[short()]]]), b(), b(), b(), b(), b())
    if k == 18:
        return soundSequence.SSEQ.fromEvents([seq.make(seqs.plain(rng, rng.choice(seqs.SOLO)))
                                              for _ in range(rng.choice([0, 1, 7, 8]))], b(), rng.randrange(1 << 16), b(),
                                             b(), b(), b())
    return texture.Palette.fromColors(b(), b(), b(), [tuple(rng.randrange(32) for _ in range(3)) + (rng.randrange(2),)
                                                      for _ in range(rng.randrange(21))])


def evaluated(ctx, rng, index):
    for _ in range(4):
        x = small(rng)
        text = repr(x)
        again = evaluate(text)
        a, b = corpus.state(x), corpus.state(again)
        ctx.check('evaluated representation', type(again) is type(x) and a == b,
                  lambda: f'{text[:300]}: {corpus.difference(a, b)}')
        if isinstance(x, soundSequence.SequenceEvent):
            ctx.eq('event text', str(x), eventText(seq.describe(x, {})), 'event')
        elif isinstance(x, soundBank.Instrument):
            ctx.eq('instrument text', str(x), instrumentText(banks.describe(x)), 'instrument')
        ctx.nontrivial('eval', type(x).__name__)
    for kind in rng.sample(seqs.SOLO, 4):
        e = seqs.plain(rng, kind)
        ctx.eq('event text', str(seq.make(e)), eventText(e), 'event')


def summaries(ctx, rng, index):
    k = rng.randrange(6)
    if k == 0:
        r = rom.NintendoDSRom()
        r.name = rng.choice([b'GAME', b'GAME  ', b"IT'S", b'', rng.randbytes(rng.randrange(12)).replace(b' ', b'')])
        r.idCode = rng.choice([b'ABCE', b'####', rng.randbytes(4)])
        m = re.fullmatch(r'<rom "(.*)" \((.*)\)>', str(r), re.S)
        ctx.check('summary text', bool(m), str(r))
        if b"'" not in r.name + r.idCode:
            ctx.bytesEq('summary text', eval("b'" + m[1] + "'"), r.name.rstrip(b' '), 'title')
            ctx.bytesEq('summary text', eval("b'" + m[2] + "'"), r.idCode, 'code')
        ctx.eq('summary text', repr(r), f'NintendoDSRom({r})', 'representation of a ROM')
    elif k == 1:
        s = soundArchive.SDAT()
        want = []
        for a, t in [('sequences', 'sequences'), ('sequenceArchives', 'sequence archives'), ('banks', 'banks'),
                     ('waveArchives', 'wave archives'), ('sequencePlayers', 'sequence players'), ('groups', 'groups'),
                     ('streamPlayers', 'stream players'), ('streams', 'streams')]:
            n = rng.randrange(12)
            setattr(s, a, [(None, None)] * n)
            want.append(f'{n} {t}')
        ctx.eq('summary text', str(s), f'<sdat {" ".join(want)}>', 'sound archive')
        prints(ctx, 'prints', s, 'sound archive')
    elif k == 2:
        b = bmg.BMG.fromMessages([bmg.Message(b'', 'x') for _ in range(rng.randrange(9))], [b'abcd'] * rng.randrange(3),
                                 [(1, 2)] * rng.randrange(3), [(1, 2)] * rng.randrange(9), id=rng.randrange(99))
        ctx.eq('summary text', str(b), f'<bmg id={b.id} ({len(b.messages)} messages, {len(b.scripts)} scripts)>', 'BMG')
        again = evaluate(repr(b))
        ctx.check('evaluated representation', corpus.state(again) == corpus.state(b), lambda: f'{repr(b)}:'
                  f' {corpus.difference(corpus.state(b), corpus.state(again))}')
    elif k == 3:
        parts = [rng.choice(['abc', 'ü', bmg.Message.Escape(rng.randrange(256), rng.randbytes(rng.randrange(4)))])
                 for _ in range(rng.randrange(5))]
        m = bmg.Message(b'', parts)
        want = ''.join(p if isinstance(p, str) else f'[{p.type}:{p.data.hex()}]' for p in parts)
        ctx.eq('summary text', str(m), want, 'message')
    elif k == 4:
        secs = [code.MainCodeFile.Section(previewData(rng), rng.randrange(1 << 32), 0, implicit=rng.random() < 0.5)
                for _ in range(rng.randrange(5))]
        c = code.MainCodeFile.fromSections(secs, rng.randrange(1 << 32))
        text = str(c)
        head = f'<main-code at 0x{c.ramAddress:08X}\n'
        ctx.check('summary text', text.startswith(head), text[:80])
        text = text[len(head):]
        for s in secs:
            h = f'    <code-section at 0x{s.ramAddress:08X}: '
            ctx.check('summary text', text.startswith(h), lambda: f'{text[:80]!r}, expected {h!r}')
            text = shown(ctx, text[len(h):], s.data, 0x20, 'section')
            t = (' implicit' if s.implicit else '') + '>\n'
            ctx.check('summary text', text.startswith(t), lambda: f'{text[:80]!r}, expected {t!r}')
            text = text[len(t):]
        ctx.eq('summary text', text, '>', 'end of the main code')
    else:
        o = code.Overlay(b'abcd', rng.randrange(1 << 32), 2, 3, 4, 5, rng.randrange(999), 0, rng.randrange(4))
        want = f'<overlay at 0x{o.ramAddress:08X} file={o.fileID}' + (' compressed' if o.flags & 1 else '') + \
            (' verify-hash' if o.flags & 2 else '') + '>'
        ctx.eq('summary text', str(o), want, 'overlay')
        s = soundStream.STRM.fromChannels([[b'ab'] * rng.choice([1, 1, 2])] * rng.randrange(4))
        n = len(s.channels)
        t = (f'[{n} channel{"s" if n > 1 else ""} of {len(s.channels[0])} block{"s" if len(s.channels[0]) > 1 else ""}'
             ' each]') if n else '[0 channels]'
        ctx.check('summary text', t in str(s), lambda: f'{s}, expected {t}')
        s.waveType = rng.choice([0, 1, 2, 3, 0x77])
        t = ['PCM8', 'PCM16', 'ADPCM'][s.waveType] if s.waveType < 3 else f'waveType={s.waveType:#x}'
        s.sampleRate, s.volume, s.isLooped = rng.randrange(1 << 16), rng.randrange(128), rng.random() < 0.5
        ctx.check('summary text', str(s).startswith(f'<strm {t} {s.sampleRate}Hz [') and str(s).endswith(
            f'] volume={s.volume}' + (' looped>' if s.isLooped else '>')), lambda: f'{s}, expected {t} {s.sampleRate}')
        w = soundWave.SWAV.fromData(b'abcd', waveType=s.waveType, isLooped=s.isLooped, sampleRate=s.sampleRate)
        ctx.eq('summary text', str(w), f'<swav {t} {s.sampleRate}Hz{" looped" if s.isLooped else ""}>', 'wave')
        q = soundSequenceArchive.SSARSequence(None, rng.randrange(999), rng.randrange(128), 3, 4, rng.randrange(16))
        q.parsed = rng.random() < 0.5
        ctx.eq('summary text', str(q), f'<ssar-sequence{"" if q.parsed else " unparsed"} bank={q.bankID} volume={q.volume}'
               f' playerID={q.playerID}>', 'sequence of an archive')
        e = soundGroup.GroupEntry(rng.randrange(4), rng.randrange(16), rng.randrange(99))
        want = f'<group-entry-{["sseq", "sbnk", "swar", "ssar"][e.type]} {e.id}'
        ctx.check('summary text', re.match(re.escape(want) + '[ >]', str(e)), lambda: f'{e}, expected {want}')
        words = str(e)[1:-1].split()
        ctx.eq('summary text', ('load-sseq' in words, 'load-swar' in words, 'load-ssar' in words,
                                'load-swars-by-swar-id' in words), (e.loadSSEQ, e.loadSWAR, e.loadSSAR,
                                bool(e.loadSBNKSWARsFrom)), f'group entry {e}')


PARTS = [loaded, loaded, new, listings, eventLists, folders, evaluated, summaries]


def case(ctx, rng, index):
    part = PARTS[index % len(PARTS)]
    ctx.info('part', part.__name__)
    part(ctx, rng, index)
