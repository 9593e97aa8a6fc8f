"""File and command-line entry points match the in-memory ones."""

import os
import pathlib
import subprocess
import sys

from ndspy import WaveType, code, codeCompression, lz10, rom, soundStream
from gen import blobs, codeblobs, corpus, waves
from ref import lz

CASES = {'quick': 43000, 'thorough': 258000}
RULE = ('Independently built files of every format with file helpers, read from and written to text, pathlib and other'
        ' path-like paths (relative ones, names with spaces and non-ASCII letters, existing longer files), with'
        ' positional, named and left out optional arguments; all forms of the two command-line tools, run in this'
        ' process and as separate programs. Non-trivial = file of at least 16 bytes.')
REQUIRED = {'loaded from a path': 3000, 'loading leaves the file alone': 3000, 'written file': 3000,
            'save options': 500, 'compression helpers': 800, 'command line': 800, 'input file unchanged': 800,
            'separate program': 4, 'nothing else written': 800}
ASSUMPTIONS = ['A command whose default output name is the input name replaces its input.']

KINDS = [k for k, v in corpus.KINDS.items() if v.fromFile]
ARGS = {'Sseq': ('unk02', 'bankID', 'volume', 'channelPressure', 'polyphonicPressure', 'playerID'),
        'Ssar': ('unk02', 'names'), 'Sbnk': ('unk02', 'waveArchiveIDs'), 'Swar': ('unk02',),
        'Strm': ('unk02', 'volume', 'priority', 'playerID', 'unk07'), 'ImageTiles': ('format',),
        'TilemapTiles': ('format',)}


class PathLike:
    def __init__(self, path):
        self.path = path

    def __fspath__(self):
        return self.path


def asPath(rng, path):
    return rng.choice([str, str, pathlib.Path, PathLike])(path)


def put(path, data):
    with open(path, 'wb') as f:
        f.write(data)


def get(path):
    with open(path, 'rb') as f:
        return f.read()


def fresh(ctx):
    """An empty directory inside the scratch directory."""
    d = os.path.join(ctx.scratch, 'files')
    os.makedirs(d, exist_ok=True)
    for n in os.listdir(d):
        os.unlink(os.path.join(d, n))
    return d


def fileName(rng):
    return rng.choice(['file', 'file.bin', 'my file.dat', 'f\xfcあ.x', '.hidden', 'a.b.c', '-dash'])


def old(rng, path, n):
    """Perhaps something is there already."""
    if rng.random() < 0.6:
        put(path, rng.randbytes(rng.choice([0, 3, n + 100])))


def formats(ctx, rng, where):
    name = rng.choice(KINDS)
    kind = corpus.KINDS[name]
    data, args = kind.file(rng)
    path = os.path.join(where, fileName(rng))
    put(path, data)
    want = kind.load(data, args)
    given = args
    ctx.info('kind', [name, args])
    ctx.info('data', data)
    if name in ARGS and rng.random() < 0.5:
        n = rng.randrange(len(args) + 1)
        kw = dict(zip(ARGS[name][n:], args[n:]))
        source = kind.fileLoader if isinstance(kind, corpus.Listed) else kind.cls.fromFile
        got = source(asPath(rng, path), *args[:n], **kw)
    elif name in ARGS and name != 'TilemapTiles' and rng.random() < 0.2:
        given = ()
        want = kind.load(data, ())
        got = kind.fromFile(asPath(rng, path), ())
    else:
        got = kind.fromFile(asPath(rng, path), args)
        if got is None:
            return
    a, b = corpus.state(got), corpus.state(want)
    ctx.check('loaded from a path', a == b, lambda: f'{name}: {corpus.difference(a, b)}')
    ctx.check('loading leaves the file alone', get(path) == data and len(os.listdir(where)) == 1, name)
    # and back
    out = path if rng.random() < 0.2 else os.path.join(where, 'out')
    saved = kind.save(want)[0]
    old(rng, out, len(saved))
    r = kind.toFile(got, asPath(rng, out))
    ctx.check('written file', r is None, f'{name}: saving to a file returned {r!r}')
    ctx.bytesEq('written file', get(out), saved, f'{name} written')
    ctx.eq('nothing else written', set(os.listdir(where)), {os.path.basename(path), os.path.basename(out)}, name)
    if len(data) >= 16:
        ctx.nontrivial(name, data)
    if given == ():
        ctx.note('default arguments')


def options(ctx, rng, where):
    out = os.path.join(where, fileName(rng))
    p = asPath(rng, out)
    which = rng.choice(['wave', 'stream', 'rom', 'code', 'code'])
    ctx.info('which', which)
    if which == 'wave':
        kw = {k: rng.random() < 0.5 for k in ('updateTime', 'updateTotalLength')}
        w = waves.wave(rng, 80)
        w = w[:2] + (w[2] or 8000,) + w[3:]
        w = w[:2] + (max(w[2], 300),) + w[3:4] + (rng.randrange(4), rng.randrange(4, 99), rng.randbytes(
            rng.randrange(40, 90)))
        a, b = waves.toWave(w), waves.toWave(w)
        a.saveToFile(p, **kw)
        want = b.save(**kw)
    elif which == 'stream':
        kw = {'updateTime': rng.random() < 0.5}
        f, channels, settings = waves.stream(rng)
        objs = []
        for _ in range(2):
            s = soundStream.STRM.fromChannels([list(c) for c in channels], *settings)
            for k, v in f.items():
                setattr(s, k, WaveType(v) if k == 'waveType' else v)
            s.sampleRate = max(300, s.sampleRate)
            objs.append(s)
        objs[0].saveToFile(p, **kw)
        want = objs[1].save(**kw)[0]
    elif which == 'rom':
        kw = {'updateDeviceCapacity': rng.random() < 0.7}
        data, _ = corpus.KINDS['Rom'].file(rng)
        rom.NintendoDSRom(data).saveToFile(p, **kw)
        want = rom.NintendoDSRom(data).save(**kw)
        ctx.eq('save options', want[0x14] == data[0x14], not kw['updateDeviceCapacity'] or want[0x14] == data[0x14], '')
    else:
        kw = {'compress': rng.random() < 0.7}
        data, (ram, pointer) = corpus.KINDS['MainCode'].file(rng)
        old(rng, out, len(data))
        code.MainCodeFile(data, ram, pointer).saveToFile(p, **kw)
        want = bytes(code.MainCodeFile(data, ram, pointer).save(**kw))
        # the ROM's own files
        put(out + '.in', data)
        f = code.MainCodeFile.fromFile(asPath(rng, out + '.in'), ramAddress=ram)
        a, b = corpus.state(f), corpus.state(code.MainCodeFile(data, ram))
        ctx.check('loaded from a path', a == b, lambda: corpus.difference(a, b))
    ctx.bytesEq('save options', get(out), bytes(want), f'{which} written with {kw}')


def blob(rng):
    """Data whose stored form is not taken for compressed code (ambiguous by nature)"""
    while True:
        data = someBlob(rng)
        if not lz.anyFooter(data + bytes(-len(data) % 4 + 4)) and not lz.anyFooter(data + bytes(4)):
            return data


def someBlob(rng):
    k = rng.random()
    if k < 0.2:
        return codeblobs.codeData(rng, rng.randrange(8))
    if k < 0.25:
        return b''
    return blobs.blob(rng, rng.randrange(0, 600))


def helpers(ctx, rng, where):
    """The ...FromFile and ...ToFile functions"""
    data = blob(rng)
    module = rng.choice([lz10, codeCompression])
    kw = {'isArm9': rng.random() < 0.5} if module is codeCompression and rng.random() < 0.7 else {}
    path, out = os.path.join(where, 'in'), os.path.join(where, 'out')
    ctx.info('data', data)
    put(path, data)
    comp = bytes(module.compress(data, **kw))
    old(rng, out, len(comp))
    ctx.bytesEq('compression helpers', module.compressFromFile(asPath(rng, path), **kw), comp, 'compressFromFile')
    module.compressToFile(data, asPath(rng, out), **kw)
    ctx.bytesEq('compression helpers', get(out), comp, 'compressToFile')
    ctx.bytesEq('input file unchanged', get(path), data, 'input file')
    plain = bytes(module.decompress(comp))
    ctx.bytesEq('compression helpers', module.decompressFromFile(asPath(rng, out)), plain, 'decompressFromFile')
    old(rng, path, len(plain))
    module.decompressToFile(comp, asPath(rng, path))
    ctx.bytesEq('compression helpers', get(path), plain, 'decompressToFile')


def commands(ctx, rng, where, external):
    data = blob(rng)
    module = rng.choice([lz10, codeCompression])
    arm9 = module is codeCompression and rng.random() < 0.5
    down = rng.random() < 0.5
    comp = bytes(module.compress(data, isArm9=True) if arm9 else module.compress(data))
    source, want = (comp, bytes(module.decompress(comp))) if down else (data, comp)
    name = rng.choice(['in', 'in.bin', 'a.b.c', 'in put.x', 'in.dec', 'in.cmp', 'caf\xe9.bin'])
    path = os.path.join(where, name)
    put(path, source)
    given = rng.random() < 0.5
    ext = '.dec' if down else '.cmp'
    stem, dot, _ = name.rpartition('.')
    out = os.path.join(where, 'result') if given else os.path.join(where, (stem if dot else name) + ext)
    if out == path:
        ctx.note('input is the output')
    else:
        old(rng, out, len(want))
    args = [rng.choice(['decompress', 'd'] if down else ['compress', 'c']), path] + [out] * given
    if arm9 and not down:
        args.insert(rng.choice([1, len(args)]), '--is_arm9')
    ctx.info('command', [module.__name__] + args)
    ctx.info('input', source)
    if external:
        r = subprocess.run([sys.executable, '-m', module.__name__] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
            timeout=60, cwd=os.path.dirname(os.path.dirname(module.__file__)))
        ctx.check('separate program', r.returncode == 0, lambda: f'exit {r.returncode}: {r.stderr.decode()[-500:]}')
        r = None
    else:
        argv = sys.argv
        sys.argv = ['program'] + args
        try:
            r = module.main(*rng.choice([(), (args,), (args,)]))
        except SystemExit as e:
            r = f'SystemExit({e.code})'
        finally:
            sys.argv = argv
    ctx.check('command line', r is None, f'{r!r} returned')
    ctx.bytesEq('command line', get(out), want, f'output of {args}')
    if out != path:
        ctx.bytesEq('input file unchanged', get(path), source, 'input file')
    ctx.eq('nothing else written', set(os.listdir(where)), {os.path.basename(path), os.path.basename(out)}, 'files')
    if len(source) >= 16:
        ctx.nontrivial(args[0], module.__name__, source)
    if external:
        ctx.sample(f'{module.__name__} {args}')


def case(ctx, rng, index):
    where = fresh(ctx)
    here = os.getcwd()
    try:
        if index % 500 == 3:
            commands(ctx, rng, where, True)
        elif index % 2 == 0:
            if index % 6 == 0:
                os.chdir(where)
                where = '.'
            formats(ctx, rng, where)
        elif index % 8 == 1:
            options(ctx, rng, where)
        elif index % 8 == 3:
            helpers(ctx, rng, where)
        else:
            if index % 16 == 5:
                os.chdir(where)
                where = '.' if rng.random() < 0.5 else ''
                where = where or '.'
            commands(ctx, rng, where, False)
    finally:
        os.chdir(here)
