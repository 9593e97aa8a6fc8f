"""The repository's conversion tools do what they say."""

import contextlib
import io
import json
import os
import runpy
import subprocess
import sys

from gen import blobs, roms, trees
from ref import fnt, lz, narc, rom

CASES = {'quick': 13000, 'thorough': 78000}
RULE = ('The filename table tool with every pair of input and output forms (raw table, JSON, ROM, NARC), the inputs'
        ' written independently in canonical and foreign layouts, output files absent, longer, or archives with other'
        ' names; the LZ10 tool with forced and guessed direction, given and default output names, empty files included.'
        ' Both run in this process and as separate programs. Non-trivial = table with at least two names or at least'
        ' 16 bytes to compress.')
REQUIRED = {'filenames': 2000, 'rest of the archive': 800, 'compressed': 500, 'decompressed': 500, 'input unchanged': 2000,
            'nothing else written': 2000, 'refused without archive': 100, 'separate program': 4}
ASSUMPTIONS = ['The unfinished scripts in tools/ (narctool, soundfontExport, instrumentExamples, testSDAT) promise nothing.']

TOOLS = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'tools')
LONG = {'-ib': '--input_bin', '-ij': '--input_json', '-ir': '--input_rom', '-in': '--input_narc', '-ob': '--output_bin',
        '-oj': '--output_json', '-or': '--output_rom', '-on': '--output_narc', '-c': '--compress', '-d': '--decompress'}

# the space before the code and the signature have their own rules (C09, C10)
ROM = (['files'] + [f[0] for f in rom.FIELDS if f[0] != 'deviceCapacity']
       + [x for x in rom.PARTS if x not in ('pad200', 'rsaSignature')])


def put(path, data):
    with open(path, 'wb') as f:
        f.write(data)


def get(path):
    with open(path, 'rb') as f:
        return f.read()


def run(ctx, tool, args, external):
    """-> None if the tool succeeded, else what went wrong"""
    script = os.path.join(TOOLS, tool)
    if external:
        r = subprocess.run([sys.executable, script] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60,
                           env=dict(os.environ, PYTHONPATH=os.path.dirname(TOOLS)))
        return None if r.returncode == 0 else f'exit {r.returncode}: {r.stderr.decode()[-400:]}'
    argv, path = sys.argv, list(sys.path)
    sys.argv = [script] + args
    sys.path.insert(0, TOOLS)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            runpy.run_path(script, run_name='__main__')
    except SystemExit as e:
        return f'SystemExit({e.code})' if e.code else None
    except Exception as e:
        return repr(e)
    finally:
        sys.argv, sys.path[:] = argv, path
    return None


def toJson(t, rng):
    d = {'first_id': t[0]}
    if t[1] or rng.random() < 0.3:
        d['files'] = t[1]
    if t[2] or rng.random() < 0.3:
        d['folders'] = [[n, toJson(s, rng)] for n, s in t[2]]
    return d


def fromJson(d):
    return d['first_id'], list(d.get('files', [])), [(n, fromJson(s)) for n, s in d.get('folders', [])]


def table(rng):
    k = rng.random()
    if k < 0.05:
        return 0, [], []
    if k < 0.1:
        return trees.chain(rng, rng.randrange(1, 30))
    if k < 0.15:
        return trees.wide(rng, rng.randrange(1, 40))
    return trees.tree(rng, sequential=rng.random() < 0.6)[0]


def filename(rng, used):
    while True:
        n = rng.choice(['in', 'in.json', 'names.bin', 'my file', 'caf\xe9.x', 'out', 'out.narc'])
        if n not in used:
            return n


def romFile(m, rng):
    return rom.buildForeign(m, rng)[0] if rng.random() < 0.5 else rom.build(m)


def narcFile(files, tree, rng, endian):
    return narc.buildForeign(files, tree, endian, rng) if rng.random() < 0.5 else narc.build(files, tree, endian)


def names(ctx, rng, where, external):
    t = table(rng)
    source = rng.choice(['-ib', '-ij', '-ir', '-in'])
    target = rng.choice(['-ob', '-oj', '-or', '-on'])
    if source == '-ib':
        data = fnt.buildForeign(t, rng) if rng.random() < 0.5 else fnt.build(t)
    elif source == '-ij':
        data = json.dumps(toJson(t, rng), indent=rng.choice([None, 4]), ensure_ascii=rng.random() < 0.5).encode()
    elif source == '-ir':
        m = roms.model(rng, maxFiles=4, big=200)
        m['tree'] = t
        data = romFile(m, rng)
    else:
        data = narcFile(roms.files(rng, rng.randrange(4), 50), t, rng, '<')
    a = filename(rng, [])
    b = filename(rng, [a])
    inp, out = os.path.join(where, a), os.path.join(where, b)
    put(inp, data)
    if target == '-or':
        old = roms.model(rng, maxFiles=6, big=200)
        oldData = romFile(old, rng)
    elif target == '-on':
        old = {'files': roms.files(rng, rng.randrange(6), 200), 'tree': table(rng), 'endianness': rng.choice('<<>')}
        oldData = narcFile(old['files'], old['tree'], rng, old['endianness'])
    else:
        oldData = rng.choice([None, rng.randbytes(len(data) + 3000), b''])
    missing = target in ('-or', '-on') and rng.random() < 0.15
    if oldData is not None and not missing:
        put(out, oldData)
    options = [x if rng.random() < 0.7 else LONG[x] for x in (source, target)]
    rng.shuffle(options)
    args = rng.choice([options + [inp, out], [inp, out] + options, [inp] + options + [out]])
    ctx.info('arguments', args)
    ctx.info('tree', t)
    r = run(ctx, 'fnttool.py', args, external)
    ctx.bytesEq('input unchanged', get(inp), data, 'input file')
    if missing:
        ctx.check('refused without archive', r is not None and not os.path.exists(out), f'{args} succeeded')
        return
    if external:
        ctx.check('separate program', r is None, f'{args}: {r}')
    ctx.check('filenames', r is None, f'{args}: {r}')
    if r is not None:
        return
    ctx.eq('nothing else written', sorted(os.listdir(where)), sorted([a, b]), 'files')
    got = get(out)
    if target == '-ob':
        ctx.eq('filenames', fnt.parse(got)[0], t, 'table written')
    elif target == '-oj':
        ctx.eq('filenames', fromJson(json.loads(got.decode('utf-8'))), t, 'JSON written')
    elif target == '-on':
        n = narc.parse(got)
        ctx.eq('filenames', n['tree'], t, 'table in the archive')
        ctx.eq('rest of the archive', n['files'], old['files'], 'files in the archive')
        ctx.eq('rest of the archive', n['endianness'], old['endianness'], 'byte order of the archive')
    else:
        p = rom.parse(got)
        ctx.eq('filenames', p['tree'], t, 'table in the ROM')
        for k in ROM:
            ctx.check('rest of the archive', p[k] == old[k], lambda: f'{k} of the ROM: {p[k]!r:.80} for {old[k]!r:.80}')
    if len(trees.allFiles(t)) + len(trees.allFolders(t)) >= 2:
        ctx.nontrivial(source, target, t)
    if ctx.index < 40:
        ctx.sample(f'fnttool {source} {target}: {len(trees.allFiles(t))} files, {len(trees.allFolders(t))} folders')


def squeeze(ctx, rng, where, external):
    data = blobs.blob(rng, rng.choice([0, 1, rng.randrange(600)]))
    k = rng.random()
    if k < 0.1:
        data = b'\x10' + data
    down = rng.random() < 0.5
    source = lz.lz10Encode(lz.tokenize(data, 0x1000, 1), len(data)) if down else data
    way = '-d' if down else '-c'
    if rng.random() < 0.4 and (source[:1] == b'\x10') == down:
        way = None  # the tool guesses
    name = rng.choice(['in', 'in.bin', 'in.lz10', 'a b.raw'])
    inp = os.path.join(where, name)
    put(inp, source)
    given = rng.random() < 0.5
    out = os.path.join(where, 'result') if given else inp + ('.raw' if down else '.lz10')
    if rng.random() < 0.5:
        put(out, rng.randbytes(rng.choice([0, 5, len(data) + 100])))
    args = [inp] + [out] * given
    if way:
        args.insert(rng.choice([0, len(args)]), way if rng.random() < 0.7 else LONG[way])
    ctx.info('arguments', args)
    ctx.info('input', source)
    r = run(ctx, 'lz10tool.py', args, external)
    which = 'decompressed' if down else 'compressed'
    if external:
        ctx.check('separate program', r is None, f'{args}: {r}')
    ctx.check(which, r is None, f'{args}: {r}')
    ctx.bytesEq('input unchanged', get(inp), source, 'input file')
    if r is not None:
        return
    ctx.eq('nothing else written', sorted(os.listdir(where)), sorted([name, os.path.basename(out)]), 'files')
    got = get(out)
    if down:
        ctx.bytesEq(which, got, data, 'decompressed file')
    else:
        ctx.bytesEq(which, lz.lz10Decode(got)[0], data, 'compressed file, decoded independently,')
    if len(data) >= 16:
        ctx.nontrivial(way, data)


def case(ctx, rng, index):
    where = os.path.join(ctx.scratch, 'files')
    os.makedirs(where, exist_ok=True)
    for n in os.listdir(where):
        os.unlink(os.path.join(where, n))
    external = index % 400 == 7 or index % 400 == 10
    if index % 3 == 1:
        squeeze(ctx, rng, where, external)
    else:
        names(ctx, rng, where, external)
