"""A refused operation leaves everything as it was."""

import copy
import os

from ndspy import code, codeCompression, indexInNamedList, lz10, rom, setInNamedList
from gen import blobs, corpus

CASES = {'quick': 60000, 'thorough': 360000}
RULE = ('Objects of every format loaded from independently built files, made unsaveable by one impossible value in a'
        ' random place (numbers far too large, negative or of the wrong type, missing parts, names no format can hold),'
        ' saved in memory and over existing files; damaged and cut files of every format opened; names that do not'
        ' exist; damaged compressed data given to the command-line tools. Non-trivial = the operation was refused.')
REQUIRED = {'object after a refused save': 8000, 'file after a refused save': 4000, 'saved once repaired': 8000,
            'input of a refused load': 4000, 'file of a refused load': 1500, 'missing name': 2000,
            'refused command': 1000}
ASSUMPTIONS = ['What a refused load leaves behind is not visible to anyone; fields that saving is documented to update are'
               ' not asked for here.']

FILE_KINDS = [k for k, v in corpus.KINDS.items() if v.fromFile]


def put(path, data):
    with open(path, 'wb') as f:
        f.write(data)


def get(path):
    with open(path, 'rb') as f:
        return f.read()


def fresh(ctx):
    d = os.path.join(ctx.scratch, 'files')
    os.makedirs(d, exist_ok=True)
    for n in os.listdir(d):
        os.unlink(os.path.join(d, n))
    return d


BAD = [1 << 70, -70000, -1, 1 << 16, 256, 'text', None, 1.5, b'bytes', [], 'あ' * 3, 'x' * 300, object()]


def spoil(rng, obj):
    """Put something impossible somewhere. Returns a function that undoes it, or None."""
    walk = corpus.Walk(obj)
    if not walk.mutable:
        return None
    x, path = rng.choice(walk.mutable)
    bad = rng.choice(BAD)
    if isinstance(x, list):
        old = list(x)
        if x and rng.random() < 0.7:
            x[rng.randrange(len(x))] = bad
        else:
            x.insert(rng.randrange(len(x) + 1), bad)

        def undo():
            x[:] = old
    elif isinstance(x, dict):
        old = dict(x)
        x[rng.choice(list(x) or [1])] = bad

        def undo():
            x.clear()
            x.update(old)
    elif isinstance(x, set):
        old = set(x)
        x.add(rng.choice([1 << 70, -1, 'text', 99]))

        def undo():
            x.clear()
            x.update(old)
    elif isinstance(x, bytearray):
        return None
    else:
        names = sorted(getattr(x, '__dict__', ()))
        names = [n for n in names if not n.startswith('_')]
        if not names:
            return None
        n = rng.choice(names)
        old = getattr(x, n)
        if isinstance(bad, int) and (n in ('pitch', 'type') or 'lignment' in n):
            bad = min(bad, 300)  # names of pitches are as long as the pitch is high, files as long as their alignment
        try:
            setattr(x, n, bad)
        except Exception:
            return None

        def undo():
            setattr(x, n, old)
    return undo, f'{path}: {bad!r:.20}'


def safely(f):
    """Whether f was refused."""
    try:
        f()
        return False
    except Exception:
        return True


def saving(ctx, rng, index):
    name = list(corpus.KINDS)[index // 4 % len(corpus.KINDS)]
    kind = corpus.KINDS[name]
    data, args = kind.file(rng)
    obj = kind.load(data, copy.deepcopy(args))
    first = kind.save(obj)
    original = corpus.state(obj)
    s = spoil(rng, obj)
    if s is None:
        return
    undo, what = s
    ctx.info('kind', [name, what])
    ctx.info('data', data)
    try:
        before = corpus.state(obj)
    except Exception:
        return
    if not safely(lambda: kind.save(obj)):
        ctx.note('saved all the same')
        return
    after = corpus.state(obj)
    ctx.check('object after a refused save', before == after, lambda: f'{name} {what}: {corpus.difference(before, after)}')
    if kind.toFile:
        where = fresh(ctx)
        path = os.path.join(where, 'out')
        old = rng.choice([None, b'', data, rng.randbytes(50)])
        if old is not None:
            put(path, old)
        if safely(lambda: kind.toFile(obj, path)):
            ctx.eq('file after a refused save', {n: get(os.path.join(where, n)) for n in os.listdir(where)},
                   {} if old is None else {'out': old}, f'{name} {what}: files')
            after = corpus.state(obj)
            ctx.check('object after a refused save', before == after,
                      lambda: f'{name} {what}, to a file: {corpus.difference(before, after)}')
        else:
            ctx.check('file after a refused save', False, f'{name} {what}: refused in memory, written to a file')
    undo()
    after = corpus.state(obj)
    ctx.check('saved once repaired', original == after, lambda: f'{name} {what}: {corpus.difference(original, after)}')
    ctx.eq('saved once repaired', kind.save(obj), first, f'{name} {what}, repaired')
    ctx.nontrivial(name, what, data)


def damage(rng, data, top):
    b = bytearray(data)
    k = rng.randrange(4)
    if k == 0 or not b:
        return bytes(b[:rng.randrange(len(b) + 1)])
    if k == 1:
        b[:4] = rng.randbytes(4)
    else:
        for _ in range(rng.randrange(1, 6)):
            b[rng.randrange(min(len(b), top))] = rng.choice([0, 0xFF, rng.randrange(256)])
    return bytes(b)


def loading(ctx, rng, index):
    name = rng.choice([k for k in corpus.KINDS if k not in ('MainCode', 'Nsbtx', 'Nsbmd', 'Sbnk')])
    kind = corpus.KINDS[name]
    data, args = kind.file(rng)
    # loaders believe the counts that follow the headers of these
    bad = damage(rng, data, 0x14 if name in ('Strm', 'Ssar', 'ParsedSsar') else 0x80)
    buf = bytearray(bad)
    ctx.info('kind', name)
    ctx.info('data', bad)
    if name in ('Ssar', 'ParsedSsar'):
        args = (args[0], list(args[1]))
    given = copy.deepcopy(args)
    refused = False
    try:
        kind.load(buf, args)
    except (MemoryError, RecursionError):
        return
    except Exception:
        refused = True
    ctx.bytesEq('input of a refused load' if refused else 'input of a load', buf, bad, f'{name}, damaged')
    ctx.eq('input of a refused load' if refused else 'input of a load', args, given, f'{name}: other arguments')
    if refused:
        ctx.nontrivial(name, bad)
    if kind.fromFile:
        where = fresh(ctx)
        path = os.path.join(where, 'in')
        put(path, bad)
        if safely(lambda: kind.fromFile(path, args)):
            ctx.eq('file of a refused load', {n: get(os.path.join(where, n)) for n in os.listdir(where)}, {'in': bad}, name)


def names(ctx, rng, index):
    k = rng.randrange(3)
    if k < 2:
        name = ('Rom', 'Narc')[k]
        kind = corpus.KINDS[name]
        obj = kind.load(kind.file(rng)[0], ())
        before = corpus.state(obj)
        bad = rng.choice(['no such file', 'a/b/c/no', '', '/', 'nothing/'])
        if obj.filenames.idOf(bad) is not None:
            return
        ctx.info('name', [name, bad])
        ctx.raises('missing name', lambda: obj.setFileByName(bad, b'new'), (ValueError,), bad)
        ctx.raises('missing name', lambda: obj.getFileByName(bad), (ValueError,), bad)
        after = corpus.state(obj)
        ctx.check('missing name', before == after, lambda: f'{name} {bad!r}: {corpus.difference(before, after)}')
    else:
        lst = [(rng.choice([None, 'a', 'b', f'n{i}']), [i]) for i in range(rng.randrange(5))]
        copy_ = list(lst)
        ctx.raises('missing name', lambda: setInNamedList(lst, 'missing', 5), (KeyError,), 'setInNamedList')
        ctx.raises('missing name', lambda: indexInNamedList(lst, 'missing'), (KeyError,), 'indexInNamedList')
        ctx.check('missing name', len(lst) == len(copy_) and all(a is b for a, b in zip(lst, copy_)), 'list changed')


def commands(ctx, rng, index):
    where = fresh(ctx)
    path, out = os.path.join(where, 'in.bin'), os.path.join(where, 'out.bin')
    data = blobs.lzLike(rng, rng.randrange(30, 200))
    if rng.random() < 0.6:
        mod, bad = lz10, bytes(lz10.compress(data))
        bad = rng.choice([bad[:rng.randrange(4, max(5, len(bad) // 2))], b'\x11' + bad[1:], bad[:1] + b'\xff\xff\x3f' +
                          bad[4:], b'', b'\x10', b'\x10\x10\0\0\xff' + b'\xff\xff' * 3])
    else:
        mod, bad = codeCompression, None
    if bad is None:
        bad = bytes(codeCompression.compress(data + bytes(100)))
        bad = bytes(len(bad) - 8) + bad[-8:]
        bad = bad[:-8] + rng.choice([b'\xff\xff\xff\x0a', bad[-8:-4], b'\xff\0\0\x08']) + rng.choice([bad[-4:], b'\x40\0\0\0'])
        bad = rng.randbytes(len(bad) - 8) + bad[-8:]
    ctx.info('data', bad)
    put(path, bad)
    old = rng.choice([None, b'', rng.randbytes(20)])
    if old is not None:
        put(out, old)
    buf = bytearray(bad)
    refused = safely(lambda: mod.decompress(buf))
    ctx.bytesEq('input of a refused load' if refused else 'input of a load', buf, bad, 'compressed data')
    if not refused:
        return
    try:
        mod.main(['decompress', path, out])
        wrong = True
    except SystemExit as e:
        wrong = not e.code
    except Exception:
        wrong = False
    ctx.check('refused command', not wrong, 'damaged data not refused by the command')
    ctx.check('refused command', safely(lambda: mod.decompressToFile(bad, out)), 'damaged data not refused by the helper')
    want = {'in.bin': bad}
    if old is not None:
        want['out.bin'] = old
    ctx.eq('refused command', {n: get(os.path.join(where, n)) for n in os.listdir(where)}, want, 'files after the command')
    # nothing to read
    if index % 3 == 0:
        for command in ('compress', 'decompress'):
            ctx.check('refused command', safely(lambda: mod.main([command, os.path.join(where, 'missing'), out])),
                      'missing file accepted')
        ctx.eq('refused command', {n: get(os.path.join(where, n)) for n in os.listdir(where)}, want,
               'files after commands without input')
    ctx.nontrivial(bad)


def case(ctx, rng, index):
    (saving, saving, loading, names if index % 8 == 3 else commands)[index % 4](ctx, rng, index)
