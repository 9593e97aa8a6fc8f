"""Reading and replacing files by name affects only that file."""

from ndspy import narc, rom
from gen import blobs, roms, trees

CASES = {'quick': 22000, 'thorough': 132000}
RULE = ('Random histories of 5-40 operations (read, replace, replace through a missing path, save and reload,'
        ' rename nothing) on a ROM or an archive whose names all refer to existing files; after every operation'
        ' all files are compared with a model dictionary. Non-trivial = at least two replacements.')
REQUIRED = {'read returns current data': 2000, 'replacement affects only that file': 2000,
            'missing path is refused': 500, 'state after reload': 500}
ASSUMPTIONS = []


def case(ctx, rng, index):
    isRom = index % 3 == 0
    while True:
        tree, top = trees.tree(rng, firstStart=rng.choice([0, 0, 2]))
        if index % 300 == 5:
            tree, top = trees.tree(rng, maxFolders=60, maxFiles=60)
        elif index % 300 == 6:
            top = rng.choice([256, 300, 700])
            tree = (0, [f'f{i}' for i in range(top)], [])
        if top or rng.random() < 0.1:
            break
    files = roms.files(rng, top + rng.choice([0, 0, 1, 3]), 300)
    paths = trees.allFiles(tree)
    ctx.info('tree', tree)
    folder = trees.toFolder(tree)
    if isRom:
        m = roms.model(rng, maxFiles=0, big=100)
        m['arm9OverlayTable'] = m['arm7OverlayTable'] = b''
        obj = roms.toRom(m)
        obj.files = list(files)
        obj.filenames = folder
    else:
        obj = narc.NARC.fromFilesAndNames(list(files), folder)
        obj.endiannessOfBeginning = rng.choice('<>')

    def rest(o):
        if isRom:
            d = roms.describe(o)
            d.pop('order')
            d.pop('files')
            d.pop('pad200')
            d.pop('rsaSignature')
            return d
        return trees.fromFolder(o.filenames), o.endiannessOfBeginning

    other = rest(obj)
    model = list(files)
    names = {p for p, _ in paths}
    history = []
    replaced = 0

    def agree(monitor, what):
        ctx.eq(monitor, [bytes(f) for f in obj.files], model, f'{what}, history {history}')
        ctx.eq(monitor, rest(obj), other, f'{what}: everything else, history {history}')

    for _ in range(rng.choice([5, 12, 40])):
        op = rng.random()
        if op < 0.3 and paths:
            p, fid = rng.choice(paths)
            q = rng.choice([p, p, p, '/' + p])
            history.append(('get', q))
            ctx.bytesEq('read returns current data', obj.getFileByName(q), model[fid], f'read {q!r}, history {history}')
        elif op < 0.65 and paths:
            p, fid = rng.choice(paths)
            new = rng.choice([blobs.blob(rng, big=300), b'', bytes(model[fid]) + b'!'])
            if rng.random() < 0.2:
                new = bytearray(new)
            history.append(('set', p, len(new)))
            obj.setFileByName(p, new)
            model[fid] = bytes(new)
            replaced += 1
            agree('replacement affects only that file', f'after replacing {p!r}')
        elif op < 0.8:
            p = rng.choice(['nope', 'nope/nope', '', (paths[0][0] + 'x') if paths else 'x',
                            (paths[-1][0] + '/x') if paths else 'y', tree[2][0][0] if tree[2] else 'z'])
            if p in names:
                continue
            history.append(('missing', p))
            ctx.raises('missing path is refused', lambda: obj.getFileByName(p), Exception, f'read {p!r}')
            ctx.raises('missing path is refused', lambda: obj.setFileByName(p, b'X'), Exception, f'replace {p!r}')
            agree('missing path changes nothing', f'after using {p!r}')
        else:
            history.append('reload')
            obj = type(obj)(obj.save())
            agree('state after reload', 'after saving and reloading')
    for p, fid in paths:
        ctx.bytesEq('final contents by name', obj.getFileByName(p), model[fid], f'{p!r} at the end, history {history}')
    if replaced >= 2:
        ctx.nontrivial(history, tree, isRom)
    if index in (3, 4):
        ctx.sample(f'{"ROM" if isRom else "archive"} with {len(files)} files: {str(history)[:300]}')
