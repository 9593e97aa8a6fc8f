"""Filename lookups agree with each other and with the tree."""

from ndspy import fnt
from gen import trees

CASES = {'quick': 60000, 'thorough': 360000}
RULE = ('Random folder trees with distinct names per folder and disjoint id ranges, built directly or'
        ' loaded from a saved table; every file path, file id, folder path and a set of near-miss paths'
        ' and ids is looked up. Non-trivial = at least one file inside a subfolder.')
REQUIRED = {'path -> id': 4000, 'id -> path': 4000, 'folder path -> that folder': 2000,
            'missing path reported absent': 8000, 'missing id reported absent': 4000,
            'indexing agrees': 8000, 'membership agrees': 8000, 'leading slash ignored': 2000}
ASSUMPTIONS = []


def case(ctx, rng, index):
    if index == 0:
        tree = (0, [], [])
    elif index == 1:
        tree = trees.chain(rng, 60)
        # give the chain disjoint ids
        n = [0]

        def renum(t):
            me = n[0]
            n[0] += len(t[1])
            return (me, t[1], [(a, renum(b)) for a, b in t[2]])
        tree = renum(tree)
    else:
        tree, _ = trees.tree(rng, maxFolders=rng.choice([3, 12, 30]), firstStart=rng.choice([0, 0, 5, 300]))
    ctx.info('tree', tree)
    root = trees.toFolder(tree)
    if index % 2:
        root = fnt.load(bytes(fnt.save(root)))
    files = trees.allFiles(tree)
    folders = trees.allFolders(tree)
    pathToId = dict(files)
    ids = {i for _, i in files}
    folderPaths = {p for p, _ in folders}

    def absentPath(p):
        return p not in pathToId and p not in folderPaths

    for path, fid in files:
        ctx.eq('path -> id', root.idOf(path), fid, f'id of {path!r}')
        ctx.eq('id -> path', root.filenameOf(fid), path, f'path of id {fid}')
        ctx.eq('indexing agrees', root[path], fid, f'folder[{path!r}]')
        ctx.eq('indexing agrees', root[fid], path, f'folder[{fid}]')
        ctx.check('membership agrees', path in root and fid in root, f'{path!r} / {fid} not in folder')
        slashed = rng.choice(['/' + path, '//' + path, '///' + path])
        if index % 3 == 0:
            ctx.check('leading slash ignored', (root.idOf(slashed), root[slashed]) == (fid, fid) and slashed in root,
                      lambda: f'{slashed!r}: {root.idOf(slashed)!r} instead of {fid}')
        if path not in folderPaths:
            ctx.check('file is not a folder', root.subfolder(path) is None, f'subfolder({path!r}) found something')
    for path, sub in folders:
        node = root
        for part in path.split('/'):
            node = next(f for n, f in node.folders if n == part)
        got = root.subfolder(path)
        ctx.check('folder path -> that folder', got is node, f'subfolder({path!r}) is {got!r}')
        ctx.check('folder path -> that folder', trees.fromFolder(got) == sub, f'contents of {path!r}')
        if path not in pathToId:
            ctx.check('folder is not a file', root.idOf(path) is None, f'idOf({path!r}) found a file')
            ctx.check('indexing agrees', root[path] is node, f'folder[{path!r}]')
        ctx.check('membership agrees', path in root, f'{path!r} not in folder')
        for slashed in ('/' + path, path + '/', '//' + path + '//'):
            if index % 3 == 0:
                ctx.check('leading slash ignored', root.subfolder(slashed) is node,
                          lambda: f'subfolder({slashed!r}) is {root.subfolder(slashed)!r}')
        # lookups relative to the subfolder
        for rel, fid in trees.allFiles(sub)[:4]:
            ctx.eq('relative lookup', got.idOf(rel), fid, f'{rel!r} relative to {path!r}')
            ctx.eq('relative lookup', got.filenameOf(fid), rel, f'id {fid} relative to {path!r}')

    # Near misses
    probes = ['nope', 'nope/x', 'data/nope', '']
    for path, _ in rng.sample(files, min(6, len(files))) + rng.sample(folders, min(4, len(folders))):
        probes += [path + 'x', path[:-1], path.swapcase(), 'x' + path, path + '/x', path + '/' + path,
                   path.split('/')[-1], '/'.join(path.split('/')[1:]), path.replace('/', '\\'),
                   'zz/' + path, path.rsplit('/', 1)[0] + '/nope']
    for p in probes:
        q = p.strip('/')
        if absentPath(q) and '//' not in q:
            ctx.check('missing path reported absent',
                root.idOf(p) is None and root.subfolder(p) is None and p not in root,
                lambda: f'{p!r}: idOf {root.idOf(p)!r}, subfolder {root.subfolder(p)!r}')
            ctx.raises('indexing a missing key is refused', lambda: root[p], KeyError, f'folder[{p!r}]')
    top = max(ids) if ids else 0
    for fid in [-1, top + 1, top + 2, 0, 0xFFFF, 0x10000] + [i + d for i in list(ids)[:5] for d in (-1, 1)]:
        if fid not in ids:
            ctx.check('missing id reported absent', root.filenameOf(fid) is None and fid not in root,
                lambda: f'id {fid}: {root.filenameOf(fid)!r}')
            ctx.raises('indexing a missing key is refused', lambda: root[fid], KeyError, f'folder[{fid}]')
    for bad in (None, 1.5, b'x', ('a',)):
        ctx.raises('indexing a missing key is refused', lambda: root[bad], TypeError, f'folder[{bad!r}]')
        ctx.check('missing path reported absent', bad not in root, f'{bad!r} in folder')
    if any('/' in p for p, _ in files):
        ctx.nontrivial(tree)
    if index in (20, 21):
        ctx.sample(f'{len(files)} files, {len(folders)} folders, {len(probes)} near-miss paths; e.g. {files[:3]}')
