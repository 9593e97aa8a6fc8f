"""Sound archives (SDAT) keep all contents and names."""

from ndspy import soundArchive
from gen import sdats
from ref import sdat

CASES = {'quick': 16000, 'thorough': 100000}
RULE = ('Archives with 0-6 (sometimes 40, now and then up to 400, once 65600 and once 32900 files) entries in each of the eight lists: empty slots, unnamed, empty and equal'
        ' names, shared files, extreme settings; created from objects and reloaded, and loaded from independently'
        ' built archives as another tool might write them (other file order, unused files, gaps, shared names,'
        ' reversed records, no names). Non-trivial = at least three lists with entries.')
REQUIRED = {'reloaded contents': 6000, 'foreign archive contents': 6000, 'contents after resaving foreign': 6000,
            'edited archive contents': 4000}
ASSUMPTIONS = ['Names hold no NUL and are Latin-1; at most 4 wave archives per bank and 16 channels per player.']


def compare(ctx, monitor, got, want, what):
    for part in sdat.PARTS:
        ctx.eq(monitor, got[part], want[part], f'{what}: {part}')


def case(ctx, rng, index):
    m = sdats.model(rng, sdats.VAST[index] if index in sdats.VAST else 40 if index % 200 == 7 else
        'long' if index % 400 == 8 else None)
    ctx.info('model', {k: [(n, e and (e[1:] if k in sdat.WITH_FILE else e)) for n, e in v] for k, v in m.items()})
    settings = sdats.settings(rng)
    if settings['fatLengthsIncludePadding']:
        settings['padAtEnd'] = True
    ctx.info('settings', settings)
    s = sdats.toSdat(m, settings, sdats.mergeIds(rng, m) if rng.random() < 0.3 else None)
    many = sdats.VAST.get(index) == ('files',)
    if not many:  # saving takes time quadratic in the number of files
        data = bytes(s.save())
        back = soundArchive.SDAT(data)
        compare(ctx, 'reloaded contents', sdats.describe(back), m, 'reloaded')

    f, _ = sdat.build(m, settings, None, rng, symbols=rng.random() < 0.9)
    named = f[0x0E] == 4
    want = m
    if not named:
        want = {p: [(None, e and (e[:2] + ((None,) * len(e[2]),) if p == 'sequenceArchives' else e)) for _, e in v]
                for p, v in m.items()}
    o = soundArchive.SDAT(f)
    compare(ctx, 'foreign archive contents', sdats.describe(o), want, 'independently built archive')
    if many:
        return
    again = soundArchive.SDAT(bytes(o.save()))
    compare(ctx, 'contents after resaving foreign', sdats.describe(again), want, 'independently built, resaved')

    # edits: insert, remove, rename, replace entries here and there
    m2 = {p: list(v) for p, v in want.items()}
    for _ in range(rng.choice([1, 2, 5])):
        part = rng.choice(sdat.PARTS)
        lst, objs = m2[part], getattr(again, part)
        k = rng.randrange(4)
        if k == 0 or not lst:
            i = rng.randrange(len(lst) + 1)
            e = rng.choice([None, sdats.fresh(rng, part)])
            n = sdats.name(rng)
            lst.insert(i, (n, e))
            objs.insert(i, (n, sdats.toObject(part, e)))
        else:
            i = rng.randrange(len(lst))
            if k == 1:
                del lst[i], objs[i]
            elif k == 2:
                n = sdats.name(rng)
                lst[i] = (n, lst[i][1])
                objs[i] = (n, objs[i][1])
            else:
                e = sdats.fresh(rng, part)
                lst[i] = (lst[i][0], e)
                objs[i] = (objs[i][0], sdats.toObject(part, e))
    last = soundArchive.SDAT(again.save())
    compare(ctx, 'edited archive contents', sdats.describe(last), m2, 'edited and reloaded')
    if sum(1 for v in m.values() if v) >= 3:
        ctx.nontrivial(data)
    if index in (3, 5):
        ctx.sample(f'{[len(v) for v in m.values()]} entries, {len(data)} bytes, settings {settings}')
