"""Named-list helpers find and replace the right entry."""

import ndspy
from ndspy import soundArchive, texture

CASES = {'quick': 150000, 'thorough': 900000}
RULE = ('Lists of 0-20 (sometimes up to 3000) name/value pairs with repeated, empty and missing (None) names and values that are equal,'
        ' None, or refuse to be compared; lookups of every name present and of absent ones; also the lists of sound'
        ' archives and texture files. Non-trivial = a name occurs twice.')
REQUIRED = {'index': 100000, 'value': 100000, 'replacement': 50000, 'absent name': 50000, 'list of an archive': 3000}
ASSUMPTIONS = ['Names are strings or None.']


class Odd:
    """A value that must be passed on untouched"""
    __hash__ = None

    def __eq__(self, other):
        raise AssertionError('values are not to be compared')


NAMES = ['', 'a', 'b', 'A', 'a ', 'name', None, 'BGM_1', 'BGM_10', '\xe9', '0', 'None']


def value(rng):
    return rng.choice([None, 0, '', [], Odd(), rng.random(), b'x', (1, 2), 'a'])


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def case(ctx, rng, index):
    pool = rng.sample(NAMES, rng.randrange(1, len(NAMES)))
    n = rng.choice([0, 1, 2, 3, 8, rng.randrange(20)])
    if index % 500 == 7:
        n = rng.choice([127, 128, 255, 256, 257, 1000, 3000])
        pool = [f'other {i}' for i in range(n)] + pool
    L = [(rng.choice(pool), value(rng)) for _ in range(n)]
    if index % 10 == 3:
        s = soundArchive.SDAT() if rng.random() < 0.5 else texture.NSBTX()
        target = s.sequences if isinstance(s, soundArchive.SDAT) else s.textures
        target += L
        L = target
        ctx.note('list of an archive')
        ctx.check('list of an archive', True)
    ctx.info('names', [p[0] for p in L])
    keep = list(L)
    for name in NAMES:
        # a string equal to the name but not the same object
        key = name if name is None else ''.join(list(name))
        first = next((i for i, p in enumerate(keep) if p[0] == name), None)
        if first is None:
            for f in (ndspy.indexInNamedList, ndspy.findInNamedList):
                ctx.raises('absent name', lambda: f(L, key), (KeyError,), f'{name!r}')
            ctx.raises('absent name', lambda: ndspy.setInNamedList(L, key, 1),
                (KeyError,), f'{name!r}')
            ctx.check('unchanged', same(L, keep), f'list changed by looking for {name!r}')
            continue
        ctx.eq('index', ndspy.indexInNamedList(L, key), first, f'{name!r}')
        ctx.check('value', ndspy.findInNamedList(L, key) is keep[first][1], f'{name!r}')
        ctx.check('unchanged', same(L, keep), f'list changed by looking for {name!r}')
    for _ in range(2 if keep else 0):
        i = rng.randrange(n)
        name = keep[i][0]
        first = next(k for k, p in enumerate(keep) if p[0] == name)
        v = value(rng)
        ndspy.setInNamedList(L, name, v)
        ctx.check('replacement', len(L) == n and L[first][0] == name and L[first][1] is v and len(L[first]) == 2 and
            isinstance(L[first], tuple) and same(L[:first] + L[first + 1:], keep[:first] + keep[first + 1:]), f'{name!r}')
        keep = list(L)
    if len(set(p[0] for p in keep)) < n:
        ctx.nontrivial([p[0] for p in keep])
    if index in (3, 5):
        ctx.sample(f'{[p[0] for p in keep]}')
