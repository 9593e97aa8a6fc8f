"""Texture files keep textures and palettes."""

from ndspy import model, texture
from gen import textures
from ref import tex

CASES = {'quick': 41000, 'thorough': 246000}
RULE = ('Texture and model files with 0-8 (sometimes up to 250) textures and palettes of all formats and sizes up to 1024,'
        ' equal and full-length names, shared and repeated data; files made through the library and independently'
        ' built ones with data in other places; model blocks with 0-3 models. Non-trivial = at least one texture and'
        ' one palette.')
REQUIRED = {'reloaded': 7000, 'strict reading': 7000, 'same as independent writer': 7000, 'foreign file': 7000,
            'foreign file resaved': 7000, 'model file': 7000, 'model data kept': 7000, 'export and import': 3000,
            'saved again': 7000, 'edited': 3000}
ASSUMPTIONS = ['Texture data has the size its format and dimensions need; palettes have a positive multiple of four'
               ' colours; names do not end with NUL.']


def case(ctx, rng, index):
    m = textures.file(rng, 60 if index % 300 == 9 else rng.choice([127, 128, 129, 250]) if index % 900 == 10 else
                      'large' if index % 500 == 11 else None)
    ctx.info('model', [m['unks'], [(t[:5], len(t[5]), len(t[6])) for t in m['textures']],
                       [p[:4] + (len(p[4]),) for p in m['palettes']]])
    o = textures.toNsbtx(rng, m)
    ctx.eq('made', textures.ofNsbtx(o), m, 'fields of the new object')
    data = bytes(o.save())
    back = texture.NSBTX(data)
    ctx.eq('reloaded', textures.ofNsbtx(back), m, 'reloaded texture file')
    try:
        got = tex.readNsbtx(data)
    except tex.Bad as e:
        ctx.check('strict reading', False, str(e))
    ctx.eq('strict reading', got, m, 'texture file by strict reading')
    ctx.bytesEq('same as independent writer', data, tex.nsbtx(m), 'texture file')
    ctx.bytesEq('saved again', back.save(), data, 'loaded and saved')
    ctx.bytesEq('saved again', o.save(), data, 'saved twice')

    f = texture.NSBTX(tex.nsbtx(m, rng))
    ctx.eq('foreign file', textures.ofNsbtx(f), m, 'independently built texture file')
    ctx.bytesEq('foreign file resaved', f.save(), data, 'independently built texture file, resaved')

    # models
    mdl, names = textures.mdl0(rng)
    raw = tex.nsbmd(mdl, m, rng)
    b = model.NSBMD(raw)
    ctx.eq('model file', textures.ofNsbmd(b), m, 'textures of an independently built model file')
    ctx.eq('model names', [x[0] for x in b.models], names, 'names of the models')
    saved = bytes(b.save())
    try:
        mdl2, got = tex.readNsbmd(saved)
    except tex.Bad as e:
        ctx.check('strict reading', False, f'model file: {e}')
    ctx.eq('strict reading', got, m, 'model file by strict reading')
    ctx.bytesEq('model data kept', mdl2, mdl, 'model block')
    ctx.bytesEq('same as independent writer', saved, tex.nsbmd(mdl, m), 'model file')
    b2 = model.NSBMD(saved)
    ctx.eq('model file', textures.ofNsbmd(b2), m, 'textures of the reloaded model file')
    ctx.bytesEq('saved again', b2.save(), saved, 'model file saved again')
    ctx.bytesEq('export and import', b.exportNSBTX().save(), data, 'exported texture file')
    m2 = textures.file(rng)
    b2.importNSBTX(textures.toNsbtx(rng, m2))
    ctx.bytesEq('export and import', b2.save(), tex.nsbmd(mdl, m2), 'model file with other textures')

    # edits
    e = {'unks': m['unks'], 'textures': list(m['textures']), 'palettes': list(m['palettes'])}
    for _ in range(rng.choice([1, 3])):
        k = rng.randrange(6)
        part, fresh, conv = ('textures', textures.tex_, textures.toTexture) if k < 3 else \
            ('palettes', textures.palette, textures.toPalette)
        lst, objs = e[part], getattr(back, part)
        k %= 3
        if k == 0 or not lst:
            i = rng.randrange(len(lst) + 1)
            x = fresh(rng, None)
            lst.insert(i, x)
            objs.insert(i, (x[0], conv(rng, x)))
        elif k == 1:
            i = rng.randrange(len(lst))
            del lst[i], objs[i]
        else:
            i = rng.randrange(len(lst))
            n = textures.name(rng, None)
            lst[i] = (n,) + lst[i][1:]
            objs[i] = (n, objs[i][1])
    ctx.eq('edited', textures.ofNsbtx(texture.NSBTX(back.save())), e, 'edited texture file')
    if m['textures'] and m['palettes']:
        ctx.nontrivial(data)
    if index in (3, 5):
        ctx.sample(f'{len(m["textures"])} textures, {len(m["palettes"])} palettes, {len(data)} bytes; model block'
                   f' {len(mdl)} bytes, models {names}')
