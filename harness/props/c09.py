"""ROM contents survive saving and loading."""

from ndspy import rom
from gen import roms
from ref import rom as ref

CASES = {'quick': 10000, 'thorough': 60000}
RULE = ('Random ROMs with every header field at random or extreme values, 0-14 (sometimes up to 1500) files (empty and repeated ones'
        ' included), overlay tables for both processors, banners of all versions, debug ROM, signature and name'
        ' tree; saved and reloaded, and loaded from an independently written image with everything placed in'
        ' random order. Non-trivial = at least one file.')
REQUIRED = {'header fields survive': 500, 'parts survive': 500, 'files survive': 500, 'names survive': 500,
            'foreign image': 500, 'bare header': 100, 'long name': 200, 'field of a wrong size': 100}
ASSUMPTIONS = ['An absent signature comes back as whatever padding follows the image (the format has no length'
               ' for it), so only real signatures (0x88 bytes) are compared.',
               'The four bytes at 0x1000 hold the signature offset and are rewritten on saving.']


def compare(ctx, what, got, m, pad200, sig, skip=()):
    for name, _, _ in ref.FIELDS:
        ctx.eq('header fields survive', got[name], m[name], f'{what}: {name}')
    for part in ref.PARTS:
        if part in ('pad200', 'rsaSignature'):
            continue
        ctx.eq('parts survive', got[part], m[part], f'{what}: {part}')
    if pad200 is not None:
        ctx.eq('parts survive', got['pad200'], pad200, f'{what}: area after the header')
    if sig:
        ctx.eq('signature survives', got['rsaSignature'], sig, f'{what}: signature')
    ctx.eq('files survive', got['files'], m['files'], f'{what}: files')
    ctx.eq('names survive', got['tree'], m['tree'], f'{what}: names')


def case(ctx, rng, index):
    m = roms.model(rng, big=1500 if index % 50 else 60000 if index % 250 else 150000)
    if index % 500 == 6:
        m = roms.model(rng, maxFiles=rng.choice([255, 256, 257, 600, 1500]), big=20)
    if index == 3:
        m = roms.model(rng, maxFiles=2)
        m['files'] = [b'%d' % i for i in range(40000)]
        m['tree'] = (0, [], [(f'd{k}', (k * 1000, [f'f{i}' for i in range(1000)], [])) for k in range(40)])
        m['arm9OverlayTable'] = m['arm7OverlayTable'] = b''
        m['order'] = [39999, 7, 33000]
    if index == 0:
        r = rom.NintendoDSRom()
        m = roms.describe(r)
    for k in ('name', 'arm9', 'arm9PostData', 'arm7', 'files', 'tree', 'order', 'iconBanner', 'debugRom',
              'rsaSignature', 'arm9OverlayTable', 'arm7OverlayTable'):
        ctx.info(k, m[k])
    r = roms.toRom(m)
    data = r.save()
    got = roms.describe(rom.NintendoDSRom(data))
    pad = roms.expectedPad200(m, ref.u32(data, 0x80))
    compare(ctx, 'reloaded', got, m, pad, m['rsaSignature'])
    if index % 3 == 0:
        # a name that is too long is cut; the other fields have fixed sizes
        long = rng.randbytes(rng.choice([13, 14, 16, 40])).replace(b'\0', b'x')
        n = dict(m, name=long)
        data2 = roms.toRom(n).save()
        ctx.bytesEq('long name', data2[:12], long[:12], f'name {long!r}')
        compare(ctx, 'long name', roms.describe(rom.NintendoDSRom(data2)), dict(m, name=long[:12]), pad, m['rsaSignature'])
        field, size = rng.choice([('idCode', 4), ('developerCode', 2), ('secureAreaDisable', 8), ('pad088', 0x38),
                                  ('nintendoLogo', 0x9C), ('pad16C', 0x94)])
        wrong = rng.randbytes(max(0, size + rng.choice([-2, -1, 1, 2, 30])))
        bad = roms.toRom(dict(m, **{field: wrong}))
        try:
            data3 = bad.save()
        except Exception:
            ctx.check('field of a wrong size', True)
        else:
            # accepted: then at least everything else is where it belongs
            fields = roms.describe(rom.NintendoDSRom(data3))
            for name, _, _ in ref.FIELDS:
                if name != field:
                    ctx.eq('field of a wrong size', fields[name], m[name], f'{name} with {field} {len(wrong)} bytes long')

    image, pad, sig = ref.buildForeign(m, rng)
    ctx.info('foreign image size', len(image))
    f = rom.NintendoDSRom(bytearray(image) if index % 4 == 0 else image)
    d = roms.describe(f)
    compare(ctx, 'image from another tool', d, m, pad, sig)
    ctx.check('foreign image', sorted(d['order']) == list(range(len(m['files']))),
        lambda: f'file order list is {d["order"]} for {len(m["files"])} files')
    again = rom.NintendoDSRom(f.save())
    compare(ctx, 'image from another tool, resaved', roms.describe(again), m, None, sig)
    if index % 6 == 0:
        # a bare header without any parts, possibly cut short
        head = bytearray(0x200)
        ref.writeFields(head, m)
        n = rng.choice([0x200, 0x1FF, 0x160, 0x20, 0, rng.randrange(0x201)])
        got = roms.describe(rom.NintendoDSRom(bytes(head[:n])))
        want = ref.readFields(bytes(head[:n]).ljust(0x200, b'\0'))
        ctx.eq('bare header', {k: got[k] for k in want}, want, f'header cut to {n} bytes')
        ctx.eq('bare header', (got['files'], got['tree'], got['arm9'], got['arm7'], got['iconBanner'],
            got['debugRom'], got['order']), ([], (0, [], []), b'', b'', b'', b'', []), f'header cut to {n} bytes')
    if m['files']:
        ctx.nontrivial(m['files'], m['tree'], m['arm9'], m['name'])
    if index in (3, 9):
        ctx.sample(f'{len(m["files"])} files, {len(m["arm9OverlayTable"]) // 32}+{len(m["arm7OverlayTable"]) // 32}'
                   f' overlays, banner {len(m["iconBanner"])} bytes, image {len(data):#x} bytes')
