"""Saved ROMs are laid out correctly."""

from ndspy import rom
from gen import roms, blobs
from ref import rom as ref

CASES = {'quick': 10000, 'thorough': 60000}
RULE = ('The ROMs of C09 plus sizes around every capacity step up to 32 MB; the image is judged by a strict'
        ' independent reader (every offset, size, alignment, overlap and checksum) and the order in which files'
        ' were stored is compared with the request. Non-trivial = at least two files.')
REQUIRED = {'strict reader accepts': 500, 'offsets point at the parts': 500, 'files in requested order': 300,
            'capacity is the smallest that fits': 100}
ASSUMPTIONS = ['Overlay files directly follow their overlay table and are exempt from the requested order.']


def case(ctx, rng, index):
    if index < 36:
        # images whose size is just around a capacity step
        m = roms.model(rng, maxFiles=2)
        m['files'] = []
        m['arm9OverlayTable'] = m['arm7OverlayTable'] = b''
        m['order'] = []
        base = len(ref.build(dict(m, files=[b''], order=[])))
        target = (0x20000 << (index // 4)) + [-0x400, 0, 0x400, 0x8000][index % 4]
        m['files'] = [bytes(max(0, target - base))]
    elif index % 500 == 26:
        m = roms.model(rng, maxFiles=rng.choice([255, 256, 257, 600, 1500]), big=20)
    else:
        m = roms.model(rng)
    for k in ('name', 'arm9', 'arm9PostData', 'arm7', 'tree', 'order', 'iconBanner', 'debugRom', 'rsaSignature',
              'arm9OverlayTable', 'arm7OverlayTable'):
        ctx.info(k, m[k])
    ctx.info('file sizes', [len(f) for f in m['files']])
    r = roms.toRom(m)
    if index % 3 == 1:
        r.sortedFileIds = r.sortedFileIds + [len(m['files']) + 3]  # ids of files that are gone are skipped
    data = r.save()
    try:
        p = ref.parse(data)
    except ref.Bad as e:
        ctx.check('strict reader accepts', False, str(e))
    ctx.check('strict reader accepts', True)
    ctx.eq('offsets point at the parts', [p[k] for k in ref.PARTS if k not in ('pad200', 'rsaSignature')],
        [m[k] for k in ref.PARTS if k not in ('pad200', 'rsaSignature')], 'parts found through the header')
    ctx.eq('offsets point at the parts', p['files'], m['files'], 'files found through the allocation table')
    ctx.eq('offsets point at the parts', p['tree'], m['tree'], 'names found through the header')
    ctx.eq('header fields', {k: p[k] for k, _, _ in ref.FIELDS}, {k: m[k] for k, _, _ in ref.FIELDS}, 'header')
    if m['rsaSignature']:
        ctx.eq('offsets point at the parts', p['rsaSignature'], m['rsaSignature'], 'signature')
    end = p['usedEnd'] + 0x200 + 0x20 + 0x88 + 0x400
    ctx.check('no excess', len(data) <= end, f'image of {len(data):#x} bytes, contents end at {p["usedEnd"]:#x}')

    ov9, ov7 = ref.overlayFileIds(m['arm9OverlayTable']), ref.overlayFileIds(m['arm7OverlayTable'])
    seen = set(ov9) | set(ov7)
    rest = []
    for i in list(m['order']) + list(range(len(m['files']))):
        if i not in seen:
            seen.add(i)
            rest.append(i)
    for label, ids in (('ARM9 overlays', ov9), ('ARM7 overlays', ov7), ('other files', rest)):
        starts = [p['starts'][i] for i in ids]
        ctx.check('files in requested order', starts == sorted(starts),
            lambda: f'{label} {ids} stored at {[hex(s) for s in starts]}')
    full = ref.build(m)
    ctx.bytesEq('layout byte for byte', data, full, 'image compared with the documented layout')

    # capacity
    r2 = roms.toRom(m)
    sized = r2.save(updateDeviceCapacity=True)
    cap = 0
    while (0x20000 << cap) < len(sized):
        cap += 1
    ctx.eq('capacity is the smallest that fits', sized[0x14], cap, f'capacity byte of a {len(sized):#x}-byte image')
    ctx.eq('capacity is the smallest that fits', r2.deviceCapacity, cap, 'capacity attribute')
    ctx.eq('capacity changes nothing else', sized[:0x14] + sized[0x15:0x15E] + sized[0x160:],
        data[:0x14] + data[0x15:0x15E] + data[0x160:], 'image with updated capacity')
    try:
        ref.parse(sized)
    except ref.Bad as e:
        ctx.check('strict reader accepts', False, f'with updated capacity: {e}')
    if len(m['files']) >= 2:
        ctx.nontrivial(m['files'], m['tree'], m['arm9'], m['order'])
    if index in (30, 40):
        ctx.sample(f'{len(m["files"])} files stored in order {rest} after overlays {ov9}/{ov7}; {len(data):#x} bytes')
