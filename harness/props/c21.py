"""Waves and wave archives (SWAV, SWAR) are preserved."""

from ndspy import WaveType, soundWave, soundWaveArchive
from gen import waves
from ref import waves as ref

CASES = {'quick': 150000, 'thorough': 900000}
RULE = ('Single waves and wave archives of 0-40 (sometimes 1500, once 65540) waves with extreme and random header values and data'
        ' of any length, created from objects and loaded from independently built files (also with bytes behind the'
        ' stated end); files written are read independently. Non-trivial = archive of two or more waves with data.')
REQUIRED = {'wave file read independently': 8000, 'wave reloaded': 8000, 'archive read independently': 8000,
            'archive reloaded': 8000, 'foreign wave': 4000, 'foreign archive': 8000, 'resave is byte-exact': 16000,
            'time and length updated': 2000, 'loop beyond the end refused': 2000}
ASSUMPTIONS = []


def parse(ctx, monitor, fn, data, what):
    try:
        return fn(data)
    except ref.Bad as e:
        ctx.check(monitor, False, f'{what}: {e}')


def one(ctx, rng, index):
    w = waves.wave(rng)
    if index % 100 == 7:
        w = w[:6] + (rng.randbytes(rng.choice([65535, 65536, 70001, 300000])),)
    ctx.info('wave', w)
    s = waves.toWave(w)
    saved = s.save()
    ctx.eq('wave file read independently', parse(ctx, 'wave file read independently', ref.parseSwav, saved, 'SWAV'),
        w, 'SWAV')
    back = soundWave.SWAV(saved)
    ctx.eq('wave reloaded', waves.describe(back), w, 'SWAV reloaded')
    ctx.check('wave reloaded', isinstance(back.waveType, WaveType), f'wave type {back.waveType!r}')
    ctx.bytesEq('resave is byte-exact', back.save(), saved, 'SWAV')
    f = ref.buildSwav(w, rng.choice([b'', b'', bytes(4), rng.randbytes(3)]))
    g = soundWave.SWAV(f)
    ctx.eq('foreign wave', waves.describe(g), w, 'independently built SWAV')
    ctx.bytesEq('foreign wave', g.save(), ref.buildSwav(w), 'independently built SWAV resaved')
    if index % 4 == 0:
        # documented updates on saving
        rate = rng.choice([256, 8000, 32728, 65535, rng.randrange(256, 65536)])
        data = rng.randbytes(rng.randrange(0, 600))
        loop = rng.randrange(0, len(data) // 4 + 1)
        s = soundWave.SWAV.fromData(data, sampleRate=rate, loopOffset=loop, time=5, totalLength=70000)
        doTime, doLen = rng.random() < 0.5, rng.random() < 0.5
        got = parse(ctx, 'time and length updated', ref.parseSwav, s.save(updateTime=doTime, updateTotalLength=doLen),
            'SWAV with updates')
        want = (0, False, rate, 16756991 // rate if doTime else 5, loop, len(data) // 4 if doLen else 70000, data)
        ctx.eq('time and length updated', got, want, f'update time {doTime}, length {doLen}')
        ctx.eq('time and length updated', waves.describe(s), want, 'attributes after saving with updates')
        s.loopOffset = s.totalLength + 1
        ctx.raises('loop beyond the end refused', s.save, Exception, f'loop {s.loopOffset} of {s.totalLength}')
    if index % 16 == 2:
        s = soundWave.SWAV()
        ctx.eq('defaults', waves.describe(s), (0, False, 8000, 0, 0, 0, b''), 'new wave')
        ctx.eq('defaults', waves.describe(soundWave.SWAV.fromData()), (0, False, 8000, 0, 0, 0, b''), 'fromData()')


def archive(ctx, rng, index):
    n = rng.choice([0, 1, 2, 3, 5, 12, 40]) if index % 200 != 1 else rng.choice([255, 256, 300, 1500])
    model = [waves.wave(rng, 60 if n > 10 else 400) for _ in range(n)]
    if index == 17:
        model = [(i % 3, i % 2 == 0, i % 65536, 5, 1, 1 + i, bytes(4 * (i % 2))) for i in range(65540)]
        n = len(model)
    elif n and index % 100 == 9:
        i = rng.randrange(n)
        model[i] = model[i][:6] + (rng.randbytes(rng.choice([65535, 65536, 70001, 200000])),)
    if n > 2 and rng.random() < 0.3:
        model[-1] = model[0]
    ctx.info('waves', model)
    unk02 = rng.randrange(1 << 16)
    objs = [waves.toWave(w) for w in model]
    if rng.random() < 0.5:
        a = soundWaveArchive.SWAR.fromWaves(objs, unk02)
    else:
        a = soundWaveArchive.SWAR(unk02=unk02)
        a.waves = objs
    saved = a.save()
    ctx.eq('save gives a pair', len(saved), 2, 'SWAR.save')
    ctx.eq('archive read independently', parse(ctx, 'archive read independently', ref.parseSwar, saved[0], 'SWAR'),
        model, 'SWAR')
    ctx.eq('extra value', saved[1], unk02, 'SWAR')
    b = soundWaveArchive.SWAR(*saved)
    ctx.eq('archive reloaded', ([waves.describe(w) for w in b.waves], b.unk02), (model, unk02), 'SWAR reloaded')
    ctx.check('archive reloaded', all(isinstance(w.waveType, WaveType) for w in b.waves), 'wave types')
    ctx.bytesEq('resave is byte-exact', b.save()[0], saved[0], 'SWAR')
    f = ref.buildSwar(model, rng.choice([b'', b'', bytes(20), rng.randbytes(3)]))
    c = soundWaveArchive.SWAR(f, unk02)
    ctx.eq('foreign archive', [waves.describe(w) for w in c.waves], model, 'independently built SWAR')
    ctx.bytesEq('foreign archive', c.save()[0], ref.buildSwar(model), 'independently built SWAR resaved')
    # edit
    if model:
        i = rng.randrange(len(model))
        new = waves.wave(rng)
        if rng.random() < 0.5:
            b.waves.insert(i, waves.toWave(new))
            model.insert(i, new)
        else:
            b.waves[i].data = new[6]
            b.waves[i].sampleRate = new[2]
            model[i] = model[i][:2] + (new[2],) + model[i][3:6] + (new[6],)
        got = soundWaveArchive.SWAR(*b.save())
        ctx.eq('edited archive', [waves.describe(w) for w in got.waves], model, f'after editing wave {i}')
    if sum(1 for w in model if w[6]) >= 2:
        ctx.nontrivial(f)
    if index in (3, 5):
        ctx.sample(f'{len(model)} waves, {len(saved[0])} bytes; first {str(model[:1])[:150]}')


def case(ctx, rng, index):
    (one, archive)[index % 2](ctx, rng, index // 2 if index % 2 == 0 else index)
