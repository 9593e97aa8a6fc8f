"""Streams (STRM) are preserved."""

from ndspy import WaveType, soundStream
from gen import waves
from ref import waves as ref

CASES = {'quick': 150000, 'thorough': 900000}
RULE = ('Streams with 0-8 channels of 0-10 (now and then 300, once 66000) blocks of any size (single-block ADPCM included), all header fields random'
        ' or extreme, created from channels and loaded from independently built files; malformed channel layouts.'
        ' Non-trivial = two or more channels and blocks.')
REQUIRED = {'stream read independently': 15000, 'stream reloaded': 15000, 'foreign stream': 15000,
            'resave is byte-exact': 15000, 'bad layout refused': 8000, 'settings': 15000, 'time updated': 3000}
ASSUMPTIONS = ['Streams without any block have no samples per block.',
               'The single block of a one-block ADPCM stream has at least its 4-byte header.']
SETTINGS = ('unk02', 'volume', 'priority', 'playerID', 'unk07')


def fields(s):
    out = {k: getattr(s, k) for k in ref.STRM_FIELDS}
    out['waveType'] = int(out['waveType'])
    out['isLooped'] = bool(out['isLooped'])
    return out


def chans(s):
    return [[bytes(b) for b in c] for c in s.channels]


def case(ctx, rng, index):
    f, channels, settings = waves.stream(rng)
    if index % 300 == 7 and channels and channels[0]:
        size = rng.choice([65536, 65537, 100002])
        channels = [[rng.randbytes(size) for _ in c] for c in channels]
    if index in (9, 13):
        f['waveType'] = index % 2
        channels = [[bytes([b * k % 251]) for b in range(66000)] for k in (1, 7)[:1 + index % 2]]
        # the number of samples has 32 bits
        f['samplesPerBlock'] = 1 + f['samplesPerBlock'] % 60000
        f['samplesInLastBlock'] %= 60000
    n = len(channels)
    blocks = len(channels[0]) if channels else 0
    ctx.info('fields', f)
    ctx.info('channels', channels)
    if rng.random() < 0.5:
        s = soundStream.STRM.fromChannels([list(c) for c in channels], *settings)
    else:
        s = soundStream.STRM(None, *settings)
        s.channels = [list(c) for c in channels]
    for k, v in f.items():
        setattr(s, k, WaveType(v) if k == 'waveType' and rng.random() < 0.5 else v)
    saved = s.save()
    ctx.eq('save gives a 6-tuple', len(saved), 6, 'STRM.save')
    try:
        got = ref.parseStrm(saved[0])
    except ref.Bad as e:
        ctx.check('stream read independently', False, str(e))
    ctx.eq('stream read independently', got[0], f, 'header fields')
    ctx.eq('stream read independently', got[1], channels, 'channels')
    ctx.eq('settings', tuple(saved[1:]), settings, 'settings returned')
    built = ref.buildStrm(f, channels)
    ctx.bytesEq('standard layout', saved[0], built, 'file')

    b = soundStream.STRM(*saved)
    ctx.eq('stream reloaded', fields(b), f, 'header fields reloaded')
    # a stream without blocks cannot tell that apart from one whose channels have none
    ctx.eq('stream reloaded', chans(b), channels, 'channels reloaded')
    ctx.check('stream reloaded', isinstance(b.waveType, WaveType), f'wave type {b.waveType!r}')
    ctx.eq('settings', tuple(getattr(b, k) for k in SETTINGS), settings, 'settings reloaded')
    ctx.bytesEq('resave is byte-exact', b.save()[0], saved[0], 'STRM')
    c = soundStream.STRM(built + rng.choice([b'', b'', bytes(20), rng.randbytes(3)]))
    ctx.eq('foreign stream', (fields(c), chans(c)), (f, channels), 'independently built STRM')
    ctx.eq('default settings', tuple(getattr(c, k) for k in SETTINGS), (0, 127, 64, 0, 0), 'defaults')
    ctx.bytesEq('foreign stream', c.save()[0], built, 'independently built STRM resaved')

    if index % 4 == 0:
        rate = rng.choice([8, 8000, 16384, 32728, 65535, rng.randrange(8, 65536)])
        c.sampleRate = rate
        c.save(updateTime=True)
        want = 16756991 / 32 / rate
        ctx.check('time updated', abs(c.time - want) <= 1 and c.time <= want + 1e-6, f'{rate} Hz: time {c.time}')
        ctx.eq('time updated', fields(soundStream.STRM(*c.save()))['time'], c.time, 'time reloaded')
    # layouts the format cannot hold
    bad = [list(x) for x in channels]
    kind = rng.choice(['count', 'inner', 'last'])
    i = rng.randrange(n) if n else 0
    if kind == 'count' and n >= 2:
        if rng.random() < 0.5 or not bad[i]:
            bad[i].append(rng.randbytes(5))
        else:
            bad[i].pop()
    elif kind == 'inner' and blocks >= 3:
        j = rng.randrange(1, blocks - 1)
        bad[i][j] += b'x'
    elif kind == 'last' and n >= 2 and blocks:
        bad[i][-1] += b'x'
    else:
        bad = None
    if bad is not None:
        s.channels = bad
        ctx.raises('bad layout refused', s.save, Exception, f'{kind} of channel {i} of {n}, {blocks} blocks')
    if n >= 2 and blocks >= 2:
        ctx.nontrivial(built)
    if index in (3, 5):
        ctx.sample(f'{n} channels x {blocks} blocks, type {f["waveType"]}, {len(built)} bytes')
