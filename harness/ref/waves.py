"""
Independent builders and readers of SWAV, SWAR and STRM files.

Wave: (waveType, isLooped, sampleRate, time, loopOffset, totalLength, data)
"""
import struct

from ref.sndfile import Bad


def std(magic, size, blocks=1):
    return magic + b'\xff\xfe' + struct.pack('<HIHH', 0x100, size, 0x10, blocks)


def checkStd(data, magic, blocks=1):
    if data[:4] != magic:
        raise Bad(f'magic {data[:4]}')
    rest = struct.unpack_from('<HHIHH', data, 4)
    if rest != (0xFEFF, 0x100, len(data), 0x10, blocks):
        raise Bad(f'header {rest}, {len(data)} bytes')


def info(w):
    t, looped, rate, time, loop, total, data = w
    return struct.pack('<BBHHHI', t, 1 if looped else 0, rate, time, loop, total - loop) + data


def readInfo(data):
    if len(data) < 12:
        raise Bad('wave shorter than its header')
    t, looped, rate, time, loop, length = struct.unpack_from('<BBHHHI', data)
    if looped not in (0, 1):
        raise Bad(f'loop flag {looped}')
    return (t, bool(looped), rate, time, loop, loop + length, data[12:])


def buildSwav(w, trailing=b''):
    body = info(w)
    size = 0x18 + len(body)
    return std(b'SWAV', size) + b'DATA' + struct.pack('<I', size - 0x10) + body + trailing


def parseSwav(data):
    data = bytes(data)
    checkStd(data, b'SWAV')
    if data[0x10:0x14] != b'DATA' or struct.unpack_from('<I', data, 0x14)[0] != len(data) - 0x10:
        raise Bad('block')
    return readInfo(data[0x18:])


def buildSwar(waves, trailing=b''):
    off = 0x3C + 4 * len(waves)
    table, body = b'', b''
    for w in waves:
        table += struct.pack('<I', off + len(body))
        body += info(w)
    size = off + len(body)
    return (std(b'SWAR', size) + b'DATA' + struct.pack('<I', size - 0x10) + bytes(32) +
            struct.pack('<I', len(waves)) + table + body + trailing)


def parseSwar(data):
    data = bytes(data)
    checkStd(data, b'SWAR')
    if data[0x10:0x14] != b'DATA' or struct.unpack_from('<I', data, 0x14)[0] != len(data) - 0x10:
        raise Bad('block')
    if any(data[0x18:0x38]):
        raise Bad('reserved bytes')
    n, = struct.unpack_from('<I', data, 0x38)
    offs = [struct.unpack_from('<I', data, 0x3C + 4 * i)[0] for i in range(n)] + [len(data)]
    if offs[0] != 0x3C + 4 * n:
        raise Bad(f'first wave at {offs[0]:#x}')
    return [readInfo(data[a:b]) for a, b in zip(offs, offs[1:])]


STRM_FIELDS = ['waveType', 'isLooped', 'unk03', 'sampleRate', 'time', 'loopOffset', 'samplesPerBlock',
               'samplesInLastBlock', 'unk28', 'unk2C', 'unk30', 'unk34', 'unk38', 'unk3C', 'unk40', 'unk44']


def buildStrm(f, channels):
    """f: dict of STRM_FIELDS"""
    blocks = len(channels[0]) if channels else 0
    per = len(channels[0][0]) if blocks else 0
    last = len(channels[0][-1]) if blocks else 0
    body = b''
    for i in range(blocks):
        for c in channels:
            body += c[i]
        body += bytes(-len(body) % 4)
    adjust = 4 if f['waveType'] == 2 and blocks == 1 else 0
    samples = (blocks - 1) * f['samplesPerBlock'] + f['samplesInLastBlock']
    head = struct.pack('<BBBBHH', f['waveType'], f['isLooped'], len(channels), f['unk03'], f['sampleRate'], f['time'])
    head += struct.pack('<IIIIIIII', f['loopOffset'], samples, 0x68, blocks, per - adjust, f['samplesPerBlock'],
                        last - adjust, f['samplesInLastBlock'])
    head += struct.pack('<8I', *(f[k] for k in STRM_FIELDS[8:]))
    return (std(b'STRM', 0x68 + len(body), 2) + b'HEAD' + struct.pack('<I', 0x50) + head + b'DATA' +
            struct.pack('<I', 8 + len(body)) + body)


def parseStrm(data):
    data = bytes(data)
    checkStd(data, b'STRM', 2)
    if data[0x10:0x14] != b'HEAD' or struct.unpack_from('<I', data, 0x14)[0] != 0x50:
        raise Bad('HEAD')
    f = {}
    f['waveType'], looped, n, f['unk03'], f['sampleRate'], f['time'] = struct.unpack_from('<BBBBHH', data, 0x18)
    f['isLooped'] = bool(looped)
    (f['loopOffset'], samples, off, blocks, per, f['samplesPerBlock'], last,
     f['samplesInLastBlock']) = struct.unpack_from('<8I', data, 0x20)
    for k, v in zip(STRM_FIELDS[8:], struct.unpack_from('<8I', data, 0x40)):
        f[k] = v
    if off != 0x68:
        raise Bad(f'data at {off:#x}')
    if data[0x60:0x64] != b'DATA' or struct.unpack_from('<I', data, 0x64)[0] != len(data) - 0x60:
        raise Bad('DATA block')
    want = (blocks - 1) * f['samplesPerBlock'] + f['samplesInLastBlock']
    if samples != want:
        raise Bad(f'{samples} samples in the header, {want} expected')
    if f['waveType'] == 2 and blocks == 1:
        per += 4
        last += 4
    pos = off
    channels = [[] for _ in range(n)]
    for i in range(blocks):
        size = last if i == blocks - 1 else per
        for c in channels:
            if pos + size > len(data):
                raise Bad('block beyond the end')
            c.append(data[pos:pos + size])
            pos += size
        pad = -pos % 4
        if any(data[pos:pos + pad]):
            raise Bad('padding not zero')
        pos += pad
    if pos != len(data):
        raise Bad(f'blocks end at {pos}, file at {len(data)}')
    return f, channels
