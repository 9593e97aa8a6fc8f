"""Independent builders and readers of the small sound files (SSEQ, SSAR)."""
import struct


class Bad(Exception):
    pass


def header(magic, size, version=0x100):
    return magic + b'\xff\xfe' + struct.pack('<HIHH', version, size, 0x10, 1)


def checkHeader(data, magic):
    if data[:4] != magic:
        raise Bad(f'magic {data[:4]}')
    bom, version, size, headerSize, blocks = struct.unpack_from('<HHIHH', data, 4)
    if (bom, version, headerSize, blocks) != (0xFEFF, 0x100, 0x10, 1):
        raise Bad(f'header {(bom, version, headerSize, blocks)}')
    if size != len(data):
        raise Bad(f'header says {size} bytes, file has {len(data)}')
    if data[0x10:0x14] != b'DATA':
        raise Bad(f'block magic {data[0x10:0x14]}')
    blockSize, = struct.unpack_from('<I', data, 0x14)
    if blockSize != len(data) - 0x10:
        raise Bad(f'block says {blockSize} bytes, there are {len(data) - 0x10}')


def buildSseq(events, gap=b'', trailing=b''):
    size = 0x1C + len(gap) + len(events)
    return header(b'SSEQ', size) + b'DATA' + struct.pack('<II', size - 0x10, 0x1C + len(gap)) + gap + events + trailing


def parseSseq(data):
    data = bytes(data)
    checkHeader(data, b'SSEQ')
    off, = struct.unpack_from('<I', data, 0x18)
    if off != 0x1C:
        raise Bad(f'events at {off:#x}')
    return data[off:]


def buildSsar(entries, events, gap=b'', trailing=b''):
    """entries: (offset or None, bank, volume, channelPressure, polyphonicPressure, player)"""
    off = 0x20 + 12 * len(entries) + len(gap)
    size = off + len(events)
    table = b''.join(struct.pack('<IHBBBBxx', 0xFFFFFFFF if e[0] is None else e[0], *e[1:]) for e in entries)
    return (header(b'SSAR', size) + b'DATA' + struct.pack('<III', size - 0x10, off, len(entries)) + table + gap +
            events + trailing)


def parseSsar(data):
    data = bytes(data)
    checkHeader(data, b'SSAR')
    off, count = struct.unpack_from('<II', data, 0x18)
    if off != 0x20 + 12 * count:
        raise Bad(f'events at {off:#x} with {count} sequences')
    entries = []
    for i in range(count):
        *e, pad = struct.unpack_from('<IHBBBBH', data, 0x20 + 12 * i)
        if pad:
            raise Bad('padding of an entry is not zero')
        e[0] = None if e[0] == 0xFFFFFFFF else e[0]
        entries.append(tuple(e))
    return entries, data[off:]
