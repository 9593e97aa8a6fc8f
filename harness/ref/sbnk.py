"""
Independent builder and reader of SBNK files.

Instrument: None | ('single', type, note) | ('range', first, ((type, note), ...))
            | ('regional', ((last, type, note), ...)); note: 8 numbers.
"""
import struct

from ref.sndfile import Bad


def noteBytes(n):
    return struct.pack('<HHBBBBBB', *n)


def record(inst):
    kind = inst[0]
    if kind == 'single':
        return noteBytes(inst[2])
    if kind == 'range':
        return bytes([inst[1], inst[1] + len(inst[2]) - 1]) + b''.join(
            struct.pack('<H', t) + noteBytes(n) for t, n in inst[2])
    ends = bytes(r[0] for r in inst[1])
    return ends + bytes(8 - len(ends)) + b''.join(struct.pack('<H', t) + noteBytes(n) for _, t, n in inst[1])


def typeOf(inst):
    return 0 if inst is None else inst[1] if inst[0] == 'single' else 16 if inst[0] == 'range' else 17


def build(instruments, order=None, share=True, hidden=None, unusedOffset=0):
    """
    order: slot order within the categories; hidden: {slot: [record, ...]} stored after that slot's record
    without being in the table.
    """
    table = 0x3C + 4 * len(instruments)
    body = bytearray()
    offsets = [unusedOffset] * len(instruments)
    seen = {}
    order = list(range(len(instruments))) if order is None else order
    for category in ('single', 'range', 'regional'):
        for i in order:
            inst = instruments[i]
            if inst is None or inst[0] != category:
                continue
            r = record(inst)
            if not share or r not in seen:
                seen[r] = len(body)
                body += r
            offsets[i] = table + seen[r]
            for h in (hidden or {}).get(i, ()):
                body += h
    body += bytes(-(table + len(body)) % 4)
    size = table + len(body)
    out = b'SBNK\xff\xfe' + struct.pack('<HIHH', 0x100, size, 0x10, 1)
    out += b'DATA' + struct.pack('<I', size - 0x10) + bytes(32) + struct.pack('<I', len(instruments))
    for inst, off in zip(instruments, offsets):
        out += struct.pack('<BHB', typeOf(inst), off, 0)
    return out + bytes(body)


def note(data, off):
    if off + 10 > len(data):
        raise Bad('note definition beyond the end')
    return struct.unpack_from('<HHBBBBBB', data, off)


def parse(data):
    """(instruments, [(start, end, slot)])"""
    data = bytes(data)
    if data[:4] != b'SBNK' or data[0x10:0x14] != b'DATA':
        raise Bad('magic')
    bom, version, size, hs, blocks = struct.unpack_from('<HHIHH', data, 4)
    if (bom, version, hs, blocks) != (0xFEFF, 0x100, 0x10, 1):
        raise Bad(f'header {(bom, version, hs, blocks)}')
    if size != len(data) or size % 4:
        raise Bad(f'size {size} in the header, {len(data)} bytes')
    if struct.unpack_from('<I', data, 0x14)[0] != size - 0x10:
        raise Bad('block size')
    if any(data[0x18:0x38]):
        raise Bad('reserved bytes not zero')
    count, = struct.unpack_from('<I', data, 0x38)
    base = 0x3C + 4 * count
    out, extents = [], []
    for i in range(count):
        t, off, zero = struct.unpack_from('<BHB', data, 0x3C + 4 * i)
        if zero:
            raise Bad('table padding')
        if t == 0:
            out.append(None)
            continue
        if off < base:
            raise Bad(f'instrument {i} at {off:#x}, inside the table')
        if t < 16:
            out.append(('single', t, note(data, off)))
            end = off + 10
        elif t == 16:
            a, b = data[off:off + 2]
            n = b - a + 1
            if n < 0:
                raise Bad('range')
            defs = tuple((struct.unpack_from('<H', data, off + 2 + 12 * k)[0], note(data, off + 4 + 12 * k))
                         for k in range(n))
            out.append(('range', a, defs))
            end = off + 2 + 12 * n
        elif t == 17:
            ends = data[off:off + 8]
            n = 1
            while n < 8 and ends[n]:
                n += 1
            if any(ends[n:]):
                raise Bad('region ends')
            out.append(('regional', tuple((ends[k], struct.unpack_from('<H', data, off + 8 + 12 * k)[0],
                                           note(data, off + 10 + 12 * k)) for k in range(n))))
            end = off + 8 + 12 * n
        else:
            raise Bad(f'type {t}')
        if end > size:
            raise Bad(f'instrument {i} beyond the end')
        extents.append((off, end, i))
    return out, extents
