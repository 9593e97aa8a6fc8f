"""
Independent models of the two LZ formats (written from the format
descriptions, sharing nothing with the library).
"""


class Bad(Exception):
    pass


# ---------------------------------------------------------------- LZ10

def lz10Decode(stream):
    """
    Strict LZ10 decoder. Returns (output, tokens, bytes consumed).
    tokens: ('lit', byte) or ('ref', length, distance)
    """
    if len(stream) < 4:
        raise Bad('no room for the 4-byte header')
    if stream[0] != 0x10:
        raise Bad(f'type byte is {stream[0]:#x}')
    total = stream[1] | stream[2] << 8 | stream[3] << 16
    out = bytearray()
    tokens = []
    pos = 4
    while len(out) < total:
        if pos >= len(stream):
            raise Bad(f'stream ends with {total - len(out)} bytes missing')
        flags = stream[pos]
        pos += 1
        for bit in (128, 64, 32, 16, 8, 4, 2, 1):
            if len(out) >= total:
                break
            if flags & bit:
                if pos + 2 > len(stream):
                    raise Bad('truncated back-reference')
                hi, lo = stream[pos], stream[pos + 1]
                pos += 2
                length = (hi >> 4) + 3
                distance = ((hi & 15) << 8 | lo) + 1
                if distance > len(out):
                    raise Bad(f'back-reference to {distance} bytes back at output {len(out)}')
                if len(out) + length > total:
                    raise Bad('back-reference runs past the declared length')
                for _ in range(length):
                    out.append(out[-distance])
                tokens.append(('ref', length, distance))
            else:
                if pos >= len(stream):
                    raise Bad('truncated literal')
                out.append(stream[pos])
                tokens.append(('lit', stream[pos]))
                pos += 1
    return bytes(out), tokens, pos


def lz10Encode(tokens, total, overshoot=False):
    """Write an LZ10 stream for a token list."""
    out = bytearray([0x10, total & 255, total >> 8 & 255, total >> 16 & 255])
    for i in range(0, len(tokens), 8):
        group = tokens[i:i + 8]
        flags = 0
        body = bytearray()
        for j, t in enumerate(group):
            if t[0] == 'ref':
                flags |= 128 >> j
                body.append((t[1] - 3) << 4 | (t[2] - 1) >> 8)
                body.append((t[2] - 1) & 255)
            else:
                body.append(t[1])
        out.append(flags)
        out += body
    return bytes(out)


def expand(tokens):
    out = bytearray()
    for t in tokens:
        if t[0] == 'lit':
            out.append(t[1])
        else:
            for _ in range(t[1]):
                out.append(out[-t[2]])
    return bytes(out)


def greedyCost(data, window, maxLen=18):
    """
    Size of the token area (flags included) when each position uses the
    longest earlier occurrence lying entirely before it.
    """
    pos = tokens = body = 0
    n = len(data)
    while pos < n:
        start = max(0, pos - window)
        best = 0
        for length in range(3, min(maxLen, n - pos) + 1):
            if data.find(data[pos:pos + length], start, pos) < 0:
                break
            best = length
        if best:
            body += 2
            pos += best
        else:
            body += 1
            pos += 1
        tokens += 1
    return body + (tokens + 7) // 8


# ------------------------------------------------- backwards code format

def footerAt(data, appended):
    """
    (headerLen, compressedLen, extra) if a well-formed footer ends
    `appended` bytes before the end, else None.
    """
    end = len(data) - appended
    if end < 8:
        return None
    compressedLen = int.from_bytes(data[end - 8:end - 5], 'little')
    headerLen = data[end - 5]
    extra = int.from_bytes(data[end - 4:end], 'little')
    if headerLen < 8 or extra == 0:
        return None
    if not headerLen <= compressedLen <= end:
        return None
    if any(b != 0xFF for b in data[end - headerLen:end - 8]):
        return None
    return headerLen, compressedLen, extra


def anyFooter(data):
    return any(footerAt(data, a) is not None for a in range(0, 0x20, 4))


def backwardExpandInPlace(data):
    """
    Expand a compressed image the way the console does: in place, from
    the end. Raises Bad if the footer is wrong or unread input would be
    overwritten. Returns (image, start of compressed area, tokens).
    """
    f = footerAt(data, 0)
    if f is None:
        raise Bad('no well-formed footer')
    headerLen, compressedLen, extra = f
    buf = bytearray(data) + bytearray(extra)
    stop = len(data) - compressedLen
    src = len(data) - headerLen
    dst = len(buf)
    tokens = 0
    longest = farthest = 0
    while src > stop:
        src -= 1
        flags = buf[src]
        for bit in (128, 64, 32, 16, 8, 4, 2, 1):
            if src <= stop:
                break
            tokens += 1
            if flags & bit:
                if src - 2 < stop:
                    raise Bad('back-reference reaches outside the compressed area')
                hi, lo = buf[src - 1], buf[src - 2]
                src -= 2
                length = (hi >> 4) + 3
                distance = ((hi & 15) << 8 | lo) + 3
                longest, farthest = max(longest, length), max(farthest, distance)
                if dst + distance > len(buf):
                    raise Bad(f'back-reference {distance} bytes away with only'
                              f' {len(buf) - dst} written')
                for _ in range(length):
                    dst -= 1
                    if dst < src:
                        raise Bad('in-place expansion overwrites unread input')
                    buf[dst] = buf[dst + distance]
            else:
                src -= 1
                dst -= 1
                if dst < src:
                    raise Bad('in-place expansion overwrites unread input')
                buf[dst] = buf[src]
    if dst != stop:
        raise Bad(f'expansion ends at {dst:#x} instead of {stop:#x}')
    return bytes(buf), stop, tokens


def backwardEncode(tokens, passthrough, headerPadding, appended=b''):
    """
    Build a compressed image from tokens given in decoding order (the
    first token produces the last bytes of the output). Returns
    (file, expected expansion) or None when the result would not be
    smaller than the output.
    """
    reverseOut = expand(tokens)
    area = bytearray()
    for i in range(0, len(tokens), 8):
        group = tokens[i:i + 8]
        flags = 0
        body = bytearray()
        for j, t in enumerate(group):
            if t[0] == 'ref':
                flags |= 128 >> j
                d = t[2] - 3
                body.append((t[1] - 3) << 4 | d >> 8)
                body.append(d & 255)
            else:
                body.append(t[1])
        area.append(flags)
        area += body
    area.reverse()
    headerLen = 8 + headerPadding
    size = len(passthrough) + len(area) + headerLen
    extra = len(passthrough) + len(reverseOut) - size
    if extra <= 0:
        return None
    f = bytearray(passthrough) + area + b'\xff' * headerPadding
    f += (len(area) + headerLen).to_bytes(3, 'little') + bytes([headerLen])
    f += extra.to_bytes(4, 'little')
    f += appended
    return bytes(f), bytes(passthrough) + reverseOut[::-1] + appended


def tokenize(data, window, minDist, maxLen=18):
    """Greedy tokens for data, using the most recent earlier occurrences."""
    tokens = []
    index = {}
    pos = 0
    n = len(data)
    while pos < n:
        best = None
        key = data[pos:pos + 3]
        if len(key) == 3:
            for cand in reversed(index.get(key, ())):
                dist = pos - cand
                if dist > window:
                    break
                if dist < minDist:
                    continue
                ln = 3
                while ln < maxLen and pos + ln < n and data[cand + ln] == data[pos + ln]:
                    ln += 1
                if best is None or ln > best[0]:
                    best = (ln, dist)
                    if ln == maxLen:
                        break
        step = best[0] if best else 1
        tokens.append(('ref', best[0], best[1]) if best else ('lit', data[pos]))
        for p in range(pos, pos + step):
            k = data[p:p + 3]
            if len(k) == 3:
                lst = index.setdefault(k, [])
                lst.append(p)
                if len(lst) > 24:
                    del lst[:12]
        pos += step
    return tokens


def backwardCompress(data, rawPrefix=0):
    """Compress a code image; None if that does not make it smaller."""
    built = backwardEncode(tokenize(data[rawPrefix:][::-1], 0x1002, 3), data[:rawPrefix], -len(data) % 4)
    if built is None:
        return None
    assert built[1] == data
    try:
        image, _, _ = backwardExpandInPlace(built[0])
    except Bad:
        return None  # not expandable in place; a real tool would leave more of it raw
    assert image == data
    return built[0]
