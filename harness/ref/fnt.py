"""
Independent filename-table reader and writer.

A tree is a plain tuple (firstID, [file names], [(folder name, subtree)]).
"""


class Bad(Exception):
    pass


def u16(b, o):
    return b[o] | b[o + 1] << 8


def u32(b, o):
    return int.from_bytes(b[o:o + 4], 'little')


def parse(data, strict=True):
    """
    Read a table. With strict, also insist on everything a console or
    another tool may rely on: sizes, parents, counts, disjoint areas.
    """
    if len(data) < 9:
        raise Bad('table shorter than one folder')
    total = u16(data, 6)
    if not 1 <= total <= 4096:
        raise Bad(f'folder count {total}')
    if len(data) < 8 * total:
        raise Bad('folder table truncated')
    spans = [(0, 8 * total)]
    seen = set()

    def folder(fid, parent):
        k = fid & 0xFFF
        if fid >> 12 != 0xF or k >= total:
            raise Bad(f'folder id {fid:#x} out of range')
        if fid in seen:
            raise Bad(f'folder id {fid:#x} used twice')
        seen.add(fid)
        off, first, par = u32(data, 8 * k), u16(data, 8 * k + 4), u16(data, 8 * k + 6)
        if k and par != parent:
            raise Bad(f'folder {fid:#x} says its parent is {par:#x}, but it is inside {parent:#x}')
        start = off
        files, folders = [], []
        while True:
            if off >= len(data):
                raise Bad('entries run past the end')
            c = data[off]
            off += 1
            if c == 0:
                break
            n = c & 0x7F
            if off + n > len(data):
                raise Bad('name runs past the end')
            name = bytes(data[off:off + n]).decode('latin-1')
            off += n
            if c & 0x80:
                if off + 2 > len(data):
                    raise Bad('folder id runs past the end')
                sub = u16(data, off)
                off += 2
                folders.append((name, folder(sub, fid)))
            else:
                files.append(name)
        spans.append((start, off))
        return (first, files, folders)

    tree = folder(0xF000, None)
    if strict:
        if len(seen) != total:
            raise Bad(f'{total} folders declared, {len(seen)} reachable')
        spans.sort()
        for (a, b), (c, d) in zip(spans, spans[1:]):
            if b > c:
                raise Bad('entry areas overlap')
    return tree, max(b for _, b in spans)


def folderCount(tree):
    return 1 + sum(folderCount(t) for _, t in tree[2])


def build(tree):
    """The canonical form: depth-first ids, files before folders, areas in id order."""
    areas = []

    def visit(t, parent):
        me = len(areas)
        areas.append(None)
        body = bytearray()
        for f in t[1]:
            b = f.encode('latin-1')
            body += bytes([len(b)]) + b
        for name, sub in t[2]:
            sid = visit(sub, 0xF000 + me)
            b = name.encode('latin-1')
            body += bytes([len(b) | 0x80]) + b + sid.to_bytes(2, 'little')
        body.append(0)
        areas[me] = (t[0], parent, bytes(body))
        return 0xF000 + me

    visit(tree, folderCount(tree))
    pos = 8 * len(areas)
    head, tail = bytearray(), bytearray()
    for first, parent, body in areas:
        head += pos.to_bytes(4, 'little') + first.to_bytes(2, 'little') + parent.to_bytes(2, 'little')
        tail += body
        pos += len(body)
    return bytes(head + tail)


def buildForeign(tree, rng):
    """
    The same tree as another tool might write it: breadth-first or
    arbitrary folder ids, folders before or between files, areas in any
    order with gaps.
    """
    nodes = [(tree, 0)]  # (subtree, parent index); breadth first
    kids = {}
    i = 0
    while i < len(nodes):
        t, _ = nodes[i]
        kids[i] = []
        for name, sub in t[2]:
            kids[i].append(len(nodes))
            nodes.append((sub, i))
        i += 1
    order = list(range(1, len(nodes)))
    if rng.random() < 0.6:
        rng.shuffle(order)
    ids = {0: 0}
    for k, node in enumerate(order):
        ids[node] = k + 1
    bodies = {}
    for i, (t, parent) in enumerate(nodes):
        fileItems = [(False, f, None) for f in t[1]]
        folderItems = [(True, name, kids[i][j]) for j, (name, _) in enumerate(t[2])]
        style = rng.randrange(3)
        if style == 0:
            items = fileItems + folderItems
        elif style == 1:
            items = folderItems + fileItems
        else:
            items = []
            a, b = list(fileItems), list(folderItems)
            while a or b:
                src = a if (a and (not b or rng.random() < 0.5)) else b
                items.append(src.pop(0))
        body = bytearray()
        for isFolder, name, node in items:
            b = name.encode('latin-1')
            body += bytes([len(b) | (0x80 if isFolder else 0)]) + b
            if isFolder:
                body += (0xF000 + ids[node]).to_bytes(2, 'little')
        body.append(0)
        bodies[i] = bytes(body)
    out = bytearray(8 * len(nodes))
    place = list(range(len(nodes)))
    if rng.random() < 0.5:
        rng.shuffle(place)
    for i in place:
        out += rng.randbytes(rng.choice([0, 0, 0, rng.randrange(0, 5)]))
        t, parent = nodes[i]
        k = ids[i]
        par = len(nodes) if i == 0 else 0xF000 + ids[parent]
        out[8 * k:8 * k + 8] = (len(out).to_bytes(4, 'little') + t[0].to_bytes(2, 'little')
                                + par.to_bytes(2, 'little'))
        out += bodies[i]
    return bytes(out)
