"""
Main code files: sections, code settings and section table.
"""
from gen import blobs
from ref import lz

MAGIC = b'\x21\x06\xc0\xde\xde\xc0\x06\x21'


def p32(b, o, v):
    b[o:o + 4] = (v & 0xFFFFFFFF).to_bytes(4, 'little')


class Model:
    """
    sections: [(address, data, bss)], the first being the implicit one.
    mode: how the settings can be found: magic / pointer / tableEnd / none
    """
    def __init__(self, rng, mode=None, big=False, far=False, huge=False):
        self.mode = mode or rng.choice(['magic', 'magic', 'pointer', 'tableEnd', 'none'])
        self.ram = rng.choice([0x2000000, 0x2004000, 0x2380000, 0x1FF8000, 0x2000800])
        first = rng.choice([0x60, 0x100, 0x104, 0x800, 4 * rng.randrange(0x20, 0x300)])
        if big:
            first = 0x4000 + 4 * rng.randrange(0, 0x400)
        if far:
            first = 0x8000 + 4 * rng.randrange(0, 0x200)
        data = bytearray(blobs.codeLike(rng, first) if rng.random() < 0.7 else blobs.exact(rng, first))
        self.pointer = None
        self.cso = None
        self.sections = []
        if self.mode != 'none':
            top = min(first, 0x4000) - 0x40
            self.cso = 4 * rng.randrange(2, max(3, top // 4))
            if far:
                self.cso = rng.choice([0x7FE0, 0x4000, 4 * rng.randrange(0x1000, 0x1FF9)])
            c = self.cso
            data[c:c + 0x24] = rng.randbytes(0x0C) + rng.randbytes(8) + bytes(4) + rng.randbytes(0x0C)
            if self.mode == 'magic':
                data[c + 0x1C:c + 0x24] = MAGIC
            if self.mode == 'pointer':
                while True:
                    at = 4 * rng.randrange(0, first // 4)
                    if at + 4 <= c or at >= c + 0x24:
                        break
                p32(data, at, self.ram + c)
                self.pointer = self.ram + at + 4
        self.sections.append((self.ram, bytes(data), 0))
        if self.mode != 'none':
            for _ in range(rng.choice([0, 1, 2, 2, 3, 5]) if rng.random() < 0.95 else rng.choice([10, 18, 19]) if self.mode == 'tableEnd' else
                    rng.choice([10, 19, 40, 300])):
                n = 4 * rng.choice([1, 2, rng.randrange(1, 60), rng.randrange(1, 300)])
                self.sections.append((rng.choice([0x1FF8000, 0x27E0000, rng.randrange(1 << 32)]),
                    blobs.exact(rng, n), rng.choice([0, 4, 0x20, rng.randrange(1 << 20)])))
            if huge:
                self.sections.append((0x1FF8000, blobs.codeLike(rng, 4 * rng.randrange(0x4000, 0x5000)), 0x20))
            for _ in range(rng.choice([0, 0, 0, 1, 2])):
                self.sections.append((rng.randrange(1 << 32), b'', rng.randrange(1 << 16)))
            if self.mode == 'tableEnd' and len(self.sections) == 1:
                self.sections.append((0x37F8000, blobs.exact(rng, 8), 0x10))

    def image(self, compressedEnd=0, tableInside=None):
        """The uncompressed file (canonical: table at the very end)."""
        body = bytearray()
        for _, d, _ in self.sections:
            body += d
        if self.cso is None:
            return bytes(body)
        table = bytearray()
        for a, d, bss in self.sections[1:]:
            table += a.to_bytes(4, 'little') + len(d).to_bytes(4, 'little') + bss.to_bytes(4, 'little')
        at = len(body)
        if tableInside is not None:
            at = tableInside
            body[at:at + len(table)] = table
        else:
            body += table
        p32(body, self.cso, self.ram + at)
        p32(body, self.cso + 4, self.ram + at + len(table))
        p32(body, self.cso + 8, self.ram + len(self.sections[0][1]))
        p32(body, self.cso + 0x14, compressedEnd)
        return bytes(body)

    def expectedSections(self, compressedEnd=0, image=None):
        """[(address, data, bss, implicit)] after loading the image."""
        image = image if image is not None else self.image(compressedEnd)
        out = []
        pos = 0
        for i, (a, d, bss) in enumerate(self.sections):
            out.append((a, image[pos:pos + len(d)], bss, i == 0))
            pos += len(d)
        return out

    def endByChance(self, image):
        """Whether the search for the settings can stop at the wrong place."""
        expected = {'none': 0, 'tableEnd': 1}.get(self.mode)
        return expected is not None and image.count((self.ram + len(image)).to_bytes(4, 'little')) > expected

    def edited(self, edits):
        """A copy with some sections' data replaced, as it should come out after saving."""
        m = object.__new__(Model)
        m.mode, m.ram, m.cso, m.pointer = self.mode, self.ram, self.cso, self.pointer
        s = [list(x) for x in self.sections]
        for i, d in edits.items():
            s[i][1] = d
        s = [(a, d + bytes(-len(d) % 4), bss) for a, d, bss in s]
        m.sections = s[:1] + [x for x in s[1:] if x[1]] + [x for x in s[1:] if not x[1]]
        return m


def isClean(image):
    """Not mistakable for a compressed file."""
    return not lz.anyFooter(image)
