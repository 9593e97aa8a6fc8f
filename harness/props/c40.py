"""Model display lists are read command by command."""

import contextlib
import io
import re

from ndspy import model
from gen import textures
from ref import tex

CASES = {'quick': 150000, 'thorough': 900000}
RULE = ('Models written independently with up to three models of up to two polygons, whose (sometimes more than 64 KB long) display lists use every hardware'
        ' command; parameters that would be unknown commands, known commands or zeros if misread; lists with unknown'
        ' commands among them. Watched: what loading prints, the model names, and the ID and parameter count of each'
        ' command class. Non-trivial = at least one display list with parameters.')
REQUIRED = {'no complaint': 2000, 'unknown commands': 1000, 'names': 4000, 'command classes': 4000, 'resaved': 4000}
ASSUMPTIONS = ['Unknown commands are reported on standard output; they are taken to have no parameters.']

# name of the class: (ID, number of parameters), from the hardware documentation
COMMANDS = {
    'Nop': (0x00, 0), 'SetMatrixMode': (0x10, 1), 'PushMatrix': (0x11, 0), 'PopMatrix': (0x12, 1), 'StoreMatrix': (0x13, 1),
    'RestoreMatrix': (0x14, 1), 'LoadIdentityMatrix': (0x15, 0), 'Load4x4Matrix': (0x16, 16), 'Load4x3Matrix': (0x17, 12),
    'MultiplyBy4x4Matrix': (0x18, 16), 'MultiplyBy4x3Matrix': (0x19, 12), 'MultiplyBy3x3Matrix': (0x1A, 9),
    'MultiplyByScaleMatrix': (0x1B, 3), 'MultiplyByTranslationMatrix': (0x1C, 3), 'SetVertexColor': (0x20, 1),
    'SetNormalVector': (0x21, 1), 'SetTextureCoordinates': (0x22, 1), 'SetVertexXYZCoordinates_16BitsEach': (0x23, 2),
    'SetVertexXYZCoordinates_10BitsEach': (0x24, 1), 'SetVertexXYCoordinates': (0x25, 1),
    'SetVertexXZCoordinates': (0x26, 1), 'SetVertexYZCoordinates': (0x27, 1), 'SetRelativeVertexCoordinates': (0x28, 1),
    'SetPolygonAttributes': (0x29, 1), 'SetTextureParameters': (0x2A, 1), 'SetTexturePaletteBaseAddress': (0x2B, 1),
    'SetDiffuseAndAmbientReflection': (0x30, 1), 'SetSpecularReflectionAndEmission': (0x31, 1),
    'SetLightDirectionalVector': (0x32, 1), 'SetLightColor': (0x33, 1), 'SetSpecularReflectionShininessTable': (0x34, 32),
    'StartOfVertexList': (0x40, 1), 'EndOfVertexList': (0x41, 0), 'SwapRenderingEngineBuffers': (0x50, 1),
    'SetViewport': (0x60, 1), 'TestIfCuboidSitsInsideViewVolume': (0x70, 3), 'SetPositionCoordinatesForTest': (0x71, 2),
    'SetDirectionalVectorForTest': (0x72, 1),
}
COUNTS = dict(COMMANDS.values())
UNKNOWN = [i for i in range(256) if i not in COUNTS]


def parameter(rng, style):
    if style == 0:
        return bytes(rng.choice(UNKNOWN) for _ in range(4))
    if style == 1:
        return bytes(rng.choice(list(COUNTS)) for _ in range(4))
    return rng.choice([bytes(4), rng.randbytes(4), b'\xff' * 4])


class Lists:
    """Makes display lists and remembers what is in them."""
    def __init__(self, rng, unknown):
        self.unknown, self.seen, self.parameters = unknown, [], 0
        self.long = False

    def __call__(self, rng):
        out = b''
        for _ in range(rng.choice([0, 1, 2, rng.randrange(12)]) if not self.long else 2500):
            ids = [rng.choice(list(COUNTS)) for _ in range(4)]
            if rng.random() < 0.4:
                # padded with no-ops, as the usual tools do
                for j in range(rng.randrange(4), 4):
                    ids[j] = 0
            if self.unknown:
                for j in range(4):
                    if rng.random() < 0.2:
                        ids[j] = rng.choice(UNKNOWN)
                        self.seen.append(ids[j])
            n = sum(COUNTS.get(i, 0) for i in ids)
            self.parameters += n
            style = rng.randrange(3)
            out += bytes(ids) + b''.join(parameter(rng, style) for _ in range(n))
        return out


def case(ctx, rng, index):
    lists = Lists(rng, index % 3 == 0)
    lists.long = index % 3000 == 7
    mdl, names = textures.mdl0(rng, lists)
    data = tex.nsbmd(mdl, textures.file(rng, 0))
    ctx.info('model block', mdl)
    ctx.info('unknown commands', lists.seen)
    said = io.StringIO()
    with contextlib.redirect_stdout(said):
        m = model.NSBMD(data)
    said = said.getvalue()
    if not lists.seen:
        ctx.check('no complaint', said == '', f'loading printed {said!r:.200}')
    else:
        got = [int(x, 16) for x in re.findall(r'0x([0-9a-fA-F]+)', said)]
        ctx.eq('unknown commands', sorted(got), sorted(lists.seen), 'reported commands')
    ctx.eq('names', [n for n, _ in m.models], names, 'names of the models')
    ctx.bytesEq('resaved', m.save(), data, 'resaved model')
    name = rng.choice(list(COMMANDS))
    cls = getattr(model, 'GeometryCommand_' + name)
    ctx.eq('command classes', (cls.type, cls.PARAM_COUNT), COMMANDS[name], f'ID and parameter count of {name}')
    if lists.parameters:
        ctx.nontrivial(mdl)
    if index < 10:
        ctx.sample(f'{len(names)} models, {lists.parameters} parameters, {len(lists.seen)} unknown commands')
