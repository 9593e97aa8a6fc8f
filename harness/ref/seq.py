"""
Independent knowledge of the sequence-event encoding.

An event is a tuple: (kind, args...), where kind is the class name without
its 'SequenceEvent' suffix. References to other events are ('@', n) with n
an index into the event list.
"""
from ndspy import soundSequence as q

BYTE = {  # one-byte argument
    'Pan': 0xC0, 'TrackVolume': 0xC1, 'GlobalVolume': 0xC2, 'Transpose': 0xC3, 'Portamento': 0xC4,
    'PortamentoRange': 0xC5, 'TrackPriority': 0xC6, 'MonoPoly': 0xC7, 'Tie': 0xC8, 'PortamentoFrom': 0xC9,
    'VibratoDepth': 0xCA, 'VibratoSpeed': 0xCB, 'VibratoType': 0xCC, 'VibratoRange': 0xCD, 'PortamentoOnOff': 0xCE,
    'PortamentoDuration': 0xCF, 'AttackRate': 0xD0, 'DecayRate': 0xD1, 'SustainRate': 0xD2, 'ReleaseRate': 0xD3,
    'BeginLoop': 0xD4, 'Expression': 0xD5, 'PrintVariable': 0xD6, 'VibratoDelay': 0xE0,
}
WORD = {'Tempo': 0xE1, 'SweepPitch': 0xE3}
BARE = {'If': 0xA2, 'EndLoop': 0xFC, 'Return': 0xFD, 'EndTrack': 0xFF}
ARITH = {
    'VariableAssignment': 0xB0, 'VariableAddition': 0xB1, 'VariableSubtraction': 0xB2,
    'VariableMultiplication': 0xB3, 'VariableDivision': 0xB4, 'VariableShift': 0xB5, 'VariableRand': 0xB6,
    'VariableUnknownB7': 0xB7, 'VariableEqual': 0xB8, 'VariableGreaterThanOrEqual': 0xB9,
    'VariableGreaterThan': 0xBA, 'VariableLessThanOrEqual': 0xBB, 'VariableLessThan': 0xBC,
    'VariableNotEqual': 0xBD,
}
REFS = {'BeginTrack': 0x93, 'Jump': 0x94, 'Call': 0x95}


def varint(x):
    out = [x & 0x7F]
    x >>= 7
    while x:
        out.append(x & 0x7F | 0x80)
        x >>= 7
    return bytes(reversed(out))


def s16(x):
    return (x & 0xFFFF).to_bytes(2, 'little')


def encode(ev, offsets=None):
    """Bytes of one event; offsets[n] is where event n is (any 3-byte value if None)."""
    kind, a = ev[0], ev[1:]

    def target(r):
        return (0 if offsets is None else offsets[r[1]]).to_bytes(3, 'little')

    if kind == 'Raw':
        return a[0]
    if kind == 'Note':
        pitch, velocity, flag, duration = a
        return bytes([pitch, velocity | (0x80 if flag else 0)]) + varint(duration)
    if kind == 'Rest':
        return b'\x80' + varint(a[0])
    if kind == 'InstrumentSwitch':
        return b'\x81' + varint(a[0] * 128 + a[1])
    if kind == 'BeginTrack':
        return bytes([0x93, a[0]]) + target(a[1])
    if kind in ('Jump', 'Call'):
        return bytes([REFS[kind]]) + target(a[0])
    if kind == 'Random':
        return bytes([0xA0, a[0], *a[1]]) + s16(a[2]) + s16(a[3])
    if kind == 'FromVariable':
        sub, var, unk = a
        if 0xB0 <= sub <= 0xBD:
            return bytes([0xA1, sub, unk & 0xFF, var & 0xFF])
        return bytes([0xA1, sub, var])
    if kind in BARE:
        return bytes([BARE[kind]])
    if kind in ARITH:
        return bytes([ARITH[kind], a[0]]) + s16(a[1])
    if kind in BYTE:
        return bytes([BYTE[kind], a[0]])
    if kind in WORD:
        return bytes([WORD[kind]]) + s16(a[0])
    if kind == 'DefineTracks':
        return b'\xfe' + sum(1 << t for t in a[0]).to_bytes(2, 'little')
    raise KeyError(kind)


def encodeAll(events):
    """(data, offsets)"""
    offsets, pos = [], 0
    for e in events:
        offsets.append(pos)
        pos += len(encode(e))
    return b''.join(encode(e, offsets) for e in events), offsets


def make(ev, made=None):
    """Library object for an event. References are filled in later by makeAll()."""
    kind, a = ev[0], ev[1:]
    if kind == 'Raw':
        return q.RawDataSequenceEvent(a[0])
    cls = getattr(q, kind + 'SequenceEvent')
    if kind == 'Note':
        return cls(a[0], a[1] | (0x80 if a[2] else 0), a[3])
    if kind == 'BeginTrack':
        return cls(a[0], None)
    if kind in ('Jump', 'Call'):
        return cls(None)
    if kind == 'Random':
        return cls(a[0], list(a[1]), a[2], a[3])
    if kind == 'DefineTracks':
        return cls(set(a[0]))
    return cls(*a)


def makeAll(events):
    objs = [make(e) for e in events]
    for e, o in zip(events, objs):
        if e[0] == 'BeginTrack':
            o.firstEvent = objs[e[2][1]]
        elif e[0] in ('Jump', 'Call'):
            o.destination = objs[e[1][1]]
    return objs


class NotInList(Exception):
    pass


def describe(obj, index):
    """The tuple of a library object; index: id(object) -> position."""
    kind = type(obj).__name__
    if not kind.endswith('SequenceEvent'):
        return ('?', kind)
    kind = kind[:-len('SequenceEvent')]

    def ref(target):
        if id(target) not in index:
            return ('@', f'not in the list: {target!r}'[:80])
        return ('@', index[id(target)])

    if kind == 'RawData':
        return ('Raw', bytes(obj.data))
    if kind == 'Note':
        return (kind, obj.pitch, obj.velocity, bool(obj.unknownFlag), obj.duration)
    if kind == 'Rest':
        return (kind, obj.duration)
    if kind == 'InstrumentSwitch':
        return (kind, obj.bankID, obj.instrumentID)
    if kind == 'BeginTrack':
        return (kind, obj.trackNumber, ref(obj.firstEvent))
    if kind in ('Jump', 'Call'):
        return (kind, ref(obj.destination))
    if kind == 'Random':
        return (kind, obj.subType, tuple(obj.args), obj.randMin, obj.randMax)
    if kind == 'FromVariable':
        return (kind, obj.subType, obj.variableID, obj.unknown)
    if kind in BARE:
        return (kind,)
    if kind in ARITH:
        return (kind, obj.variableID, obj.value)
    if kind == 'BeginLoop':
        return (kind, obj.loopCount)
    if kind in BYTE or kind in WORD:
        return (kind, int(obj.value))
    if kind == 'DefineTracks':
        return (kind, tuple(sorted(obj.trackNumbers)))
    return ('?', kind)


def describeAll(objs):
    index = {}
    for i, o in enumerate(objs):
        index.setdefault(id(o), i)
    return [describe(o, index) for o in objs]
