"""Instruments stored in a bank without being listed are found and kept."""

import struct

from ndspy import soundBank as sb
from gen import banks
from ref import sbnk

CASES = {'quick': 150000, 'thorough': 900000}
RULE = ('Independently built banks of 0-6 listed instruments (empty slots and shared records among them) with up to three'
        ' unlisted records before, between and after them, each of a kind that may stand there and with contents typical'
        ' of its kind; banks with meaningless bytes in these places; banks whose unlisted instruments were put in by'
        ' hand, before everything, after listed instruments and after slots that are empty or do not exist.'
        ' Non-trivial = at least one unlisted record of a kind that its neighbours leave open.')
REQUIRED = {'found': 5000, 'resaved': 5000, 'listed instruments': 8000, 'kept by saving': 2000, 'garbage': 1000,
            'cleared': 2000, 'direct guess': 2000}
ASSUMPTIONS = ['Typical contents: wave and archive numbers below 0xA00; single notes have middle C as their pitch, or a wave'
               ' number whose low byte is larger than its high byte; ranges end at pitch 10 or later and do not start with'
               ' a wave number whose low byte is 0x3C; the first two regions are far apart and the fifth does not end at'
               ' 0x3C.']

KINDS = ('single', 'range', 'regional')


def settings(rng):
    return tuple(rng.choice([127, 64, 0, rng.randrange(128)]) for _ in range(5))


def note(rng):
    return (rng.randrange(0xA00), rng.choice([0, 1, 3, rng.randrange(0xA00)]), rng.randrange(128)) + settings(rng)


def single(rng):
    n = note(rng)
    if rng.random() < 0.5:
        n = n[:2] + (0x3C,) + n[3:]
    else:
        n = ((n[0] >> 8) << 8 | rng.randrange((n[0] >> 8) + 1, 256), n[1], rng.randrange(1, 128)) + n[3:]
    return ('single', 1, n)


def rangeInst(rng):
    n = rng.choice([1, 1, 2, 3, 12])
    first = rng.choice([0, 36, 35, rng.randrange(128 - n)])
    if first + n - 1 < 10:
        first = 10
    defs = [(rng.randrange(1, 4), note(rng)) for _ in range(n)]
    if defs[0][1][0] & 0xFF == 0x3C:
        defs[0] = (defs[0][0], (defs[0][1][0] + 1,) + defs[0][1][1:])
    return ('range', first, tuple(defs))


def regional(rng):
    n = rng.randrange(1, 9)
    while True:
        ends = sorted(rng.sample(range(1, 128), n))
        if rng.random() < 0.7:
            ends[-1] = 127
        if n > 1 and (ends[1] < 10 or ends[1] - ends[0] < 50):
            continue
        if n > 4 and ends[4] == 0x3C:
            continue
        return ('regional', tuple((e, rng.randrange(1, 4), note(rng)) for e in ends))


MAKE = {'single': single, 'range': rangeInst, 'regional': regional}


def layout(model, order, share):
    """[(record, [slots])] in file order"""
    out = []
    for kind in KINDS:
        for i in order:
            if model[i] and model[i][0] == kind:
                r = sbnk.record(model[i])
                for rec, slots, k in out:
                    if share and rec == r:
                        slots.append(i)
                        break
                else:
                    out.append((r, [i], kind))
    return out


def assemble(model, blocks):
    """blocks: [(record, slots)]"""
    base = 0x3C + 4 * len(model)
    body, offsets = b'', [0] * len(model)
    for rec, slots in blocks:
        for i in slots:
            offsets[i] = base + len(body)
        body += rec
    body += bytes(-len(body) % 4)
    size = base + len(body)
    out = b'SBNK\xff\xfe' + struct.pack('<HIHH', 0x100, size, 0x10, 1) + b'DATA' + struct.pack('<I', size - 0x10) + bytes(32)
    out += struct.pack('<I', len(model))
    for m, off in zip(model, offsets):
        out += struct.pack('<BHB', sbnk.typeOf(m), off, 0)
    return out + body


def listed(rng):
    out = []
    for _ in range(rng.choice([0, 1, 2, 3, 4, 6])):
        k = rng.random()
        out.append(None if k < 0.15 else rng.choice(out) if out and k < 0.25 else MAKE[rng.choice(KINDS)](rng))
    return out


def describe(bank):
    return {k: [banks.describe(x) for x in v] for k, v in bank.inaccessibleInstruments.items() if v}


def unlisted(ctx, rng, index):
    model = listed(rng)
    order = list(range(len(model)))
    rng.shuffle(order)
    plain = layout(model, order, rng.random() < 0.5)
    blocks, want, open_ = [], {}, False
    garbage = index % 5 == 4
    for at in range(len(plain) + 1):
        if at:
            blocks.append(plain[at - 1][:2])
        if rng.random() < 0.5:
            continue
        low = KINDS.index(plain[at - 1][2]) if at else 0
        high = KINDS.index(plain[at][2]) if at < len(plain) else 2
        kinds = KINDS[low:high + 1]
        # the ID that stands for a shared record is its first one
        key = min(plain[at - 1][1]) if at else None
        hidden = []
        while len(hidden) < rng.choice([1, 1, 2, 3]):
            h = MAKE[rng.choice(kinds)](rng)
            if sum(len(sbnk.record(x)) for x in hidden + [h]) > 400:
                break
            hidden.append(h)
        if garbage:
            n = rng.choice([1, 2, 3, 5, 8, 9, 10, 13, 14, 20, 50, 120])
            blocks.append((rng.choice([rng.randbytes(n), bytes(n), b'\xff' * n]), []))
            continue
        open_ |= len(kinds) > 1
        for h in hidden:
            blocks.append((sbnk.record(h), []))
        if hidden:
            want[key] = hidden
    f = assemble(model, blocks)
    ctx.info('file', f)
    ctx.info('listed', model)
    ctx.info('unlisted', {str(k): v for k, v in want.items()})
    bank = sb.SBNK(f)
    ctx.eq('listed instruments', [banks.describe(x) for x in bank.instruments], model, 'listed instruments')
    saved = bank.save()[0]
    if garbage:
        ctx.check('garbage', True)
        ctx.eq('garbage', sbnk.parse(saved)[0], model, 'listed instruments after saving')
        return
    ctx.eq('found', describe(bank), want, 'unlisted instruments')
    ctx.bytesEq('resaved', saved, f, 'resaved bank')
    bank.inaccessibleInstruments.clear()
    saved = bank.save()[0]
    ctx.bytesEq('cleared', saved, assemble(model, [p[:2] for p in plain]), 'bank saved without its unlisted instruments')
    if open_:
        ctx.nontrivial(f)


def byHand(ctx, rng):
    model = listed(rng)
    hidden = {}
    for key in [None] + list(range(len(model))) + [len(model), len(model) + 1, 500]:
        if rng.random() < 0.4:
            hidden[key] = [MAKE[rng.choice(KINDS)](rng) for _ in range(rng.choice([1, 2]))]
    records = [sbnk.record(h) for v in hidden.values() for h in v]
    if len(set(records + [sbnk.record(m) for m in model if m])) < len(records) + sum(1 for m in model if m):
        return
    bank = sb.SBNK.fromInstruments([banks.toInstrument(m) for m in model])
    keys = list(hidden)
    rng.shuffle(keys)
    for k in keys:
        bank.inaccessibleInstruments[k] = [banks.toInstrument(h) for h in hidden[k]]
    blocks = [(sbnk.record(h), []) for h in hidden.get(None, [])]
    for rec, slots, _ in layout(model, range(len(model)), True):
        blocks.append((rec, slots))
        for i in slots:
            blocks += [(sbnk.record(h), []) for h in hidden.get(i, [])]
    for k in sorted(k for k in hidden if k is not None and (k >= len(model) or model[k] is None)):
        blocks += [(sbnk.record(h), []) for h in hidden[k]]
    ctx.info('listed', model)
    ctx.info('unlisted', {str(k): v for k, v in hidden.items()})
    ctx.bytesEq('kept by saving', bank.save()[0], assemble(model, blocks), 'bank with unlisted instruments put in by hand')


def guess(ctx, rng):
    kind = rng.choice(KINDS)
    rec = sbnk.record(MAKE[kind](rng))
    before = rng.randbytes(rng.randrange(5))
    types = {'single': rng.choice([1, 2, 3]), 'range': 16, 'regional': 17}
    possible = {types[k] for k in KINDS if k == kind or rng.random() < 0.6}
    got = sb.guessInstrumentType(before + rec + bytes(rng.randrange(3)), len(before), set(possible), len(rec))
    want = {'single': 1, 'range': 16, 'regional': 17}[kind]
    ctx.check('direct guess', got == want, f'{kind} record {rec.hex()} among {possible} is guessed as {got}')
    ctx.check('direct guess', sb.guessInstrumentType(before + rec, len(before), set(), len(rec)) is None,
              'guess without a choice')


def case(ctx, rng, index):
    if index % 4 == 1:
        byHand(ctx, rng)
        guess(ctx, rng)
    else:
        unlisted(ctx, rng, index)
