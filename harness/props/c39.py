"""New objects start out as documented, and arguments that are left out mean what the documentation says."""

import inspect
import os
import random

import ndspy
from ndspy import (bmg, bnbl, bncl, code, codeCompression, color, fnt, graphics2D, model, narc, rom, soundArchive, soundBank,
                   soundGroup, soundSequence, soundSequenceArchive, soundSequencePlayer, soundStream, soundStreamPlayer,
                   soundWave, soundWaveArchive, texture)
from ndspy.extras import music
from gen import blobs, codeblobs, corpus, roms, songs, waves
from ref import rom as rrom, seq as rseq

CASES = {'quick': 17000, 'thorough': 102000}
RULE = ('Every public class, created without arguments, with a random part of its optional arguments (given by position or'
        ' by name), and again after earlier objects were edited in place; every public function with optional arguments,'
        ' called without them and with the documented values; all enumeration members. Non-trivial = object with at'
        ' least one argument given, or a call whose result depends on the option.')
REQUIRED = {'new object': 2000, 'partly given': 5000, 'own containers': 2000, 'option left out': 5000, 'enumeration': 500,
            'constants': 500, 'loaded': 500}
ASSUMPTIONS = ['Classes without a documentation page (tiles, textures, models, layouts) are held to the defaults in their'
               ' signatures.']

# class or factory, {attribute: value in a new object}, [(optional parameter, attribute it sets)]
PCM8 = ndspy.WaveType.PCM8
S = soundSequence


def entry(make, defaults, params=(), first=()):
    """
    make(*first, *args, **kwargs) creates an object; params is
    [(parameter, attribute, value maker)] of its optional parameters in order.
    """
    return make, defaults, params, first


def n8(rng):
    return rng.randrange(128)


def n16(rng):
    return rng.randrange(65536)


def flag(rng):
    return rng.random() < 0.5


def ids(rng):
    return [rng.randrange(100) for _ in range(rng.randrange(4))]


def raw(rng):
    return rng.randbytes(rng.randrange(9))


SEQ_SETTINGS = [('bankID', 'bankID', n16), ('volume', 'volume', n8), ('channelPressure', 'channelPressure', n8),
                ('polyphonicPressure', 'polyphonicPressure', n8), ('playerID', 'playerID', n8)]
SEQ_DEFAULTS = dict(bankID=0, volume=127, channelPressure=64, polyphonicPressure=50, playerID=0)
STRM_SETTINGS = [('unk02', 'unk02', n16), ('volume', 'volume', n8), ('priority', 'priority', n8),
                 ('playerID', 'playerID', n8), ('unk07', 'unk07', n8)]
STRM_DEFAULTS = dict(unk02=0, volume=127, priority=64, playerID=0, unk07=0, waveType=PCM8, isLooped=False, channels=[],
                     unk03=0, sampleRate=8000, time=0, loopOffset=0, samplesPerBlock=0, samplesInLastBlock=0, unk28=0,
                     unk2C=0, unk30=0, unk34=0, unk38=0, unk3C=0, unk40=0, unk44=0, dataMergeOptimizationID=0)
WAVE = dict(waveType=PCM8, isLooped=False, sampleRate=8000, time=0, loopOffset=0, totalLength=0)
TEX = dict(unk08=0, unk10=0, unk18=0, unk20=0, unk2C=0, unk32=0, textures=[], palettes=[])
ROM = dict(name=b'', idCode=b'####', developerCode=b'\0\0', unitCode=0, encryptionSeedSelect=0, deviceCapacity=9, pad015=0,
           pad016=0, pad017=0, pad018=0, pad019=0, pad01A=0, pad01B=0, pad01C=0, region=0, version=0, autostart=0,
           arm9EntryAddress=0x02000800, arm9RamAddress=0x02000000, arm7EntryAddress=0x02380000, arm7RamAddress=0x02380000,
           normalCardControlRegisterSettings=0x00416657, secureCardControlRegisterSettings=0x081808F8,
           secureAreaChecksum=0, secureTransferDelay=0x0D7E, arm9CodeSettingsPointerAddress=0,
           arm7CodeSettingsPointerAddress=0, secureAreaDisable=bytes(8), pad088=bytes(0x38), debugRomAddress=0,
           pad16C=bytes(0x94), pad200=bytes(0x3E00), rsaSignature=b'', arm9=b'', arm9PostData=b'', arm7=b'',
           arm9OverlayTable=b'', arm7OverlayTable=b'', iconBanner=b'', debugRom=b'', files=[], sortedFileIds=[])
SDAT = dict(sequences=[], sequenceArchives=[], banks=[], waveArchives=[], sequencePlayers=[], groups=[], streamPlayers=[],
            streams=[], fatLengthsIncludePadding=False, firstFileAlignment=None, fileAlignment=0x20, padAtEnd=True,
            padSymbSizeTo4InSDATHeader=False)
BMG = dict(messages=[], instructions=[], labels=[], scripts=[], id=0, encoding='utf-16', fullEncoding='utf-16le',
           endianness='<', unk14=0, unk18=0, unk1C=0)
I8, I4 = graphics2D.ImageFormat.I8, graphics2D.ImageFormat.I4
FULL, SHORT = graphics2D.TilemapFormat.I10H1V1P4, graphics2D.TilemapFormat.I8
TOP_LEFT = 0x11
ALIGN = [0x11, 0x12, 0x14, 0x21, 0x22, 0x24, 0x41, 0x42, 0x44]


def align(rng):
    return rng.choice(ALIGN)


def loadMethod(rng):
    return rng.choice(list(soundGroup.SWARLoadMethod))


def entryType(rng):
    return rng.choice(list(soundGroup.GroupEntryType))


GROUP = dict(type=soundGroup.GroupEntryType.SSEQ, id=0, loadSSEQ=False,
             loadSBNKSWARsFrom=soundGroup.SWARLoadMethod.SWAR_IDS, loadSWAR=False, loadSSAR=False)

NEW = {
    'BMG': entry(bmg.BMG, BMG, [('data', None, None), ('id', 'id', n8)]),
    'BMG.fromMessages': entry(bmg.BMG.fromMessages, BMG, [
        ('instructions', 'instructions', lambda r: [r.randbytes(8)]), ('labels', 'labels', lambda r: [(n8(r), n8(r))]),
        ('scripts', 'scripts', lambda r: [(n8(r), n8(r))]), ('id', 'id', n8)], ([],)),
    'Message': entry(bmg.Message, dict(info=b'', stringParts=[], isNull=False), [
        ('info', 'info', raw), ('stringParts', 'stringParts', lambda r: ['x' * r.randrange(1, 4)]),
        ('isNull', 'isNull', flag)]),
    'Escape': entry(bmg.Message.Escape, dict(type=0, data=b''), [('type', 'type', n8), ('data', 'data', raw)]),
    'BNBLTouchArea': entry(bnbl.BNBLTouchArea, dict(x=0, y=0, width=0, height=0, alignment=TOP_LEFT), [
        ('x', 'x', n8), ('y', 'y', n8), ('width', 'width', n8), ('height', 'height', n8),
        ('alignment', 'alignment', align)]),
    'BNBL': entry(bnbl.BNBL, dict(unk04=0, touchAreas=[])),
    'BNBL.fromTouchAreas': entry(bnbl.BNBL.fromTouchAreas, dict(unk04=0, touchAreas=[]), [('unk04', 'unk04', n8)], ([],)),
    'BNCLImagePosition': entry(bncl.BNCLImagePosition, dict(x=0, y=0, alignment=TOP_LEFT, imageID=0), [
        ('x', 'x', n8), ('y', 'y', n8), ('alignment', 'alignment', align), ('imageID', 'imageID', n8)]),
    'BNCL': entry(bncl.BNCL, dict(unk04=0, imagePositions=[])),
    'BNCL.fromImagePositions': entry(bncl.BNCL.fromImagePositions, dict(unk04=0, imagePositions=[]), [
        ('unk04', 'unk04', n8)], ([],)),
    'Section': entry(code.MainCodeFile.Section, dict(data=b'ab', ramAddress=7, bssSize=8, implicit=False), [
        ('implicit', 'implicit', flag)], (b'ab', 7, 8)),
    'Folder': entry(fnt.Folder, dict(folders=[], files=[], firstID=0), [
        ('folders', 'folders', lambda r: [('a', fnt.Folder())]), ('files', 'files', lambda r: ['x', 'y'][:r.randrange(3)]),
        ('firstID', 'firstID', n16)]),
    'NARC': entry(narc.NARC, dict(files=[], endiannessOfBeginning='<')),
    'NARC.fromFilesAndNames': entry(narc.NARC.fromFilesAndNames, dict(files=[b'a'], endiannessOfBeginning='<'), [
        ('filenames', 'filenames', lambda r: fnt.Folder(files=['q']))], ([b'a'],)),
    'NintendoDSRom': entry(rom.NintendoDSRom, ROM),
    'SDAT': entry(soundArchive.SDAT, SDAT),
    'NoteDefinition': entry(soundBank.NoteDefinition, dict(
        waveID=0, waveArchiveIDID=0, pitch=60, attack=127, decay=127, sustain=127, release=127, pan=64,
        type=soundBank.NoteType.PCM), [
            ('waveID_dutyCycle', 'waveID', n8), ('waveArchiveIDID', 'waveArchiveIDID', n8), ('pitch', 'pitch', n8),
            ('attack', 'attack', n8), ('decay', 'decay', n8), ('sustain', 'sustain', n8), ('release', 'release', n8),
            ('pan', 'pan', n8), ('type', 'type', lambda r: r.choice(list(soundBank.NoteType)))]),
    'SBNK': entry(soundBank.SBNK, dict(unk02=0, waveArchiveIDs=[], instruments=[], inaccessibleInstruments={},
                                       dataMergeOptimizationID=0), [
        ('file', None, None), ('unk02', 'unk02', n16), ('waveArchiveIDs', 'waveArchiveIDs', ids)]),
    'SBNK.fromInstruments': entry(soundBank.SBNK.fromInstruments, dict(
        unk02=0, waveArchiveIDs=[], instruments=[], inaccessibleInstruments={}, dataMergeOptimizationID=0), [
            ('unk02', 'unk02', n16), ('waveArchiveIDs', 'waveArchiveIDs', ids)], ([],)),
    'GroupEntry': entry(soundGroup.GroupEntry, GROUP, [('type', 'type', entryType), ('options', None, lambda r: 2),
                                                       ('id', 'id', n16)]),
    'GroupEntry.fromFlags': entry(soundGroup.GroupEntry.fromFlags, dict(GROUP, id=77), [
        ('loadSSEQ', 'loadSSEQ', flag), ('loadSBNKSWARsFrom', 'loadSBNKSWARsFrom', loadMethod),
        ('loadSWAR', 'loadSWAR', flag), ('loadSSAR', 'loadSSAR', flag)], (soundGroup.GroupEntryType.SSEQ, 77)),
    'SSEQ': entry(S.SSEQ, dict(SEQ_DEFAULTS, unk02=0, events=[], parsed=True, dataMergeOptimizationID=0), [
        ('file', None, None), ('unk02', 'unk02', n16)] + SEQ_SETTINGS),
    'SSEQ.fromEvents': entry(S.SSEQ.fromEvents, dict(SEQ_DEFAULTS, unk02=0, events=[], parsed=True,
                                                     dataMergeOptimizationID=0), [
        ('unk02', 'unk02', n16)] + SEQ_SETTINGS, ([],)),
    'FromVariableSequenceEvent': entry(S.FromVariableSequenceEvent, dict(subType=0xC0, variableID=3, unknown=None), [
        ('unknown', 'unknown', n8)], (0xC0, 3)),
    'SSAR': entry(soundSequenceArchive.SSAR, dict(unk02=0, sequences=[], events=[], parsed=True,
                                                  dataMergeOptimizationID=0), [
        ('file', None, None), ('unk02', 'unk02', n16)]),
    'SSAR.fromEventsAndSequences': entry(soundSequenceArchive.SSAR.fromEventsAndSequences, dict(
        unk02=0, sequences=[], events=[], parsed=True, dataMergeOptimizationID=0), [('unk02', 'unk02', n16)], ([], [])),
    'SSARSequence': entry(soundSequenceArchive.SSARSequence, dict(SEQ_DEFAULTS, parsed=True, firstEvent=None),
                          SEQ_SETTINGS, (None,)),
    'SequencePlayer': entry(soundSequencePlayer.SequencePlayer, dict(maxSequences=1, channels=set(), heapSize=0), [
        ('maxSequences', 'maxSequences', n8), ('channels', 'channels', lambda r: set(r.sample(range(16), 3))),
        ('heapSize', 'heapSize', n16)]),
    'STRM': entry(soundStream.STRM, STRM_DEFAULTS, [('file', None, None)] + STRM_SETTINGS),
    'STRM.fromChannels': entry(soundStream.STRM.fromChannels, STRM_DEFAULTS, STRM_SETTINGS, ([],)),
    'StreamPlayer': entry(soundStreamPlayer.StreamPlayer, dict(channels=[]), [('channels', 'channels', ids)]),
    'SWAV': entry(soundWave.SWAV, dict(WAVE, data=b'')),
    'SWAV.fromData': entry(soundWave.SWAV.fromData, dict(WAVE, data=b''), [
        ('data', 'data', raw), ('waveType', 'waveType', lambda r: r.choice(list(ndspy.WaveType))),
        ('isLooped', 'isLooped', flag), ('sampleRate', 'sampleRate', n16), ('time', 'time', n16),
        ('loopOffset', 'loopOffset', n16), ('totalLength', 'totalLength', n16)]),
    'SWAR': entry(soundWaveArchive.SWAR, dict(unk02=0, waves=[], dataMergeOptimizationID=0), [
        ('file', None, None), ('unk02', 'unk02', n16)]),
    'SWAR.fromWaves': entry(soundWaveArchive.SWAR.fromWaves, dict(unk02=0, waves=[], dataMergeOptimizationID=0), [
        ('unk02', 'unk02', n16)], ([],)),
    'NSBTX': entry(texture.NSBTX, TEX),
    'NSBMD': entry(model.NSBMD, {('texU' + k[1:] if k[0] == 'u' else k): v for k, v in TEX.items()}),
    'ImageTile': entry(graphics2D.ImageTile, dict(pixels=[0] * 64, format=I8), [
        ('data', None, None), ('format', 'format', lambda r: r.choice([I8, I4]))]),
    'ImageTile.fromPixels': entry(graphics2D.ImageTile.fromPixels, dict(pixels=list(range(64)), format=I8), [
        ('format', 'format', lambda r: r.choice([I8, I4]))], (list(range(64)),)),
    'TilemapTile': entry(graphics2D.TilemapTile, dict(tileNum=0, hFlip=False, vFlip=False, paletteNum=0, format=FULL), [
        ('value', None, lambda r: 0), ('format', 'format', lambda r: r.choice([FULL, SHORT]))]),
    'TilemapTile.fromParameters': entry(graphics2D.TilemapTile.fromParameters, dict(
        tileNum=9, hFlip=False, vFlip=False, paletteNum=0, format=FULL), [
            ('format', 'format', lambda r: FULL), ('hFlip', 'hFlip', flag), ('vFlip', 'vFlip', flag),
            ('paletteNum', 'paletteNum', lambda r: r.randrange(16))], (9,)),
    'SingleNoteInstrument': entry(lambda: soundBank.SingleNoteInstrument(soundBank.NoteDefinition()),
                                  dict(bankOrderKey=0, dataMergeOptimizationID=0, type=1)),
    'RangeInstrument': entry(lambda: soundBank.RangeInstrument(60, [soundBank.NoteDefinition()]),
                             dict(bankOrderKey=0, dataMergeOptimizationID=0, type=16, firstPitch=60)),
    'RegionalInstrument': entry(lambda: soundBank.RegionalInstrument([]),
                                dict(bankOrderKey=0, dataMergeOptimizationID=0, type=17, regions=[])),
}
NAMES = sorted(NEW)

ENUMS = {
    ndspy.Processor: dict(ARM9=9, ARM7=7), ndspy.WaveType: dict(PCM8=0, PCM16=1, ADPCM=2),
    soundBank.NoteType: dict(PCM=1, PSG_SQUARE_WAVE=2, PSG_WHITE_NOISE=3),
    soundGroup.GroupEntryType: dict(SSEQ=0, SBNK=1, SWAR=2, SSAR=3), soundGroup.SWARLoadMethod: dict(FILE_IDS=0, SWAR_IDS=1),
    S.MonoPolySequenceEvent.Value: dict(POLY=0, MONO=1), S.VibratoTypeSequenceEvent.Value: dict(PITCH=0, VOLUME=1, PAN=2),
    texture.TextureFormat: dict(A3I5=1, I2=2, I4=3, I8=4, TEXELED=5, A5I3=6, A1BGR5=7),
    texture.TextureCoordinatesTransformationMode: dict(NONE=0, TEX_COORD=1, NORMAL=2, VERTEX=3),
}
CONSTANTS = [
    (ndspy.Alignment, dict(LEFT=1, RIGHT=2, H_CENTER=4, TOP=0x10, BOTTOM=0x20, V_CENTER=0x40, CENTER=0x44)),
    (soundBank, dict(NO_INSTRUMENT_TYPE=0, SINGLE_NOTE_PCM_INSTRUMENT_TYPE=1, SINGLE_NOTE_PSG_SQUARE_WAVE_INSTRUMENT_TYPE=2,
                     SINGLE_NOTE_PSG_WHITE_NOISE_INSTRUMENT_TYPE=3, RANGE_INSTRUMENT_TYPE=16, REGIONAL_INSTRUMENT_TYPE=17)),
]


def plain(v):
    return bytes(v) if isinstance(v, (bytearray, memoryview)) else v


def look(ctx, monitor, what, obj, want):
    for k, v in want.items():
        got = plain(getattr(obj, k))
        if isinstance(v, fnt.Folder):
            ctx.eq(monitor, corpus.state(got), corpus.state(v), f'{what}.{k}')
            continue
        ctx.check(monitor, type(got) is type(v) or not isinstance(v, (bool, bytes, str, list, set, dict)),
                  f'{what}.{k} is {got!r:.80} ({type(got).__name__})')
        ctx.check(monitor, got == v, f'{what}.{k} is {got!r:.80}, not {v!r:.80}')
    if 'filenames' in vars(obj) and 'filenames' not in want:
        f = obj.filenames
        ctx.eq(monitor, (f.folders, f.files, f.firstID), ([], [], 0), f'{what}.filenames')


def spoil(obj, depth=0):
    """Edit everything inside an object in place."""
    for k, v in list(vars(obj).items()):
        if isinstance(v, list):
            v.append('spoiled')
        elif isinstance(v, set):
            v.add(99)
        elif isinstance(v, dict):
            v['spoiled'] = 1
        elif isinstance(v, bytearray):
            v.extend(b'spoiled')
        elif corpus.isOurs(v) and hasattr(v, '__dict__') and depth < 2 and not isinstance(v, (int, type)):
            spoil(v, depth + 1)


def fresh(first):
    return tuple(list(a) if isinstance(a, list) else a for a in first)


def objects(ctx, rng):
    name = rng.choice(NAMES)
    make, defaults, params, first = NEW[name]
    ctx.info('what', name)
    a = make(*fresh(first))
    look(ctx, 'new object', f'{name}()', a, defaults)
    if name == 'NintendoDSRom':
        # the console insists on the checksum of the one right logo
        logo = bytes(a.nintendoLogo)
        ctx.eq('new object', (len(logo), rrom.crc16(logo)), (0x9C, 0xCF56), 'length and checksum of the logo')
    want = dict(defaults)
    kw, pos = {}, []
    if params:
        n = rng.randrange(len(params) + 1)
        signature = inspect.signature(make).parameters
        for i, (p, attribute, value) in enumerate(params):
            byPosition = i < n and signature[p].kind is not inspect.Parameter.KEYWORD_ONLY
            if not byPosition and rng.random() < 0.5:
                continue
            if value is None:
                if byPosition:
                    pos.append(None)
                continue
            v = value(rng)
            if byPosition:
                pos.append(v)
            else:
                kw[p] = v
            if attribute:
                want[attribute] = v
        if name == 'NoteDefinition':
            # the first field has another name for other types
            want['waveID' if want['type'] == soundBank.NoteType.PCM else 'dutyCycle'] = want.pop('waveID')
            if want['type'] != soundBank.NoteType.PCM:
                want = {k: v for k, v in want.items() if k not in ('waveID',)}
                if want['type'] == soundBank.NoteType.PSG_WHITE_NOISE:
                    want.pop('dutyCycle')
        ctx.info('arguments', [repr(pos), repr(kw)])
        b = make(*fresh(first), *pos, **kw)
        look(ctx, 'partly given', f'{name}({pos}, {kw})', b, want)
        if pos or kw:
            ctx.nontrivial(name, repr(pos), repr(kw))
        spoil(b)
    spoil(a)
    look(ctx, 'own containers', f'{name}() after other objects were edited', make(*fresh(first)), defaults)


# classes whose settings are not stored in the file itself
LOADED = {'SSEQ': S.SSEQ, 'SSAR': soundSequenceArchive.SSAR, 'SBNK': soundBank.SBNK, 'STRM': soundStream.STRM,
          'SWAR': soundWaveArchive.SWAR}


def loaded(ctx, rng):
    """Objects loaded from data or from a file without saying more have the same defaults as new ones."""
    name = rng.choice(sorted(LOADED))
    cls = LOADED[name]
    _, defaults, params, _ = NEW[name]
    data = bytes(cls().save()[0])
    path = os.path.join(ctx.scratch, name)
    with open(path, 'wb') as f:
        f.write(data)
    want = {a: defaults[a] for _, a, _ in params if a}
    settings = [(p, a, v) for p, a, v in params if a]
    n = rng.randrange(len(settings) + 1)
    pos, kw = [], {}
    for i, (p, a, value) in enumerate(settings):
        v = value(rng)
        if i < n:
            pos.append(v)
        elif rng.random() < 0.3:
            kw[p] = v
        else:
            continue
        want[a] = v
    ctx.info('what', name)
    ctx.info('arguments', [repr(pos), repr(kw)])
    look(ctx, 'loaded', f'{name}(data, {pos}, {kw})', cls(data, *pos, **kw), want)
    look(ctx, 'loaded', f'{name}.fromFile(path, {pos}, {kw})', cls.fromFile(path, *pos, **kw), want)
    look(ctx, 'loaded', f'{name}.fromFile(path)', cls.fromFile(path), {a: defaults[a] for _, a, _ in params if a})
    look(ctx, 'loaded', f'{name}(data)', cls(data), {a: defaults[a] for _, a, _ in params if a})


def comparable(x):
    if isinstance(x, (bytes, bytearray)):
        return bytes(x)
    if isinstance(x, tuple) and x and isinstance(x[0], (bytes, bytearray)):
        return (bytes(x[0]),) + tuple(map(repr, x[1:]))
    if hasattr(x, 'tobytes'):
        return (x.size, x.mode, x.tobytes())
    return corpus.state(x)


def seq(rng):
    return rseq.makeAll(songs.straight(rng, [(0, [60, 61]), (5, [1, 2])], rng.randrange(1, 12)))


def palette(rng, n=256):
    return [(rng.randrange(32), rng.randrange(32), rng.randrange(32), 1) for _ in range(n)]


def imageTiles(rng, n):
    return [graphics2D.ImageTile.fromPixels([rng.randrange(16) for _ in range(64)], I4) for _ in range(n)]


def mapTiles(rng, n, m):
    return [graphics2D.TilemapTile.fromParameters(rng.randrange(m), FULL, flag(rng), flag(rng), rng.randrange(16))
            for _ in range(n)]


def overlay(rng):
    return code.Overlay(codeblobs.codeData(rng, rng.randrange(8)), 0x2000000, 100, 0, 0, 0, 0, 0, rng.choice([0, 2]))


def optionCalls(rng):
    """
    Returns (label, call, documented keyword arguments, others): call(kw)
    uses equal inputs each time; others is what may make a difference.
    """
    seed = rng.randrange(1 << 60)

    def again():
        return random.Random(seed)
    k = rng.choice(OPTIONS)
    return k, lambda kw: OPTION[k][0](again(), kw), OPTION[k][1], OPTION[k][2]


def wav(r):
    w = waves.wave(r, 80)
    return waves.toWave(w[:2] + (max(300, w[2]),) + w[3:4] + (r.randrange(4), r.randrange(4, 99), r.randbytes(60)))


def strm(r):
    f, channels, settings = waves.stream(r)
    s = soundStream.STRM.fromChannels(channels, *settings)
    s.sampleRate, s.time, s.unk40 = max(300, f['sampleRate']), f['time'], 5
    return s


def maincodeFile(r):
    data, (ram, pointer) = corpus.KINDS['MainCode'].file(r)
    return code.MainCodeFile(data, ram, pointer)


def put(r, kw):
    t = [0] * 128
    graphics2D.putTile(t, r.randrange(32), r.randrange(4), 1, **kw)
    return t


def moved(r, kw):
    e = seq(r)
    result = music.moveInTime(e, 0, r.randrange(0, 2000), **kw)
    return result[:2] + (int(result[2]), rseq.describeAll(e))


def looped(r, kw):
    m = music.SSEQMusic(S.SSEQ.fromEvents([S.RestSequenceEvent(50)] + seq(r) + [S.EndTrackSequenceEvent()]))
    m.loop(r.randrange(30), r.choice([40, 50]), **kw)
    return rseq.describeAll(m.save()[0].events)


def rgb(r, top):
    return [r.randrange(top) for _ in range(3)]


# label: (function of (rng, kwargs), documented defaults, another value for each)
OPTION = {
    'Overlay.save': (lambda r, kw: overlay(r).save(**kw), dict(compress=False), dict(compress=True)),
    'MainCodeFile.save': (lambda r, kw: maincodeFile(r).save(**kw), dict(compress=False), dict(compress=True)),
    'NintendoDSRom.save': (lambda r, kw: roms.toRom(roms.model(r, 3, 100)).save(**kw), dict(updateDeviceCapacity=False),
                           dict(updateDeviceCapacity=True)),
    'SWAV.save': (lambda r, kw: wav(r).save(**kw), dict(updateTime=False, updateTotalLength=False),
                  dict(updateTime=True, updateTotalLength=True)),
    'STRM.save': (lambda r, kw: strm(r).save(**kw), dict(updateTime=False), dict(updateTime=True)),
    'codeCompression.compress': (lambda r, kw: codeCompression.compress(
        blobs.codeLike(r, r.choice([100, 0x4100])), **kw), dict(isArm9=False), dict(isArm9=True)),
    'color.pack': (lambda r, kw: color.pack(*rgb(r, 32), **kw), dict(a=1), dict(a=0)),
    'color.pack255': (lambda r, kw: color.pack255(*rgb(r, 256), **kw), dict(a=255), dict(a=0)),
    'color.expand': (lambda r, kw: color.expand(*rgb(r, 32), **kw), dict(a=1), dict(a=0)),
    'color.contract': (lambda r, kw: color.contract(*rgb(r, 256), **kw), dict(a=255), dict(a=0)),
    'color.save': (lambda r, kw: color.save(*rgb(r, 32), **kw), dict(a=1), dict(a=0)),
    'ImageTile': (lambda r, kw: graphics2D.ImageTile(r.randbytes(64)[:64 if kw.get('format', I8) == I8 else 32], **kw),
                  dict(format=I8), dict(format=I4)),
    'loadImageTiles': (lambda r, kw: graphics2D.loadImageTiles(r.randbytes(192), **kw), dict(format=I8), dict(format=I4)),
    'ImageTile.render': (lambda r, kw: imageTiles(r, 1)[0].renderAsImage(palette(r), **kw), dict(paletteNum=0),
                         dict(paletteNum=3)),
    'ImageTile.render list': (lambda r, kw: list(imageTiles(r, 1)[0].render(palette(r), **kw)), dict(paletteNum=0),
                              dict(paletteNum=3)),
    'renderImageTiles': (lambda r, kw: graphics2D.renderImageTilesAsImage(imageTiles(r, r.choice([1, 5, 40])), palette(r),
                                                                          **kw), dict(paletteNum=0, width=32),
                         dict(paletteNum=2, width=7)),
    'renderImageTiles list': (lambda r, kw: list(graphics2D.renderImageTiles(imageTiles(r, 40), palette(r), **kw)),
                              dict(paletteNum=0, width=32), dict(paletteNum=2, width=7)),
    'loadTilemapTiles': (lambda r, kw: graphics2D.loadTilemapTiles(r.randbytes(24), **kw), dict(format=FULL),
                         dict(format=SHORT)),
    'TilemapTile': (lambda r, kw: graphics2D.TilemapTile(r.randrange(256), **kw), dict(format=FULL), dict(format=SHORT)),
    'TilemapTile.render': (lambda r, kw: mapTiles(r, 1, 2)[0].renderAsImage(imageTiles(r, 6), palette(r), **kw),
                           dict(tileNumOffset=0), dict(tileNumOffset=-2)),
    'TilemapTile.render list': (lambda r, kw: list(mapTiles(r, 1, 2)[0].render(imageTiles(r, 6), palette(r), **kw)),
                                dict(tileNumOffset=0), dict(tileNumOffset=-2)),
    'renderTilemapTiles': (lambda r, kw: graphics2D.renderTilemapTilesAsImage(
        mapTiles(r, 6, 3), imageTiles(r, 6), palette(r), 2, **kw), dict(tileNumOffset=0), dict(tileNumOffset=-2)),
    'renderTilemapTiles list': (lambda r, kw: list(graphics2D.renderTilemapTiles(
        mapTiles(r, 6, 3), imageTiles(r, 6), palette(r), 2, **kw)), dict(tileNumOffset=0), dict(tileNumOffset=-2)),
    'tileAt': (lambda r, kw: graphics2D.tileAt(list(range(128)), r.randrange(8), r.randrange(4), **kw), dict(width=32),
               dict(width=8)),
    'putTile': (put, dict(width=32), dict(width=8)),
    'renderTextureData': (lambda r, kw: list(texture.renderTextureData(
        r.randbytes(8), b'', texture.TextureFormat.I8, 8, 1, [(0, 0, 0, 1)] * 256, **kw))
        and texture.renderTextureDataAsImage(bytes(4) + r.randbytes(60), b'', texture.TextureFormat.I8, 8, 8,
                                             palette(r), **kw),
        dict(isColor0Transparent=True), dict(isColor0Transparent=False)),
    'readSequenceEvents': (lambda r, kw: S.readSequenceEvents(
        bytes(S.SSEQ.fromEvents(seq(r) + [S.EndTrackSequenceEvent()]).save()[0][0x1C:]), **kw)[0],
                           dict(notableOffsets=[]), {}),
    'printSequenceEventList': (lambda r, kw: S.printSequenceEventList(seq(r), **kw), dict(labels={}, linePrefix=''),
                               dict(linePrefix='>>')),
    'NoteDefinition.fromData': (lambda r, kw: soundBank.NoteDefinition.fromData(r.randbytes(10), **kw),
                                dict(type=soundBank.NoteType.PCM), dict(type=soundBank.NoteType.PSG_SQUARE_WAVE)),
    'durationOf': (lambda r, kw: music.durationOf(seq(r), **kw), dict(initialMonoPolyMode=S.MonoPolySequenceEvent.Value.MONO),
                   dict(initialMonoPolyMode=S.MonoPolySequenceEvent.Value.POLY)),
}
MODES = S.MonoPolySequenceEvent.Value
OPTION['moveInTime'] = (moved, dict(initialMonoPolyMode=MODES.MONO, cut=False, append=False),
                        dict(initialMonoPolyMode=MODES.POLY, cut=True, append=True))
OPTION['SSEQMusic.loop'] = (looped, dict(clearTrailing=True), dict(clearTrailing=False))
OPTIONS = sorted(OPTION)


def options(ctx, rng):
    label, call, documented, others = optionCalls(rng)
    ctx.info('function', label)
    want = comparable(call(documented))
    for k in [None] + list(documented):
        kw = {x: v for x, v in documented.items() if x == k}
        got = comparable(call(kw))
        ctx.check('option left out', got == want, lambda: f'{label} with {kw} instead of {documented}: '
                  + corpus.difference(got, want))
    for k, v in others.items():
        if comparable(call(dict(documented, **{k: v}))) != want:
            ctx.nontrivial(label, k, repr(want)[:2000])
            ctx.note(f'{label} depends on {k}')


def case(ctx, rng, index):
    if index % 20 == 0:
        for e, members in ENUMS.items():
            for k, v in members.items():
                m = getattr(e, k, None)
                ctx.check('enumeration', m is not None and m == v and m.value == v and e(v) is m, f'{e.__name__}.{k} is {m!r}')
        for owner, members in CONSTANTS:
            for k, v in members.items():
                ctx.check('constants', getattr(owner, k, None) == v, f'{owner}.{k} is {getattr(owner, k, None)!r}, not {v}')
    elif index % 10 == 4:
        loaded(ctx, rng)
    elif index % 2:
        objects(ctx, rng)
    else:
        options(ctx, rng)
