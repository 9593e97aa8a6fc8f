"""Write DESIGN.md from properties.jsonl, the property modules, seeded/ and KNOWN_FINDINGS.json."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, 'harness'), os.environ.get('VERIF_REPO', '/repo')]
sys.dont_write_bytecode = True

# What decides the property, what a test suite of fixed examples would not show
ORACLE = {
'C01': ('The input itself. The input buffer is compared with a copy afterwards; a bytearray input must give the same stream.',
        'The compressor has length- and window-dependent paths (end of data, 18-byte matches, 4096-byte window); the tests compress one short string.'),
'C02': ('`ref/lz.py`: a strict decoder that checks each token (length, distance, no trailing flags), a greedy size model, and an encoder that emits arbitrary legal token streams.',
        'A compressor and decompressor that are wrong in the same way still round-trip; the independent decoder and encoder separate them.'),
'C03': ('The input itself, or the input followed by at most seven zero bytes.',
        'Whether data is stored or compressed depends on a size comparison; every length around the threshold is visited.'),
'C04': ('`ref/lz.py`: a console-style expander that works in place in one buffer (so overwriting unread input is visible), a footer checker and an independent encoder with any header length and appended data.',
        'In-place safety is not visible to the library\'s own decompressor, which uses two buffers.'),
'C05': ('`ref/fnt.py`: strict reader and writer of filename tables (canonical and shuffled).',
        'Folder numbers, parent links and first IDs are only exercised by trees with many folders at several levels.'),
'C06': ('The list of paths and IDs produced while the tree was generated.',
        'Covers near misses (prefixes, case, trailing parts, IDs one outside a range), which the tests do not ask for.'),
'C07': ('The model of the archive, and `ref/narc.py` for archives of other tools.',
        'Sizes of every residue, shared and oddly placed data, both byte orders.'),
'C08': ('`ref/narc.py` strict reader: every block, range, alignment and overlap; and canonical writer.',
        'Loading through the library tolerates wrong sizes; the strict reader does not.'),
'C09': ('The model the ROM was built from; `ref/rom.py` writes images with parts in random order.',
        'Every header field gets its own value, so exchanged or dropped fields show.'),
'C10': ('`ref/rom.py` strict reader with own CRC-16; a capacity formula.',
        'Offsets, sizes, checksums and overlaps are not visible by reloading.'),
'C11': ('A dictionary path → data, changed in step.',
        'Histories of edits, saves and reloads; the whole content is compared after every step.'),
'C12': ('`gen/maincode.py` builds files with known sections; images are compared with an independent assembly.',
        'Four ways of finding the settings, compression in and out, sections of any length.'),
'C13': ('The table as built; `ref/lz.py` to read what was written.',
        'Field-by-field values, compressed and plain overlays mixed, selection by ID.'),
'C14': ('The messages as generated; `ref/bmg.py` for files of other tools.',
        'All four encodings in both byte orders, escape data that looks like text or ends, every character of each encoding.'),
'C15': ('`ref/bmg.py` strict reader.',
        'Section sizes, alignment and message offsets are not visible by reloading.'),
'C16': ('`ref/seq.py`: an encoding table written from the format description; encoder and decoder.',
        'Wrong-in-both-directions encodings; boundary values of every argument.'),
'C17': ('A model of the program with symbolic targets; `ref/seq.py` lays it out.',
        'Edits between loading and saving; targets are compared as objects, not as offsets.'),
'C18': ('`ref/sndfile.py` and `ref/seq.py`.', 'All orders of load, parse, edit and save, and file sizes.'),
'C19': ('`ref/sndfile.py` and `ref/seq.py`.', 'Shared and middle starts, absent sequences, parsed and unparsed.'),
'C20': ('`ref/sbnk.py` strict reader and writers (merged and unmerged records).',
        'Sharing of records, empty slots and order keys; edits of one slot are followed through saving.'),
'C21': ('`ref/waves.py`.', 'Header words, sizes and offsets read independently.'),
'C22': ('`ref/waves.py`.', 'Block sizes and padding between channels, which the library can misread consistently.'),
'C23': ('The model; `ref/sdat.py` foreign writer.', 'Empty slots, missing names, shared files in all eight lists.'),
'C24': ('`ref/sdat.py` strict reader and independent writer, compared byte for byte.',
        'Layout settings in every combination; sharing decided independently.'),
'C25': ('Bit arithmetic written down again.', 'All 65536 tilemap values, coordinates on and beyond every edge.'),
'C26': ('A per-pixel definition.', 'Flips, palettes, widths and incomplete rows in combination.'),
'C27': ('`ref/tex.py` strict reader and writers.', 'Name dictionaries (a radix tree in the file), shared palette data, model files.'),
'C28': ('`ref/tex.py` decoder written from the hardware description.', 'Every pixel of every format, block modes and palette offsets.'),
'C29': ('Channel arithmetic (nearest value) over all values.', 'Exhaustive over 16-bit colours and 8-bit channels.'),
'C30': ('Position words packed independently; corner formula.', 'All alignments and 12-bit extremes.'),
'C31': ('A linear search in the check.', 'Values that refuse comparison, repeated and missing names.'),
'C32': ('The in-memory function on the same bytes; a listing of the scratch directory before and after.',
        'Path kinds, optional arguments, existing files, default output names, separate programs.'),
'C33': ('Snapshots of everything reachable through public attributes (values and identities of mutable parts).',
        'Aliasing between objects, buffers and defaults is invisible to round-trip tests.'),
'C34': ('The original bytes.', 'Independently written canonical files of every format, nested up to whole ROMs, and the repository\'s own samples.'),
'C35': ('A table of fields with the widths the formats give them; expected refusals with an accepted neighbour.',
        'Each limit is tried from both sides, so both missing and over-eager refusals show. Cut files run under a time limit.'),
'C36': ('Listings are parsed and compared with the contents; representations are evaluated.', 'All classes, new, loaded and edited.'),
'C37': ('`gen/songs.py` and an independent player producing a timeline per track; a lookup of every note in bank and archives.',
        'The helpers are only tested on a few lists; here what is played is compared.'),
'C38': ('`ref/fnt.py`, `ref/rom.py`, `ref/narc.py`, `ref/lz.py` on the files the tools wrote.', 'The tools have no tests.'),
'C39': ('Tables of documented defaults copied from docs/ and signatures.', 'Defaults are not tested; shared mutable defaults show only across objects.'),
'C40': ('The hardware command table (IDs and parameter counts) written in the check.', 'Display lists are not covered by tests.'),
'C41': ('`ref/sbnk.py` places unlisted records itself.', 'Guessing rules are reached only by crafted record mixes.'),
'C42': ('State of the object, directory listing and file contents before and after the refused operation; the save made before spoiling.',
        'Needs impossible values at every depth and a look at what is left afterwards.'),
'C43': ('Results of the same jobs done alone; threads preempted freely and, reproducibly, after random library lines.',
        'Tests never overlap two calls; first use right after importing is raced in a child process.'),
'C44': ('`ref/rom.py`, `ref/narc.py`, `ref/lz.py` read the final image; a tree model of nested files is edited in parallel.',
        'Containers and contents are only tested apart.'),
}

MISSED = {
'code-appended-data': 'C04 appended 0-0x18 bytes only; now up to the format\'s 0x1C.',
'seq-call-into-ended-code': 'C17 programs had no call into code already ended by another path; added.',
'texel-palette-mask': 'C28 palettes were too small for the highest palette offset; 32768-colour palettes added.',
'code-settings-far': 'C12 placed the settings near the start only; now anywhere in the first 32 KiB.',
'overlay-empty-selection': 'C13 never asked for an empty set of IDs; added.',
'seq-varint-limit': 'C16 durations stopped at 3-byte integers; longer ones added.',
'nsbtx-width-512': 'C27 had no texture wider than 256; sizes up to 1024 added.',
'swar-default-unk': 'C39 looked at new objects only; defaults of loaded objects added.',
'rom-capacity-zero': 'C33 saved no large image with a capacity of 0; numbers are now set to 0 before saving.',
}

INTRO = open(os.path.join(V, 'tools', 'design_intro.md'), encoding='utf-8').read()
NOTES = open(os.path.join(V, 'tools', 'design_notes.md'), encoding='utf-8').read()
if os.path.exists(os.path.join(V, 'tools', 'design_missed.json')):
    MISSED.update(json.load(open(os.path.join(V, 'tools', 'design_missed.json'), encoding='utf-8')))

props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'), encoding='utf-8')]
kf = json.load(open(os.path.join(V, 'KNOWN_FINDINGS.json'), encoding='utf-8'))
seeded = {}
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json'), encoding='utf-8'))
    seeded[d] = m

out = [INTRO.strip(), '', '## Properties', '']
for p in props:
    i = p['id']
    m = importlib.import_module('harness.props.' + i.lower())
    oracle, beyond = ORACLE[i]
    out += [f'### {i} {p["title"]}', '',
            f'*Workload.* {m.RULE}', '',
            f'*Oracle.* {oracle}', '',
            f'*Monitors and least number of observations.* ' +
            '; '.join(f'{k} ({n})' for k, n in m.REQUIRED.items()) + '.', '',
            f'*Bounds.* {m.CASES["quick"]} cases quick, {m.CASES["thorough"]} thorough.', '']
    if m.ASSUMPTIONS:
        out += ['*Assumptions.* ' + ' '.join(m.ASSUMPTIONS), '']
    out += [f'*Beyond the tests.* {beyond}', '']
    s = [d for d, x in seeded.items() if x['property'] == i]
    if s:
        out += ['*Planted bugs.* ' + ', '.join(s) + '.', '']

out += ['## Planted bugs', '',
        'Every planted bug builds, passes the existing tests, and is reported by the check of its property with',
        'the default seed in the quick tier. "First missed" tells what the check did not do when the bug was',
        'planted, and what was added.', '',
        '| bug | property | needs | first missed |', '|---|---|---|---|']
for d, x in seeded.items():
    cell = lambda t: str(t).replace('|', '\\|').replace('\n', ' ')
    out.append(f'| {d} | {x["property"]} | {cell(x["needs"])} | {cell(MISSED.get(d, ""))} |')
out += ['', '## Defects found in the code', '',
        'Not repaired (`KNOWN_FINDINGS.json`, reported as `KNOWN-FINDING`):', '']
out += [f'* {k["property"]}: {k["what"]}' for k in kf['known']]
out += ['', 'Repaired in /repo, one commit each:', '']
out += ['* ' + f.replace('fixed: property=', '') for f in kf['fixed']]
out += ['', NOTES.strip(), '']
open(os.path.join(V, 'DESIGN.md'), 'w', encoding='utf-8').write('\n'.join(out))
print(len(out), 'lines', len(seeded), 'bugs')
