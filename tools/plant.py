"""
Plant one bug: python3 tools/plant.py SPEC.py

SPEC defines: id, property, needs, what, edits = [(file, old, new)...], demo (Python source).
Writes seeded/<id>/ and confirms it: the patch applies, tests pass, the demonstration tells the two trees apart.
Then runs the property's check against it.
"""
import json, os, pathlib, subprocess, sys

HERE = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path('/repo')


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def stable():
    out = '/tmp/plant-tests.json'
    sh('bash', '/opt/vp/build.sh', cwd=REPO)
    sh('bash', '/opt/vp/test.sh', out, cwd=REPO)
    return json.load(open(out))


def confirm(d, run=True):
    if sh('git', '-C', str(REPO), 'status', '--porcelain').stdout.strip():
        sys.exit('/repo is not clean')
    meta = json.load(open(d / 'meta.json'))
    demo = str(d / 'demo.sh')
    a = sh('bash', demo, cwd=REPO)
    r = sh('git', '-C', str(REPO), 'apply', str(d / 'patch.diff'))
    if r.returncode:
        sys.exit(f'{d.name}: patch does not apply: {r.stderr}')
    try:
        base = json.load(open('/opt/vp/BASELINE.json'))
        got = stable()
        passed = set(got.get('passed', []))
        want = set(base.get('passed') or base.get('stable') or [])
        missing = want - passed
        b = sh('bash', demo, cwd=REPO)
        ok = a.returncode == 0 and b.returncode != 0 and not missing
        print(f'{d.name}: demo {a.returncode} -> {b.returncode}; {len(missing)} tests lost; {"ok" if ok else "NOT OK"}')
        if a.returncode:
            print(a.stdout[-1500:], a.stderr[-1500:])
        if missing:
            print(sorted(missing)[:5])
        elif b.stderr:
            print('   ', b.stderr.strip().splitlines()[-1][:200])
        caught = None
        if run:
            env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick')
            c = sh('bash', str(HERE / 'run.sh'), meta['property'], 'quick', env=env)
            caught = c.returncode == 1 and f'VIOLATION property={meta["property"]}' in c.stdout
            print(f'   {meta["property"]}: exit {c.returncode} {"CAUGHT" if caught else "MISSED"}',
                  next((l[:300] for l in c.stdout.splitlines() if 'VIOLATION' in l or 'violat' in l.lower()), ''))
        return ok, caught
    finally:
        sh('git', '-C', str(REPO), 'checkout', '--', '.')


def main():
    if sys.argv[1] == '--confirm':
        names = sys.argv[2:] or sorted(os.listdir(HERE / 'seeded'))
        res = {n: confirm(HERE / 'seeded' / n) for n in names}
        print(json.dumps(res))
        return
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    d = HERE / 'seeded' / spec['id']
    d.mkdir(parents=True, exist_ok=True)
    try:
        for file, old, new in spec['edits']:
            p = REPO / file
            text = p.read_text()
            if text.count(old) != 1:
                sys.exit(f'{file}: {text.count(old)} occurrences of {old!r}')
            p.write_text(text.replace(old, new))
        (d / 'patch.diff').write_text(sh('git', '-C', str(REPO), 'diff').stdout)
    finally:
        sh('git', '-C', str(REPO), 'checkout', '--', '.')
    (d / 'demo.py').write_text(spec['demo'].lstrip('\n'))
    (d / 'demo.sh').write_text('#!/bin/sh\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    (d / 'meta.json').write_text(json.dumps(
        {'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['what']}, indent=1) + '\n')
    confirm(d)


main()
