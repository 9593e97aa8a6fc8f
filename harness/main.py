"""
Entry point: decide one property by running its workload under its monitors.

  main.py ID [quick|thorough]     exit 0 held / 1 violated / 2 inconclusive or error
  main.py --replay FILE           re-run the case recorded in FILE
"""

import importlib
import json
import os
import pickle
import resource
import shutil
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)

import rt

CPU_LIMIT_PER_CASE = 90
WALL_LIMIT = {'quick': 800, 'thorough': 3400}
MEMORY_LIMIT = 6 << 30


def loadKnownFindings():
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.json')
    with open(path, encoding='utf-8') as f:
        return json.load(f)


def importLibrary():
    import ndspy
    where = os.path.realpath(os.path.dirname(ndspy.__file__))
    want = os.path.realpath(os.path.join(REPO, 'ndspy'))
    if where != want:
        raise rt.HarnessError(f'ndspy was imported from {where}, not {want}')
    return where


def worker(module, prop, seed, tier, indices, scratch, known, outPath):
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
    sys.setrecursionlimit(3000)
    os.makedirs(scratch, exist_ok=True)
    devnull = open(os.devnull, 'w')
    sys.stdout = devnull  # the library prints warnings in places
    cov = rt.LineCoverage(REPO)
    cov.start()
    ctx = rt.Ctx(prop, seed, tier, scratch)
    ctx.knownMechanisms = known
    error = None
    done = 0
    try:
        done = rt.runCases(module, ctx, indices, CPU_LIMIT_PER_CASE)
    except BaseException:
        error = traceback.format_exc()
    result = dict(done=done, monitors=ctx.monitors, notes=ctx.notes,
                  keys=ctx.keys, samples=ctx.samples, violations=ctx.violations,
                  knownHits=ctx.knownHits, lines=cov.result(), error=error)
    with open(outPath + '.tmp', 'wb') as f:
        pickle.dump(result, f)
    os.replace(outPath + '.tmp', outPath)


def runParallel(module, prop, seed, tier, count, scratch, known):
    n = max(1, min(8, os.cpu_count() or 1, count))
    deadline = time.monotonic() + WALL_LIMIT[tier]
    pids = {}
    for w in range(n):
        out = os.path.join(scratch, f'result{w}')
        pid = os.fork()
        if pid == 0:
            code = 70
            try:
                worker(module, prop, seed, tier, [i for i in range(count)
                        if (i * 2654435761 >> 7) % n == w],
                       os.path.join(scratch, f'w{w}'), known, out)
                code = 0
            finally:
                os._exit(code)
        pids[pid] = (w, out)

    problems = []
    alive = dict(pids)
    while alive:
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid in alive:
            w, out = alive.pop(pid)
            if status != 0:
                problems.append(f'worker {w} ended with status {status}')
            continue
        if time.monotonic() > deadline:
            for p in alive:
                os.kill(p, 9)
                os.waitpid(p, 0)
            problems.append(f'{len(alive)} workers stopped after {WALL_LIMIT[tier]} s')
            break
        time.sleep(0.02)

    results = []
    for w, out in pids.values():
        if os.path.exists(out):
            with open(out, 'rb') as f:
                results.append(pickle.load(f))
        else:
            problems.append(f'worker {w} left no result')
    return results, problems


def merge(results):
    m = dict(done=0, monitors={}, notes={}, keys=set(), samples=[], violations=[],
             knownHits={}, lines={}, errors=[])
    for r in results:
        m['done'] += r['done']
        for k in ('monitors', 'notes', 'knownHits'):
            for name, n in r[k].items():
                m[k][name] = m[k].get(name, 0) + n
        m['keys'] |= r['keys']
        m['samples'].extend(r['samples'])
        m['violations'].extend(r['violations'])
        for fn, lines in r['lines'].items():
            m['lines'].setdefault(fn, set()).update(lines)
        if r['error']:
            m['errors'].append(r['error'])
    m['violations'].sort(key=lambda v: v['case'])
    return m


def lineSummary(lines, files):
    out = {}
    for fn in files:
        path = os.path.join(REPO, fn)
        if not os.path.exists(path):
            continue
        try:
            total = rt.executableLines(path)
        except SyntaxError:
            continue
        hit = lines.get(fn, set()) & total
        out[fn] = f'{len(hit)}/{len(total)}'
    return out


def propertyRecord(prop):
    with open(os.path.join(VERIF, 'properties.jsonl'), encoding='utf-8') as f:
        for line in f:
            if line.strip():
                rec = json.loads(line)
                if rec['id'] == prop:
                    return rec
    raise rt.HarnessError(f'no property {prop}')


def decide(prop, tier, seed):
    t0 = time.monotonic()
    rec = propertyRecord(prop)
    module = importlib.import_module('props.' + prop.lower())
    importLibrary()
    if hasattr(module, 'setup'):
        module.setup()
    count = module.CASES[tier]
    known = {k['mechanism']: k for k in loadKnownFindings()['known']
             if k['property'] == prop}

    base = os.environ.get('VERIF_SCRATCH')
    scratch = tempfile.mkdtemp(prefix=f'{prop}-', dir=base)
    try:
        results, problems = runParallel(module, prop, seed, tier, count, scratch, known)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    m = merge(results)
    problems += m['errors']

    # Three-valued verdict: monitors that decide the property must really
    # have been reached, or the run says nothing.
    unreached = [name for name, least in module.REQUIRED.items()
                 if m['monitors'].get(name, 0) < least]

    evDir = os.path.join(VERIF, 'evidence')
    os.makedirs(evDir, exist_ok=True)
    wall = time.monotonic() - t0
    evidence = {
        'property': prop,
        'tier': tier,
        'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': m['done'],
            'distinct_nontrivial': len(m['keys']),
            'rule': module.RULE,
            'samples': m['samples'][:6],
            'monitor_evaluations': dict(sorted(m['monitors'].items())),
            'workload': dict(sorted(m['notes'].items())),
            'lines_reached': lineSummary(m['lines'], rec['anchors']['files']),
        },
        'assumptions': list(getattr(module, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 3),
        'violations': len(m['violations']),
    }
    with open(os.path.join(evDir, f'{prop}.json'), 'w', encoding='utf-8') as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)
        f.write('\n')

    print(f'{prop} {tier} seed={seed}: {m["done"]} cases,'
          f' {len(m["keys"])} distinct non-trivial,'
          f' {sum(m["monitors"].values())} monitor evaluations, {wall:.1f} s')
    for name, n in sorted(m['monitors'].items()):
        print(f'  {n:9d}  {name}')
    for mech, n in sorted(m['knownHits'].items()):
        print(f'KNOWN-FINDING: property={prop} {known[mech]["what"]} ({n} times)')

    if m['violations']:
        rdir = os.path.join(evDir, 'replays')
        os.makedirs(rdir, exist_ok=True)
        v = m['violations'][0]
        path = os.path.join(rdir, f'{prop}-{tier}-{seed}-{v["case"]}.json')
        with open(path, 'w', encoding='utf-8') as f:
            json.dump(v, f, indent=1, ensure_ascii=True)
            f.write('\n')
        for v2 in m['violations'][:3]:
            print(f'  case {v2["case"]}: [{v2["monitor"]}] {v2["message"]}')
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    if problems:
        for p in problems:
            print(p)
        print(f'CHECK-ERROR property={prop}')
        return 2
    if unreached:
        print(f'INCONCLUSIVE property={prop}: monitors not reached often enough: '
              + ', '.join(f'{n} ({m["monitors"].get(n, 0)})' for n in unreached))
        return 2
    if '--lines' in sys.argv:
        for fn in rec['anchors']['files']:
            total = rt.executableLines(os.path.join(REPO, fn))
            print(fn, 'not reached:', sorted(total - m['lines'].get(fn, set())))
    print(f'HELD property={prop}')
    return 0


def replay(path):
    with open(path, encoding='utf-8') as f:
        v = json.load(f)
    module = importlib.import_module('props.' + v['property'].lower())
    importLibrary()
    if hasattr(module, 'setup'):
        module.setup()
    scratch = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH'))
    try:
        ctx = rt.Ctx(v['property'], v['seed'], v['tier'], scratch)
        rt.runCases(module, ctx, [v['case']], CPU_LIMIT_PER_CASE)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for v2 in ctx.violations:
        print(f'[{v2["monitor"]}] {v2["message"]}')
        for label, value in v2['info']:
            print(f'    {label} = {value}')
    print('reproduced' if ctx.violations else 'not reproduced')
    return 1 if ctx.violations else 0


def main():
    args = [a for a in sys.argv[1:] if a != '--lines']
    if args and args[0] == '--replay':
        return replay(args[1])
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '0') or '0')
    return decide(prop, tier, seed)


if __name__ == '__main__':
    try:
        code = main()
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code) if code not in (0, 1, 2) else sys.exit(code)
