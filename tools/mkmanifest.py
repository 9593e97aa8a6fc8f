"""Write MANIFEST.json from properties.jsonl and the property modules present."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'), encoding='utf-8')]
checks, na = [], []
for p in props:
    mod = os.path.join(V, 'harness', 'props', p['id'].lower() + '.py')
    if not os.path.exists(mod):
        na.append({'property': p['id'], 'reason': 'no check has been built yet'})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': f'bash /verif/run.sh {p["id"]} quick',
        'thorough_cmd': f'bash /verif/run.sh {p["id"]} thorough',
        'evidence_file': f'evidence/{p["id"]}.json',
        'technique': 'runtime monitoring of generated workloads against reference models',
        'level': 'exploration',
        'level_note': 'Runs the real code on seeded workloads; monitors compare every observed result with an'
                      ' independent reference. Trusts the reference model and the generator\'s reach'
                      ' (reported in the evidence file); says nothing about inputs not generated.',
    })
m = {
    'version': 1,
    'setup_cmd': 'bash /verif/setup.sh',
    'hooks': {'guard': 'none', 'enable': 'No hooks in /repo: monitors observe public entry points from outside.',
              'source_commits': []},
    'checks': checks,
    'not_applicable': na,
    'notes': 'See DESIGN.md. Genuine defects found are in KNOWN_FINDINGS.json.',
}
with open(os.path.join(V, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
