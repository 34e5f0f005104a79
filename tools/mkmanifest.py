#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties that have a check."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
have = {}
for f in sorted(os.listdir(os.path.join(here, 'harness/src/h'))):
    s = open(os.path.join(here, 'harness/src/h', f)).read()
    for m in re.finditer(r'@Harness\(property = "(C\d+)"(.*?)\)\s*\n\s*public static void (\w+)', s, re.S):
        have.setdefault(m.group(1), []).append(f[:-5] + '.' + m.group(3))
checks = []
for p in props:
    i = p['id']
    if i not in have:
        continue
    checks.append({
        'property': i,
        'quick_cmd': 'bash check.sh %s quick' % i,
        'thorough_cmd': 'bash check.sh %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'symbolic execution of the compiled library bytecode against a reference, SMT (z3) verdict per path',
        'level': 'model_checking',
        'level_note': 'harnesses ' + ', '.join(have[i]) + '; complete within the bounds recorded in the evidence unless paths are reported undecided or unexplored',
    })
m = {
    'version': 1,
    'setup_cmd': 'bash setup.sh',
    'hooks': {'guard': '', 'enable': '', 'source_commits': []},
    'checks': checks,
    'not_applicable': [],
    'notes': 'Every check compiles /repo/src/main/java itself, executes the bytecode symbolically and replays counterexamples on a real JVM. SYMX_BUDGET overrides the time budget in seconds.',
}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', 'missing:', [p['id'] for p in props if p['id'] not in have])
