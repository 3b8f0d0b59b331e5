"""Regenerates MANIFEST.json from properties.jsonl and checks/. A check is
claimed when its module is listed in tools/claimed.txt."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
claimed = open(os.path.join(ROOT, 'tools', 'claimed.txt')).read().split()
checks, na = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    if pid not in claimed:
        na.append({'property': pid, 'reason': 'Property-based testing applies;'
                   ' the check is still being built and is not claimed yet.'})
        continue
    mod = importlib.import_module('checks.' + pid.lower())
    checks.append({
        'property': pid,
        'quick_cmd': './check %s --tier quick' % pid,
        'thorough_cmd': './check %s --tier thorough' % pid,
        'evidence_file': 'evidence/%s.json' % pid,
        'technique': mod.TECHNIQUE,
        'level': 'exploration',
        'level_note': mod.LEVEL_NOTE,
    })
doc = {
    'version': 1,
    'setup_cmd': 'python3-vt -c "import hypothesis, json; '
                 'json.load(open(\'MANIFEST.json\'))"',
    'checks': checks,
    'not_applicable': na,
    'notes': 'No hooks: every check drives the public library from /repo '
             'and reads back the files it writes.',
}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(doc, f, indent=1)
    f.write('\n')
print('%d claimed, %d not' % (len(checks), len(na)))
