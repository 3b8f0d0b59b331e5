"""Prints the calls of a C28 replay."""
import json
import sys
d = json.load(open(sys.argv[1]))
c = d['case']
print(d['message'])
print({k: v for k, v in c.items() if k != 'ops'})
for o in c['ops']:
    print(o)
