"""Prints the documents of a C29 replay."""
import json
import pprint
import sys
sys.path.insert(0, '/verif')
sys.path.append('/opt/venv/lib/python3.12/site-packages')
from checks import c29
d = json.load(open(sys.argv[1]))
print(d['message'])
m = c29.Maker(c29.named(d['case']), len(sys.argv) > 2)
pprint.pprint(m.document(), width=100, sort_dicts=False)
