"""python3-vt tools/show.py replay.json : what the content box case draws"""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, '/repo'); sys.path.append('/opt/venv/lib/python3.12/site-packages')
from lib import box
from lib.common import pages, write
c = json.load(open(sys.argv[1]))['case']
print(json.dumps(c, indent=None))
import lib.box
lib.box.collect = lambda *a: None
bld, doc, pvs, tops, end = box.build(c)
print('tops', tops, end)
for pv in pvs:
    print('--- page', pv.index)
    for a in box.words(pv): print('  ', a, 'x2 %.1f' % a.x2)
    for im in pv.images: print('  ', bld.by_bytes.get(doc.resolve(im.ref).raw), im)
    for l in pv.lines: print('  ', l)
    for l in pv.fills: print('  ', l)
