"""python3-vt tools/showt.py replay.json : what the table case draws"""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.environ.get('VERIF_REPO','/repo')); sys.path.append('/opt/venv/lib/python3.12/site-packages')
from lib import tab, box
from lib.common import pages, write
c = json.load(open(sys.argv[1]))['case']
print({k:v for k,v in c.items() if k!='cells'})
for x in c['cells']: print('  ', {k:v for k,v in x.items()})
col=tab.collect
def collect(t,doc,pvs):
    for pv in pvs:
        print('--- page', pv.index)
        for a in box.words(pv): print('  ', a, 'x2 %.1f' % a.x2)
        for im in pv.images: print('  ', t.by_bytes.get(doc.resolve(im.ref).raw), im)
        for l in pv.lines: print('  ', l, l.dash, l.cap)
        for l in pv.fills: print('  ', l)
    col(t,doc,pvs)
tab.collect=collect
t, doc, pvs, top, end = tab.lay_out(c)
print('top', top, 'end', end, 'x', t.x)
for s in tab.model(t, pvs, top)[0]: print(s)
