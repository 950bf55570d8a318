# Rewrites the table of planted bugs in DESIGN.md (after the line "## Planted bugs").
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import S
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALSO = {'process-handle-leak': 'C29, C19'}
MISSED = {
 'setline-forgets-obscured': 'at first missed: C07 got terminals that keep hidden cells',
 'act-before-check': 'at first missed: C18 got the window-size oracle',
 'process-handle-leak': 'at first missed: C29 got faults inside calls',
 'conerr-closed-early': 'at first missed: C23 got late connections',
}
try: from seednotes import ALSO as A2, MISSED as M2; ALSO.update(A2); MISSED.update(M2)
except ImportError: pass
d = open(R + '/DESIGN.md').read().split('## Planted bugs')[0]
d += '## Planted bugs\n\n`seeded/<id>/` (patch, demonstration, meta). Each was run against the quick check of its property (`tools/seedtable.py` keeps this table).\n\n| bug | breaks | caught by | needs | remarks |\n|---|---|---|---|---|\n'
for i, s in sorted(S.items(), key=lambda x: (x[1]['property'], x[0])):
    d += '| %s | %s | %s | %s | %s |\n' % (i, s['property'], ALSO.get(i, s['property']), s['needs'].replace('|', '/'), MISSED.get(i, ''))
open(R + '/DESIGN.md', 'w').write(d)
