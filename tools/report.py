"""report.py [--write]: counts of the last runs (evidence/*.json) per property; --write puts them into the table of DESIGN.md."""
import glob
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
design = os.path.join(HERE, 'DESIGN.md')
text = open(design).read()
for f in sorted(glob.glob(os.path.join(HERE, 'evidence', 'C??.json'))):
    d = json.load(open(f))
    c = d['coverage']
    bounded = sum(x['obligations'] for x in c['contracts'] if str(x.get('verdict')) != 'proved' or x.get('bounded'))
    kinds = {}
    for x in c['contracts']:
        kinds[x['verdict']] = kinds.get(x['verdict'], 0) + 1
    print(d['property'], 'contracts', len(c['contracts']), kinds, 'obligations', c['obligations'], 'discharged', c['discharged'], 'bounded', c['bounded_obligations'],
          'solver', c['solver_s'], 'wall', d['wall_s'], 'functions', len(c['functions_under_contract']), '+', len(c['functions_inlined']))
    n = '{:,}'.format(c['discharged']).replace(',', ' ') + (' (+%d bounded)' % c['bounded_obligations'] if c['bounded_obligations'] else '')
    text = re.sub(r'(?m)^(\| %s \|.*\|)[^|]*\|[^|]*\|$' % d['property'], lambda m: '%s %d | %s |' % (m.group(1), len(c['contracts']), n), text)
if '--write' in sys.argv:
    open(design, 'w').write(text)
