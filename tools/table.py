"""Rewrite section 7 of DESIGN.md from the meta files of the planted bugs.

Run after every planted bug has been run against the check of its property
(every row below was caught by that check when it was added; see section 6).
"""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mark = '## 7. Table of planted bugs'
text = open(here + '/DESIGN.md').read()
head = text.split(mark)[0]
rows = []
for b in sorted(os.listdir(here + '/seeded')):
    m = json.load(open(f'{here}/seeded/{b}/meta.json'))
    rows.append('| %s | %s | %s |' % (b, m['property'], m['needs'].replace(
        '|', '/').strip().rstrip('.')))
open(here + '/DESIGN.md', 'w').write(
    head + mark + '\n\n%d planted bugs, each caught by the quick check of its '
    'property (VERIF_SEED=1).\n\n| bug | caught by | needs |\n|---|---|---|\n'
    % len(rows) + '\n'.join(rows) + '\n')
