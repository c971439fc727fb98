"""Writes the table of planted bugs at the end of DESIGN.md"""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from seeds import SEEDS
p = os.path.join(HERE, 'DESIGN.md')
head = open(p).read().split('## Seeded bugs')[0]
rows = ['## Seeded bugs', '',
        'Each was written from the text of a property and the code, confirmed (it compiles, the stable tests pass, its demonstration',
        'fails with it and passes without), and tried with `tools/mkseeded.py catch`. All of them are reported by the quick check of',
        'the property they belong to. Many are reported by others as well, as the same programs are compared',
        'for several properties (C11, C17 and C21 compare nearly everything a program leaves behind).',
        'Missed by the first version of the check, and what was added: %s.' % '; '.join([
            '`carriage-return-column` (carriage returns within lines, C13 and C08)',
            '`value-before-name` (evals in the name of a simple assignment, C10)',
            '`include-not-text-missing` (files that are not text in the alphabet of C17; which kind of failure is part of the error)']), '',
        '| id | property | what it needs | what it breaks |', '|---|---|---|---|']
for s in sorted(SEEDS, key=lambda s: (s['property'], s['id'])):
    rows.append('| %s | %s | %s | %s |' % (s['id'], s['property'], s['needs'].replace('|', '\\|'), s['breaks'].replace('|', '\\|')))
open(p, 'w').write(head + '\n'.join(rows) + '\n')
print(len(SEEDS))
