"""Writes MANIFEST.json"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
READ = 'TLA+ specification of the reader run by TLC on enumerated and random programs; every behaviour replayed into the real engine and compared'
TECH = {
    'C14': 'TLA+ model of databases as values; TLC enumerates operation histories, replayed on the real Database',
    'C15': 'TLA+ model of the name cache; TLC enumerates operation histories, replayed on the real NameCache',
    'C16': 'TLA+ model of blocks as flat strings; TLC enumerates constructions and queries, replayed on the real Block/BlockSpan',
    'C18': 'TLA+ model of visits of expressions; TLC enumerates expressions, replayed through the real visitors',
    'C21': 'TLA+ model of two engines over changing files; TLC enumerates and checks operation histories, replayed on real engines',
    'C22': 'TLA+ model of evaluating expression trees; TLC enumerates and checks trees, built and evaluated with the real constructors',
    'C19': 'TLA+ definition of the order of locations, laws checked by TLC; all pairs compared with the real PartialOrd',
}
NOTE = ('Conformance of the real code to the TLA+ specification on every program of the bounded enumerations and on seeded random '
        'programs; the specification itself is checked by TLC against independently stated invariants and action properties. '
        'Trusts: the specification, TLC, the harness. Inputs the specification leaves open are not judged.')
NA = {}
checks = []
for i in ids:
    if i in NA:
        continue
    checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
                       technique=TECH.get(i, READ), level='model_checking', level_note=NOTE))
m = dict(version=1, setup_cmd='python3 check.py setup',
         hooks=dict(guard='hastur_verif', enable='RUSTFLAGS="--cfg hastur_verif"', source_commits=os.popen('git -C /repo log --format=%H --grep="^verif:"').read().split()),
         checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()])
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
