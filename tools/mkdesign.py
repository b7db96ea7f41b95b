"""regenerates the table of contracts in DESIGN.md from the evidence of the last runs"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
out = []
for p in ids:
    try:
        e = json.load(open('%s/evidence/%s.json' % (ROOT, p['id'])))
    except FileNotFoundError:
        continue
    c = e['coverage']
    names = []
    for x in c['functions_under_contract']:
        if x['contract'] not in names:
            names.append(x['contract'])
    loops = sum(x['loops'] for x in c['functions_under_contract'])
    out.append('**%s** %s. %d obligations (loop invariants included), %d loop(s). Contracts: %s. Assumed: %s.' % (
        p['id'], p['title'], c['obligations'], loops, ', '.join('`%s`' % n for n in names),
        '; '.join(a for a in e['assumptions'] if not a.startswith(('the library models', 'objects of distinct'))) or 'nothing beyond the common base'))
    out.append('')
f = ROOT + '/DESIGN.md'
t = open(f).read()
a, b = '<!-- contracts -->\n', '<!-- end of contracts -->\n'
i, j = t.index(a) + len(a), t.index(b)
open(f, 'w').write(t[:i] + '\n'.join(out) + t[j:])
