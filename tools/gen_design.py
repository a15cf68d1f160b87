"""gen_design.py : rewrites the contract table of DESIGN.md (between the markers) from the contracts and the last evidence."""
import os, sys, json, glob
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from pyvc import runner, api
runner.load()
st = {}
for f in sorted(glob.glob(ROOT + '/evidence/C*.json')):
    st.update(json.load(open(f))['coverage'].get('contracts', {}))
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
out = []
for p in props:
    cs = [(n, c) for n, c in api.REG.items() if p['id'] in c.props]
    out.append(f"\n**{p['id']} {p['title']}.**")
    for n, c in cs:
        s = st.get(n, {})
        status = s.get('status', '?')
        if s.get('bounds'): status += ' (' + ', '.join(sorted(set(s['bounds']))[:4]) + ')'
        fs = ' '.join(t.split('.', 1)[-1].split('Service.')[-1].replace('OpenADR', '') for t in c.targets)
        doc = ' '.join((c.fn.__doc__ or '').split())
        out.append(f'- `{n}` [{status}] on {fs}' + (f': {doc}' if doc else ''))
text = open(ROOT + '/DESIGN.md').read()
a, b = '<!-- contracts -->', '<!-- /contracts -->'
i, j = text.index(a) + len(a), text.index(b)
open(ROOT + '/DESIGN.md', 'w').write(text[:i] + '\n' + '\n'.join(out) + '\n' + text[j:])
