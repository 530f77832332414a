#!/usr/bin/env python3-vt
"""rewrites the generated part of DESIGN.md (functions under contract, stand-ins, assumptions per property) from contracts/properties.py"""
import sys, os, importlib, json
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [R + '/yagavc', R + '/contracts']
import properties as P
out = []
titles = {json.loads(l)['id']: json.loads(l)['title'] for l in open(R + '/properties.jsonl')}
for k in sorted(P.SPECS):
    s = P.SPECS[k]; qs, tr = [], []
    for m in s['modules']:
        for c in importlib.import_module(m).CONTRACTS:
            n = getattr(c, 'name', type(c).__name__); 
            if s.get('only') and n not in s['only']: continue
            (tr if getattr(c, 'trusted', False) else qs).append(str(c.q).replace('yaga::', ''))
    out.append('### %s %s\n' % (k, titles[k]))
    out.append('Contracts: `contracts/%s.py`; native search: `native/%s`.\n' % (s['modules'][0], s['native']))
    out.append('Proved, no bound: ' + ', '.join('`%s`' % q for q in dict.fromkeys(qs)) + '.\n')
    if tr: out.append('Assumed contracts: ' + ', '.join('`%s`' % q for q in dict.fromkeys(tr)) + '.\n')
    if s.get('bounded'): out.append('Bounded only (random search on the compiled code with an independent oracle, never counted as proved): ' + '; '.join(s['bounded']) + '.\n')
    out.append('Assumptions: ' + '; '.join(a for a in s.get('assumptions', [])) + '.\n')
t = open(R + '/DESIGN.md').read(); a, b = '<!-- generated -->', '<!-- end -->'
i, j = t.index(a) + len(a), t.index(b)
open(R + '/DESIGN.md', 'w').write(t[:i] + '\n' + '\n'.join(out) + t[j:])
