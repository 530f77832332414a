#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []; CLAIMED = set(); NOTE = {}; NA = {}; LEVEL = {}


def prop(id, title, statement, over, qtext, why, files, state, mech, observe, claim=True, note='', na='', level='proof'):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
              'anchors': {'files': files, 'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state], 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'observe_at': observe, 'hook_needed': None}})
    if claim: CLAIMED.add(id)
    else: NA[id] = na or 'not yet covered: no contract for it has been built so far'
    NOTE[id] = note; LEVEL[id] = level


exec(open(os.path.join(HERE, 'tools', 'props.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
M = {'version': 1, 'setup_cmd': 'bash yagavc/build_extractor.sh', 'hooks': {'guard': 'YAGA_VERIF', 'enable': '', 'source_commits': []}, 'checks': [], 'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'Deductive verification of the code in /repo: clang AST -> symbolic execution with contracts -> z3/cvc5. No hooks in /repo are needed. See DESIGN.md.'}
for p in P:
    if p['id'] not in CLAIMED: continue
    i = p['id']
    M['checks'].append({'property': i, 'quick_cmd': 'python3-vt check.py %s quick' % i, 'thorough_cmd': 'python3-vt check.py %s thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
                        'technique': 'contract-based deductive verification: contracts on the functions of /repo, verification conditions generated from the clang AST of the current tree on every run, discharged by z3 and cvc5; failed obligations are replayed against the real code', 'level': LEVEL[i], 'level_note': NOTE[i] or 'all obligations of the functions under contract are discharged for all inputs; assumptions are listed in the evidence file'})
json.dump(M, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(CLAIMED), 'claimed')
