#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []; C = []; NA = []
def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}})
    if na: NA.append({'property': id, 'reason': na}); return
    C.append({'property': id, 'quick_cmd': 'python3 bin/check.py %s --tier quick' % id, 'thorough_cmd': 'python3 bin/check.py %s --tier thorough' % id,
              'technique': technique, 'level': 'other', 'level_note': note})
exec(open(V + '/tools/props_list.py').read())
with open(V + '/properties.jsonl', 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
M = {'version': 1, 'setup_cmd': 'python3 bin/setup.py', 'checks': C, 'not_applicable': NA,
     'notes': 'Every check re-derives LLVM IR from /repo/pire on each run (cached by content hash under /verif/build) and decides the property statically; no check executes the library.'}
json.dump(M, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(P), 'properties,', len(C), 'claimed,', len(NA), 'not applicable')
