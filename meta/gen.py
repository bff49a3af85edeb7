#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand; both outputs are committed)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, observe=observe or []))
exec(open(os.path.join(ROOT, 'meta', 'props.py')).read())
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [dict(name=n, where=w) for n, w in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
import re
main = open(os.path.join(ROOT, 'mc', 'src', 'main.rs')).read()
main += open(os.path.join(ROOT, 'py', 'main.py')).read()
claimed = set(re.findall(r'\("(P\d\d)"', main))
checks = []
na = []
for p in P:
    if p['id'] in claimed:
        checks.append({'property': p['id'],
            'quick_cmd': f"bash /verif/run.sh {p['id']} quick",
            'thorough_cmd': f"bash /verif/run.sh {p['id']} thorough",
            'evidence_file': f"evidence/{p['id']}.json",
            'technique': p['technique'], 'level': 'model_checking', 'level_note': p['note']})
    else:
        na.append({'property': p['id'], 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': 'bash /verif/run.sh build', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: everything explored is reachable through the public API. See DESIGN.md.'},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
