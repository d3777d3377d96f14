"""Writes properties.jsonl and MANIFEST.json (run from anywhere; deterministic)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CT, OT, OP, PA, EC, PL, UT = ('oranssi/%s.py' % m for m in
    ('circuit_tools', 'opt_tools', 'optimizers', 'pauli', 'edge_coloring', 'plot_utils', 'utils'))
P = []


def prop(id, title, statement, over, text, why, files, mech, note, technique, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, note=note, technique=technique, observe=observe or []))


exec(open(os.path.join(V, 'tools', 'property_texts.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
have = lambda i: os.path.exists(os.path.join(V, 'checks', i.lower() + '.py'))
man = {'version': 1, 'setup_cmd': 'bash setup.sh',
       'checks': [{'property': p['id'], 'quick_cmd': './run.sh %s quick' % p['id'],
                   'thorough_cmd': './run.sh %s thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': p['technique'], 'level': 'model_checking', 'level_note': p['note']}
                  for p in P if have(p['id'])],
       'not_applicable': [{'property': p['id'], 'reason': 'check not built yet'} for p in P if not have(p['id'])],
       'notes': 'No hooks in /repo: the checks drive the public API; the seams they control (numpy and Python '
                'random sources, scipy.linalg.expm, os.*) are replaced inside the check process only.'}
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties,', len(man['checks']), 'checks')
