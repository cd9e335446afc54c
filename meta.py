#!/usr/bin/env python3
"""meta.py -- the property catalogue; writes properties.jsonl and MANIFEST.json"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
SS = 'trick_source/sim_services/'
P, NA = [], []
DF = 'guarded-SSA dataflow over compiler IR (predicate abstraction, BDD guards)'
NOTE = ('The rule is decided from the LLVM IR of the current sources: guards and values of all stores and calls of the named functions, '
        'loops summarised per representative element; no code is run, no solver used. Trusts clang\'s front end, the extractor and the std containers\' contracts. ')

def prop(id, title, statement, over, text, why, files, mech, note='', technique=DF, level='other', na=None, observe=()):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over.split(), 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files.split(), 'mechanism': [dict(zip(('name', 'where'), m.split(' @ '))) for m in mech],
                          **({'observe_at': list(observe)} if observe else {})},
              '_c': None if na else {'property': id, 'quick_cmd': f'python3 check.py {id}', 'thorough_cmd': f'python3 check.py {id}', 'technique': technique, 'level': level, 'level_note': NOTE + note}})
    if na: NA.append({'property': id, 'reason': na})

exec(open(os.path.join(HERE, 'catalogue.py')).read())

for p in P:
    for f in p['anchors']['files']: assert os.path.exists('/repo/' + f), f

if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P: f.write(json.dumps({k: v for k, v in p.items() if k != '_c'}) + '\n')
    json.dump({'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': [p['_c'] for p in P if p['_c']], 'not_applicable': NA,
               'notes': 'One driver (check.py) and one extractor; see DESIGN.md.'}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
