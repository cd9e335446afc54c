#!/usr/bin/env python3
"""check.py ID -- decide one property on /repo's current sources"""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, HERE)
import vk
sys.setrecursionlimit(20000)

def rules():
    r = {}
    for f in sorted(os.listdir(os.path.join(HERE, 'rules'))):
        if f.endswith('.py') and f != '__init__.py':
            m = importlib.import_module('rules.' + f[:-3])
            r.update(m.RULES)
    return r

if __name__ == '__main__':
    if sys.argv[1:] == ['--setup']:
        vk.build_tx(); sys.exit(0)
    R = rules()
    rc = 0
    for p in (sorted(R) if sys.argv[1:] == ['--all'] else sys.argv[1:]):
        rc = max(rc, vk.main(p, R[p]))
    sys.exit(rc)
