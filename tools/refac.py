#!/usr/bin/env python3
"""refac.py [ID-PREFIX]: apply each behaviour-preserving edit of refac_*.txt to a copy of /repo and run the checks of the touched files; they must stay quiet"""
import glob, json, os, re, subprocess, sys, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
C = '/tmp/rf'
man = json.load(open(V + '/MANIFEST.json'))
props = {p['id']: p for p in map(json.loads, open(V + '/properties.jsonl'))}
claimed = [c['property'] for c in man['checks']]
def parse(fn):
    """#ID name | checks ; @file ; =regex of first line of function ; text..."""
    cur, out = None, []
    for l in open(fn):
        if l.startswith('#ID '):
            i, _, ch = l[4:].strip().partition('|')
            cur = {'id': i.strip(), 'checks': ch.split(), 'edits': []}; out.append(cur)
        elif l.startswith('@@'): cur['file'] = l[2:].strip()
        elif l.startswith('=='): cur['edits'].append([cur['file'], l[2:].strip(), ''])
        elif cur and cur['edits']: cur['edits'][-1][2] += l
    return out
subprocess.run(['rsync', '-a', '--delete', '--exclude', '.git', '--include=*/', '--include=*.hh', '--include=*.h', '--include=*.cpp', '--include=*.c', '--include=*.hpp', '--include=*.y', '--include=*.l','--include=*.i', '--include=*.inc', '--exclude=*', '/repo/trick_source', '/repo/include', C + '/'], check=True) if shutil.which('rsync') else subprocess.run(f'mkdir -p {C} && cp -a /repo/trick_source /repo/include {C}/', shell=True)
pre = sys.argv[1] if len(sys.argv) > 1 else ''
for fn in sorted(glob.glob(HERE + '/refac_*.txt')):
    for x in parse(fn):
        if not x['id'].startswith(pre): continue
        saved = {}
        for f, rx, new in x['edits']:
            p = f'{C}/{f}'; s = open(p).read(); saved.setdefault(p, s)
            m = re.search(rx, s, re.M)
            if not m: print(x['id'], 'NO MATCH', rx); continue
            st = s.rfind('\n', 0, m.start()) + 1
            en = s.index('\n}', m.end()) + 3
            open(p, 'w').write(s[:st] + new + s[en:])
        fs = {f for f, _, _ in x['edits']}
        ch = x['checks'] or [c for c in claimed if fs & set(props[c]['anchors']['files'])]
        bad = []
        for c in ch:
            r = subprocess.run([sys.executable, V + '/check.py', c], capture_output=True, text=True, cwd=V, env=dict(os.environ, VK_REPO=C))
            if r.returncode: bad.append((c, r.returncode, (r.stdout + r.stderr)))
        print(x['id'], 'quiet' if not bad else 'ALARM', ' '.join(ch), flush=True)
        for c, rc, o in bad: print('   ', c, rc, '\n      '.join(o.strip().split('\n')[:6])[:1500], flush=True)
        for p, s in saved.items(): open(p, 'w').write(s)
