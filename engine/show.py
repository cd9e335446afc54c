#!/usr/bin/env python3
"""show.py 'glob,glob' fnregex [-o opaque,opaque] -- dump the dataflow summary of functions"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vk, flow
a = sys.argv[1:]
op = []
if '-o' in a:
    k = a.index('-o'); op = a[k+1].split(','); del a[k:k+2]
eh = False
if '-e' in a: a.remove('-e'); eh = True
u = vk.Unit(a[0].split(','))
try:
    def out(*a):
        import re
        s = ' '.join(str(x) for x in a)
        s = re.sub(r'(trick_source|include/trick)/[\w/]*?(\w+\.\w+:)', r'\2', s).replace('ScheduledJobQueue::','SJQ::').replace('VariableServer','VS').replace('MemoryManager','MM')
        print(s[:int(os.environ.get('W','500'))])
    flow.print = out
    p = u.extract(roots=a[1:], opaque=op, devirt=[x for x in os.environ.get('DEVIRT', '').split(',') if x])
    for n, fs in p.fns.items():
        for f in fs:
            print('=====', f['name'], [x[0] for x in f['args']])
            try:
                kw = {'typed': True, 'streams': True} if os.environ.get('TYPED') else {}
                if os.environ.get('VER'): kw['ver'] = True
                if os.environ.get('CONSTS'): kw['consts'] = {k.replace('|', ','): int(v) for k, v in (x.rsplit('=', 1) for x in os.environ['CONSTS'].split(','))}
                fl = flow.dump(p, f, eh=eh, **kw)
                if os.environ.get('STEP'):
                  for q, nx in fl.latch.items():
                    if q[0] == 'lm' and fl.root(q[2])[0] != 'al': out('STEP', flow._addr(fl.sub(q[2])), ':=', flow.pp(fl.sub(nx))[:600])
            except flow.AnalysisError as e: print('ERR', e)
finally: u.close()
