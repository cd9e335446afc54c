"""Facts over every function of the program, without inlining: access paths, writers, callers, locks."""
import re
import flow as F
from flow import short

class Fn:
    def __init__(self, prog, f):
        self.p, self.f = prog, f
        self.name = short(f['name'])
        self.blocks = f['blocks']
        self.ins = {}
        for k, b in enumerate(self.blocks):
            for j, i in enumerate(b): self.ins[i['i']] = i
        self.memo = {}

    def loc(self, i):
        if 'f' in i: return self.p.files[i['f']].replace('/repo/', '') + ':' + str(i.get('l', 0))
        return self.name

    def all(self):
        for b in self.blocks:
            for i in b: yield i

    def path(self, o, d=0):
        """printed access path of an operand; (path, [(class, field), ...])"""
        k = o[0]
        if k == 'v':
            if o[1] in self.memo: return self.memo[o[1]]
            if d > 40: return ('?', ())
            self.memo[o[1]] = ('rec', ())
            r = self.memo[o[1]] = self._p(self.ins.get(o[1]), d)
            return r
        if k == 'a': return (self.f['args'][o[1]][0].replace('!byval:', ''), ())
        if k == 'g': return (o[1][7:] if o[1].startswith('Trick::') else o[1], ())
        if k == 'cg': return self._g(self.path(o[1], d + 1), o[2])
        if k in ('c', 'f', 's'): return (str(o[1]), ())
        if k == 'n': return ('0', ())
        if k == 'fn': return ('fn:' + str(o[1]), ())
        return ('?', ())

    def _g(self, b, steps):
        s, fs = b
        for st in steps:
            if st[0] == 'f':
                for part in st[2].split('.'): s += '.' + part
                fs = fs + ((st[1], st[2]),)
            elif st[0] in ('x', 'd'): s += '[*]'
        return (s, fs)

    def _p(self, i, d):
        if i is None: return ('?', ())
        o = i['o']
        if o == 'getelementptr': return self._g(self.path(i['ops'][0], d + 1), i['gep'])
        if o == 'load': return self.path(i['ops'][0], d + 1)
        if o in ('call', 'invoke'):
            n = short(i['callee']) if 'callee' in i else 'ind'
            if n.startswith('std::') or n.startswith('__gnu_cxx') or n.startswith('operator'):
                l = n.split('::')[-1]
                if i['args'] and not l.startswith('operator new'):
                    b = self.path(i['args'][0], d + 1)
                    return (b[0] if l in ('operator->', 'operator*', 'get', 'begin', 'front', 'back', 'end', 'find') else b[0] + '[*]', b[1])
            return (n + '()', ())
        if o == 'alloca': return ('local:' + i.get('nm', ''), ())
        if o in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'sext', 'zext', 'trunc', 'freeze'): return self.path(i['ops'][0], d + 1)
        if o == 'phi':
            ps = [self.path(x[0], d + 1) for x in i['in']]
            ps = [x for x in ps if x[0] != 'rec']
            return ps[0] if ps and all(x == ps[0] for x in ps) else ('phi', ())
        return (o, ())

    def callee(self, i):
        if i['o'] not in ('call', 'invoke'): return None
        if 'callee' in i: return short(i['callee'])
        if 'virt' in i:
            n = self.p.vslots.get(i['virt'][0], {}).get(str(i['virt'][1]))
            if n: return n[7:] if n.startswith('Trick::') else n
        return 'ind'

    def succs(self, k):
        t = self.blocks[k][-1]
        if t['o'] == 'br': return list(t['succ'])
        if t['o'] == 'switch': return [t['def']] + [c[1] for c in t['cases']]
        if t['o'] == 'invoke': return [t['nd'], t['ud']]
        return []

def functions(prog):
    seen = set()
    for n, fs in prog.fns.items():
        for f in fs:
            if f['mangled'] in seen: continue
            seen.add(f['mangled'])
            yield Fn(prog, f)

def writers(prog, cls, field):
    """(function, instruction) that store to a field of a class"""
    out = []
    for fn in functions(prog):
        for i in fn.all():
            if i['o'] == 'store':
                p = fn.path(i['ops'][1])
                if p[1] and p[1][-1][1] == field and p[1][-1][0].split('::')[-1] == cls: out.append((fn, i))
    return out
