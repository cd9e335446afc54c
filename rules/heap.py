"""Arrays in the heap as numbered bytes: a read or write outside a live block, or of a freed one, is reported."""
import re
import flow as F
from flow import pp
from rules.mem import val
from rules.sim import Outside, simulate
from rules.messages import Out

class Heap(Out):
    """flows for it need ver=True, typed=True; pointers into blocks are numbers, other pointers are names; cells are 8 bytes"""
    def __init__(s, mem):
        Out.__init__(s, {}, {}, {}, {}); s.mem = dict(mem); s.blocks, s.top, s.made = {}, 100000, {}
    def block(s, values, room=None):
        a = s.top; s.top += 10000; s.blocks[a] = [8 * (len(values) if room is None else room), True]
        for i, v in enumerate(values): s.mem[f'@{a + 8 * i}'] = v
        return a
    def open(s, env):
        Out.open(s, env); env.dead = {b for b, (n, ok) in s.blocks.items() if not ok}      # loads are of the values at the start of a region
    def live(s, a, what='', dead=None):
        for b, (n, ok) in s.blocks.items():
            if b <= a < b + n:
                if (not ok if dead is None else b in dead): raise Outside(f'released memory is used {what}')
                return b
        raise Outside(f'memory outside of the list is used {what}')
    def list(s, a, n):
        return [s.mem.get(f'@{s.at_(a + 8 * i)}') for i in range(n)]
    def at_(s, a): s.live(a); return a
    def addr(s, t, env):
        if t[0] == 'idx' and not (len(t) > 3 and t[3] == 'c'):
            b = s.addr(t[1], env)
            if isinstance(b, int): return b + s.num(t[2], env)
            return None
        if t[0] == 'ver': return s.addr(t[1], env)
        if t[0] in ('fld', 'g', 'al'): return None
        return val(t, env)
    def ptr(s, t, env):
        if t[0] not in ('fld', 'g', 'al'):
            v = s.addr(t, env)
            if isinstance(v, int):
                if v <= 0: raise Outside(f'a null pointer is used, {pp(t)[:80]}')
                return f'@{v}'
        return Out.ptr(s, t, env)
    def where(s, t, env):
        if t[0] not in ('fld', 'g', 'al'):
            v = s.addr(t, env)
            if isinstance(v, int):
                if v <= 0: raise Outside(f'a null pointer is used, {pp(t)[:80]}')
                return f'@{v}'
        return Out.where(s, t, env)
    def place(s, e, env):
        c = s.where(e.addr, env)
        if c.startswith('@') and c[1:].isdigit(): s.live(int(c[1:]), 'for writing')
        return c
    def tracks(s, c): return c.startswith('@') or c in s.mem
    def load(s, t, env):
        c = s.where(t[1], env)
        if re.fullmatch(r'@\d+', c):
            s.live(int(c[1:]), 'for reading', getattr(env, 'dead', None))
            v = env.snap.get(c, s.mem.get(c))
            if v is None: raise Outside('an element that was not set is read')
            return v
        if c in env.snap: return env.snap[c]
        return Out.load(s, t, env)
    def term(s, t, env):
        if t[0] == 'idx':
            v = s.addr(t, env)
            if isinstance(v, int): return v
        if t[0] == 'new': return s.alloc(t, 8 * s.num(t[2], env) if len(t) > 2 and not isinstance(t[2], (str, int)) else 8)
        return Out.term(s, t, env)
    def alloc(s, key, n, zero=False):
        k = str(key)
        if k not in s.made:
            a = s.block([], 0); s.blocks[a][0] = n; s.made[k] = a
            if zero: s.mem.update({f'@{a + i}': 0 for i in range(0, n, 8)})
        return s.made[k]
    def result(s, t, env):
        n, a = t[1].split('::')[-1].split('#')[0], t[2:]
        if n == 'calloc': return s.alloc(t, s.num(a[0], env) * s.num(a[1], env), True)
        if n in ('malloc', 'operator new[]', 'operator new'): return s.alloc(t, s.num(a[0], env))
        if n == 'realloc':
            k = str(t)
            if k not in s.made:
                o, z = s.num(a[0], env), s.num(a[1], env); b = s.alloc(t, z)
                if o:
                    s.live(o)
                    for i in range(0, min(z, s.blocks[o][0]), 8):
                        if f'@{o + i}' in s.mem: s.mem[f'@{b + i}'] = s.mem[f'@{o + i}']
                    s.blocks[o][1] = False
                env.snap.update({x: v for x, v in s.mem.items() if x.startswith('@')})
            return s.made[k]
        if n in ('upper_bound', 'lower_bound', 'find') and str(t) in s.made: return s.made[str(t)]
        if n in ('upper_bound', 'lower_bound'):
            b, e, x = s.num(a[0], env), s.num(a[1], env), s.num(a[2], env)
            while b < e and (s.key(s.mem[f'@{s.at_(b)}']) <= s.key(x) if n[0] == 'u' else s.key(s.mem[f'@{s.at_(b)}']) < s.key(x)): b += 8
            s.made[str(t)] = b; return b
        if n == 'find':
            b, e, x = s.num(a[0], env), s.num(a[1], env), s.num(a[2], env)
            while b < e and s.mem.get(f'@{s.at_(b)}') != x: b += 8
            s.made[str(t)] = b; return b
        return Out.result(s, t, env)
    def key(s, j): return s.keys[j]
    def other(s, e, env):
        n = e.name.split('::')[-1].split('#')[0]
        if n in ('calloc', 'malloc', 'realloc', 'operator new[]', 'operator new'): s.result(('ret', e.name) + tuple(e.args), env)
        elif n in ('free', 'operator delete[]', 'operator delete'):
            a = s.num(e.args[0], env)
            if a:
                if a not in s.blocks: raise Outside('memory is released that was not allocated')
                if not s.blocks[a][1]: raise Outside('memory is released twice')
                s.blocks[a][1] = False
        elif n in ('memcpy', 'memmove', 'copy', 'copy_backward', 'move', 'move_backward'):
            x, y, z = (s.num(v, env) for v in e.args[:3])
            if n in ('memcpy', 'memmove'): d, b, k = x, y, z
            else: d, b, k = (z if 'backward' not in n else z - (y - x)), x, y - x
            vs = []
            for i in range(0, k, 8): s.live(b + i, 'for copying'); vs.append(s.mem.get(f'@{b + i}'))
            for i, v in enumerate(vs):
                s.live(d + 8 * i, 'for copying')
                if v is not None: s.mem[f'@{d + 8 * i}'] = v
        elif n == 'abort': raise Outside('the program is ended')
        else: Out.other(s, e, env)

RULES = {}
