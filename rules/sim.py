"""Evaluation of a function's summary over a sample state: what its effects leave behind, in the order of execution."""
import re
import flow as F
from flow import M, pp
from rules.comm import sp
from rules.mem import Env, on, val

class Outside(F.Unknown):
    """something that is not there is used"""
    last = None
    def __init__(s, m): F.Unknown.__init__(s, m); Outside.last = m

class State(Env):
    """values at the start of a region (the function or one iteration)"""
    def __init__(s, w, outer=None, it=None, lid=None, stores=(), hist=(), each=''):
        Env.__init__(s); s.w, s.outer, s.lid, s.it, s.exits, s.hist, s.each = w, outer, lid, it, {}, list(hist), each
        if not w.byterm: s.term = None
        w.open(s)
        s.snap = dict(w.mem if outer is None else outer.snap)
        if outer is not None:      # what the loop does not change has the value before it
            s['#iter'] = it
            for x in stores:
                try: c = w.place(x, s)
                except F.Unknown: continue
                if c in w.mem: s.snap[c] = w.mem[c]
    def look(s, k): return s.w.value(k, s)
    def term(s, t): return s.w.term(t, s)

class Made(list):
    """the iterations made of a loop"""

class World:
    """memory cells by concrete path, and the answers of the functions called"""
    byterm = False
    def __init__(s, mem): s.mem = dict(mem); s.log = []
    def place(s, e, env): return s.cell(sp(e), env)
    def cell(s, p, env):
        it = env.get('#iter')
        if it is not None:
            p = p.replace('[*]', f'[{it}]')
            p = re.sub(r'\[(\d+)\.\.\]', lambda m: f'[{int(m[1]) + it}]', p)
        return p
    def value(s, k, env):
        c = s.cell(k, env)
        if c in env.snap: return env.snap[c]
        return s.answer(c, env)
    def answer(s, k, env): return None
    def call(s, e, env): pass
    def tracks(s, c): return True
    def open(s, env): pass

def decide(g, env):
    """1 / 0 / None: the value of a condition some parts of which may be unknown"""
    memo = {}
    def go(f):
        if f <= 1: return {f}
        if f not in memo:
            v, lo, hi = M.nodes[f]
            try: memo[f] = go(hi if F.evb(M.var(M.vars[v]), env) else lo)
            except F.Unknown: memo[f] = go(lo) | go(hi)
        return memo[f]
    r = go(g)
    return r.pop() if len(r) == 1 else None

def simulate(f, w, limit=40):
    """runs the effects; the environment after the last one. Unknown if a tracked quantity or a condition is not understood"""
    es = sorted(f.effects, key=lambda e: e.order)
    w.enter(f) if hasattr(w, 'enter') else None
    def holds(g, env):
        Outside.last = None
        o = decide(g, env) if w.byterm else on(g, env)
        if o is None and Outside.last: raise Outside(Outside.last)
        if o is None: raise F.Unknown(F.pbdd(g)[:160])
        return o
    def run(lids, env):
        wrote = set()
        for e in es:
            if list(e.lids) != lids: continue
            if not holds(e.guard, env): continue
            if e.kind == 'store':
                c = w.place(e, env)
                if not w.tracks(c): continue
                v = val(e.val, env)
                if v is None: raise F.Unknown(f'{c} := {pp(e.val)[:120]}')
                w.mem[c] = v; wrote.add(c)
            elif e.kind == 'call':
                w.call(e, env)
            elif e.kind == 'loop':
                hist = Made(); hist.lid = e.blk; hist.nr = e.nr if isinstance(e.nr, list) else ()
                st = [x for x in es if x.kind == 'store' and list(x.lids)[:len(lids) + 1] == lids + [e.blk]]
                may = set()
                for x in st:
                    if '[*]' in sp(x) or '..]' in sp(x): continue
                    try: may.add(w.place(x, env))
                    except F.Unknown: pass
                for k in range(limit):
                    v = State(w, env, k, e.blk, st, env.hist + [hist], e.name or '')
                    if not holds(e.val, v): break
                    wr = run(lids + [e.blk], v)
                    out = any([holds(n, v) for n in e.nr]) or bool(e.fall and holds(e.fall, v))
                    v.left = out; hist.append(v)
                    for c in wr:
                        if c in w.mem: env.snap[c] = w.mem[c]
                    wrote |= wr
                    if out: break
                else: raise Outside(f'{limit} iterations and more')
                for c in may:
                    if c in w.mem: env.snap[c] = w.mem[c]
                w.open(env)
                env.hist = env.hist + [hist]; env.exits[e.blk] = k
                env['#iter' if not lids else '#last'] = k
        return wrote
    env = State(w)
    run([], env)
    return env

class Lists(World):
    """a memory of named objects and containers of them; pointers are names, iterators are positions. order: path -> key of a sorted container"""
    byterm = True
    def __init__(s, mem, lists={}, order={}, args={}):
        World.__init__(s, mem); s.lists, s.order, s.args = {k: list(v) for k, v in lists.items()}, order, args
        s.deny = 0
    def open(s, env):
        env.vers = {k: {0: list(v)} for k, v in s.lists.items()}; env.then = {}
    def at(s, path, env, ver=0):
        """the contents of a container at a point of a region"""
        h = env.vers.get(path)
        if h is None: return s.lists[path]
        return h[max(v for v in h if v <= ver)]
    def num(s, t, env):
        v = val(t, env)
        if v is None: raise F.Unknown(pp(t)[:200])
        return v
    def ptr(s, t, env):
        """the name of what a pointer refers to"""
        if t[0] in ('fld', 'idx', 'g', 'ver', 'al'): return s.where(t, env)
        if t == ('a', 0, 'this') or t[0] == 'a' and t[2] == 'this': return 'this'
        v = val(t, env)
        if v is None and t[0] == 'ld': return s.where(t[1], env)      # an object without another name
        if v is None: raise F.Unknown(pp(t)[:200])
        if isinstance(v, str): return v
        if v == 0: raise Outside(f'a null pointer, {pp(t)[:80]}')
        raise F.Unknown(pp(t)[:200])
    def place(s, e, env): return s.where(e.addr, env)
    def which(s, a, env):
        """the container at an address, and its version"""
        v = 0
        if a[0] == 'ver': v, a = a[2], a[1]
        try: k = s.where(a, env)
        except Outside: raise
        except F.Unknown: return None, 0
        return (k, v) if k in s.lists else (None, 0)
    def element(s, t, env):
        """the container and the position an element address refers to"""
        base = t[1]
        if base[0] == 'itref':
            n = s.owner(base[1], env)
            return n, s.num(base[1], env), 0
        n, v = s.which(base, env)
        if n is None: raise F.Unknown(pp(t)[:160])
        l = s.at(n, env, v)
        i = len(l) - 1 if t[2] == ('ret', 'last') else s.index(t[2], s.walking(base, env) if t[2][0] == 'count' and t[2][3:] == ('it',) else env)
        return n, i, v
    def index(s, t, env):
        if t[0] == 'iterpos': return env.it
        return s.num(t, env)
    def where(s, t, env):
        k = t[0]
        if k == 'fld': return s.ptr(t[1], env) + '.' + t[3]
        if k == 'g': return t[1]
        if k == 'ver': return s.where(t[1], env)
        if k == 'idx':
            if len(t) > 3 and t[3] == 'c':
                if len(t) > 4: raise F.Unknown(pp(t)[:160])
                n, i, v = s.element(t, env)
                l = s.at(n, env, v)
                if not 0 <= i < len(l): raise Outside(f'element {i} of {n}, which has {len(l)}')
                return f'{n}[{i}]'
            return f'{s.ptr(t[1], env)}[{s.index(t[2], env)}]'
        if k in ('ld', 'a', 'ret', 'ite'):
            n = s.ptr(t, env)
            return n if n in s.mem or n in s.lists else n + '[0]'
        raise F.Unknown(pp(t)[:160])
    def owner(s, it, env):
        """the container an iterator refers to"""
        r = set()
        def go(t):
            if isinstance(t, tuple):
                if t and t[0] in ('it', 'iter'):
                    n, _ = s.which(t[1], env)
                    if n: r.add(n)
                if t == ('self',) and '#self' in env.keys(): go(env['#self'])
                for x in t: go(x)
        go(it)
        if len(r) != 1: raise F.Unknown('the container of ' + pp(it)[:160])
        return r.pop()
    def walking(s, c, env):
        """the iteration of the innermost loop over a container, or the innermost iteration"""
        e, n = env, 'each ' + F._addr(c)
        while e is not None and e.it is not None:
            if e.each == n or e.each.startswith(n + ' '): return e
            e = e.outer
        return env
    def counted(s, lid, env):
        e = env
        while e is not None:
            if e.lid == lid: return e, e.it
            if lid in e.exits: return e, e.exits[lid]
            e = e.outer
        raise F.Unknown('an iteration of another loop')
    def load(s, t, env):
        """the value at an address"""
        a = t[1]
        if a[0] == 'idx' and len(a) == 4 and a[3] == 'c':
            n, i, v = s.element(a, env)
            l = s.at(n, env, v)
            if not 0 <= i < len(l): raise Outside(f'element {i} of {n}, which has {len(l)}')
            return l[i]
        c = s.where(a, env)
        for n, v in versions(a):      # what is reached through a changed container is as it was after that change
            n = s.where(n, env); h = env.then.get(n, {}); v = [x for x in h if x <= v]
            if v and c in h[max(v)]: return h[max(v)][c]
        if c in env.snap: return env.snap[c]
        return s.answer(c, env)
    def term(s, t, env):
        k = t[0]
        if k == 'count':
            if len(t) > 3 and t[3] != 'it':
                e, i = s.counted(t[3], env)
                return F.ev(t[1], e.outer or e) + t[2] * i
            return F.ev(t[1], env.outer or env) + t[2] * env.get('#iter', 0)
        if k == 'ld': return s.load(t, env)
        if k == 's': return t[1]
        if k == 'a':
            if t[2] in s.args: return s.args[t[2]]
            return s.answer(t[2], env)
        if k in ('fld', 'g') and t[0] != 'ld': return s.where(t, env)      # an address
        if k == 'idx' and len(t) == 3: return s.where(t, env)
        if k == 'it':
            n, v = s.which(t[1], env)
            if n is None: return None
            l = s.at(n, env, v)
            if t[2] in ('begin', 'rbegin'): return 0
            if t[2] in ('end', 'rend'): return len(l)
            if t[2] == 'find':
                x = s.num(t[3], env); return l.index(x) if x in l else len(l)
            return None
        if k == 'next': return s.num(t[1], env) + 1
        if k == 'prev': return s.num(t[1], env) - 1
        if k == 'iter':
            e = s.walking(t[1], env); return (e.it if e.it is not None else e.get('#iter', 0)) + (s.num(t[2], env) if len(t) > 2 and t[2] != 'r' else 0)
        if k == 'ret':
            if t[1] == 'erase_next': return s.num(t[2], env)
            if t[1] == 'advance' and len(t) == 4: return s.num(t[2], env) + s.num(t[3], env)
            if t[1] == 'size':
                n, v = s.which(t[2][1] if t[2][0] == 'ld' else t[2], env)
                if n is not None: return len(s.at(n, env, v))
            if t[1] in ('std::find', 'find') and len(t) == 5 and t[2][0] == 'it':
                n, v = s.which(t[2][1], env); x = s.num(t[4], env); l = s.at(n, env, v)
                return l.index(x) if x in l else len(l)
            return s.result(t, env)
        return None
    def result(s, t, env):
        """what an unanalysed function returned"""
        return s.answer(pp(t), env)
    def value(s, k, env): return s.answer(k, env)
    def mutate(s, e, env):
        """insertion into or removal from a container; False if the call is something else"""
        n = e.name
        if not e.args or e.args[0][0] not in ('fld', 'idx', 'g', 'ver'):
            if n.split('::')[-1] == 'remove' and len(e.args) == 3 and e.args[0][0] == 'it':
                c, _ = s.which(e.args[0][1], env); x = s.num(e.args[2], env)
                s.removed = (c, [y for y in s.lists[c] if y != x]); return True
            return False
        if n not in F.MUTATORS: return False
        c, _ = s.which(e.args[0], env)
        if c is None: return False
        l = s.lists[c]
        if n == 'erase':
            if len(e.args) == 3:
                a = e.args[1]
                if a[0] == 'ret' and a[1].split('::')[-1] == 'remove' and getattr(s, 'removed', (None,))[0] == c: s.lists[c] = s.removed[1]
                else: del l[s.num(a, env):s.num(e.args[2], env)]
            else:
                i = s.num(e.args[1], env)
                if isinstance(i, str): s.lists[c] = [x for x in l if x != i]
                elif not 0 <= i < len(l): raise Outside(f'erasing element {i} of {c}, which has {len(l)}')
                else: del l[i]
        elif n == 'insert' and len(e.args) == 3 and c not in s.order: l.insert(s.num(e.args[1], env), s.num(e.args[2], env))
        elif n in ('insert', 'push_back', 'emplace_back', 'push_front', 'push') and len(e.args) == 2:
            x = s.num(e.args[1], env)
            if c in s.order:
                i = 0
                while i < len(l) and not s.order[c](s, x) < s.order[c](s, l[i]): i += 1
                l.insert(i, x)
            elif n == 'push_front': l.insert(0, x)
            else: l.append(x)
        elif n == 'clear': l.clear()
        elif n == 'resize' and len(e.args) == 2: l[:] = (l + [0] * s.num(e.args[1], env))[:s.num(e.args[1], env)]
        elif n in ('pop_back', 'pop_front', 'pop'):
            if not l: raise Outside(f'taking from {c}, which is empty')
            l.pop(-1 if n == 'pop_back' else 0)
        else: raise F.Unknown(f'{n} of {c}')
        env.vers.setdefault(c, {})[e.ver or 0] = list(s.lists[c]); env.then.setdefault(c, {})[e.ver or 0] = dict(s.mem)
        return True
    def call(s, e, env):
        if not s.mutate(e, env): s.other(e, env)
    def other(s, e, env): pass

VERS = {}
def versions(t):
    """the changed containers an address goes through"""
    if t not in VERS:
        r = []
        def go(x):
            if isinstance(x, tuple):
                if x and x[0] == 'rec': return
                if x and x[0] == 'ver': r.append((x[1], x[2]))
                for y in x: go(y)
        go(t); VERS[t] = r
    return VERS[t]

RULES = {}
