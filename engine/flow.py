"""Guard-sensitive gated-SSA dataflow over the extracted functions.

For one function (repository helpers already inlined by tx) it computes, for every
observable effect (field store, call of a vocabulary function, return value), the Boolean
guard under which the effect happens, over canonical atoms:
   LT(L,k)   integer linear form L < k            FLT/FEQ  floating comparison
   B(t)      truth of a bool / non-nullness        EQ(a,b)  identity of pointers/iterators
   X(c)      some iteration of the loop leaves it early under c
Values are merged at joins (gated by the edge guards), loops are cut at their back edges and
their variables summarised (iterator, counter, recurrence). No path is enumerated, nothing
is executed, no solver is involved: guards are BDDs and compared by truth table.
"""
import copy, json, re, sys
from bdd import BDD

sys.setrecursionlimit(100000)
M = BDD()

# ------------------------------------------------------------------ names
def strip_templates(s):
    out, d, i = [], 0, 0
    while i < len(s):
        if s.startswith('operator<<', i) or s.startswith('operator>>', i):
            if d == 0: out.append(s[i:i+10])
            i += 10; continue
        if s.startswith('operator<=', i) or s.startswith('operator>=', i) or s.startswith('operator->', i):
            if d == 0: out.append(s[i:i+10])
            i += 10; continue
        if (s.startswith('operator<', i) or s.startswith('operator>', i)) and (i + 9 < len(s) and s[i+9] in '(<'):
            if d == 0: out.append(s[i:i+9])
            i += 9; continue
        c = s[i]
        if c == '<': d += 1
        elif c == '>' and d > 0: d -= 1
        elif d == 0: out.append(c)
        i += 1
    return ''.join(out)

def split_params(d):
    """'ns::f(A, B const&) const' -> (head, [params])"""
    s = d
    m = re.search(r'\)( const)?( &&?)?(\s*\[.*\])?$', s)
    if not m:
        return d, []
    end = m.start()
    depth, i = 0, end
    while i >= 0:
        if s[i] == ')': depth += 1
        elif s[i] == '(':
            depth -= 1
            if depth == 0: break
        i -= 1
    head, inner = s[:i], s[i+1:end]
    if head.endswith('operator'):
        head += '()'
    ps, dd, cur = [], 0, ''
    for c in inner:
        if c in '<([': dd += 1
        elif c in '>)]': dd -= 1
        if c == ',' and dd == 0:
            ps.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): ps.append(cur.strip())
    return head, ps

_short = {}
def short(d):
    r = _short.get(d)
    if r is not None: return r
    head, _ = split_params(d)
    h = strip_templates(head)
    k = h.find('operator')
    if k > 0 and (h[k-1] in ': '):
        pre, post = h[:k], h[k:]
        pre = pre.split(' ')[-1]
        h = pre + post
    elif k != 0:
        h = h.strip().split(' ')[-1]
    h = h.replace('__cxx11::', '').replace('(anonymous namespace)::', '')
    h = re.sub(r'\[abi:[^\]]*\]', '', h)
    if h.startswith('Trick::'): h = h[7:]
    _short[d] = h
    return h

# ------------------------------------------------------------------ terms
ZERO = ('c', 0)
ONE = ('c', 1)

_pp = {}
def pp(t):
    r = _pp.get(t)
    if r is None:
        r = _pp[t] = _pp0(t)
    return r

def _addr(t):
    """print an address as an lvalue path"""
    k = t[0]
    if k == 'fld': return f'{pval(t[1])}.{t[3]}'
    if k == 'idx': return f'{_addr(t[1]) if t[1][0] in ("fld","idx","g","al","tmp","ver") else pval(t[1])}[{ppi(t[2])}]'
    if k == 'g': return t[1]
    if k == 'al': return 'local'
    if k == 'ver': return f'{_addr(t[1])}#{t[2]}'
    if k == 'off': return f'{pval(t[1])}@{t[2]}'
    if k == 'tmp': return pp(t[1])
    return '*' + pp(t)

def ppi(t):
    if t[0] == 'count':
        if t[2] == 1: return '*' if t[1] == ZERO else pp(t[1]) + '..'
    if t[0] == 'iterpos': return '*'
    return pp(t)

def pval(t):
    """a pointer value used as a base"""
    k = t[0]
    if k in ('fld', 'idx', 'g', 'al', 'ver'):
        return _addr(t)
    return pp(t)

def _pp0(t):
    k = t[0]
    if k == 'c': return str(t[1])
    if k == 's': return '"' + t[1].replace('\n', '\\n') + '"'
    if k == 'f': return 'f' + t[1]
    if k == 'fn': return 'fn:' + short(t[1])
    if k == 'a': return t[2]
    if k == 'ld': return _addr(t[1])
    if k in ('fld', 'idx', 'g', 'al', 'off', 'ver'): return '&' + _addr(t)
    if k == 'tmp': return '&' + pp(t[1])
    if k == 'ret': return f'{t[1]}({",".join(pp(x) for x in t[2:])})'
    if k == 'post': return f'{_addr(t[2])}@{t[1]}'
    if k == 'lin':
        s = ''
        for x, c in t[2]:
            p = pp(x)
            if c == 1: s += '+' + p
            elif c == -1: s += '-' + p
            else: s += ('+' if c > 0 else '-') + f'{abs(c)}*{p}'
        if t[1]: s += ('+' if t[1] > 0 else '-') + str(abs(t[1]))
        return s[1:] if s.startswith('+') else s
    if k == 'op': return f'{t[1]}({",".join(pp(x) for x in t[2:])})'
    if k == 'bool':
        n = M.nodes[t[1]]
        if n[1] == 0 and n[2] == 1 and M.vars[n[0]][0] == 'B': return pp(M.vars[n[0]][1])
        return '[' + pbdd(t[1]) + ']'
    if k == 'ite': return f'ite([{pbdd(t[1])}],{pp(t[2])},{pp(t[3])})'
    if k == 'it': return f'{t[2]}({_addr(t[1])}' + (f',{pp(t[3])})' if len(t) > 3 and t[2] != 'find' else ')')
    if k == 'next': return f'next({pp(t[1])})'
    if k == 'iter': return f'iter({_addr(t[1])})'
    if k == 'count': return f'count({pp(t[1])},{t[2]})'
    if k == 'chain': return f'chain({pp(t[1])},{t[2]})'
    if k == 'rec': return f'rec({pp(t[1])};{pp(t[2])})'
    if k == 'self': return 'self'
    if k == 'new': return 'new'
    if k == 'uninit': return 'uninit'
    if k == 'struct': return '{' + ','.join(f'{f}={pp(v)}' for f, v in t[1]) + '}'
    if k == 't': return t[1]
    if k == 'lv': return f'?lv{t[1]}.{t[2]}'
    if k == 'lm': return f'?lm{t[1]}.{_addr(t[2])}'
    if k == 'out': return f'out{t[2]}:{t[1]}({",".join(pp(x) for x in t[3:])})'
    return k + '(' + ','.join(pp(x) if isinstance(x, tuple) else str(x) for x in t[1:]) + ')'

PAIRS = {'__prev': 'first', '__next': 'second', '_M_next': 'first', '_M_prev': 'second'}
def unwrap(x):
    """an iterator object is its one field"""
    while x[0] == 'struct' and len(x[1]) == 1: x = x[1][0][1]
    return x

def patom(key):
    k = key[0]
    if k == 'LT': return f'{pp(key[1])}<{key[2]}'
    if k == 'B': return pp(key[1])
    if k == 'EQ': return f'{pp(key[1])}=={pp(key[2])}'
    if k == 'FLT': return f'{pp(key[1])}<.{pp(key[2])}'
    if k == 'FEQ': return f'{pp(key[1])}==.{pp(key[2])}'
    if k == 'X': return f'exists({pbdd(key[1])})'
    if k == 'THROW': return f'throws({key[1]})'
    if k == 'SPEC': return key[1]
    return str(key)

_pb = {}
def pbdd(f):
    if f == 1: return 'true'
    if f == 0: return 'false'
    r = _pb.get(f)
    if r is None:
        cs = M.cubes(f, 6)
        r = _pb[f] = ' | '.join(pcube(c) for c in cs) + (' | ...' if len(cs) == 6 else '')
    return r

def pcube(c):
    """print a conjunction; L>=k & L<k+1 reads L==k, redundant bounds are dropped"""
    lo, hi, rest = {}, {}, []
    for k, p in c:
        if k[0] == 'LT':
            if p: hi[k[1]] = min(hi.get(k[1], 1 << 70), k[2])
            else: lo[k[1]] = max(lo.get(k[1], -(1 << 70)), k[2])
        else: rest.append(('' if p else '!') + '(' + patom(k) + ')')
    out = []
    for L in dict.fromkeys(list(lo) + list(hi)):
        a, b_ = lo.get(L), hi.get(L)
        if a is not None and b_ == a + 1: out.append(f'({rel(L, "==", a)})')
        elif a is not None and b_ is not None: out.append(f'({a}<={pp(L)}<{b_})')
        elif a is not None: out.append(f'({rel(L, ">=", a)})')
        else: out.append(f'({rel(L, "<", b_)})')
    return '&'.join(out + rest) or 'true'

def rel(L, o, k):
    if k == 0 and L[0] == 'lin' and len(L[2]) == 2 and L[1] == 0:
        (x, c), (y, d) = L[2]
        if c == 1 and d == -1: return f'{pp(x)} {o} {pp(y)}'
    return f'{pp(L)} {o} {k}'

def lin(t):
    if t[0] == 'c': return t[1], {}
    if t[0] == 'lin': return t[1], dict(t[2])
    return 0, {t: 1}

def mklin(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d: return ('c', c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1: return k
    return ('lin', c, tuple(sorted(d.items(), key=lambda kv: (pp(kv[0]), repr(kv[0])))))

def tadd(a, b, sb=1):
    if a[0] == 'ite': return mkite(a[1], tadd(a[2], b, sb), tadd(a[3], b, sb))
    if b[0] == 'ite': return mkite(b[1], tadd(a, b[2], sb), tadd(a, b[3], sb))
    a, b = boolint(a), boolint(b)
    if a[0] == 'ite' or b[0] == 'ite': return tadd(a, b, sb)
    c1, d1 = lin(a); c2, d2 = lin(b)
    d = dict(d1)
    for k, v in d2.items(): d[k] = d.get(k, 0) + sb * v
    return mklin(c1 + sb * c2, d)

def tmul(a, b):
    if b[0] == 'c': a, b = b, a
    if a[0] == 'c':
        c, d = lin(b)
        if b[0] == 'ite': return mkite(b[1], tmul(a, b[2]), tmul(a, b[3]))
        return mklin(c * a[1], {k: v * a[1] for k, v in d.items()})
    if pp(b) < pp(a): a, b = b, a
    return ('op', 'mul', a, b)

def boolint(t):
    if t[0] == 'bool':
        return mkite(t[1], ONE, ZERO, raw=True)
    return t

def mkbool(b):
    if b == 1: return ONE
    if b == 0: return ZERO
    return ('bool', b)

def mkite(c, a, b, raw=False):
    if c == 1: return a
    if c == 0: return b
    if a == b: return a
    if not raw:
        if (a[0] == 'bool' or a in (ZERO, ONE)) and (b[0] == 'bool' or b in (ZERO, ONE)) and (a[0] == 'bool' or b[0] == 'bool'):
            return mkbool(M.ite(c, truth(a), truth(b)))
    # simple simplifications of nested ite on the same condition
    if a[0] == 'ite' and a[1] == c: a = a[2]
    if b[0] == 'ite' and b[1] == c: b = b[3]
    if a == b: return a
    return ('ite', c, a, b)

ASSUME = {}                    # printed atoms a specialised analysis takes as true or false
def atom(k):
    if ASSUME:
        x = ASSUME.get(f'{pp(k[1])}=={pp(k[2])}' if k[0] == 'EQ' else pp(k[1]))
        if k[0] == 'LT': return M.var(k) if x is None else 1 if x < k[2] else 0
        if x is not None: return 1 if x else 0
    return M.var(k)

NONNULL = ('al', 'fld', 'idx', 's', 'new', 'g', 'fn', 'tmp')
def truth(t):
    k = t[0]
    if k == 'c': return 1 if t[1] else 0
    if k == 'bool': return t[1]
    if k == 'ite': return M.ite(t[1], truth(t[2]), truth(t[3]))
    if k in NONNULL: return 1
    return atom(('B', t))

def int_lt(a, b):
    """a < b over mathematical integers"""
    if a[0] == 'ite': return M.ite(a[1], int_lt(a[2], b), int_lt(a[3], b))
    if b[0] == 'ite': return M.ite(b[1], int_lt(a, b[2]), int_lt(a, b[3]))
    a, b = boolint(a), boolint(b)
    if a[0] == 'ite' or b[0] == 'ite': return int_lt(a, b)
    c1, d1 = lin(a); c2, d2 = lin(b)
    d = dict(d1)
    for k, v in d2.items(): d[k] = d.get(k, 0) - v
    return lin_lt(d, c2 - c1)          # sum(d) < c2-c1

def lin_lt(d, k):
    d = {x: v for x, v in d.items() if v}
    if not d: return 1 if 0 < k else 0
    items = sorted(d.items(), key=lambda kv: (pp(kv[0]), repr(kv[0])))
    neg = items[0][1] < 0
    from math import gcd
    g = 0
    for _, v in items: g = gcd(g, abs(v))
    if neg:
        # -D < k  <=>  D > -k  <=> !(D < -k+1)
        L = mklin(0, {x: -v for x, v in items})
        return M.NOT(atom(('LT', L, -k + 1)))
    L = mklin(0, dict(items))
    return atom(('LT', L, k))

def int_eq(a, b):
    if a[0] == 'ite': return M.ite(a[1], int_eq(a[2], b), int_eq(a[3], b))
    if b[0] == 'ite': return M.ite(b[1], int_eq(a, b[2]), int_eq(a, b[3]))
    if a[0] == 'bool' or b[0] == 'bool':
        if a[0] == 'bool' and b[0] == 'bool': return M.NOT(M.XOR(a[1], b[1]))
        if b[0] == 'bool': a, b = b, a
        if b == ZERO: return M.NOT(a[1])
        if b == ONE: return a[1]
        if b[0] == 'c': return 0
        a = boolint(a)
        return int_eq(a, b)
    return M.AND(M.NOT(int_lt(a, b)), M.NOT(int_lt(b, a)))

def ptr_eq(a, b):
    if a[0] == 'ite': return M.ite(a[1], ptr_eq(a[2], b), ptr_eq(a[3], b))
    if b[0] == 'ite': return M.ite(b[1], ptr_eq(a, b[2]), ptr_eq(a, b[3]))
    if a == b: return 1
    if a == ZERO: return M.NOT(truth(b))
    if b == ZERO: return M.NOT(truth(a))
    if (pp(b), repr(b)) < (pp(a), repr(a)): a, b = b, a
    return atom(('EQ', a, b))

def flt(a, b):
    if a[0] == 'ite': return M.ite(a[1], flt(a[2], b), flt(a[3], b))
    if b[0] == 'ite': return M.ite(b[1], flt(a, b[2]), flt(a, b[3]))
    if a == b: return 0
    if (pp(b), repr(b)) < (pp(a), repr(a)):
        # a<b  ==  !(b<a) & !(b==a)
        return M.AND(M.NOT(M.var(('FLT', b, a))), M.NOT(M.var(('FEQ', b, a))))
    return M.var(('FLT', a, b))

def feq(a, b):
    if a[0] == 'ite': return M.ite(a[1], feq(a[2], b), feq(a[3], b))
    if b[0] == 'ite': return M.ite(b[1], feq(a, b[2]), feq(a, b[3]))
    if a == b: return 1
    if (pp(b), repr(b)) < (pp(a), repr(a)): a, b = b, a
    return M.var(('FEQ', a, b))

def care(*fs):
    """ordering axioms among the atoms in the support of fs"""
    sup = set()
    for f in fs: sup |= M.support(f)
    byL, fl, bs = {}, {}, []
    for v in sup:
        k = M.vars[v]
        if k[0] == 'LT': byL.setdefault(k[1], set()).add(k[2])
        elif k[0] == 'B': bs.append(k[1])
        elif k[0] in ('FLT', 'FEQ'): fl.setdefault((k[1], k[2]), set()).add(k[0])
    r = 1
    for x in bs:                    # truth of a number is being non-zero
        for L in (x, ('lin', 0, ((x, 1),))):
            if L in byL:
                byL[L] |= {0, 1}
                r = M.AND(r, M.XOR(M.var(('B', x)), M.AND(M.NOT(M.var(('LT', L, 0))), M.var(('LT', L, 1)))))
    for L, ks in byL.items():
        ks = sorted(ks)
        for a, b in zip(ks, ks[1:]):
            r = M.AND(r, M.OR(M.NOT(M.var(('LT', L, a))), M.var(('LT', L, b))))
        if L in UNSIGNED:
            for k in ks:
                if k <= 0: r = M.AND(r, M.NOT(M.var(('LT', L, k))))
    for (a, b), ks in fl.items():
        if len(ks) == 2:
            r = M.AND(r, M.NOT(M.AND(M.var(('FLT', a, b)), M.var(('FEQ', a, b)))))
    # x - y < k  and  thresholds of x and y separately are left independent (sound for comparison of specs)
    return r

UNSIGNED = set()

def tname(t):
    """replace the atomic terms of t by their printed names, keep linear structure"""
    if t[0] in ('c', 't'): return t
    if t[0] == 'lin':
        r = ('c', t[1])
        for x, c in t[2]: r = tadd(r, tmul(('c', c), tname(x)))
        return r
    n = ('t', pp(t))
    if t in UNSIGNED: UNSIGNED.add(n)
    return n

_nm = {}
def norm(f):
    """guards over printed atoms (two structurally different terms with one reading are one atom)"""
    def key(k):
        o = k[0]
        if o == 'LT': return int_lt(tname(k[1]), ('c', k[2]))
        if o == 'B': return M.var(('B', tname(k[1])))
        if o == 'EQ':
            a, b = tname(k[1]), tname(k[2])
            if (pp(b), repr(b)) < (pp(a), repr(a)): a, b = b, a
            return M.var(('EQ', a, b))
        if o == 'FLT': return flt(tname(k[1]), tname(k[2]))
        if o == 'FEQ': return feq(tname(k[1]), tname(k[2]))
        if o == 'X': return M.var(('X', norm(k[1])))
        return M.var(k)
    return M.compose(f, key, _nm)

def xfree(f):
    """read 'some iteration left the loop with c' as c of the iteration looked at"""
    return M.compose(f, lambda k: xfree(k[1]) if k[0] == 'X' else M.var(k), {})

def equiv(f, g, extra=1):
    f, g, extra = norm(f), norm(g), norm(extra)
    c = M.AND(care(f, g, extra), extra)
    return M.AND(c, M.XOR(f, g)) == 0

def implies(f, g, extra=1):
    f, g, extra = norm(f), norm(g), norm(extra)
    c = M.AND(care(f, g, extra), extra)
    return M.AND(c, f, M.NOT(g)) == 0

# ------------------------------------------------------------------ evaluation over orderings
class Unknown(Exception): pass

def ev(t, env):
    k = t[0]
    if k == 'c': return t[1]
    if k == 'bool': return 1 if evb(t[1], env) else 0
    if k == 'ite': return ev(t[2] if evb(t[1], env) else t[3], env)
    if k == 'lin':
        r = t[1]
        for x, c in t[2]: r += c * ev(x, env)
        return r
    if k == 'op':
        if t[1] in ('tofp', 'utofp', 'toint'): return int(ev(t[2], env)) if t[1] == 'toint' else ev(t[2], env)
        if t[1].startswith('narrow') and t[1][6:].isdigit():
            w = 1 << int(t[1][6:]); x = ev(t[2], env) & (w - 1)
            return x - w if x >= w >> 1 else x
        if t[1] == 'round':
            x = ev(t[2], env); return float(int(abs(x) + 0.5)) * (1 if x >= 0 else -1)
        if t[1] in ('mul', 'fmul', 'fadd', 'fsub', 'div', 'rem', 'fdiv') and len(t) == 4:
            a, b = ev(t[2], env), ev(t[3], env)
            if t[1] in ('div', 'rem', 'fdiv') and b == 0: raise Unknown('a division by zero, ' + pp(t)[:120])
            if t[1] in ('mul', 'fmul'): return a * b
            if t[1] == 'fadd': return a + b
            if t[1] == 'fsub': return a - b
            if t[1] == 'fdiv': return a / b
            if t[1] in ('div', 'rem'):
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return int(q) if t[1] == 'div' else a - b * q
        if t[1] in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr') and len(t) == 4:
            a, b = ev(t[2], env), ev(t[3], env)
            if t[1] == 'and': return a & b
            if t[1] == 'or': return a | b
            if t[1] == 'xor': return a ^ b
            if t[1] == 'shl': return a << (b & 31)
            return (a if t[1] == 'ashr' else a & 0xffffffff) >> (b & 31)
    if k == 'ret' and t[1] in ('round', 'std::round', 'llround', 'lround') and len(t) == 3: return ev(('op', 'round', t[2]), env)
    if k == 'f':
        return float(t[1])
    if k == 'self': return env['self']
    g = getattr(env, 'term', None)
    if g:
        v = g(t)
        if v is not None: return v
    if k == 'count' and '#iter' in env: return ev(t[1], env) + t[2] * env['#iter']
    n = pp(t)
    if n in env: return env[n]
    if k == 'ret' and t[1] == 'size' and t[2][0] == 'ret' and t[2][1] == 'string::substr' and len(t[2]) == 5:
        return max(0, min(ev(('ret', 'size', t[2][2]), env) - ev(t[2][3], env), ev(t[2][4], env)))
    if k == 'rec' and getattr(env, 'hist', None):      # an accumulator over the iterations made so far
        rs = set()
        for h in [h for h in env.hist if len(t) > 3 and t[3] == getattr(h, 'lid', None)][-1:] or env.hist:
            try:
                e = env
                while e is not None and getattr(e, 'lid', None) != getattr(h, 'lid', 0): e = getattr(e, 'outer', None)
                if e is not None and e.it is not None: h = h[:e.it]      # within an iteration, those before it
                e = env
                if h:
                    e = copy.copy(h[0])
                    if 'self' in env.keys() and 'self' not in e.keys(): e['self'] = env['self']
                v = ev(t[1], e)
                for x in h:
                    e = copy.copy(x); e['self'] = v; e['#self'] = t[1]
                    try: v = ev(t[2], e)
                    except Unknown:      # the iteration that left the loop did so before this step
                        if not (x is h[-1] and getattr(x, 'left', False)): raise
                rs.add(v)
            except Unknown: pass
        if len(rs) == 1: return rs.pop()
        raise Unknown(n)
    if k == 'rec':       # an accumulator after one representative element
        if type(env) is dict: e = {**env}
        else: e = copy.copy(env)
        e['self'] = ev(t[1], env)
        return ev(t[2], e)
    if k == 'tmp': return ev(t[1], env)
    raise Unknown(n)

def left(g, env):
    """some iteration of the loop that was made fulfils g"""
    rs = set()
    for h in [h for h in env.hist if g in getattr(h, 'nr', ())] or env.hist:
        try: rs.add(any([evb(g, x) for x in h]))
        except Unknown: pass
    if len(rs) != 1: raise Unknown('exists(' + pbdd(g) + ')')
    return rs.pop()

def evb(f, env):
    while f > 1:
        v, lo, hi = M.nodes[f]
        key = M.vars[v]
        try: r = decided(key, env)
        except Unknown:
            if not hasattr(env, 'hist'): raise
            if evb(lo, env) != evb(hi, env): raise
            f = lo; continue
        f = hi if r else lo
    return f == 1

def decided(key, env):
    o = key[0]
    if o == 'LT': return ev(key[1], env) < key[2]
    if o == 'B': return bool(ev(key[1], env))
    if o in ('EQ', 'FEQ'): return ev(key[1], env) == ev(key[2], env)
    if o == 'FLT': return ev(key[1], env) < ev(key[2], env)
    if o == 'X' and getattr(env, 'hist', None): return left(key[1], env)
    if o == 'X': return evb(key[1], env)      # the iteration that left the loop is the one evaluated
    n = patom(key)
    if n not in env: raise Unknown(n)
    return env[n]

def may(f, env, pre=None):
    """truth values a guard can take when only the quantities in env (and the atoms in pre) are known"""
    memo = {}
    def rec(f):
        if f <= 1: return frozenset((f,))
        if f in memo: return memo[f]
        v, lo, hi = M.nodes[f]
        try: r = rec(hi) if evb(M.var(M.vars[v]), env) else rec(lo)
        except Unknown:
            if pre and M.vars[v] in pre: r = rec(hi) if pre[M.vars[v]] else rec(lo)
            else: r = rec(lo) | rec(hi)
        memo[f] = r
        return r
    return rec(norm(f))

def witness(f):
    s = M.sat_one(M.AND(f, care(f)))
    if s is None: return 'none'
    return pcube(list(s.items()))

# ------------------------------------------------------------------ program
class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.files = d['files']
        self.enums = d['enums']
        self.vslots = d['vslots']
        self.classes = d['classes']
        self.defined = set(d['defined'])
        self.fns = {}
        for f in d['functions']:
            self.fns.setdefault(short(f['name']), []).append(f)
        self.enumval = {}
        for e, vs in self.enums.items():
            for n, v in vs.items():
                self.enumval.setdefault(n, v)

    def get(self, name, params=None):
        c = self.fns.get(name, [])
        if params is not None:
            c = [f for f in c if (len(split_params(f['name'])[1]) if isinstance(params, int) else split_params(f['name'])[1]) == params]
        # prefer complete-object constructors (C1) when both exist
        if len(c) > 1:
            c1 = [f for f in c if 'C1E' in f['mangled']]
            if len(c1) == 1: c = c1
        return c

class Effect:
    __slots__ = ('kind', 'name', 'args', 'guard', 'order', 'loops', 'loc', 'full', 'nr', 'ty', 'blk', 'val', 'addr', 'lids', 'whole', 'ver', 'fall', 'ret')
    def __repr__(self):
        g = pbdd(self.guard)
        l = ('{' + ';'.join(self.loops) + '} ') if self.loops else ''
        if self.kind == 'store': return f'{self.order}: {self.loc} {l}STORE {_addr(self.addr)} := {pp(self.val)}   WHEN {g}'
        if self.kind == 'loop': return f'{self.order}: {self.loc} {l}LOOP {self.name}   WHEN {g}'
        return f'{self.order}: {self.loc} {l}{self.kind.upper()} {self.name}({", ".join(pp(a) for a in self.args)})   WHEN {g}'

class AnalysisError(Exception):
    pass

ITER_CLS = re.compile(r'(__normal_iterator|_Rb_tree_(const_)?iterator|_List_(const_)?iterator|_Deque_iterator|_Node_(const_)?iterator)')
MUTATORS = {'push_back', 'emplace_back', 'insert', 'erase', 'clear', 'pop_back', 'pop_front', 'push_front', 'push', 'pop',
            'resize', 'assign', 'swap', 'emplace', 'remove', 'append', 'reserve'}

ALGOS = {'copy': 2, 'copy_n': 2, 'copy_backward': 2, 'copy_if': 2, 'move': 2, 'move_backward': 2, 'fill': 0, 'fill_n': 0, 'iota': 0, 'rotate': 0, 'reverse': 0, 'swap_ranges': 0}
NARROW = ('i8', 'i16', 'i32', 'i64', 'float', 'double')
# C functions that only read what these arguments point to
READS = {'write': (1,), 'fwrite': (0,), 'send': (1,), 'memcpy': (1,), 'memmove': (1,), 'memcmp': (0, 1), 'strlen': (0,), 'strcmp': (0, 1), 'strncmp': (0, 1), 'strcpy': (1,), 'strncpy': (1,), 'strcat': (1,)}

class Flow:
    def __init__(self, prog, fn, kills=None, eh=False, pure=(), ignore=None, maxruns=6, prime=None, typed=False, streams=False, consts=None, ver=False, fresh=()):
        self.fresh = fresh      # functions each call of which has a result of its own
        self.prime, self.typed, self.streams, self.consts, self.ver = prime, typed, streams, consts or {}, ver
        self.p, self.f, self.kills, self.eh = prog, fn, kills or {}, eh
        self.pure = set(pure)
        self.ignore = ignore
        self.blocks = fn['blocks']
        self.name = short(fn['name'])
        self.argn = []
        k = 0
        ismeth = any(a[0] == 'this' for a in fn['args'][:2])
        for a in fn['args']:
            if a[0] == 'this': self.argn.append('this')
            elif a[0] == '!sret': self.argn.append('sret')
            else:
                k += 1
                self.argn.append(f'arg{k}')
        self.cfg()
        self.loopmods = {h: set() for h in self.loops}
        ASSUME.update({k[5:]: x for k, x in self.consts.items() if k.startswith('atom:')})
        try:
            for r in range(maxruns):
                self.run()
                if not self.grew: break
            else:
                raise AnalysisError(f'{self.name}: loop summaries did not stabilise')
            self.finish()
        finally: ASSUME.clear()

    # ---------------- CFG
    def succs(self, b):
        t = self.blocks[b][-1]
        o = t['o']
        if o == 'br': return list(t['succ'])
        if o == 'switch':
            out = [t['def']]
            for _, d in t['cases']:
                if d not in out: out.append(d)
            return out
        if o == 'invoke':
            r = [t['nd']]
            if self.eh and self.has_catch(t['ud']): r.append(t['ud'])
            return r
        return []

    def has_catch(self, b):
        for i in self.blocks[b]:
            if i['o'] == 'landingpad': return len(i['clauses']) > 0
        return False

    def cfg(self):
        n = len(self.blocks)
        seen, post = set(), []
        st = [(0, iter(self.succs(0)))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(self.succs(s)))); break
            else:
                post.append(b); st.pop()
        rpo = post[::-1]
        self.rpo = {b: i for i, b in enumerate(rpo)}
        self.reach = seen
        preds = {b: [] for b in seen}
        for b in seen:
            for s in self.succs(b): preds[s].append(b)
        self.preds = preds
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo:
                if b == 0: continue
                ps = [p for p in preds[b] if p in idom]
                if not ps: continue
                nw = ps[0]
                for p in ps[1:]:
                    x, y = nw, p
                    while x != y:
                        while self.rpo[x] > self.rpo[y]: x = idom[x]
                        while self.rpo[y] > self.rpo[x]: y = idom[y]
                    nw = x
                if idom.get(b) != nw: idom[b] = nw; ch = True
        self.idom = idom
        def dom(a, b):
            while True:
                if a == b: return True
                if b == 0: return False
                b = idom[b]
        self.loops = {}
        for b in rpo:
            for s in self.succs(b):
                if dom(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x)
                        st += preds[x]
                elif self.rpo[s] <= self.rpo[b]:
                    raise AnalysisError(f'{self.name}: irreducible control flow')
        hs = sorted(self.loops, key=lambda h: len(self.loops[h]))
        self.inner = {}
        for b in seen:
            self.inner[b] = None
            for h in hs:
                if b in self.loops[h]:
                    self.inner[b] = h; break
        self.parent = {}
        for h in hs:
            self.parent[h] = None
            for g in hs:
                if g != h and h in self.loops[g] and len(self.loops[g]) > len(self.loops[h]):
                    self.parent[h] = g; break

    # ---------------- evaluation
    def run(self):
        self.vals = {}
        self.one = set()
        self.effects = []
        self.grew = False
        self.init, self.latch, self.ctrl = {}, {}, {}
        self.order = 0
        self.rets = []
        self.edges_in = {}
        self.bg = {}
        self.edges_in[0] = [(None, 1, {})]
        self.region(None, [])

    def items(self, L):
        body = self.reach if L is None else self.loops[L]
        its = set()
        for b in body:
            h = self.inner[b]
            if h == L: its.add(('b', b)); continue
            while self.parent[h] != L: h = self.parent[h]
            its.add(('l', h))
        # topological order of collapsed graph
        def item(b):
            if b not in body: return None
            h = self.inner[b]
            if h == L: return ('b', b)
            while self.parent[h] != L: h = self.parent[h]
            return ('l', h)
        su = {i: set() for i in its}
        indeg = {i: 0 for i in its}
        for b in body:
            for s in self.succs(b):
                if L is not None and s == L: continue
                x, y = item(b), item(s)
                if y is None or x == y: continue
                if y not in su[x]:
                    su[x].add(y); indeg[y] += 1
        import heapq
        key = lambda i: self.rpo[i[1]]
        h = [(key(i), i) for i in its if indeg[i] == 0]
        heapq.heapify(h)
        out = []
        while h:
            _, i = heapq.heappop(h)
            out.append(i)
            for s in su[i]:
                indeg[s] -= 1
                if indeg[s] == 0: heapq.heappush(h, (key(s), s))
        if len(out) != len(its): raise AnalysisError('cycle in region')
        return out

    def join(self, b):
        es = [e for e in self.edges_in.get(b, []) if e[1] != 0]
        g = M.OR(*[e[1] for e in es])
        mem = {}
        keys = set()
        for e in es: keys |= e[2].keys()
        for a in keys:
            if a[0] == 'ver': mem[a] = max(e[2].get(a, 0) for e in es); continue
            vs = [self.memget(e[2], a) for e in es]
            mem[a] = self.gate(es, vs)
        return g, mem

    def gate(self, es, vs):
        r = vs[-1]
        for e, v in zip(reversed(es[:-1]), reversed(vs[:-1])):
            r = mkite(e[1], v, r)
        return r

    def memget(self, mem, a):
        v = mem.get(a)
        if v is not None: return v
        if a[0] == 'tmp': return a[1]
        if a[0] == 'ite': return mkite(a[1], self.memget(mem, a[2]), self.memget(mem, a[3]))
        if a[0] == 'al':
            return ('uninit', a[1])
        if a[0] == 'fld':
            # field of a struct value stored whole
            base = mem.get(a[1])
            if base is not None and base[0] == 'struct':
                for f, v in base[1]:
                    if f == a[3]: return v
            if base is not None and base[0] in ('ret', 'out', 'post', 'ld'):
                return ('ret', 'field:' + a[3], base)
        r = self.root(a)
        if r[0] == 'al':
            w = mem.get(('wild', r))
            if w is not None: return ('ret', 'at:' + self.relpath(a), w)
        return ('ld', a)

    def relpath(self, a):
        if a[0] == 'fld': return self.relpath(a[1]) + '.' + a[3]
        if a[0] == 'idx': return self.relpath(a[1]) + '[]'
        return ''

    def root(self, a):
        while a[0] in ('fld', 'idx', 'off', 'ver'): a = a[1]
        return a

    def region(self, L, outer):
        """evaluate all items of loop L (None: whole function). outer: list of (guard at parent, loop)"""
        exits, backs = [], []
        for kind, x in self.items(L):
            if kind == 'b':
                g, mem = self.join(x)
                if L is not None and x == L:
                    g = 1
                if g == 0: continue
                self.block(x, g, mem, L, outer, exits, backs)
            else:
                g, mem = self.join(x)
                if g == 0: continue
                ex = self.loop(x, g, mem, outer)
                for (src, tgt, c, m) in ex:
                    self.route(src, tgt, c, m, L, exits, backs)
        return exits, backs

    def route(self, src, tgt, c, m, L, exits, backs):
        if L is not None and tgt == L: backs.append((src, c, m)); return
        if L is not None and tgt not in self.loops[L]: exits.append((src, tgt, c, m)); return
        self.edges_in.setdefault(tgt, []).append((src, c, m))

    def loop(self, h, g, mem, outer):
        hm = {a: v for a, v in mem.items() if a[0] != 'ver'}
        full = g
        for og, _ in outer: full = M.AND(full, og)
        le = Effect()
        le.kind, le.name, le.args, le.guard, le.loops, le.blk = 'loop', h, (), full, tuple(x for _, x in outer), h
        le.loc = next((self.loc(i) for i in self.blocks[h] if i.get('l')), self.name)
        le.order = self.order; self.order += 1
        le.addr = le.val = le.full = None; le.nr = False
        self.effects.append(le)
        for a in self.loopmods[h]:
            p = ('lm', h, a)
            self.init[p] = self.memget(mem, a)
            hm[a] = p
        saved = self.edges_in.get(h, [])
        # header phis
        for i in self.blocks[h]:
            if i['o'] != 'phi': continue
            ent = [e for e in saved if e[1] != 0]
            vs = [self.phi_in(i, e[0]) for e in ent]
            p = ('lv', h, i['i'])
            v0 = self.gate(ent, vs)
            self.init[p] = v0
            self.vals[i['i']] = ('bool', atom(('B', p))) if i['t'] == 'i1' else p
        self.edges_in[h] = [('hdr', 1, hm)]
        ex, backs = self.region(h, outer + [(g, h)])
        self.edges_in[h] = saved
        # latch values
        backs = [b for b in backs if b[1] != 0]
        for i in self.blocks[h]:
            if i['o'] != 'phi': continue
            p = ('lv', h, i['i'])
            if backs:
                vs = [self.phi_in(i, b[0]) for b in backs]
                self.latch[p] = self.gate([(b[0], b[1]) for b in backs], vs)
            else: self.latch[p] = self.init[p]
        keys = set()
        for b in backs: keys |= b[2].keys()
        for a in keys:
            if a[0] == 'ver': continue
            hv = self.memget(hm, a)
            vs = [self.memget(b[2], a) for b in backs]
            v = self.gate([(b[0], b[1]) for b in backs], vs)
            if a in self.loopmods[h]: self.latch[('lm', h, a)] = v
            elif v != hv:
                self.loopmods[h].add(a); self.grew = True
        # exits
        if self.ver: ex = [e[:3] + ({a: v for a, v in e[3].items() if a[0] != 'ver'},) for e in ex]
        ex = [e for e in ex if e[2] != 0]
        normal = [e for e in ex if self.bg.get(e[0]) == 1]
        fall = normal[0] if normal else (ex[-1] if ex else None)
        if normal: self.ctrl[h] = M.NOT(fall[2])
        le.fall = fall[2] if fall and not normal else 0     # the condition of leaving at the end of an iteration
        le.nr = [e[2] for e in ex if e is not fall]     # conditions that leave the loop early
        out, rest = [], 1
        for e in ex:
            if e is fall: continue
            a = M.var(('X', e[2]))
            out.append((e[0], e[1], M.AND(g, rest, a), e[3]))
            rest = M.AND(rest, M.NOT(a))
        if fall: out.append((fall[0], fall[1], M.AND(g, rest), fall[3]))
        return out

    def phi_in(self, i, pred):
        for v, b in i['in']:
            if b == pred: return self.v(v, i['t'])
        raise AnalysisError('phi without incoming edge')

    def v(self, o, t=None):
        k = o[0]
        if k == 'v':
            r = self.vals.get(o[1])
            if r is None: return ('uninit', 'v%d' % o[1])
            return r
        if k == 'c': return ('c', o[1])
        if k == 'a':
            if self.argn[o[1]] in self.consts: return ('c', self.consts[self.argn[o[1]]])
            return ('a', o[1], self.argn[o[1]])
        if k == 'n': return ZERO
        if k == 's': return ('s', o[1])
        if k == 'f': return ('f', o[1])
        if k == 'g':
            n = o[1]
            n = n[7:] if n.startswith('Trick::') else n
            return ('g', n)
        if k == 'fn': return ('fn', o[1])
        if k == 'u': return ('uninit', 'u')
        if k == 'cg': return self.gep(self.v(o[1]), o[2])
        if k == 'ce': return ('ret', 'ce:' + o[1]) + tuple(self.v(x) for x in o[2:])
        return ('uninit', '?')

    def gep(self, base, steps):
        if base[0] == 'ite': return mkite(base[1], self.gep(base[2], steps), self.gep(base[3], steps))
        a = base
        for s in steps:
            if s[0] == 'f':
                f = s[2]
                if f.startswith('#') and s[1].endswith('pair'): f = {'#0': 'first', '#1': 'second'}.get(f, f)
                elif a[0] == 'idx' and f in PAIRS and (a[-1] == 'pair' or a[1][0] in ('itref', 'it', 'iter', 'next')): f = PAIRS[f]      # the type of a pair of pointers is shared with other records
                if a[0] == 'al' and a[1] in self.one: continue      # an object of one pointer is that pointer
                if a[0] == 'off': a = a[1]          # base-class adjustment
                for part in f.split('.'):
                    a = ('fld', a, s[1], part)
            elif s[0] == 'x':
                ix = self.v(s[1])
                if self.typed and len(s) > 3 and s[3] > 1: ix = tmul(('c', s[3]), ix)
                if a[0] == 'idx' and a[1][0] != 'it':
                    if a[2][0] != 'ite' and ix[0] != 'ite': a = ('idx', a[1], tadd(a[2], ix)) if a[3:] == ('p',) else ('idx', a, ix, 'p')
                    else: a = ('idx', a, ix, 'p')
                else: a = ('idx', a, ix, 'p')
            elif s[0] == 'b' and self.typed and a[0] in ('idx', 'ld', 'op', 't'): a = ('idx', a, ('c', s[1]), 'p') if a[0] != 'idx' or a[2][0] == 'ite' else ('idx', a[1], tadd(a[2], ('c', s[1])), 'p')
            elif s[0] == 'b': a = ('off', a, s[1])
            elif s[0] == 'd': a = ('idx', a, ZERO, 'p')
        return a

    def loc(self, i):
        if 'f' in i: return self.p.files[i['f']].replace('/repo/', '') + ':' + str(i.get('l', 0))
        return self.name

    def block(self, b, g, mem, L, outer, exits, backs):
        mem = dict(mem)
        self.bg[b] = g
        full = g
        for og, _ in outer: full = M.AND(full, og)
        lp = tuple(h for _, h in outer)
        for i in self.blocks[b]:
            o = i['o']
            if o == 'phi':
                if L is not None and b == L: continue
                es = [e for e in self.edges_in.get(b, []) if e[1] != 0]
                vs = [self.phi_in(i, e[0]) for e in es]
                if i['t'] == 'i1':
                    r = truth(vs[-1])
                    for e, v in zip(reversed(es[:-1]), reversed(vs[:-1])): r = M.ite(e[1], truth(v), r)
                    self.vals[i['i']] = ('bool', r) if r > 1 else ('c', r)
                else:
                    self.vals[i['i']] = self.gate(es, vs)
            elif o == 'br':
                if 'cond' in i:
                    c = truth(self.v(i['cond']))
                    t, f = i['succ']
                    if t == f: self.route(b, t, g, mem, L, exits, backs)
                    else:
                        self.route(b, t, M.AND(g, c), mem, L, exits, backs)
                        self.route(b, f, M.AND(g, M.NOT(c)), mem, L, exits, backs)
                else: self.route(b, i['succ'][0], g, mem, L, exits, backs)
            elif o == 'switch':
                x = self.v(i['cond'])
                rest = g
                per = {}
                for val, d in i['cases']:
                    e = int_eq(x, ('c', val))
                    per[d] = M.OR(per.get(d, 0), M.AND(g, e))
                    rest = M.AND(rest, M.NOT(e))
                per[i['def']] = M.OR(per.get(i['def'], 0), rest)
                for d, c in per.items(): self.route(b, d, c, mem, L, exits, backs)
            elif o in ('call', 'invoke'):
                self.call(i, g, full, mem, lp, b)
                if self.consts and i['i'] in self.vals and self.vals[i['i']][0] == 'ret' and i['t'] != 'void':
                    x = self.consts.get(pp(self.vals[i['i']]).split('(')[0] + '()')
                    if x is not None: self.vals[i['i']] = ('c', x)
                if o == 'invoke':
                    c = g
                    if self.eh and self.has_catch(i['ud']):
                        th = M.var(('THROW', short(i.get('callee', '?'))))
                        self.route(b, i['ud'], M.AND(g, th), mem, L, exits, backs)
                        c = M.AND(g, M.NOT(th))
                    self.route(b, i['nd'], c, mem, L, exits, backs)
            elif o == 'ret':
                v = self.v(i['ops'][0]) if i['ops'] else None
                self.rets.append((full, v, mem, self.loc(i)))
            elif o == 'store':
                v, a = self.v(i['ops'][0]), self.v(i['ops'][1])
                self.store(a, v, g, full, mem, lp, i, b)
            elif o == 'load':
                a = self.v(i['ops'][0])
                r = self.memget(mem, a)
                if self.consts and r[0] == 'ld': r = self.constld(r)
                if self.typed and i['t'] in NARROW and self.root(a)[0] != 'al': r = self.wrapld(r, i['t'])
                self.vals[i['i']] = r
            elif o == 'alloca':
                self.vals[i['i']] = ('al', i['i'], i['at'])
                if i.get('one'): self.one.add(i['i'])
            elif o == 'getelementptr':
                self.vals[i['i']] = self.gep(self.v(i['ops'][0]), i['gep'])
            elif o in ('icmp', 'fcmp'):
                self.vals[i['i']] = mkbool(self.cmp(i))
            elif o == 'select':
                c = truth(self.v(i['ops'][0]))
                a, d = self.v(i['ops'][1]), self.v(i['ops'][2])
                if i['t'] == 'i1': self.vals[i['i']] = mkbool(M.ite(c, truth(a), truth(d)))
                else: self.vals[i['i']] = mkite(c, a, d)
            elif o in ('sext', 'zext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'freeze'):
                x = self.v(i['ops'][0])
                if self.typed and o in ('sext', 'zext') and i['ot'] in NARROW and x[0] == 'op' and x[1] == i['ot']: x = ('op', o, x)
                if o == 'trunc' and i['t'] == 'i1': x = mkbool(truth(x))
                elif o == 'trunc' and i['t'] in ('i8', 'i16') and i['ot'] not in ('i8',) and x[0] not in ('bool', 'c'): x = ('op', 'narrow' + i['t'][1:], x)
                elif o == 'trunc' and i['t'] == 'i32' and x[0] == 'op' and x[1] in ('toint', 'touint'): x = ('op', 'narrow32', x)
                self.vals[i['i']] = x
            elif o in ('sitofp', 'uitofp'):
                x = self.v(i['ops'][0])
                self.vals[i['i']] = self.un('utofp' if self.typed and o == 'uitofp' else 'tofp', x)
            elif o in ('fptosi', 'fptoui'):
                self.vals[i['i']] = self.un('toint', self.v(i['ops'][0]))
            elif o in ('fpext', 'fptrunc'):
                self.vals[i['i']] = self.un('tofloat', self.v(i['ops'][0])) if o == 'fptrunc' else self.v(i['ops'][0])
            elif o in ('add', 'sub', 'mul'):
                x, y = self.v(i['ops'][0]), self.v(i['ops'][1])
                self.vals[i['i']] = tadd(x, y) if o == 'add' else tadd(x, y, -1) if o == 'sub' else tmul(boolint(x), boolint(y))
            elif o in ('and', 'or', 'xor') and i['t'] == 'i1':
                x, y = truth(self.v(i['ops'][0])), truth(self.v(i['ops'][1]))
                self.vals[i['i']] = mkbool(M.AND(x, y) if o == 'and' else M.OR(x, y) if o == 'or' else M.XOR(x, y))
            elif o in ('and', 'or', 'xor', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg'):
                xs = [self.v(x) for x in i['ops']]
                self.vals[i['i']] = self.bin(o, xs)
            elif o == 'extractvalue':
                x = self.v(i['ops'][0])
                if x[0] == 'struct' : self.vals[i['i']] = dict(x[1]).get(str(i['idx'][0]), ('uninit', 'ev'))
                else: self.vals[i['i']] = ('ret', 'ev%d' % i['idx'][0], x)
            elif o == 'insertvalue':
                x, y = self.v(i['ops'][0]), self.v(i['ops'][1])
                d = dict(x[1]) if x[0] == 'struct' else {}
                d[str(i['idx'][0])] = y
                self.vals[i['i']] = ('struct', tuple(sorted(d.items())))
            elif o in ('unreachable', 'resume'):
                pass
            elif o == 'atomicrmw':
                a, x = self.v(i['ops'][0]), self.v(i['ops'][1])
                old = self.memget(mem, a)
                self.vals[i['i']] = old
                self.store(a, ('op', 'rmw', old, x), g, full, mem, lp, i, b)
            else:
                self.vals[i['i']] = ('uninit', o)

    def un(self, n, x):
        if x[0] == 'ite': return mkite(x[1], self.un(n, x[2]), self.un(n, x[3]))
        if n in ('tofp', 'utofp') and x[0] == 'c': return ('f', '%.17g' % float(x[1]))
        if n in ('tofp', 'utofp'): x = boolint(x)
        return ('op', n, x)

    def bin(self, o, xs):
        for k, x in enumerate(xs):
            if x[0] == 'bool': xs[k] = x = boolint(x)
            if x[0] == 'ite':
                l = list(xs); r = list(xs); l[k] = x[2]; r[k] = x[3]
                return mkite(x[1], self.bin(o, l), self.bin(o, r))
        if all(x[0] == 'c' for x in xs) and len(xs) == 2:
            a, b = xs[0][1], xs[1][1]
            try:
                if o == 'sdiv' or o == 'udiv': return ('c', int(a / b) if abs(a) < 2**50 else a // b)
                if o == 'shl': return ('c', a << b)
                if o == 'and': return ('c', a & b)
                if o == 'or': return ('c', a | b)
            except Exception: pass
        if o in ('and', 'or', 'xor', 'fadd', 'fmul') and pp(xs[1]) < pp(xs[0]): xs = [xs[1], xs[0]]
        nm = {'sdiv': 'div', 'udiv': 'div', 'srem': 'rem', 'urem': 'rem'}.get(o, o)
        return ('op', nm) + tuple(xs)

    def cmp(self, i):
        p = i['p']
        a, b = self.v(i['ops'][0]), self.v(i['ops'][1])
        if i['o'] == 'fcmp':
            if p in ('olt', 'ult'): return flt(a, b)
            if p in ('ogt', 'ugt'): return flt(b, a)
            if p in ('ole', 'ule'): return M.OR(flt(a, b), feq(a, b))
            if p in ('oge', 'uge'): return M.OR(flt(b, a), feq(a, b))
            if p in ('oeq', 'ueq'): return feq(a, b)
            if p in ('one', 'une'): return M.NOT(feq(a, b))
            return M.var(('B', ('ret', 'fcmp' + p, a, b)))
        if i['ot'] == 'ptr' or self.isptr(a) or self.isptr(b):
            if p == 'eq': return ptr_eq(a, b)
            if p == 'ne': return M.NOT(ptr_eq(a, b))
        if i['ot'] == 'i1':
            if p == 'eq': return M.NOT(M.XOR(truth(a), truth(b)))
            if p == 'ne': return M.XOR(truth(a), truth(b))
        if i['ot'] == 'i8' and (a == ZERO or b == ZERO) and p in ('eq', 'ne'):
            x = a if b == ZERO else b
            if x[0] in ('ld', 'bool', 'post', 'ite'):
                t = truth(x)
                return t if p == 'ne' else M.NOT(t)
        if p == 'eq': return int_eq(a, b)
        if p == 'ne': return M.NOT(int_eq(a, b))
        if p[0] == 'u':
            for x in (a, b):
                if x[0] not in ('c', 'lin', 'ite', 'bool'): UNSIGNED.add(x)
        if p in ('slt', 'ult'): return int_lt(a, b)
        if p in ('sgt', 'ugt'): return int_lt(b, a)
        if p in ('sle', 'ule'): return M.NOT(int_lt(b, a))
        return M.NOT(int_lt(a, b))

    def sid(self, i):
        self.strid = getattr(self, 'strid', {})
        return self.strid.setdefault(i['i'], len(self.strid) + 1)

    def constld(self, r):
        """value of a location that the analysis is specialised to"""
        x = self.consts.get(_addr(r[1]))
        return r if x is None else ('c', x)

    def wrapld(self, r, ty):
        if r[0] == 'ite': return mkite(r[1], self.wrapld(r[2], ty), self.wrapld(r[3], ty))
        if r[0] == 'ld' and (r[1][0] != 'fld' or isinstance(self.typed, str) and re.fullmatch(self.typed, _addr(r[1]))): return ('op', ty, r)
        return r

    def isptr(self, t):
        return t[0] in ('al', 'fld', 'idx', 'g', 's', 'new', 'it', 'iter', 'next')

    def store(self, a, v, g, full, mem, lp, i, b):
        if a[0] == 'ite':
            self.store(a[2], v, M.AND(g, a[1]), M.AND(full, a[1]), mem, lp, i, b)
            m2 = mem
            self.store(a[3], v, M.AND(g, M.NOT(a[1])), M.AND(full, M.NOT(a[1])), m2, lp, i, b)
            return
        if self.root(a)[0] != 'al':
            self.eff('store', None, (), full, lp, i, b, addr=a, val=v)
        mem[a] = v

    def eff(self, kind, name, args, full, lp, i, b, addr=None, val=None, fulln=None, nr=False):
        e = Effect(); e.ret = None
        e.kind, e.name, e.args, e.guard, e.loops, e.loc, e.blk = kind, name, tuple(args), full, lp, self.loc(i), b
        e.order = self.order; self.order += 1
        e.addr, e.val, e.full, e.nr = addr, val, fulln, nr
        e.ty = i.get('ot') or i.get('t') if kind == 'store' else None
        self.effects.append(e)
        return e

    # ---------------- calls
    def content(self, mem, a):
        """value of the object a pointer refers to"""
        if a[0] == 's': return a
        if a[0] == 'tmp': return a[1]
        if a[0] == 'ite': return mkite(a[1], self.content(mem, a[2]), self.content(mem, a[3]))
        v = mem.get(a)
        if v is not None: return v
        if a[0] == 'al':
            fs = [(k, x) for k, x in mem.items() if k[0] in ('fld', 'idx') and k[1] == a]
            if fs: return ('struct', tuple(sorted(((k[3] if k[0] == 'fld' else pp(k[2])), x) for k, x in fs)))
        return self.memget(mem, a)

    def argval(self, mem, a):
        r = self.root(a) if a[0] in ('fld', 'idx', 'off') else a
        if r[0] in ('al', 'tmp'): return self.content(mem, a)
        return a

    def call(self, i, g, full, mem, lp, b):
        args = [self.v(x) for x in i['args']]
        if 'callee' in i:
            d, n = i['callee'], short(i['callee'])
        elif 'virt' in i:
            t, slot = i['virt']
            n = self.p.vslots.get(t, {}).get(str(slot))
            if n is None: n = f'virtual:{t}:{slot}'
            if n.startswith('Trick::'): n = n[7:]
            d = n
        else:
            iv = self.v(i['ind'])
            n = d = 'indirect'
            args = [iv] + args
            i = dict(i); i.pop('sret', None)
        rid = i['i']
        last = n.split('::')[-1]
        std = n.startswith('std::') or n.startswith('__gnu_cxx::')
        if n.startswith('llvm.'):
            if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
                src = self.content(mem, args[1])
                if self.root(args[0])[0] == 'al':
                    for k in [k for k in mem if self.within(k, args[0])]: del mem[k]
                    for k in [k for k in mem if k != args[1] and self.within(k, args[1])]:
                        mem[self.rebase(k, args[1], args[0])] = mem[k]
                    if not (src[0] == 'struct' and not mem.get(args[1])): mem[args[0]] = src
                else:
                    self.eff('call', 'memcpy', [args[0], self.argval(mem, args[1]), args[2]], full, lp, i, b)
            elif n.startswith('llvm.memset'):
                if self.root(args[0])[0] == 'al': mem[args[0]] = ('ret', 'memset', args[1])
                else: self.eff('call', 'memset', args[:3], full, lp, i, b)
            else:
                self.vals[rid] = ('ret', n.split('.')[1]) + tuple(args)
            return
        if std or n.startswith('operator'):
            if self.stl(i, n, last, d, args, g, full, mem, lp, b): return
        if last.startswith('~') and std: return
        if n in ('__clang_call_terminate', '__cxa_begin_catch', '__cxa_end_catch', '__cxa_free_exception', '_Unwind_Resume', '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_atexit'):
            self.vals[rid] = ('ret', n); return
        if n == 'strlen' and args and args[0][0] == 's':
            self.vals[rid] = ('c', len(args[0][1].split('\0')[0].encode('latin-1', 'replace'))); return
        sr = i.get('sret')
        sret = args[sr] if sr is not None else None
        shown = [a for k, a in enumerate(args) if k != sr]
        shown = [self.argval(mem, a) for a in shown]
        if not (self.ignore and re.search(self.ignore, n)):
            self.eff('call', n, shown, full, lp, i, b, fulln=d, nr=bool(i.get('nr')))
        # a call through the same global that was just mutated returns a fresh value only by kill tables
        ret = ('ret', n) + tuple(shown)
        if last in self.fresh:
            ret += (('s', f'#{b}.{rid}'),)
            if self.effects and self.effects[-1].kind == 'call' and self.effects[-1].name == n: self.effects[-1].ret = ret
        if sret is not None:
            for k in [k for k in mem if self.within(k, sret)]: del mem[k]
            mem[sret] = ret
        elif i['t'] != 'void':
            self.vals[rid] = mkbool(truth(ret)) if i['t'] == 'i1' else ret
        # out parameters that are locals
        ps = split_params(d)[1] if 'callee' in i else []
        off = (1 if sr == 0 else 0)
        ismeth = 'callee' in i and '::' in n and len(args) - off == len(ps) + 1
        for k, a in enumerate(args):
            if k == sr: continue
            r = self.root(a) if a[0] in ('fld', 'idx', 'off') else a
            if r[0] != 'al': continue
            pk = k - off - (1 if ismeth else 0)
            if k in READS.get(n, ()): continue
            if ps and 0 <= pk < len(ps):
                p = ps[pk]
                if re.search(r'const\s*[&*]$', p) or not re.search(r'[&*]$', p): continue
            elif pk == -1 and ismeth and d.endswith(' const'): continue
            for q in [q for q in mem if self.within(q, a) or (q[0] == 'wild' and q[1] == r)]: del mem[q]
            out = ('out', n, k) + tuple(shown)
            if r[2].startswith('A') or a[0] in ('fld', 'idx'): mem[('wild', r)] = out
            mem[a] = out
            if r[2].startswith('S:'): mem[('wild', r)] = out
        for pat, fields in self.kills.items():
            if re.fullmatch(pat, n):
                for q in self.loaded_fields(mem, fields, args): mem[q] = ('post', n, q)
                self.killed = True

    def loaded_fields(self, mem, fields, args):
        # addresses named by the kill table: 'this.f' / 'arg0.f' relative to the call's arguments
        out = []
        for f in fields:
            who, fld = f.split('.', 1)
            base = args[int(who)] if who.isdigit() else ('a', 0, 'this')
            a = base
            for part in fld.split('.'):
                cls, _, nm = part.rpartition('/')
                a = ('fld', a, cls.replace('~', '::'), nm)
            out.append(a)
        return out

    def within(self, k, a):
        while True:
            if k == a: return True
            if k[0] in ('fld', 'idx', 'off'): k = k[1]
            else: return False

    def rebase(self, k, a, c):
        if k == a: return c
        return (k[0], self.rebase(k[1], a, c)) + k[2:]

    def stl(self, i, n, last, d, args, g, full, mem, lp, b):
        """models of the standard library vocabulary; returns True when handled"""
        rid = i['i']
        sr = i.get('sret')
        C = lambda a: self.content(mem, a)
        def ret(t):
            if sr is not None:
                mem[args[sr]] = t
            elif i['t'] == 'i1': self.vals[rid] = mkbool(truth(t))
            else: self.vals[rid] = t
            return True
        if self.streams and last.startswith('operator<<') and len(args) == 2:     # output, named by the type written
            ps = split_params(d)[1]
            v = args[1]
            if ps[-1].endswith('&') and '(*)' not in ps[-1]: v = C(v)
            self.eff('call', 'out<' + re.sub(r'std::__cxx11::basic_string<.*>( const)?&', 'string', ps[-1]) + '>', [args[0], self.argval(mem, v)], full, lp, i, b)
            return ret(args[0])
        if last in ('move', 'forward', 'addressof', '__addressof', 'as_const', 'get_deleter'): return ret(args[0])
        if n in ('std::min', 'std::max'):
            x, y = C(args[0]), C(args[1])
            isf = 'double' in d or 'float' in d
            lt = flt if isf else int_lt
            c = lt(y, x) if last == 'min' else lt(x, y)
            return ret(('tmp', mkite(c, y, x)))
        if n in ('std::swap', 'std::exchange', 'swap', 'exchange') and len(args) == 2 and 'std::' not in ''.join(split_params(d)[1]):
            old, new = C(args[0]), C(args[1])
            self.store(args[0], new, g, full, mem, lp, i, b)
            if last == 'swap': self.store(args[1], old, g, full, mem, lp, i, b)
            else: return ret(old)
            return True
        if last in ('operator new', 'operator new[]') or n in ('operator new', 'operator new[]'):
            self.eff('call', n, args[:1], full, lp, i, b)
            return ret(('new', rid))
        if n in ('operator delete', 'operator delete[]'):
            self.eff('call', n, [self.argval(mem, args[0])], full, lp, i, b)
            return True
        iter_arg = bool(ITER_CLS.search(d))
        a = args[1:] if sr == 0 else args
        if self.ver and a and ('ver', a[0]) in mem and last not in MUTATORS: a = [('ver', a[0], mem['ver', a[0]])] + list(a[1:])
        if last == 'size' and len(a) == 1 or last == 'length' and len(a) == 1:
            t = ('ret', 'size', self.cont(mem, a[0]))
            UNSIGNED.add(t)
            return ret(t)
        if last == 'empty' and len(a) == 1:
            t = ('ret', 'size', self.cont(mem, a[0]))
            UNSIGNED.add(t)
            return ret(mkbool(int_eq(t, ZERO)))
        if last in ('begin', 'cbegin') : return ret(('it', a[0], 'begin'))
        if last in ('end', 'cend'): return ret(('it', a[0], 'end'))
        if last in ('rbegin', 'crbegin'): return ret(('it', a[0], 'rbegin'))
        if last in ('rend', 'crend'): return ret(('it', a[0], 'rend'))
        if last == 'front' and len(a) == 1: return ret(('idx', a[0], ZERO, 'c'))
        if last == 'back' and len(a) == 1: return ret(('idx', a[0], ('ret', 'last'), 'c'))
        if last == 'top' and len(a) == 1: return ret(('idx', a[0], ('ret', 'top'), 'c'))
        if last in ('operator[]', 'at') and len(a) == 2 and not iter_arg:
            ix = a[1]
            ps = split_params(d)[1]
            if ps and ps[0].endswith(('&', '&&')): ix = C(a[1])
            if 'basic_string' in n: return ret(('idx', a[0], ix, 'c'))
            if ix[0] == 'ite':
                return ret(mkite(ix[1], ('idx', a[0], ix[2], 'c'), ('idx', a[0], ix[3], 'c')))
            return ret(('idx', a[0], ix, 'c'))
        if last in ('find', 'lower_bound', 'upper_bound') and ('map' in n or 'set' in n) and len(a) == 2:
            return ret(('it', a[0], last, self.argval(mem, C(a[1]))))
        if last == 'count' and len(a) == 2 and ('map' in n or 'set' in n):
            # count(k) > 0  <=> find(k) != end
            return ret(mkbool(M.NOT(ptr_eq(('it', a[0], 'find', self.argval(mem, C(a[1]))), ('it', a[0], 'end')))))
        if iter_arg or ITER_CLS.search(n):
            itv = lambda x: unwrap(C(x)) if x[0] in ('al', 'tmp', 'fld', 'idx') else unwrap(x)
            if last in ('operator*', 'operator->') and len(a) == 1:
                return ret(self.deref(itv(a[0])))
            if last == 'operator++':
                cur = itv(a[0])
                mem[a[0]] = ('next', cur)
                return ret(a[0]) if len(a) == 1 and i['t'] == 'ptr' else ret(cur)
            if last == 'operator--':
                cur = itv(a[0])
                mem[a[0]] = ('prev', cur)
                return ret(a[0]) if len(a) == 1 and i['t'] == 'ptr' else ret(cur)
            if last in ('operator==', 'operator!=') and len(a) == 2:
                e = ptr_eq(itv(a[0]), itv(a[1]))
                return ret(mkbool(e if last == 'operator==' else M.NOT(e)))
            if last in ('operator+', 'operator-') and len(a) == 2:
                x = itv(a[0]); y = a[1]
                if y[0] in ('al', 'tmp'): y = itv(y)
                if y[0] in ('it', 'iter', 'next'): return ret(('ret', 'distance', x, y))
                return ret(('ret', 'advance' + ('' if last == 'operator+' else '-'), x, y))
            if re.search(r'iterator::(__normal_iterator|_Rb_tree_const_iterator|_Rb_tree_iterator|_List_const_iterator|_List_iterator)$', n) and len(a) == 2:
                mem[a[0]] = itv(a[1]); return True
            if last == 'base' : return ret(a[0])
            if last == 'operator=' and len(a) == 2:
                mem[a[0]] = itv(a[1]); return ret(a[0])
        if self.streams and 'stringstream' in n:                  # contents are what earlier outputs put there: positional, by effect order
            if last == 'str':
                xs = [x for k, x in enumerate(args) if k != sr]
                if len(xs) == 2: self.eff('call', 'stream::set', [xs[0], self.argval(mem, xs[1])], full, lp, i, b); return True
                self.eff('call', 'stream::str', [xs[0], ('c', self.sid(i))], full, lp, i, b)
                return ret(('ret', 'stream::str#%d' % self.sid(i), xs[0]))
            if last in ('basic_stringstream', 'basic_ostringstream') and len(a) == 1:
                self.eff('call', 'stream::new', [a[0]], full, lp, i, b); return True
            if last.startswith('~'): return True
        if 'basic_string' in n or (n.startswith('std::operator') and 'basic_string' in d):
            if last == 'basic_string' :
                if len(a) == 1: mem[a[0]] = ('s', '')
                else:
                    ps = split_params(d)[1]
                    v = C(a[1]) if a[1][0] != 's' else a[1]
                    if ps and ps[0].startswith('char const*'): v = a[1] if a[1][0] == 's' else ('ret', 'str', self.unstr(a[1]))
                    if v[0] == 'ret' and v[1] == 'str' and len(v) == 3 : v = v
                    mem[a[0]] = v if len(ps) <= 2 and (len(ps) < 2 or 'allocator' in ps[1]) else ('ret', 'substr') + (v,) + tuple(a[2:])
                return True
            if last in ('c_str', 'data'): return ret(('ret', 'c_str', C(a[0])))
            if last == 'compare' and len(a) == 2: return ret(self.strcmp(C(a[0]), self.sarg(mem, d, a, 1, 0)))
            if last in ('operator==', 'operator!=') and len(a) == 2:
                ps = split_params(d)[1]
                xs = [self.unstr(a[k]) if ps[k].startswith('char const*') else C(a[k]) for k in (0, 1)]
                e = int_eq(self.strcmp(xs[0], xs[1]), ZERO)
                return ret(mkbool(e if last == 'operator==' else M.NOT(e)))
            if last == 'operator+' and len(a) == 2:
                ps = split_params(d)[1]
                xs = []
                for k in (0, 1):
                    p = ps[k] if k < len(ps) else ''
                    xs.append(self.unstr(a[k]) if p.startswith('char const*') or a[k][0] == 's' else (a[k] if p == 'char' else C(a[k])))
                return ret(self.cat(xs[0], xs[1]))
            if last == 'operator=' and len(a) == 2:
                v = self.sarg(mem, d, a, 1, 0)
                self.store(a[0], v, g, full, mem, lp, i, b)
                return ret(a[0])
            if last in ('operator+=', 'append') and len(a) == 2:
                v = self.sarg(mem, d, a, 1, 0)
                self.store(a[0], self.cat(C(a[0]), v), g, full, mem, lp, i, b)
                return ret(a[0])
            if last == 'clear':
                self.store(a[0], ('s', ''), g, full, mem, lp, i, b); return True
            if last.startswith('~'): return True
            if last == 'operator<<' or last == 'operator>>': return ret(a[0])
            if not d.endswith(' const') and last not in ('substr', 'find', 'rfind', 'find_last_of', 'find_first_of', 'find_last_not_of', 'find_first_not_of'):
                v = ('ret', 'string::' + last, C(a[0])) + tuple(self.argval(mem, x) for x in a[1:])
                if self.root(a[0])[0] in ('al', 'tmp'): mem[a[0]] = v
                else: self.store(a[0], v, g, full, mem, lp, i, b)
                return ret(a[0]) if i['t'] == 'ptr' else True
            return ret(('ret', 'string::' + last) + tuple([C(a[0])] + [self.argval(mem, x) for x in a[1:]]))
        if last in ('operator<<', 'operator>>') or 'ostream' in n or 'istream' in n or 'ios' in n or 'stringstream' in n or 'fstream' in n:
            if last == 'str' and sr is not None: return ret(('ret', 'stream_str'))
            if 'fstream' in n and last in ('open', 'close', 'flush', 'write', 'read'):
                self.eff('call', 'fstream::' + last, [self.argval(mem, x) for x in a], full, lp, i, b)
                return ret(('ret', 'fstream::' + last) + tuple(self.argval(mem, x) for x in a))
            if self.streams and last in ('write', 'put', 'flush') and 'stream' in n:
                self.eff('call', 'stream::' + last, [a[0]] + [self.argval(mem, x) for x in a[1:]], full, lp, i, b)
                return ret(a[0])
            if i['t'] == 'ptr' and last.startswith('operator'): return ret(a[0])
            return ret(('ret', n) + tuple(self.argval(mem, x) for x in a))
        if last in MUTATORS:
            xs = [a[0]]
            for x in a[1:]:
                r = self.root(x) if x[0] in ('fld', 'idx', 'off') else x
                xs.append(self.argval(mem, self.content(mem, x)) if r[0] in ('al', 'tmp') or x[0] in ('fld', 'idx') else x)
            e = self.eff('call', last, xs, full, lp, i, b, fulln=d)
            e.ver = 0
            if self.ver and self.root(a[0])[0] != 'al': e.ver = mem['ver', a[0]] = mem.get(('ver', a[0]), 0) + 1
            r = ('ret', last) + tuple(xs)
            if last == 'erase' and i['t'] != 'void': r = ('ret', 'erase_next') + tuple(xs[1:2])
            return ret(r) if i['t'] != 'void' or sr is not None else True
        if last == 'operator=' and len(a) == 2:
            v = C(a[1])
            self.store(a[0], v, g, full, mem, lp, i, b)
            return ret(a[0])
        # constructors of containers / misc std objects
        cls = n.split('::')[-2] if '::' in n else ''
        if last == cls or last.startswith('~'):
            if last == cls and a:
                if len(a) == 1: mem[a[0]] = ('ret', 'empty:' + cls)
                else: mem[a[0]] = self.argval(mem, C(a[1])) if a[1][0] in ('al', 'fld', 'idx', 'tmp') else a[1]
            return True
        t = ('ret', n) + tuple(self.argval(mem, x) for x in a)
        k = ALGOS.get(last)
        if k is not None and n.startswith('std::') and len(a) == len(split_params(d)[1]) and len(a) > max(k, 1):      # writes through its iterators
            rt = self.root(a[k]) if a[k][0] in ('fld', 'idx', 'off', 'al', 'tmp') else a[k]
            if rt[0] in ('al', 'tmp'):
                for x in [x for x in mem if self.within(x, rt)]: mem[x] = ('ret', n, ('c', rid)) + tuple(t[2:])
            else: self.eff('call', 'std::' + last, list(t[2:]), full, lp, i, b)
        return ret(t) if (i['t'] != 'void' or sr is not None) else True

    def cont(self, mem, a):
        if self.root(a)[0] == 'al' if a[0] in ('fld', 'idx', 'off', 'al') else False: return self.content(mem, a)
        v = mem.get(a)
        return v if v is not None else ('ld', a)

    def sarg(self, mem, d, a, k, pk):
        ps = split_params(d)[1]
        p = ps[pk] if pk < len(ps) else ''
        if p.startswith('char const*') or a[k][0] == 's': return self.unstr(a[k])
        if p == 'char': return a[k]
        return self.content(mem, a[k])

    def unstr(self, t):
        if t[0] == 'ret' and t[1] == 'c_str': return t[2]
        return t

    def cat(self, x, y):
        if x[0] == 's' and y[0] == 's': return ('s', x[1] + y[1])
        if x == ('s', ''): return y
        if y == ('s', ''): return x
        xs = x[2:] if x[0] == 'ret' and x[1] == 'cat' else (x,)
        ys = y[2:] if y[0] == 'ret' and y[1] == 'cat' else (y,)
        return ('ret', 'cat') + tuple(xs) + tuple(ys)

    def strcmp(self, x, y):
        if y == ('s', ''):
            t = ('ret', 'size', x); UNSIGNED.add(t); return t
        if x == ('s', ''):
            t = ('ret', 'size', y); UNSIGNED.add(t); return t
        if pp(y) < pp(x): x, y = y, x
        return ('ret', 'compare', x, y)

    def deref(self, it):
        if it[0] == 'ite': return mkite(it[1], self.deref(it[2]), self.deref(it[3]))
        if it[0] == 'it' and it[2] == 'begin': return ('idx', it[1], ZERO, 'c')
        if it[0] == 'it' and it[2] == 'find': return ('idx', it[1], it[3], 'c', 'pair')
        return ('idx', ('itref', it), ('iterpos', it), 'c')

    # ---------------- summarisation of loop placeholders
    def finish(self):
        self.canon = {}
        self.busy, self.hits = set(), set()
        self.smemo = {}
        self.bmemo = {}
        for e in self.effects:
            e.args = tuple(self.sub(a) for a in e.args)
            if e.addr is not None: e.addr = self.sub(e.addr)
            if e.val is not None: e.val = self.sub(e.val)
            e.guard = self.inloop(self.subb(e.guard), e.loops)
            e.lids = e.loops
            e.loops = tuple(self.loopdesc(h) for h in e.loops)
            if e.kind == 'loop':
                h = e.name
                e.name = self.loopdesc(h)
                c = self.ctrlcond(h)
                e.val = c if c is not None else 1
                e.nr = [self.subb(x) for x in (e.nr or [])]
                e.fall = self.subb(e.fall)
        self.rets = [(self.subb(g), self.sub(v) if v is not None else None, {self.sub(k) if k[0] != 'wild' else k: self.sub(x) for k, x in m.items()}, l) for g, v, m, l in self.rets]

    def ctrlcond(self, h):
        c = self.ctrl.get(h)
        return None if c is None else self.subb(c)

    def inloop(self, g, loops):
        # executing the body implies the header's counting/iteration condition
        for h in loops:
            c = self.ctrlcond(h)
            if c is None: continue
            vs = M.support(c)
            if len(vs) == 1:
                v = next(iter(vs)); key = M.vars[v]
                if self.isiter(key):
                    pol = M.nodes[c][2] == 1
                    g = M.compose(g, lambda k: (1 if pol else 0) if k == key else M.var(k))
        return g

    def isiter(self, key):
        if key[0] == 'EQ': return any(x[0] in ('iter', 'rec') and 'begin' in pp(x) or x[0] == 'iter' for x in key[1:3])
        if key[0] == 'LT': return self.has(key[1], 'count')
        return False

    def has(self, t, k):
        if t[0] == k: return True
        if t[0] == 'lin': return any(x[0] == k for x, _ in t[2])
        return False

    def loopdesc(self, h):
        c = self.ctrlcond(h)
        if c is None: return 'loop'
        vs = M.support(c)
        if len(vs) == 1:
            key = M.vars[next(iter(vs))]
            pol = M.nodes[c][2] == 1
            if key[0] == 'EQ' and not pol:
                x, y = key[1], key[2]
                if y[0] == 'iter': x, y = y, x
                if x[0] == 'iter' and y[0] == 'it' and y[2] in ('end', 'rend') and y[1] == x[1]:
                    return f'each {_addr(x[1])}' + (f' from {pp(x[2])}' if len(x) > 2 and x[2] != 'r' else '')
            if key[0] == 'LT' and pol and key[2] == 0 and key[1][0] == 'lin' and len(key[1][2]) == 2:
                pos = [x for x, k in key[1][2] if k == 1]; neg = [x for x, k in key[1][2] if k == -1]
                if len(pos) == 1 and len(neg) == 1 and pos[0][0] == 'count' and pos[0][2] == 1 and neg[0][0] == 'ret' and neg[0][1] == 'size':
                    fr = '' if pos[0][1] == ZERO else f' from {pp(pos[0][1])}'
                    return f'each {pp(neg[0][2])}{fr}'
            if key[0] == 'LT' and not pol and key[2] == 1 and key[1][0] == 'lin' and len(key[1][2]) == 2:
                # !(size - i < 1)  <=>  i < size
                pos = [x for x, k in key[1][2] if k == 1]; neg = [x for x, k in key[1][2] if k == -1]
                if len(pos) == 1 and len(neg) == 1 and neg[0][0] == 'count' and neg[0][2] == 1 and pos[0][0] == 'ret' and pos[0][1] == 'size':
                    fr = '' if neg[0][1] == ZERO else f' from {pp(neg[0][1])}'
                    return f'each {pp(pos[0][2])}{fr}'
            if key[0] == 'LT' and key[1][0] == 'lin' and key[2] in (0, 1):
                # i < N  counted loops
                sg = 1 if pol and key[2] == 0 else -1 if not pol and key[2] == 1 else 0
                cs = [x for x, k in key[1][2] if k == sg and x[0] == 'count' and x[2] == 1]
                if len(cs) == 1:
                    N = mklin(-sg * key[1][1], {x: -sg * k for x, k in key[1][2] if x != cs[0]})
                    return f'i in {pp(cs[0][1])}..{pp(N)}'
        return 'while ' + pbdd(c)

    def canonical(self, p):
        r = self.canon.get(p)
        if r is not None: return r
        if p in self.busy: self.hits.add(p); return ('self',)
        if p not in self.latch: return p
        I, N = self.init[p], self.latch[p]
        if p[0] == 'lv' or self.root(p[2])[0] == 'al': self.sub(I)      # what an enclosing loop has made of it, before this loop
        if p in self.canon: return self.canon[p]
        hits, self.hits = self.hits, set()
        self.busy.add(p)
        r = None
        if p[0] == 'lm' and self.root(p[2])[0] != 'al':
            # a field of a live object: "its current value", the transfer is available through step()
            self.busy.discard(p); self.hits |= hits
            r = ('ld', self.sub(p[2]))
            if self.prime and re.fullmatch(self.prime, pp(r)): r = ('t', pp(r) + "'")
            self.canon[p] = r
            return r
        if N == p or N == I: 
            r = self.sub(I)
        elif N == ('next', p):
            i2 = self.sub(I)
            if i2[0] == 'it' and i2[2] in ('begin', 'rbegin'): r = ('iter', i2[1]) if i2[2] == 'begin' else ('iter', i2[1], 'r')
            elif i2[0] == 'next' and i2[1][0] == 'it' and i2[1][2] == 'begin': r = ('iter', i2[1][1], ONE)
            elif i2[0] == 'ret' and i2[1] == 'advance' and i2[2][0] == 'it' and i2[2][2] == 'begin': r = ('iter', i2[2][1], i2[3])
        elif N[0] == 'ite' and N[2] != p and N[3] != p and self.plainnext(N, p):
            r = None
        if r is None and N[0] in ('lin',) :
            c, d = lin(N)
            if d == {p: 1}: r = ('count', self.sub(I), c, p[1])
        if r is None and N[0] == 'ld' and N[1][0] == 'fld' and N[1][1] == p:
            r = ('chain', self.sub(I), N[1][3])
        self.busy_snapshot = None
        if r is None:
            old = self.smemo, self.bmemo
            self.smemo, self.bmemo = {}, {}
            r = ('rec', self.sub(I), self.sub(N)) + ((p[1],) if self.ver else ())
            self.smemo, self.bmemo = old
        self.busy.discard(p)
        mine = self.hits - {p}; self.hits = hits | mine
        if not mine & self.busy: self.canon[p] = r      # otherwise it refers to the enclosing accumulators
        return r

    def plainnext(self, N, p): return False

    def sub(self, t):
        if not isinstance(t, tuple): return t
        k = t[0]
        if k in ('c', 's', 'f', 'g', 'fn', 'a', 'al', 'self', 'uninit', 'new'): return t
        r = self.smemo.get(t)
        if r is not None: return r
        if k in ('lv', 'lm'):
            q = t if k == 'lv' else t
            r = self.canonical(q)
        elif k == 'lin':
            r = ('c', t[1])
            for x, c in t[2]: r = tadd(r, tmul(('c', c), self.sub(x)))
        elif k == 'bool': r = mkbool(self.subb(t[1]))
        elif k == 'ite': r = mkite(self.subb(t[1]), self.sub(t[2]), self.sub(t[3]))
        elif k == 'struct': r = ('struct', tuple((f, self.sub(v)) for f, v in t[1]))
        elif k == 'idx' and t[1][0] == 'itref':
            it = self.sub(t[1][1])
            if it[0] == 'iter': r = ('idx', it[1], ('count', ZERO, 1, 'it'), 'c') if len(it) == 2 else ('idx', it[1], ('count', ('ret', 'last'), -1), 'c') if it[2] == 'r' else ('idx', it[1], ('count', it[2], 1, 'it'), 'c')
            else: r = ('idx', ('itref', it), ('iterpos', it), 'c')
        else: r = tuple(self.sub(x) if isinstance(x, tuple) else x for x in t)
        self.smemo[t] = r
        return r

    def subb(self, f):
        if f < 2: return f
        return M.compose(f, self.subkey, self.bmemo)

    def subkey(self, k):
        o = k[0]
        if o == 'LT': return int_lt(self.sub(k[1]), ('c', k[2]))
        if o == 'B': return truth(self.sub(k[1]))
        if o == 'EQ': return ptr_eq(self.sub(k[1]), self.sub(k[2]))
        if o == 'FLT': return flt(self.sub(k[1]), self.sub(k[2]))
        if o == 'FEQ': return feq(self.sub(k[1]), self.sub(k[2]))
        if o == 'X': return M.var(('X', self.subb(k[1])))
        return M.var(k)

    # ---------------- queries
    def step(self, path):
        """loop transfer of a memory location: {loop: next value in terms of the current one}"""
        out = {}
        for p, n in self.latch.items():
            if p[0] == 'lm' and _addr(self.sub(p[2])) == path: out[p[1]] = self.sub(n)
        return out

    def final(self, path):
        """value of the location (printed path) at return, merged over returns"""
        vs = []
        for g, v, m, l in self.rets:
            hit = None
            for a, x in m.items():
                if a[0] != 'wild' and _addr(a) == path: hit = x
            vs.append((g, hit if hit is not None else ('ld0', path)))
        r = vs[-1][1]
        for g, v in reversed(vs[:-1]): r = mkite(g, v, r)
        return r

    def retval(self):
        r = self.rets[-1][1]
        for g, v, m, l in reversed(self.rets[:-1]): r = mkite(g, v, r)
        return r

    def cases(self, t, g=1):
        """ite tree -> {printed leaf: guard}"""
        out = {}
        def rec(t, g):
            if g == 0: return
            if t[0] == 'ite':
                rec(t[2], M.AND(g, t[1])); rec(t[3], M.AND(g, M.NOT(t[1]))); return
            if t[0] == 'bool':
                rec(ONE, M.AND(g, t[1])); rec(ZERO, M.AND(g, M.NOT(t[1]))); return
            s = t[1] if t[0] == 'ld0' else pp(t)
            out[s] = M.OR(out.get(s, 0), g)
        rec(t, g)
        return out

def dump(prog, fn, **kw):
    fl = Flow(prog, fn, **kw)
    for e in fl.effects: print(repr(e))
    for g, v, m, l in fl.rets: print('RET', pp(v) if v is not None else '', ' WHEN ', pbdd(g))
    return fl

if __name__ == '__main__':
    p = Prog(sys.argv[1])
    for n in sys.argv[2:]:
        for f in p.get(n):
            print('=====', f['name'])
            dump(p, f)
