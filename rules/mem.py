"""Rules on the memory manager: the registry of allocations and the extent of checkpoints."""
import itertools, re
import flow as F
from vk import *
from flow import M, pp
from rules.comm import held, balanced, sp
from rules.values import alts, subterms

MD = 'trick_source/sim_services/MemoryManager/'
NOISE = ['emitError', 'emitWarning', 'operator<<', 'basic_string', 'basic_stringstream', 'basic_ostream', 'trickTypeCharString', 'debug_write_alloc_info', 'MemoryManager::make_decl_string', 'trick_MM']
LK = '&this.mm_mutex'
AM, VM = 'this.alloc_info_map', 'this.variable_map'

ENTRY = (r'this\.(alloc_info|variable)_map\[.*\](\.second)?$', 5000)    # a registered record, by iterator or by key

class Env(dict):
    """values of quantities by the printed form, exactly or by pattern"""
    def __init__(s, exact=(), pats=()):
        dict.__init__(s, exact); s.pats = [(re.compile(a), b) for a, b in pats]; s.memo = {}
    def look(s, k):
        if k not in s.memo: s.memo[k] = next((v for a, v in s.pats if a.match(k)), None)
        return s.memo[k]
    def __contains__(s, k): return dict.__contains__(s, k) or s.look(k) is not None
    def __missing__(s, k): return s.look(k)

def on(g, env):
    """1 / 0 / None"""
    try: return int(F.evb(g, env))
    except F.Unknown: pass
    m = F.may(g, env)
    return next(iter(m)) if len(m) == 1 else None

def val(t, env):
    """a number; addresses are counted in bytes"""
    try: return F.ev(t, env)
    except F.Unknown: pass
    if t[0] in ('idx', 'off'):
        a, b = val(t[1], env), val(t[2] if t[0] == 'idx' else ('c', t[2]), env)
        return None if a is None or b is None or isinstance(a, str) else a + b
    if t[0] == 'ite':
        o = on(t[1], env)
        return None if o is None else val(t[2 if o else 3], env)
    return None

def last(es, env):
    """the value the last of these stores leaves, 'no' if none happens, None if not known"""
    got = 'no'
    for e in sorted(es, key=lambda e: e.order):
        o = on(e.guard, env)
        if o is None: got = None
        elif o: got = val(e.val, env)
    return got

def mapped(f, m):
    """stores of entries of a map: [(effect, key term)]"""
    out = []
    for e in f.effects:
        if e.kind == 'store' and e.addr[0] == 'idx' and F._addr(e.addr[1]) == m: out.append((e, e.addr[2]))
    return out

def mem_unit(r): return r.unit([MD + 'MemoryManager*.cpp'])

INDEX = ('num_index', 'index')
def declares(r, u, fn, kind):
    """a declaration: what is registered, where, and when"""
    lab = {'local': 'declare_var', 'extern': 'declare_extern_var', 'new': 'declare_operatornew_var'}[kind]
    p = u.extract(roots=[f'^Trick::MemoryManager::{fn}'], opaque=NOISE + ['MemoryManager::(get_type_attributes|io_src_)'])
    f = r.flow(p, f'MemoryManager::{lab}', params={'local': 6, 'extern': 7, 'new': 4}.get(kind))
    am, vm = mapped(f, AM), mapped(f, VM)
    if not am: return r.undecided(f'{lab}: the allocation is registered', ' form of the insertion')
    recs = {pp(x) for e, _ in am for x, g in alts(e.val, e.guard)}
    if len(recs) != 1: return r.undecided(f'{lab}: one record is registered', str(recs)[:200])
    rec = recs.pop()
    a = 0 if kind != 'extern' else 1       # argument numbers after the address
    T, UT, ST, NM, NC, CD = [f'arg{k + a}' for k in range(1, 7)]
    if kind == 'new': UT, NM, T = 'arg1', 'arg4', '22'
    n_el = None
    fields = {}
    for e in f.effects:
        if e.kind == 'store' and sp(e).startswith(rec + '.'): fields.setdefault(sp(e)[len(rec) + 1:], []).append(e)
    # ---- scenarios
    base = [(r'^(\w+::)*get_type_attributes\(', 0), (r'^out\d:(\w+::)*get_type_attributes\(', None)]
    def scenario(named, taken, n, ok, typ, stars, lang, mem, recd):
        num = {f'size(*{NM})': 3 * named, f'length(*{NM})': 3 * named, f'empty(*{NM})': int(not named), f'compare("",*{NM})': named, f'find({VM})': 1 - taken if taken else 1, f'end({VM})': 1, ST: stars, NC: 2,
               f'rec(1;mul(self,{CD}[*]))': n, f'rec(1;mul({CD}[*],self))': n, 'this.debug_level': 0, rec: 7000 * recd, 'arg1': 1000 if kind == 'extern' else typ, T: typ, 'this.alloc_info_map_counter': 500, 'this.extern_alloc_info_map_counter': 600}
        num[f'find({VM})'] = 0 if taken else 1
        if kind == 'new': num.update({'arg2': 100, 'arg3': 40})
        return Env(num, [(r'^out%d:(\w+::)*get_type_attributes\(.*\)\.language$' % (4 if kind != 'new' else 4), lang), (r'^(\w+::)*get_type_attributes\(', 0 if ok else -1), (r'^out1:(\w+::)*get_type_attributes\([^)]*\)$', typ), (r'^out5:(\w+::)*get_type_attributes\([^)]*\)$', 8), (r'^out4:(\w+::)*get_type_attributes\([^)]*\)$', 9000),
                     (r'^(\w+::)*io_src_allocate_class\(', 2000 * mem), (r'^strdup\(c_str\(\*%s\)\)$' % NM, 333), (r'^strdup\(c_str\(\*%s\)\)$' % UT, 444), (r'^(calloc|malloc|operator new)', 1000 * mem), (r'^new$', 1000 * mem)])
    und = set()
    def say(label, ok, d, where): r.ob(f'{lab}: {label}', ok, d, where)
    tests = []
    for typ, lang in ((1, 0), (3, 0), (11, 0), (19, 0), (21, 0), (22, 0), (22, 1)):
        for stars in (0, 1): tests.append((1, 0, 6, 1, typ, stars, lang, 1, 1))
    tests += [(0, 0, 6, 1, 11, 0, 0, 1, 1), (0, 0, 6, 1, 22, 0, 1, 1, 1)]
    if kind != 'new': tests += [(1, 1, 6, 1, 11, 0, 0, 1, 1), (1, 0, 0, 1, 11, 0, 0, 1, 1)]
    tests += [(1, 0, 6, 0, 11, 0, 0, 1, 1), (1, 0, 6, 1, 11, 0, 0, 1, 0)]
    if kind != 'extern': tests += [(1, 0, 6, 1, 11, 0, 0, 0, 1), (1, 0, 6, 1, 22, 0, 1, 0, 1)][:2 if kind == 'local' else 1]
    for tst in tests:
        named, taken, n, ok, typ, stars, lang, mem, recd = tst
        if kind == 'new' and (typ, stars) != (22, 0) and ok and mem and recd: continue
        env = scenario(*tst)
        want = not (named and taken and kind != 'new') and n != 0 and ok and mem and recd
        what = f'type {typ}, {stars} stars, ' + ('named' if named else 'unnamed') + (', name taken' if taken else '') + (', no elements' if not n else '') + ('' if ok else ', unknown type') + ('' if mem else ', no memory') + ('' if recd else ', no record') + (', C++' if lang else '')
        act = [(e, k) for e, k in am if on(e.guard, env)]
        dunno = [e for e, k in am if on(e.guard, env) is None]
        if dunno: und.add('when it is registered'); continue
        if not want:
            say(f'a refused declaration registers nothing ({what})', not act and not [e for e, _ in vm if on(e.guard, env)], '', r.at([e for e, _ in act + vm], f))
            if f.retval() is not None: say(f'a refused declaration yields no address ({what})', val(f.retval(), env) in (0, None), f' {val(f.retval(), env)}', f.label)
            continue
        addr = 2000 if kind == 'local' and typ == 22 and lang and not stars else 1000
        keys = [val(k, env) for _, k in act]
        if None in keys: und.add('key'); continue
        say(f'it is registered once under its address ({what})', len(set(keys)) == 1 and keys[0] == addr, f' {keys}', r.at([e for e, _ in act], f))
        say(f'it yields its address ({what})', val(f.retval(), env) == addr, f' {val(f.retval(), env)}', f.label)
        va = [(e, k) for e, k in vm if on(e.guard, env)]
        say(f'its name leads to it, if it has one ({what})', bool(va) == bool(named) and all(val(e.val, env) == 7000 for e, _ in va) and all(NM in pp(k) for e, k in va), f' {[pp(k)[:80] for _, k in va]}', r.at([e for e, _ in va], f))
        sz = 8 if kind != 'new' else 40
        spec = {'start': addr, 'end': addr + n * sz - 1, 'name': 333 if named else 0, 'stcl': 1 if kind == 'extern' else 0, 'size': sz, 'type': typ, 'attr': 9000, 'num': n,
                'user_type_name': 444 if typ in (21, 22) or (kind == 'extern' and typ == 24) else 0, 'alloc_type': 2 if kind == 'extern' else 0, 'language': (lang if kind == 'extern' else 1 if (typ == 22 and lang or typ in (3, 19)) and not stars else 0), 'id': 500 if kind != 'extern' else 600}
        if kind == 'extern' and not lang: spec['language'] = None
        if kind == 'new': spec.update(start=addr + 20, end=addr + 99, num=2, language=1, sentinel_bytes=20, attr=9000)
        for k, w in spec.items():
            if w is None: continue
            got = last(fields.get(k, []), env)
            if got is None: und.add('field ' + k); continue
            if got == 'no': got = 0       # the record starts zeroed
            say(f'record: {k} ({what})', got == w, f' is {got} instead of {w}', r.at(fields.get(k, []), f))
    for x in sorted(und): r.undecided(f'{lab}: {x}', ' form')
    # zeroed record, zeroed memory of full size
    say('the record starts zeroed', rec.startswith('calloc(') or rec.startswith('new'), rec[:80], f.label)
    for e in r.sel(f, 'calloc') + r.sel(f, 'malloc'):
        if pp(F.v(e) if False else ('c', 0)) and False: pass
    if kind == 'local':
        for e in r.sel(f, 'calloc'):
            if f'calloc({",".join(pp(x) for x in e.args)})' == rec: continue
            xs = [pp(x) for x in e.args]
            env = scenario(1, 0, 6, 1, 11, 0, 0, 1, 1); got = [val(x, env) for x in e.args]
            if None in got: r.undecided(f'{lab}: amount of memory', str(xs)[:100]); continue
            isstr = got[1] in (32, 8) and pp(e.args[1]) in ('32', '8')
            say('the memory holds all elements', got[0] == 6 and (isstr or got[1] == 8), f' {xs}', e.loc)
        for e in f.effects:
            if e.kind == 'call' and 'io_src_allocate_class' in e.name: say('the memory holds all elements', val(e.args[2], scenario(1, 0, 6, 1, 22, 0, 1, 1, 1)) == 6, pp(e.args[2])[:80], e.loc)
        for e in r.sel(f, 'malloc'): say('the memory starts zeroed', False, '', e.loc)
    # dimensions: the constrained ones, then a zero for each star
    if kind != 'new':
        ix = [e for e in f.effects if e.kind == 'store' and re.match(re.escape(rec) + r'\.index\[', sp(e))]
        ni = [e for e in f.effects if e.kind == 'store' and sp(e) == rec + '.num_index']
        lp = {e.blk: e for e in f.effects if e.kind == 'loop'}
        forms = [(pp(e.val), lp[e.lids[0]].name if len(e.lids) == 1 and e.lids[0] in lp else '?') for e in ix]
        cd = [e for e, (v, l) in zip(ix, forms) if v.startswith(CD + '[')]
        zs = [e for e, (v, l) in zip(ix, forms) if v == '0']
        if len(cd) != 1 or len(zs) != 1 or len(ix) != 2 or any(l == '?' for _, l in forms): r.undecided(f'{lab}: dimensions', str(forms)[:200])
        else:
            say('every constrained dimension is recorded', lp[cd[0].lids[0]].name == f'i in 0..{NC}', lp[cd[0].lids[0]].name, cd[0].loc)
            say('a free dimension is recorded for each star', lp[zs[0].lids[0]].name == f'i in 0..{ST}', lp[zs[0].lids[0]].name, zs[0].loc)
            say('constrained dimensions come before the free ones', cd[0].order < zs[0].order, '', zs[0].loc)
            for e in (cd[0], zs[0]):
                at = sp(e)[len(rec) + 7:-1]
                nx = [x for x in ni if x.lids == e.lids]
                if at == rec + '.num_index':
                    say('each dimension has its own place', len(nx) == 1 and nx[0].order > e.order and pp(nx[0].val) == rec + '.num_index+1', str([pp(x.val)[-40:] for x in nx]), e.loc)
            fin = [x for x in ni if not x.lids]
            got = [pp(x.val) for x in fin]
            good = len(fin) >= 1 and got[0] == '0' or any(x in (f'{NC}+{ST}', f'{ST}+{NC}', 'count(count(0,1),1)') for x in got)
            if good or all(re.match(r'-?\d+$', x) or re.match(r'count\(count\([^()]*\),[^()]*\)$', x) for x in got): say('the number of dimensions starts at zero', good, str(got)[:100], r.at(fin, f))
            else: r.undecided(f'{lab}: the number of dimensions', str(got)[:100])
    c = 'this.' + ('extern_' if kind == 'extern' else '') + 'alloc_info_map_counter'
    cs = [e for e in f.effects if e.kind == 'store' and sp(e) == c]
    say('every record gets a number of its own', len(cs) == 1 and pp(cs[0].val) == c + '+1' and F.implies(r.tot([e for e, _ in am]), cs[0].guard), str([pp(x.val) for x in cs]), r.at(cs, f))
    for e, _ in am + vm: say('the registry changes under its lock', held(f, e, LK), '', e.loc)
    balanced(r, f'{lab}: the lock of the registry is released', f, LK)


def calls(f, env, names):
    """the calls of `names` that happen in this situation, in order; None if one is not decided"""
    out = []
    for e in sorted(f.effects, key=lambda e: e.order):
        if e.kind != 'call' or not re.search(names, e.name): continue
        o = on(e.guard, env)
        if o is None: return None
        if o: out.append(e)
    return out

def deletes(r, u):
    lab = 'delete_var'
    p = u.extract(roots=['^Trick::MemoryManager::delete_(extern_)?var'], opaque=NOISE + ['MemoryManager::(io_src_|get_alloc_info_|delete_var\\(void)'])
    f = r.flow(p, 'MemoryManager::delete_var', params=1) if len(p.get('MemoryManager::delete_var', 1)) == 1 else None
    fs = p.get('MemoryManager::delete_var', 1)
    def pick(kind):
        c = [x for x in fs if (x['name'].find('(void') >= 0) == (kind == 'addr')]
        if len(c) != 1: raise Broken(f'delete_var by {kind}: {len(c)} definitions found (anchor vanished)')
        fl = F.Flow(p, c[0]); fl.label = f'MemoryManager::delete_var by {kind}'; r.fns.append(fl.label); return fl
    f = pick('addr')
    R = {pp(y) for e in f.effects for x in list(e.args) for y in subterms(x) if 'get_alloc_info_at(' in pp(y) and pp(y).endswith(')') and y[0] == 'ret' and 'get_alloc_info_at' in str(y[1])}
    R |= {'this.alloc_info_map[arg1].second'} if not R else set()
    if len(R) != 1: r.undecided(f'{lab}: the record', str(R)[:100])
    rec = min(R, key=len)
    def env(addr, found, stcl=0, at=0, name=333, ut=444):
        return Env({'arg1': addr, rec: 5000 * found, f'find({AM})': int(not found), f'end({AM})': 1, rec + '.stcl': stcl, rec + '.alloc_type': at, rec + '.name': name, rec + '.user_type_name': ut, rec + '.start': addr, rec + '.sentinel_bytes': 0, 'this.debug_level': 0, 'this.resetting_memory': 0})
    N = r'(^|::)(erase|free|operator delete|io_src_destruct_class|io_src_delete_class)(\[\])?$'
    for addr, found, stcl, at, name, ut in [(0, 0, 0, 0, 0, 0), (1000, 0, 0, 0, 0, 0)] + [(1000, 1, st, at, nm, ut) for st in (0, 1) for at in (0, 1, 2) for nm, ut in ((333, 444), (0, 0))]:
        v = env(addr, found, stcl, at, name, ut)
        what = f'address {addr}' if not found else f'{"extern" if stcl else "local"}, allocated by {("malloc", "new", "other")[at]}, {"" if name else "un"}named'
        cs = calls(f, v, N)
        if cs is None: r.undecided(f'{lab} ({what})', ' conditions'); continue
        if found: r.ob(f'{lab}: reports success exactly when the address was registered ({what})', val(f.retval(), v) == 0, pp(f.retval())[:150], f.label)
        else: r.ob(f'{lab}: reports success exactly when the address was registered ({what})', val(f.retval(), v) not in (0, None), '', f.label)
        er = [e for e in cs if e.name.split('::')[-1] == 'erase']
        am, vm = [e for e in er if pp(e.args[0]) == '&' + AM], [e for e in er if pp(e.args[0]) == '&' + VM]
        rest = [e for e in cs if e not in er]
        keyed = lambda e: val(e.args[1], v) == addr or pp(e.args[1]).startswith(f'find({AM}') or pp(e.args[1]) == 'arg1'
        if not found:
            r.ob(f'{lab}: an unknown address changes nothing ({what})', not rest and not vm and all(keyed(e) for e in am), str([e.name for e in rest]), r.at(rest + vm, f)); continue
        r.ob(f'{lab}: its entry is removed, once ({what})', len(am) == 1 and keyed(am[0]), str(len(am)), r.at(am, f))
        r.ob(f'{lab}: its name is removed ({what})', len(vm) == int(bool(name)) and all('.name' in pp(e.args[1]) or 'find(' in pp(e.args[1]) for e in vm), str(len(vm)), r.at(vm, f))
        got = []
        for e in rest:
            l = e.name.split('::')[-1]; a = e.args[-1] if l.startswith('io_') else e.args[0]
            got.append((l, val(a, v) if val(a, v) is not None else pp(a)))
        objs = [x for x in got if x[0].startswith('io_')]
        r.ob(f'{lab}: its memory is released the way it was allocated ({what})', [x for x in got if x == ('free', addr)] == ([('free', addr)] if not stcl and at == 0 else []) and objs == ([] if stcl or at == 2 else [('io_src_destruct_class', 5000)] if at == 0 else [('io_src_delete_class', 5000)]), str(got), r.at(rest, f))
        if ('free', addr) in got and objs: r.ob(f'{lab}: its objects are destroyed before their memory is released ({what})', got.index(objs[0]) < got.index(('free', addr)), str(got), r.at(rest, f))
        fr = [a for l, a in got if l == 'free' and a != addr]
        r.ob(f'{lab}: its record is released once, and last ({what})', sorted(map(str, fr)) == sorted(['5000'] + (['333', '444'] if name else [])) and got[-1] == ('free', 5000), str(got), r.at(rest, f))
        if am and rest: r.ob(f'{lab}: its entry is removed before anything is released ({what})', am[0].order < min(e.order for e in rest), '', am[0].loc)
        if vm: r.ob(f'{lab}: its name is removed before it is released ({what})', not [e for e in rest if pp(e.args[0]) == rec + '.name' and e.order < vm[0].order], '', vm[0].loc)
        if stcl == 0 and at < 2: r.ob(f'{lab}: it is remembered as deleted ({what})', bool(calls(f, v, r'(^|::)(push_back|emplace_back|push_front)$')), '', f.label)
    for e in f.effects:
        if e.kind == 'call' and e.name.split('::')[-1] == 'erase': r.ob(f'{lab}: the registry changes under its lock', held(f, e, LK), '', e.loc)
        if e.kind == 'call' and 'io_src_' in e.name: r.ob(f'{lab}: destructors run without the lock, which they need to delete what they own', not held(f, e, LK), '', e.loc)
    balanced(r, f'{lab}: the lock of the registry is released', f, LK)
    lk = [e for e in f.effects if e.kind == 'call' and 'get_alloc_info_at' in e.name]
    er = [e for e in f.effects if e.kind == 'call' and e.name.split('::')[-1] == 'erase' and pp(e.args[0]) == '&' + AM]
    for e in lk:
        rel = [x for x in f.effects if x.kind == 'call' and x.name == 'pthread_mutex_unlock' and any(e.order < x.order < y.order and M.AND(x.guard, y.guard) != 0 for y in er)]
        r.ob(f'{lab}: looking up and removing is one step under the lock', held(f, e, LK) and not rel, '', e.loc)
    # by name
    f = pick('name')
    for found in (0, 1):
        v = Env({f'find({VM})': int(not found), f'end({VM})': 1}, [(r'.*\.sentinel_bytes$', 8), (r'.*\.start$', 1008)])
        cs = calls(f, v, r'delete_var$')
        if cs is None: r.undecided('delete_var by name', ' conditions'); continue
        r.ob('delete_var by name: the variable of that name is deleted', len(cs) == found, str(len(cs)), f.label)
        for e in cs:
            a = val(e.args[1], v)
            r.ob('delete_var by name: the variable of that name is deleted', (a == 1000 or '.first' in pp(e.args[1])) and 'arg1' in pp(e.args[1]), pp(e.args[1])[:150], e.loc)
            r.ob('delete_var by name: the lock is not held while deleting', not held(f, e, LK), '', e.loc)
        if not found: r.ob('delete_var by name: an unknown name is reported', val(f.retval(), v) not in (0, None), '', f.label)
    balanced(r, 'delete_var by name: the lock of the registry is released', f, LK)

def lookups(r, u):
    p = u.extract(roots=['^Trick::MemoryManager::(get_alloc_info_(of|at)|set_name_at|is_alloced|var_exists|reset_memory|clear_(all_vars|var)\\()'], opaque=NOISE + ['MemoryManager::(delete_var|clear_var_critical_section)'])
    X = lambda k: f'itref(lower_bound({AM},arg1))[*].second'
    f = r.flow(p, 'MemoryManager::get_alloc_info_of')
    al = alts(f.retval(), 1)
    lb = [k for k in ('lower_bound', 'upper_bound', 'find') if any(f'{k}({AM}' in F.pbdd(g) for _, g in al)]
    order = {m for fs in p.fns.values() for x in fs for b in x['blocks'] for i in b for m in re.findall(r'map<void\*, ALLOC_INFO\*, std::(\w+)<void\*>.*::(?:lower|upper)_bound\(', str(i.get('callee')))}
    if lb == ['lower_bound'] or lb == ['upper_bound']:
        if any('prev(' in F.pbdd(g) or 'advance' in F.pbdd(g) for _, g in al): r.undecided('get_alloc_info_of: the candidate', ' form of the search')
        else: r.ob('get_alloc_info_of: the candidate is the allocation that starts at or before the address', lb == ['lower_bound'] and order <= {'greater'}, f' {lb[0]} in {order} order', f.label)
        for a, s, e, end, want in ((50, 40, 59, 0, 1), (40, 40, 59, 0, 1), (59, 40, 59, 0, 1), (60, 40, 59, 0, 0), (100, 40, 59, 0, 0), (50, 40, 59, 1, 0), (39, 40, 59, 0, 0)):
            v = Env({'arg1': a}, [(r'.*\.start$', s), (r'.*\.end$', e), (r'^%s\(' % lb[0], int(not end) * 0 + (1 if end else 0)), (r'^end\(', 1), (r'.*\.second$', 5000)])
            got = val(f.retval(), v)
            if got is None: r.undecided('get_alloc_info_of: result', F.pbdd(al[0][1])[:100]); continue
            r.ob(f'get_alloc_info_of: an allocation is found exactly when the address lies in it (address {a}, {"none before" if end else f"{s} to {e}"})', got == 5000 * want, f' {got}', f.label)
    else: r.undecided('get_alloc_info_of: the candidate', ' form of the search ' + F.pbdd(al[0][1])[:100])
    for n, m, ok, k in (('get_alloc_info_at', AM, 5000, 'arg1'), ('is_alloced', AM, 1, 'arg1'), ('var_exists', VM, 1, 'arg1')):
        f = r.flow(p, 'MemoryManager::' + n)
        for found in (0, 1):
            v = Env({f'find({m})': int(not found), f'end({m})': 1}, [(r'.*\.second$', 5000), ENTRY])
            got = val(f.retval(), v)
            if got is None: r.undecided(n, pp(f.retval())[:100]); continue
            r.ob(f'{n}: answers by the registry ({"known" if found else "unknown"})', got == ok * found, f' {got}', f.label)
        if any(e.kind == 'call' and e.name == 'pthread_mutex_lock' for e in f.effects): balanced(r, f'{n}: the lock of the registry is released', f, LK)
    f = r.flow(p, 'MemoryManager::set_name_at')
    nm = [e for e in f.effects if e.kind == 'store' and sp(e).endswith('.name')]
    vm = mapped(f, VM)
    for found in (0, 1):
        for taken in (0, 1):
            v = Env({f'find({AM})': int(not found), f'end({AM})': 1, f'find({VM})': int(not taken), f'end({VM})': 1}, [ENTRY])
            what = ('known' if found else 'unknown') + ', name ' + ('taken' if taken else 'free')
            a = [on(e.guard, v) for e in nm + [e for e, _ in vm]]
            if None in a or not nm or not vm: r.undecided('set_name_at', ' conditions'); continue
            ok = found and not taken
            r.ob(f'set_name_at: an allocation gets a name exactly when it is known and the name is free ({what})', any(a[:len(nm)]) == bool(ok) and any(a[len(nm):]) == bool(ok), str(a), r.at(nm, f))
            r.ob(f'set_name_at: success is reported ({what})', (val(f.retval(), v) == 0) == bool(ok), '', f.label)
    for e, k in vm: r.ob('set_name_at: the name leads to the allocation at the address', (pp(e.val) == f'{AM}[arg1].second' or val(e.val, Env({f'find({AM})': 0, f'end({AM})': 1, f'find({VM})': 1, f'end({VM})': 1}, [ENTRY])) == 5000) and 'arg2' in pp(k), f'{pp(k)[:60]} to {pp(e.val)[:60]}', e.loc); r.ob('set_name_at: the registry changes under its lock', held(f, e, LK), '', e.loc)
    balanced(r, 'set_name_at: the lock of the registry is released', f, LK)
    # every allocation is cleared / every local one is deleted
    f = r.flow(p, 'MemoryManager::clear_all_vars')
    cs = r.sel(f, 'MemoryManager::clear_var_critical_section')
    if len(cs) != 1: r.undecided('clear_all_vars', f' {len(cs)} calls')
    for e in cs:
        r.ob('clear_all_vars: every allocation is cleared', e.loops == [f'each {AM}'] or tuple(e.loops) == (f'each {AM}',), str(e.loops), e.loc)
        r.ob('clear_all_vars: every allocation is cleared', F.norm(e.guard) == 1, F.pbdd(e.guard)[:100], e.loc)
        r.ob('clear_all_vars: an allocation is looked up by the address it is registered under', pp(e.args[1]) == AM + '[*].first' or val(e.args[1], Env({}, [(r'.*\.sentinel_bytes$', 8), (r'.*\.start$', 1008)])) == 1000, pp(e.args[1]), e.loc)
        for x in e.lids: r.every('clear_all_vars: every allocation is cleared', f, '.*', x)
        r.ob('clear_all_vars: the registry is locked', held(f, e, LK), '', e.loc)
    balanced(r, 'clear_all_vars: the lock of the registry is released', f, LK)
    f = r.flow(p, 'MemoryManager::reset_memory')
    ds = r.sel(f, 'MemoryManager::delete_var')
    pb = [e for e in f.effects if e.kind == 'call' and e.name.split('::')[-1] in ('push_back', 'emplace_back', 'push_front') and any(AM in x for x in e.loops)]
    for e in ds:
        r.ob('reset_memory: the lock is not held while deleting', not held(f, e, LK) or not any(x.kind == 'call' and x.name == 'pthread_mutex_lock' and x.order < e.order and not any(y.kind == 'call' and y.name == 'pthread_mutex_unlock' and x.order < y.order < e.order for y in f.effects) for x in f.effects), '', e.loc)
        for x in e.lids: r.every('reset_memory: every collected allocation is deleted', f, '.*', x)
        for x in e.loops:
            m = re.match(r'while \(count\((-?\d+),1\)-size\(.*\) < (-?\d+)\)$', x)
            if (m and (m[1], m[2]) != ('0', '0')) or re.match(r'each .* from \S+$', x): r.ob('reset_memory: every collected allocation is deleted', False, x, e.loc)
            elif (d := re.match(r'while \(count\(size\(.*\)-(\d+),-1\) >= (\d+)\)$', x)): r.ob('reset_memory: every collected allocation is deleted', (d[1], d[2]) == ('1', '0'), x, e.loc)
            elif not m and not x.startswith('each '): r.undecided('reset_memory: every collected allocation is deleted', ' ' + x)
        r.ob('reset_memory: every collected allocation is deleted', len(e.loops) == 1 and 'local' in pp(e.args[1]) and F.norm(e.guard) == 1, str(e)[:150], e.loc)
    if len(pb) != 1 or len(ds) != 1: r.undecided('reset_memory: every local allocation is deleted', ' form')
    for e in pb:
        for st in (0, 1):
            r.ob(f'reset_memory: exactly the allocations of the memory manager are deleted (storage {st})', on(e.guard, Env({AM + '[*].second.stcl': st})) == int(st == 0), F.pbdd(e.guard)[:100], e.loc)
        r.ob('reset_memory: an allocation is deleted by the address it is registered under', pp(e.args[1]) == AM + '[*].first' or val(e.args[1], Env({}, [(r'.*\.sentinel_bytes$', 8), (r'.*\.start$', 1008)])) == 1000, pp(e.args[1]), e.loc)
        for x in e.lids: r.every('reset_memory: every local allocation is deleted', f, '.*', x)
        r.ob('reset_memory: the registry is locked', held(f, e, LK), '', e.loc)
    balanced(r, 'reset_memory: the lock of the registry is released', f, LK)
    rs = [pp(e.val) for e in r.stores(f, 'this.resetting_memory')]
    r.ob('reset_memory: resetting is marked while it lasts', rs == ['1', '0'] and all(r.stores(f, 'this.resetting_memory')[0].order < e.order < r.stores(f, 'this.resetting_memory')[1].order for e in ds), str(rs), f.label)

def resizes(r, u):
    lab = 'resize_array'
    p = u.extract(roots=['^Trick::MemoryManager::(resize_array|recursive_array_copy|array_copy)\\('], opaque=NOISE + ['MemoryManager::(io_src_|array_copy|recursive_array_copy|get_alloc_info_at)'])
    c = [x for x in p.get('MemoryManager::resize_array', 3) if '(void' in x['name']]
    if len(c) != 1: raise Broken('resize_array: anchor vanished')
    f = F.Flow(p, c[0]); f.label = 'MemoryManager::resize_array'; r.fns.append(f.label)
    rec = next((k for e in f.effects for x in e.args for y in subterms(x) for k in [pp(y)] if y[0] == 'ret' and 'get_alloc_info_at' in str(y[1])), f'{AM}[arg1].second')
    def env(found=1, stcl=0, typ=11, pre=1, want=1, n=6, ni=1, lang=0, mem=1):
        return Env({rec: 5000 * found, f'find({AM})': int(not found), f'end({AM})': 1, rec + '.stcl': stcl, rec + '.type': typ, rec + '.num_index': ni, rec + '.size': 8, rec + '.num': 4, rec + '.language': lang, rec + '.start': 700, rec + '.user_type_name': 444, 'arg1': 700, 'arg2': want, 'this.debug_level': 0},
                   [(r'^rec\(0;', pre), (r'^rec\(1;mul\(', n), (r'^calloc\(', 1000 * mem), (r'^(\w+::)*io_src_allocate_class\(', 2000 * mem)])
    N = r'(^|::)(free|erase|array_copy|recursive_array_copy|delete_var)$'
    am = mapped(f, AM)
    for kw, ok in (({}, 1), ({'typ': 22, 'lang': 1}, 1), ({'typ': 22, 'lang': 0}, 1), ({'typ': 22, 'lang': 1, 'ni': 2}, 1), ({'found': 0}, 0), ({'stcl': 1}, 0), ({'typ': 3}, 0), ({'pre': 2}, 0), ({'pre': 0}, 0), ({'n': 0}, 0), ({'mem': 0}, 0), ({'typ': 22, 'lang': 1, 'mem': 0}, 0)):
        v = env(**kw)
        what = ', '.join(f'{a} {b}' for a, b in kw.items()) or 'plain'
        cs = calls(f, v, N)
        ins = [(e, k) for e, k in am if on(e.guard, v)]
        if cs is None or any(on(e.guard, v) is None for e, _ in am): r.undecided(f'{lab} ({what})', ' conditions'); continue
        if not ok:
            r.ob(f'{lab}: a refused resize changes nothing ({what})', not cs and not ins and val(f.retval(), v) in (0,), f' {[e.name for e in cs]} {val(f.retval(), v)}', r.at(cs, f)); continue
        a = 2000 if kw.get('typ') == 22 and kw.get('lang') and kw.get('ni', 1) == 1 else 1000
        r.ob(f'{lab}: the new address is the result ({what})', val(f.retval(), v) == a, f' {val(f.retval(), v)}', f.label)
        nm = [e.name.split('::')[-1] for e in cs]
        if not any('array_copy' in x for x in nm): r.undecided(f'{lab}: copying', str(nm)); continue
        cp = cs[[k for k, x in enumerate(nm) if 'array_copy' in x][0]]
        g = [val(x, v) if k in (1, 2, 5, 6) else pp(x) for k, x in enumerate(cp.args)]
        r.ob(f'{lab}: the elements are copied from the old to the new memory ({what})', g[1:3] == [700, a] and g[4] == 'arg3' and g[5:7] == [8, kw.get('want', 1)] and g[3].lstrip('&').startswith(rec + '.index') or 'ite' in g[3], str(g)[:300], cp.loc)
        fr = [e for e in cs if e.name == 'free']
        r.ob(f'{lab}: the old memory is released once, after copying ({what})', len(fr) == 1 and val(fr[0].args[0], v) == 700 and fr[0].order > cp.order, str([pp(e.args[0])[:60] for e in fr]), r.at(fr, f))
        er = [e for e in cs if e.name.split('::')[-1] == 'erase']
        r.ob(f'{lab}: the old address is forgotten, the new one registered ({what})', len(er) == 1 and val(er[0].args[1], v) == 700 and {val(k, v) for _, k in ins} == {a} and {val(e.val, v) for e, _ in ins} == {5000} and er[0].order < min(e.order for e, _ in ins), f' {[pp(e.args[1])[:40] for e in er]} {[val(k, v) for _, k in ins]}', r.at([e for e, _ in ins], f))
        for k, w in (('start', a), ('end', a + 6 * 8 - 1), ('num', 6)):
            es = [e for e in f.effects if e.kind == 'store' and sp(e) == f'{rec}.{k}']
            got = last(es, v)
            if got is None: r.undecided(f'{lab}: {k}', ' form'); continue
            r.ob(f'{lab}: the record has the new {k} ({what})', got == w, f' {got}', r.at(es, f))
    for e in r.sel(f, 'calloc'): r.ob(f'{lab}: the new memory holds all elements', val(e.args[0], env()) == 6 and val(e.args[1], env()) == 8, str([pp(x)[:50] for x in e.args]), e.loc)
    ix = [e for e in f.effects if e.kind == 'store' and sp(e).startswith(rec + '.index[')]
    lp = {e.blk: e for e in f.effects if e.kind == 'loop'}
    for e in ix: r.ob(f'{lab}: the record has the new dimensions', pp(e.val) == 'arg3[*]' and sp(e) == rec + '.index[*]' and len(e.lids) == 1 and lp[e.lids[0]].name == 'i in 0..arg2', f'{sp(e)[-20:]} = {pp(e.val)[:40]}', e.loc)
    if not ix: r.undecided(f'{lab}: the record has the new dimensions', ' form')
    elif any('array_copy' in e.name and e.order > ix[0].order for e in f.effects if e.kind == 'call'): r.ob(f'{lab}: copying uses the old dimensions', False, '', ix[0].loc)
    for e, _ in am: r.ob(f'{lab}: the registry changes under its lock', held(f, e, LK), '', e.loc)
    balanced(r, f'{lab}: the lock of the registry is released', f, LK)
    # copying by index
    f = r.flow(p, 'MemoryManager::recursive_array_copy')
    rc, mc = r.sel(f, 'MemoryManager::recursive_array_copy'), r.sel(f, 'memcpy')
    if len(rc) != 1 or len(mc) != 1: r.undecided('array copy', ' form')
    else:
        rc, mc = rc[0], mc[0]
        lp = [e for e in f.effects if e.kind == 'loop' and e.blk in rc.lids]
        base = {'arg1': 10000, 'arg2': 50000, 'arg5': 8, 'arg6': 3, 'arg8': 4, 'arg9': 7, 'arg3[arg7]': 5, 'arg4[arg7]': 6}
        for cur in (0, 1, 2, 3):
            v = Env({**base, 'arg7': cur, 'count(0,1)': 2})
            r.ob(f'array copy: one element at the last level, all of a dimension above (level {cur} of 3)', on(mc.guard, v) == int(cur == 3) and on(rc.guard, v) in (int(cur < 3), None if cur < 3 else 0), F.pbdd(mc.guard)[:100], mc.loc)
        v = Env({**base, 'arg7': 3})
        r.ob('array copy: an element is copied to its own place, whole', [val(x, v) for x in mc.args[:3]] == [50000 + 7 * 8, 10000 + 4 * 8, 8], str([pp(x) for x in mc.args]), mc.loc)
        v = Env({**base, 'arg7': 1, 'count(0,1)': 2})
        r.ob('array copy: each index leads to its own element in both shapes', [val(x, v) for x in rc.args[1:3]] == [10000, 50000] and [pp(x) for x in rc.args[3:5]] == ['arg3', 'arg4'] and [val(x, v) for x in rc.args[5:]] == [8, 3, 2, 4 * 5 + 2, 7 * 6 + 2], str([pp(x) for x in rc.args]), rc.loc)
        if len(lp) == 1:
            for a, b in ((5, 3), (3, 5), (4, 4)):
                for i in range(6):
                    v = Env({**base, 'arg7': 1, 'arg3[arg7]': a, 'arg4[arg7]': b, 'count(0,1)': i})
                    st = lp[0].val
                    for x in lp[0].nr: st = M.AND(st, M.NOT(x))
                    want = int(i < min(a, b))
                    got = on(M.AND(st, M.AND(rc.guard, lp[0].guard)), v) if not lp[0].name.startswith('i in') else on(M.AND(st, rc.guard), v)
                    if got is None: r.undecided('array copy: range', F.pbdd(st)[:100]); continue
                    r.ob(f'array copy: exactly the indices both shapes have are copied (index {i} of {a} and {b})', got == want, f' {got}', rc.loc)

def registry(r):
    u = mem_unit(r)
    declares(r, u, r'declare_var\(TRICK_TYPE', 'local')
    declares(r, u, r'declare_extern_var\(void\*, TRICK_TYPE', 'extern')
    declares(r, u, r'declare_operatornew_var\(', 'new')
    deletes(r, u)
    lookups(r, u)
    resizes(r, u)
    ws, fs = lint([MD + 'MemoryManager*.cpp'], ['-Wconditional-uninitialized', '-Wsometimes-uninitialized', '-Wuninitialized', '-Wreturn-type'])
    for fn, ln, tx in ws: r.ob('nothing is used before it has a value', False, ' ' + tx, f'{fn}:{ln}')
    r.ob('nothing is used before it has a value', not ws, f' {len(fs)} files')
    return r.finish('Summaries of declaring, finding, naming, resizing and deleting allocations evaluated over the classes of types, storage, names and failures; lock state at every change of the registry; use of undefined values.',
                    ['strdup, calloc, free and the class functions of the generated io_src code do what they are documented to do', 'the sizes reported by get_type_attributes are those of the types'], floor=300)

RULES = {'M01': registry}
