"""Rules on the extent of checkpoints: what is collected, declared, written, cleared and restored."""
import re
import flow as F
from vk import *
from flow import M, pp
from rules.comm import held, balanced, sp
from rules.values import subterms
from rules.mem import Env, on, val, calls, MD, LK, AM, VM, ENTRY

NOISE = ['operator<<', 'basic_string', 'basic_stringstream', 'basic_ostream', 'basic_[io]fstream', 'flush', 'debug_write', 'emitError', 'emitWarning', 'operator new', 'operator delete']
STRUCT, STL = 22, 24

def chosen(f, env, pat):
    """the calls matching pat that are made in env, None when a condition is not understood"""
    return calls(f, env, pat)

def loop_of(f, e): return [l for l in f.effects if l.kind == 'loop' and e.lids and l.blk == e.lids[-1]]

def iterations(l, size, n=6, more=()):
    """how often the loop runs, and the values its counters take: [iteration numbers]"""
    k = 0
    while k < n:
        if not F.evb(l.val, Env({'#iter': k}, list(more) + [(re.escape(size) + '$', 4)] if isinstance(size, str) else list(more))): break
        k += 1
    return k

def members(r, f, lab, A, T, perm, sinks, types, stl=None, any_array=False):
    """every permitted member of a class is visited once, at its address, the way its type needs"""
    ad, at = f'arg{A}', f'arg{T}'
    pat = '|'.join(sinks.values())
    bad = set()
    start = [e for e in f.effects if e.kind == 'call' and any(re.search(rf'{at}\[[1-9]\d*\.\.\]', pp(x)) for x in e.args)]
    r.ob(f'{lab}: members are visited from the first', not start, '', r.at(start, f))
    for mods in (0, 1, 2, 6, 9):
        for typ in types:
            for ni in (0, 1, 2):
                for ok in (1, 0):
                    env = Env({ad: 1000, at: 7000}, [(rf'{at}\[\*\]\.mods$', mods), (rf'{at}\[\*\]\.offset$', 40), (rf'{at}\[\*\]\.type$', typ), (rf'{at}\[\*\]\.num_index$', ni), (rf'\*{at}\[\*\]\.name$', 65), (rf'{at}\[\*\]\.attr$', 8000),
                                                     (rf'{at}\[\*\]\.(\w+)$', 9000), (r'CheckPointAgent::(in|out)put_perm_check\(', 0), (r'(count|#)', 3), (r'this\.debug_level$', 0)])
                    env.pats.insert(0, (re.compile(rf'(\w+::)*{perm}\('), ok))
                    cs = chosen(f, env, pat)
                    what = f'type {typ}, {ni} dimensions, mods {mods}'
                    if cs is None: bad.add(lab); continue
                    if not ok: r.ob(f'{lab}: a member that is not permitted is left out', not cs, what, r.at(cs, f)); continue
                    kind = ('arr' if ni else 'cls') if typ == STRUCT else 'stl' if typ == STL and 'stl' in sinks else 'leaf'
                    if kind == 'stl' and ni: continue
                    if any_array and ni: kind = 'arr'
                    if 'any' in sinks: kind = 'any'
                    want = sinks[kind]
                    r.ob(f'{lab}: a permitted member is visited once, by its type ({what})', len(cs) == 1 and any(re.search(want, x) for x in (cs[0].name, pp(cs[0].args[0]) if cs[0].args else '')), f' {[e.name.split("::")[-1] for e in cs]}', r.at(cs, f))
                    for e in cs:
                        args = [val(x, env) for x in e.args]; tx = [pp(x) for x in e.args]
                        r.ob(f'{lab}: a member is visited at its own address ({"static" if mods & 2 else "in the object"})', (40 if mods & 2 else 1040) in args, f' {args}', e.loc)
                        if kind == 'stl': r.ob(f'{lab}: with the function of its container', tx[0] == f'{at}[*].{stl}', tx[0], e.loc)
                        if stl:    # names
                            nm = [x for k, x in enumerate(tx) if f'arg{A - 1}' in x and args[k] != 1040 and k not in (0,)] or tx[1:2]
                            good = ([f'cat(*arg{A - 1},".",{at}[*].name)'],) if kind != 'stl' else ([f'arg{A - 1}'], [f'*arg{A - 1}'], [f'c_str(*arg{A - 1})'])
                            if nm in good or any('cat(' in x or x.strip('*') == f'arg{A - 1}' or 'c_str(' in x for x in nm): r.ob(f'{lab}: under its own name', nm in good and (kind != 'stl' or f'{at}[*].name' in tx), str(nm)[:200], e.loc)
                            else: bad.add(f'{lab}: name ' + str(nm)[:80])
                        if kind in ('arr', 'leaf', 'any'): r.ob(f'{lab}: with its own attributes', f'&{at}[*]' in tx or kind == 'any' and f'{at}[*].attr' in tx, str(tx)[:200], e.loc)
                        if kind == 'cls': r.ob(f'{lab}: with the attributes of its class', f'{at}[*].attr' in tx, str(tx)[:200], e.loc)
                        if kind in ('arr', 'leaf'): r.ob(f'{lab}: from its first dimension and element', tx[-2:] == ['0', '0'], str(tx[-2:]), e.loc)
    for b_ in bad: r.undecided(b_, ' conditions')
    for l in {l.blk: l for e in f.effects if e.kind == 'call' and re.search(pat, e.name) for l in loop_of(f, e)}.values():
        for c, go in ((65, True), (-3, True), (0, False)):
            try: got = bool(F.evb(l.val, Env({'#iter': 1}, [(rf'\*{at}\[\*\]\.name$', c)])))
            except F.Unknown as ex: r.undecided(f'{lab}: loop', f' {ex}'); break
            r.ob(f'{lab}: members are visited up to the last', got == go, f' first character of the name {c}: {got}', l.loc)
        r.every(f'{lab}: members are visited up to the last', f, '.*', l.blk)

def elements(r, f, lab, A, T, D, O, rec, cls=None, ptr=None, leaf=None, more=(), only=None):
    """every element of an array of fixed dimensions is visited once, at its own address; pointers are followed from their place"""
    ad, at, cd, of = (f'arg{k}' for k in (A, T, D, O))
    pat = '|'.join(x for x in (rec, cls, ptr, leaf) if x)
    def env(ext, ni, dim, off, it, typ=STRUCT):
        return Env({ad: 1000, at: 7000, cd: dim, of: off, '#iter': it}, list(more) + [(r'arg1$', 100)] * (A != 1) + [(rf'{at}\.index\[.*\]\.size$', ext), (rf'{at}\.num_index$', ni), (rf'{at}\.size$', 24), (rf'{at}\.attr$', 8000), (rf'{at}\.type$', typ), (r'this\.debug_level$', 0),
                    (rf'{ad}\[(\d+\*)?.*\]$', 5555), (r'.*get_alloc_info_of\(', 6000)])
    bad = set()
    for ni in (1, 2, 3):
        for dim in range(ni):
            last = dim == ni - 1
            for off in (0, 5):
                for typ in only or ((STRUCT,) if not leaf else (STRUCT, 11)):
                    visited = []
                    for it in range(4):
                        v = env(4, ni, dim, off, it, typ)
                        cs = chosen(f, v, pat)
                        if cs is None: bad.add(f'{lab} elements'); break
                        what = f'dimension {dim} of {ni}, element {it} of 4'
                        want = rec if not last or not (cls or leaf) else cls if typ == STRUCT else leaf
                        r.ob(f'{lab}: every element is visited once ({what})', len(cs) == 1 and re.search(want, cs[0].name), f' {[e.name.split("::")[-1] for e in cs]}', r.at(cs, f))
                        for e in cs:
                            a = [val(x, v) for x in e.args]; tx = [pp(x) for x in e.args]
                            if leaf and re.search(leaf, e.name):
                                r.ob(f'{lab}: with its own index ({what})', a[-4:] == [1000, 7000, dim + 1, off * 4 + it], f' {a}', e.loc)
                            elif re.search(cls or '$^', e.name):
                                r.ob(f'{lab}: at its own address ({what})', 1000 + 24 * (off * 4 + it) in a and f'{at}.attr' in tx, f' {a[1:]}', e.loc)
                                visited.append(it)
                            else:
                                i = [k for k, x in enumerate(tx) if x == at]
                                r.ob(f'{lab}: with its own index ({what})', a[-2:] == [dim + 1, off * 4 + it] and 1000 in a and bool(i), f' {a[1:]}', e.loc)
                            L = loop_of(f, e)
                            if len(e.loops) != 1 or len(L) != 1: bad.add(f'{lab} loop'); continue
                            try: n = sum(1 for k in range(6) if F.evb(L[0].val, env(4, ni, dim, off, k, typ)))
                            except F.Unknown: bad.add(f'{lab} loop bound'); continue
                            r.ob(f'{lab}: all elements of the dimension', n == 4, f' {n} of 4', L[0].loc)
    for l in {l.blk: l for e in f.effects if e.kind == 'call' and re.search(pat, e.name) for l in loop_of(f, e)}.values(): r.every(f'{lab}: all elements of the dimension', f, '.*', l.blk)
    if ptr:
        for ni in (1, 2):
            for off in (0, 5):
                for known in (1, 0):
                    for null in (0, 1):
                        v = env(0, ni, ni - 1, off, 0, STRUCT if not leaf else 11)
                        v.pats.insert(0, (re.compile(r'(\w+::)*get_alloc_info_of\('), 6000 * known)); v.pats.insert(0, (re.compile(rf'{ad}\[(\d+\*)?.*\]$'), 0 if null else 5555))
                        cs = chosen(f, v, pat)
                        what = f'{"null" if null else "known" if known else "unknown"} target'
                        if cs is None: bad.add(f'{lab} pointer'); continue
                        if re.search(ptr, 'get_alloc_deps_in_allocation'):
                            r.ob(f'{lab}: what a pointer refers to is visited, if it is managed ({what})', len(cs) == int(known and not null), f' {[e.name for e in cs]}', r.at(cs, f))
                            for e in cs:
                                tx = pp(e.args[-1])
                                r.ob(f'{lab}: the pointer is read from its own place', f'get_alloc_info_of(this,{ad}[8*{of}])' in tx, tx[:200], e.loc)
                        else:
                            r.ob(f'{lab}: a pointer is handled once, at its place', len(cs) == 1, f' {[e.name for e in cs]}', r.at(cs, f))
                            for e in cs:
                                a = [val(x, v) for x in e.args]
                                r.ob(f'{lab}: a pointer is handled once, at its place', a[-4] == 1000 and pp(e.args[-3]) == at and a[-2:] == [ni - 1, off], f' {a[1:]}', e.loc)
    elif cls or leaf or rec:
        v = env(0, 1, 0, 0, 0, STRUCT)
        cs = chosen(f, v, pat)
        if cs is None: bad.add(f'{lab} pointer')
        else: r.ob(f'{lab}: pointers are not elements', not cs, f' {[e.name for e in cs]}', r.at(cs, f))
    for b_ in sorted(bad): r.undecided(b_, ' conditions')

def top(r, f, lab, rec, arr, cls, leaf, name=None, guard=None):
    """an allocation is visited from its start, by its kind"""
    ref = 'make_reference_attr'
    for typ in (1, 11, 21, STRUCT, STL):
        for ni in (0, 1, 2):
            v = Env(guard or {}, [(re.escape(rec).replace(r'\.second', r'(\.second)?') + x, y) for x, y in (('$', 5000), (r'\.start$', 1000), (r'\.attr$', 8000))] + [(rf'.*\.type$', typ), (r'.*\.num_index$', ni), (r'this\.debug_level$', 0), (re.escape(rec) + r'\.start$', 1000), (re.escape(rec) + r'\.attr$', 8000), (re.escape(rec) + '$', 5000), (r'.*make_reference_attr\(.*\)$', 7000), (r'.*make_reference_attr\(.*\)\.attr$', 8000), (r'.*make_reference_attr\(.*\)\.type$', typ), (r'.*\.name$', 333), (r'exists\(', 0)])
            cs = chosen(f, v, f'{arr}|{cls}|{leaf}')
            if cs is None: r.undecided(lab, ' conditions'); return
            if typ == STL and ni: continue
            want = leaf if typ != STRUCT else arr if ni else cls
            if arr == leaf or (ni and 'write' in arr): want = arr if ni else cls if typ == STRUCT else leaf
            what = f'type {typ}, {ni} dimensions'
            r.ob(f'{lab}: an allocation is visited once, by its kind ({what})', len(cs) == 1 and re.search(want, cs[0].name), f' {[e.name.split("::")[-1] for e in cs]}', r.at(cs, f))
            for e in cs:
                a = [val(x, v) for x in e.args]
                r.ob(f'{lab}: an allocation is visited from its start ({what})', 1000 in a and (7000 in a or 8000 in a) and (re.search(cls, e.name) or a[-2:] == [0, 0]), f' {a}', e.loc)

TYPES = (1, 3, 4, 11, 12, 19, 21, STRUCT, STL)

def one(p, name, params, sub=None):
    c = [x for x in p.get('MemoryManager::' + name, params) if sub is None or re.search(sub, x['name'])]
    if len(c) != 1: raise Broken(f'{name}: {len(c)} definitions found (anchor vanished)')
    return c[0]

def traversals(r, u):
    N = 'MemoryManager::'
    fam = [('collecting', 'get_alloc_deps_in_', 'output_perm_check', 1, 2, 3, 4, 'get_alloc_deps_in_allocation', False),
           ('STL containers', 'get_stl_dependencies_in_', 'output_perm_check', 2, 3, 4, 5, None, 'checkpoint_stl'),
           ('STL restore', 'restore_stls_in_', 'input_perm_check', 2, 3, 4, 5, None, 'restore_stl')]
    for lab, pre, perm, A, T, D, O, ptr, stl in fam:
        p = u.extract(roots=[f'^Trick::MemoryManager::{pre}'], opaque=NOISE + [f'MemoryManager::({pre}|get_alloc_info_of|make_reference_attr)'])
        fn = {x['name']: x for fs in p.fns.values() for x in fs if pre in x['name']}
        def flow(x, n): f = F.Flow(p, x); f.label = n; r.fns.append(n); return f
        f = flow(one(p, pre + 'class', None), N + pre + 'class')
        sinks = {'arr': f'{pre}arrayed_class$', 'cls': f'{pre}class$', 'leaf': f'{pre}intrinsic$'}
        if stl: sinks['stl'] = '^indirect$'
        members(r, f, lab, A, T, perm, sinks, TYPES, stl)
        f = flow(one(p, pre + 'arrayed_class', None), N + pre + 'arrayed_class')
        elements(r, f, lab, A, T, D, O, f'{pre}arrayed_class$', f'{pre}class$', ptr)
        if ptr:
            f = flow(one(p, pre + 'intrinsic', None), N + pre + 'intrinsic')
            elements(r, f, lab + ' of pointers', A, T, D, O, f'{pre}intrinsic$', None, ptr)
    # names of what is visited
    # the allocation itself
    p = u.extract(roots=['^Trick::MemoryManager::(get_alloc_deps_in_allocation|get_stl_dependencies|restore_stls)\\('], opaque=NOISE + ['MemoryManager::(get_alloc_deps_in_(class|arrayed_class|intrinsic)|get_stl_dependencies_in_|restore_stls_in_|get_alloc_info_of|make_reference_attr|free_reference_attr)'])
    for n, pre, sub in (('get_alloc_deps_in_allocation', 'get_alloc_deps_in_', 'ALLOC_INFO'), ('get_stl_dependencies', 'get_stl_dependencies_in_', None), ('restore_stls', 'restore_stls_in_', None)):
        f = F.Flow(p, one(p, n, None, sub)); f.label = N + n; r.fns.append(f.label)
        g = {'this.debug_level': 0, '#iter': 0, 'size(this.dependencies)': 3, 'this.dependencies[*]': 4000}
        top(r, f, n, 'arg1', pre + 'arrayed_class$', pre + 'class$', pre + 'intrinsic$', guard=g)
        if sub:
            for seen in (0, 1):
                v = Env({**g, 'arg1': 5000, 'this.dependencies[*]': 5000 if seen else 4000}, [(r'.*\.type$', 11), (r'.*\.num_index$', 1), (r'.*make_reference_attr\(.*\)$', 7000)])
                cs = chosen(f, v, r'(^|::)(push_back|emplace_back)$|get_alloc_deps_in_')
                if cs is None: r.undecided(n + ': known ones', ' conditions'); continue
                pb = [e for e in cs if 'back' in e.name]
                r.ob(f'{n}: an allocation is added once, before what it refers to ({"known" if seen else "new"})', len(cs) == 2 * (not seen) and (seen or 'dependencies' in pp(pb[0].args[0]) and pp(pb[0].args[1]) == 'arg1' and pb[0] is cs[0]), str([e.name for e in cs]), r.at(cs, f))
    f = F.Flow(p, one(p, 'get_alloc_deps_in_allocation', None, 'char')); f.label = N + 'get_alloc_deps_in_allocation by name'; r.fns.append(f.label)
    for found in (0, 1):
        v = Env({'this.debug_level': 0, '#iter': 0, 'size(this.dependencies)': 3, 'this.dependencies[*]': 4000, f'find({VM})': int(not found), f'end({VM})': 1}, [ENTRY, (r'.*\.type$', 11), (r'.*\.num_index$', 1), (r'.*make_reference_attr\(.*\)$', 7000)])
        cs = chosen(f, v, r'(^|::)(push_back|emplace_back)$')
        if cs is None: r.undecided('get_alloc_deps_in_allocation by name', ' conditions'); continue
        r.ob(f'collecting by name: the variable of that name ({"known" if found else "unknown"})', len(cs) == found and all(val(e.args[1], v) == 5000 and 'arg1' in pp(e.args[1]) for e in cs), str([pp(e.args[1]) for e in cs]), r.at(cs, f))

def clearing(r, u):
    N = 'MemoryManager::'
    p = u.extract(roots=['^Trick::MemoryManager::clear_(class|arrayed_class|var_critical_section)\\('], opaque=NOISE + ['MemoryManager::(clear_(class|arrayed_class|rvalue)|make_reference_attr|free_reference_attr)'])
    def flow(n): f = F.Flow(p, one(p, n, None)); f.label = N + n; r.fns.append(f.label); return f
    members(r, flow('clear_class'), 'clearing', 1, 2, 'input_perm_check', {'arr': 'clear_arrayed_class$', 'cls': 'clear_class$', 'leaf': 'clear_rvalue$'}, TYPES)
    elements(r, flow('clear_arrayed_class'), 'clearing', 1, 2, 3, 4, 'clear_arrayed_class$', 'clear_class$', 'clear_rvalue$')
    f = flow('clear_var_critical_section')
    top(r, f, 'clearing an allocation', f'{AM}[arg1].second', 'clear_arrayed_class$', 'clear_class$', 'clear_rvalue$', guard={'arg1': 1000, f'find({AM})': 0, f'end({AM})': 1, 'this.debug_level': 0})

def writing(r, u):
    N = 'MemoryManager::'
    p = u.extract(roots=['^Trick::MemoryManager::write_(var|array_var|composite_var)\\('], opaque=NOISE + ['MemoryManager::(write_(array_var|composite_var)|make_reference_attr|get_alloc_info_(at|of)|free_reference_attr)'])
    def flow(x, n): f = F.Flow(p, x); f.label = N + n; r.fns.append(f.label); return f
    fc = flow(one(p, 'write_composite_var', None), 'write_composite_var')
    pat = r'(assign_rvalue|write_composite_var|write_array_var)$'
    W = {'arr': 'write_array_var$', 'cls': 'write_composite_var$', 'leaf': 'assign_rvalue$'}
    members(r, fc, 'writing', 2, 3, 'output_perm_check', W, TYPES, any_array=True)
    framed(r, fc, 'writing a member', pat, 'push_struct_elem', 'arg3[*].name')
    fa = flow(one(p, 'write_array_var', None), 'write_array_var')
    for exp in (0, 1):
        elements(r, fa, f'writing ({"expanded" if exp else "whole"} arrays)', 2, 3, 4, 5, 'write_array_var$', 'write_composite_var$', 'assign_rvalue$', leaf='assign_rvalue$', more=[(r'this\.expanded_arrays$', exp)], only=None if exp else (STRUCT,))
    for ni in (1, 2):
        v = Env({'arg2': 1000, 'arg3': 7000, 'arg4': 0, 'arg5': 0, '#iter': 1}, [(r'this\.expanded_arrays$', 0), (r'arg3\.index\[.*\]\.size$', 4), (r'arg3\.num_index$', ni), (r'arg3\.type$', 11), (r'arg3\.size$', 8)])
        cs = chosen(fa, v, pat)
        if cs is None: r.undecided('writing whole arrays', ' conditions'); continue
        r.ob('writing (whole arrays): an array of simple values is written at once, from its first element', len(cs) == 1 and not cs[0].loops and cs[0].name.endswith('assign_rvalue') and [val(x, v) for x in cs[0].args][-4:] == [1000, 7000, 0, 0], str([e.name for e in cs]), r.at(cs, fa))
    framed(r, fa, 'writing an element', pat, 'push_array_elem', 'count(0,1)', loops=True)
    c = [x for x in p.get('MemoryManager::write_var', None) if 'ALLOC_INFO' in x['name']]
    if len(c) != 1: raise Broken('write_var(ALLOC_INFO): anchor vanished')
    f = flow(c[0], 'write_var')
    top(r, f, 'writing an allocation', 'arg2', 'write_array_var$', 'write_composite_var$', 'assign_rvalue$', guard={'arg2': 5000})
    framed(r, f, 'writing an allocation', pat, 'push_basename', 'arg2.name')

def framed(r, f, lab, pat, push, name, loops=False):
    """every value is written between the push and the pop of its name"""
    ps, po = [e for e in f.effects if e.kind == 'call' and e.name.endswith('::' + push)], [e for e in f.effects if e.kind == 'call' and e.name.endswith('::pop_elem')]
    ws = [e for e in f.effects if e.kind == 'call' and re.search(pat, e.name) and (not loops or e.loops)]
    if not ps or not po: r.ob(f'{lab}: its name is entered and left', False, ' no push or pop', f.label); return
    for e in ps: r.ob(f'{lab}: under its own name', pp(e.args[1]) == name, pp(e.args[1])[:100], e.loc)
    r.same(f'{lab}: every name entered is left', r.tot(ps), r.tot(po), r.at(po, f))
    for w in ws:
        r.imp(f'{lab}: its name is entered first', w.guard, r.tot([e for e in ps if e.order < w.order and e.loops == w.loops]), w.loc)
        r.imp(f'{lab}: its name is left afterwards', w.guard, r.tot([e for e in po if e.order > w.order and e.loops == w.loops]), w.loc)

def trace(f, env, what, limit=40, act=None):
    """the effects `what` selects that happen in env, in the order of execution, as (effect, environment); loops are unrolled"""
    es = sorted([e for e in f.effects if e.kind == 'loop' or what(e)], key=lambda e: e.order)
    out = []
    def run(depth, lids, env):
        for e in es:
            if len(e.lids) != depth or list(e.lids) != lids: continue
            o = on(e.guard, env)
            if o is None: raise F.Unknown(F.pbdd(e.guard)[:100])
            if not o: continue
            if e.kind != 'loop':
                out.append((e, env))
                if act: act(e, env)
                continue
            if not any(e.blk in x.lids for x in es if x.kind != 'loop'): continue
            for k in range(limit):
                v = type(env)(dict(env)); v.pats = env.pats; v['#iter'] = k
                if hasattr(env, 'w'): v.w = env.w
                c = on(e.val, v)
                if c is None: raise F.Unknown(F.pbdd(e.val)[:100])
                if not c: break
                run(depth + 1, lids + [e.blk], v)
                x = [on(n, v) for n in e.nr]
                if any(y is None for y in x): raise F.Unknown('exit')
                if any(x): break
            else: raise F.Unknown('loop runs on')
    run(0, [], env)
    return out

def declarations(r, p):
    f = r.flow(p, 'ClassicCheckPointAgent::write_decl', typed=True, streams=True)
    T = 'trickTypeCharString(arg2.type,arg2.user_type_name)'
    for ext in (0, 1):
        for dims in ([], [3], [3, 4], [0], [0, 0], [3, 0], [2, 5, 0, 0], [2, 3, 4, 5, 6, 7, 8, 9], [1, 1, 1, 1, 1, 1, 1, 0]):
            for name in (333, 0):
                env = Env({'arg2': 5000, 'arg2.name': name, 'arg2.num_index': len(dims), 'arg2.stcl': ext})
                class V(Env):
                    def look(s, k):
                        m = re.match(r'(?:i32\()?arg2\.index\[(?:4\*)?(?:count\((arg2\.num_index-1|\d+),(-?1)\)|(\d+))\]\)?$', k)
                        if not m: return None
                        i = int(m[3]) if m[3] else (len(dims) - 1 if m[1][0] == 'a' else int(m[1])) + int(m[2]) * s['#iter']
                        return dims[i] if 0 <= i < len(dims) else 99
                # conditions on elements are looked up per iteration
                def mk(it, base=env): v = V(dict(base)); v['#iter'] = it; return v
                try:
                    got = ''
                    for e, v in trace(f, mk(0), lambda e: e.kind == 'call' and e.name.startswith('out<')):
                        a = e.args[1]; tx = pp(a)
                        got += a[1] if a[0] == 's' else 'T' if tx == T else 'N' if tx == 'arg2.name' else '\n' if 'endl' in tx else str(val(a, v))
                except F.Unknown as ex: r.undecided(f'declaration ({dims})', f' {ex}'); continue
                st = len(dims) - len([d for d in dims if d]); fixed = [d for d in dims if d]
                want = '' if not name else ('// extern ' if ext else '') + 'T' + '*' * st + ' N' + ''.join(f'[{d}]' for d in fixed) + ';\n'
                r.ob(f'declaration: type, stars, name and dimensions ({"extern " * ext}{dims}{"" if name else ", no name"})', got == want, f' written: {got!r}', f.label)


def line(i):
    try: return int(i['l'])
    except (KeyError, ValueError, TypeError): return 0

def c_blocks(p, fn): return [b_.get('i', b_) if isinstance(b_, dict) else b_ for b_ in [x['blocks'] for fs in p.fns.values() for x in (fs if isinstance(fs, list) else [fs]) if fn in x['name']][0]]


class World(Env):
    """the checkpoint being written: allocations in order, their names as they change"""
    def look(s, k):
        w = s.w; it = s.get('#iter', 0)
        m = re.fullmatch(r'this\.(stl_)?dependencies\[(\*|count\(last\(\),-1\)|count\(size\(this\.stl_dependencies\)-1,-1\))\](?:\.(\w+))?', k)
        if m:
            l = w.stl if m[1] else w.deps
            i = it if m[2] == '*' else len(l) - 1 - it
            if not 0 <= i < len(l): return 0
            d = l[i]
            return 5000 + pos(w.deps, d) if not m[3] else (w.names0 if s.get('first') else w.names)[pos(w.deps, d)] if m[3] == 'name' else d.get(m[3])
        m = re.fullmatch(r'size\(this\.(stl_)?dependencies\)', k)
        if m: return len(w.stl) if m[1] else w.size
        m = re.match(r'(?:strstr|strncmp|strcmp)\(this\.dependencies\[\*\]\.name,this\.(local|extern)_anon_var_prefix', k)
        if m:
            n = s.look('this.dependencies[*].name')
            hit = (1000 if m[1] == 'local' else 2000) <= n < (2000 if m[1] == 'local' else 3000)
            return (n if hit else n + 1 if n == 599 else 0) if k.startswith('strstr') else int(not hit)
        m = re.fullmatch(r'(iter|rend|end)\(this\.(stl_)?dependencies\)', k)
        if m: return it if m[1] == 'iter' else len(w.stl if m[2] else w.deps)
        return {'this.debug_level': 0, 'this.reduced_checkpoint': w.reduced}.get(k)

def pos(l, d): return [i for i, x in enumerate(l) if x is d][0]

def number(t_, v, it):
    """the running number of iteration `it`"""
    if t_[0] != 'rec': return val(t_, v)
    cur = val(t_[1], v)
    for j in range(it):
        e = World(dict(v)); e.w = v.w; e['#iter'] = j; e['self'] = cur; e['first'] = 1
        cur = val(t_[2], e)
        if cur is None: return None
    return cur

def checkpoint(r, u):
    N = 'MemoryManager::'
    p = u.extract(roots=['^Trick::MemoryManager::execute_checkpoint\\('], opaque=NOISE + ['MemoryManager::(write_var|get_stl_dependencies|delete_var)'])
    f = r.flow(p, N + 'execute_checkpoint', streams=True)
    L, E = 0, 1
    A = lambda **k: {**dict(name=0, stcl=L, type=11, size=8, num_index=0), **k}
    worlds = {'named': [A(name=333)], 'anonymous local': [A()], 'anonymous external': [A(stcl=E)], 'named external': [A(name=334, stcl=E)], 'anonymous characters': [A(type=1, size=1, num_index=1)],
              'anonymous external characters': [A(type=1, size=1, num_index=1, stcl=E)], 'named characters': [A(name=335, type=1, size=1, num_index=1)], 'anonymous character pointers': [A(type=1, size=8, num_index=1)], 'anonymous character matrix': [A(type=1, size=1, num_index=2)],
              'mixed': [A(name=333), A(), A(stcl=E), A(type=1, size=1, num_index=1), A(), A(stcl=E), A(name=336, stcl=E, stl=1), A(stl=1), A(name=337), A(name=599), A(name=599, stcl=E)], 'none': []}
    class W: pass
    sel = lambda e: (e.kind == 'call' and (re.search(r'::(write_var|get_stl_dependencies|delete_var|write_decl)$|^(snprintf|free|std::to_string)$', e.name) or e.name.startswith('out<'))) or (e.kind == 'store' and sp(e) == 'this.dependencies[*].name')
    for what, deps in worlds.items():
        for red in (0, 1):
            w = W(); w.deps = [dict(d) for d in deps]; w.stl = []; w.size = len(deps); w.reduced = red
            w.names = [d['name'] for d in w.deps]; w.names0 = list(w.names)
            ev, last = [], [None]
            def act(e, v):
                it = v.get('#iter', 0)
                if w.size != len(w.deps) and not (e.kind == 'call' and (e.name.endswith('get_stl_dependencies') or e.name == 'snprintf')) and e.kind != 'store': w.size = len(w.deps)
                if e.kind == 'store':
                    x = pp(e.val)
                    if x == '0': w.names[it] = 0; ev.append(('unnamed', it))
                    else:
                        if last[0] is None or 'snprintf' not in x: raise F.Unknown('how a name is made')
                        w.names[it] = last[0]; ev.append(('named', it, last[0]))
                    return
                n = e.name.split('::')[-1]
                if n == 'snprintf':
                    k = 'local' if 'local_anon_var_prefix' in pp(e.args[3]) else 'extern' if 'extern_anon_var_prefix' in pp(e.args[3]) else None
                    i = number(e.args[4], v, it) if len(e.args) > 4 else None
                    if k is None or i is None or pp(e.args[2]) not in ('"%s%d"',): raise F.Unknown('how a name is made')
                    last[0] = (1000 if k == 'local' else 2000) + i
                elif n in ('get_stl_dependencies', 'write_decl', 'write_var', 'delete_var'):
                    a = val(e.args[-1], v)
                    if a is None and n == 'delete_var' and pp(e.args[-1]).endswith('.start'):
                        a = v.look(pp(e.args[-1])[:-6])
                    if a is None: raise F.Unknown(pp(e.args[-1])[:80])
                    i = a - 5000; ev.append((n, i, w.names[i] if 0 <= i < len(w.deps) else None))
                    if n == 'get_stl_dependencies' and w.deps[i].get('stl'):
                        t_ = A(name=400 + i); w.deps.append(t_); w.stl.append(t_); w.names.append(t_['name'])
                elif n == 'free': ev.append(('free', it))
                elif n.startswith('out<') or e.name.startswith('out<'):
                    if e.args[1][0] == 's': ev.append(('text', e.args[1][1]))
            env = World({}); env.w = w; env.pats = []
            try: trace(f, env, sel, act=act)
            except F.Unknown as ex: r.undecided(f'writing a checkpoint ({what})', f' {ex}'); continue
            lab = f'{what}, {"reduced" if red else "full"}'
            n = len(w.deps)
            plain = [i for i, d in enumerate(w.deps) if not d['name'] and d['stcl'] == L and d['type'] == 1 and d['size'] == 1 and d['num_index'] == 1]
            got = lambda k: [x[1] for x in ev if x[0] == k]
            nm = {x[1]: x[2] for x in ev if x[0] == 'named'}
            want = [i for i, d in enumerate(w.deps) if not d['name'] and i not in plain]
            r.ob(f'writing: every nameless allocation but plain characters gets a name for the time being ({lab})', sorted(nm) == want and len(got('named')) == len(want), f' {sorted(nm)} of {want}', f.label)
            r.ob(f'writing: different allocations get different names, by their storage ({lab})', len(set(nm.values())) == len(nm) and all((1000 if w.deps[i]['stcl'] == L else 2000) <= x < (2000 if w.deps[i]['stcl'] == L else 3000) for i, x in nm.items()), str(nm), f.label)
            s = [x for x in ev if x[0] == 'get_stl_dependencies']
            r.ob(f'writing: the containers of every allocation are collected, under its name ({lab})', [x[1] for x in s] == [i for i in range(len(deps)) if i not in plain] and all(x[2] for x in s), str(s), f.label)
            r.ob(f'writing: every local allocation is declared, once ({lab})', [i for i in got('write_decl') if i not in plain] == [i for i in range(n) if w.deps[i]['stcl'] == L and i not in plain], str(got('write_decl')), f.label)
            r.ob(f'writing: every named allocation is written, once ({lab})', got('write_var') == [i for i in range(n) if i not in plain], str(got('write_var')), f.label)
            o = [x[0] for x in ev]
            first = lambda k: o.index(k) if k in o else len(o)
            lastof = lambda k: len(o) - 1 - o[::-1].index(k) if k in o else -1
            r.ob(f'writing: declarations before assignments ({lab})', lastof('write_decl') < first('write_var') and lastof('get_stl_dependencies') < first('write_decl'), str(o), f.label)
            cl = [k for k, x in enumerate(ev) if x[0] == 'text' and 'clear_all_vars()' in x[1]]
            r.ob(f'writing: a reduced checkpoint clears all variables, between declarations and assignments ({lab})', len(cl) == red and all(lastof('write_decl') < k < first('write_var') for k in cl) and all(re.fullmatch(r'clear_all_vars\(\);\s*', ev[k][1]) for k in cl), str([ev[k] for k in cl]), f.label)
            r.ob(f'writing: the names for the time being are taken back at the end, no others ({lab})', sorted(got('unnamed')) == sorted(got('free')) == want and (not want or first('unnamed') > lastof('write_var')), f' {got("unnamed")} {got("free")}', f.label)
            st = [pos(w.deps, d) for d in w.stl]
            r.ob(f'writing: the temporaries of containers are deleted at the end, each once ({lab})', sorted(got('delete_var')) == sorted(st) and (not st or first('delete_var') > lastof('write_var')), f' {got("delete_var")} of {st}', f.label)
    # the number of allocations is taken again after collecting
    ins = [i for b_ in c_blocks(p, 'execute_checkpoint') for i in b_ if i.get('callee')]
    ln = lambda rx: [l for i in ins if re.search(rx, str(i['callee'])) for l in [line(i)] if l]
    a, b_ = ln('get_stl_dependencies'), [int(e.loc.split(':')[1]) for e in f.effects if e.kind == 'call' and e.name.endswith('::write_decl') and re.search(r':\d+$', e.loc)]
    if len(a) == 1 and len(b_) >= 1: r.ob('writing: allocations added while collecting are declared and written too', any(a[0] < x < b_[0] for x in ln(r'vector<ALLOC_INFO\*.*::(size|begin|cbegin)\(')), f' size read at {ln("vector<ALLOC_INFO.*::size")}', f.label)
    else: r.undecided('writing: allocations added while collecting', ' form')

DEPS, MAP = 'this.dependencies', 'this.alloc_info_map'

def flow_of(r, p, name, par, sub):
    x = one(p, name, par, sub); f = F.Flow(p, x); f.label = 'MemoryManager::' + name; r.fns.append(f.label)
    return f

def describing(r, p):
    """the attributes an allocation is written by are the allocation's own"""
    f = r.flow(p, 'MemoryManager::make_reference_attr')
    st = [e for e in f.effects if e.kind == 'store' and re.match(r'[cm]alloc\(', sp(e))]
    by = {}
    for e in st: by.setdefault(re.sub(r'^[cm]alloc\([^)]*\)', '', sp(e)), []).append(e)
    if not st: r.undecided('describing an allocation', ' form'); return
    for k, v in dict(type='type', size='size', attr='attr', num_index='num_index', name='name', language='language').items():
        es = by.get('.' + k, []); r.ob(f'describing an allocation: its own {k}', bool(es) and (pp(es[-1].val) == 'arg1.' + v or k == 'size'), str([pp(e.val)[:60] for e in es]), r.at(es, f))
        if es: r.same(f'describing an allocation: always its {k}', r.tot(es), 1, r.at(es, f))
    zero = 'calloc(' in sp(st[0])
    for k in ('offset', 'mods'):
        es = by.get('.' + k, []); r.ob(f'describing an allocation: no {k}', (bool(es) or zero) and all(pp(e.val) == '0' for e in es), str([pp(e.val)[:60] for e in es]), r.at(es, f))
    es = by.get('.io', []); v = val(es[-1].val, Env({})) if es else None
    r.ob('describing an allocation: it may be written to and read from checkpoints', v is not None and v & 12 == 12, f' io = {v}', r.at(es, f))
    for n in range(9):
        env = Env({'arg1.num_index': n, 'arg1.size': 777, 'arg1.type': 5, sp(st[0]).split('.')[0] + '.num_index': n})
        class V(Env):
            def look(s, k):
                m = re.match(r'arg1\.index\[\*\]$', k) or re.match(r'arg1\.index\[(\d+)\]$', k)
                if m: return 10 + (int(m[1]) if m.groups() else s.get('#iter', 0))
                if k == 'arg1.index[arg1.num_index-1]' and n: return 10 + n - 1
        v0 = V(dict(env)); v0.pats = []
        try:
            got = {}
            for e, v in trace(f, v0, lambda e: e.kind == 'store' and re.search(r'\.index\[.*\]\.size$', sp(e)) is not None):
                m = re.search(r'\.index\[(\*|\d+)\]\.size$', sp(e))
                if not m: raise F.Unknown(sp(e))
                got[v.get('#iter', 0) if m[1] == '*' else int(m[1])] = val(e.val, v)
        except F.Unknown as ex: r.undecided(f'describing an allocation of {n} dimensions', f' {ex}'); continue
        z = by.get('.size', [])
        try: sizes = [val(e.val, v0) for e, _ in trace(f, v0, lambda e: e.kind == 'store' and e in z)]
        except F.Unknown as ex: r.undecided(f'describing an allocation of {n} dimensions', f' {ex}'); continue
        r.ob(f'describing an allocation: its own size, with {n} dimensions', sizes[-1:] == [777], f' {sizes}', f.label)     # that of pointers: M02
        r.ob(f'describing an allocation: each of its {n} dimensions', all(got.get(i) == 10 + i for i in range(n)), f' {got}', f.label)

def permitted(r, p):
    for fn, bit in (('input', 8), ('output', 4)):
        f = r.flow(p, f'ClassicCheckPointAgent::{fn}_perm_check')
        bad = []
        for io in range(16):
            g = f.retval(); x = on(g, Env({'arg1.io': io})) if not isinstance(g, tuple) else val(g, Env({'arg1.io': io}))
            if x is None: bad = None; break
            if bool(x) != bool(io & bit): bad.append(io)
        if bad is None: r.undecided(f'permission for {fn}', pp(f.retval())[:100]); continue
        r.ob(f'{fn} is permitted exactly by its checkpoint bit', bad == [], f' io = {bad}', f.label)

def gathering(r, p):
    """what is written: all allocations, or those the named ones depend on; what was gathered before is forgotten"""
    for par, sub, kind, lab in ((1, 'ostream', 'all', 'a full checkpoint'), (1, r'\(char const', 'all', 'a full checkpoint to a file'), (2, r'ostream&, char const\*\)', 'one', 'a selected checkpoint'), (2, r'\(char const\*, char const\*\)', 'one', 'a selected checkpoint to a file'),
                                (2, r'ostream&, std::vector', 'list', 'a checkpoint of several variables'), (2, r'\(char const\*, std::vector', 'list', 'a checkpoint of several variables to a file')):
        f = flow_of(r, p, 'write_checkpoint', par, sub)
        x = [e for e in f.effects if e.kind == 'call' and e.name.endswith('::execute_checkpoint')]
        r.ob(f'{lab} is written', bool(x), '', f.label)
        if not x: continue
        w = r.tot(x)
        opened = 1 if 'to a file' not in lab else None
        if opened is not None: r.same(f'{lab}: always written', w, 1, r.at(x, f))
        for v in (DEPS, 'this.stl_dependencies'):
            es = [e for e in f.effects if e.kind == 'call' and e.name.split('::')[-1] == 'clear' and pp(e.args[0]) == '&' + v]
            r.imp(f'{lab}: what was gathered before is forgotten ({v[5:]})', w, r.tot([e for e in es if not e.lids]), r.at(es, f))
            g = [e for e in f.effects if e.kind == 'call' and (e.name.endswith('get_alloc_deps_in_allocation') or (e.name.split('::')[-1] == 'push_back' and pp(e.args[0]) == '&' + v))]
            r.ob(f'{lab}: forgotten before gathering ({v[5:]})', all(c.order < e.order for c in es for e in g), '', r.at(es, f))
        if kind == 'all':
            g = [e for e in f.effects if e.kind == 'call' and e.name.split('::')[-1] in ('push_back', 'emplace_back') and pp(e.args[0]) == '&' + DEPS]
            r.ob(f'{lab}: all allocations are gathered', any(pp(e.args[1]) == MAP + '[*].second' and e.loops and e.loops[-1] == 'each ' + MAP for e in g), str([pp(e.args[1])[:60] for e in g]), r.at(g, f))
            r.ob(f'{lab}: nothing else is gathered', all(pp(e.args[1]) == MAP + '[*].second' for e in g), '', r.at(g, f))
            r.imp(f'{lab}: whatever they are', w, r.tot(g), r.at(g, f))
            for e in g: r.ob(f'{lab}: under the lock', held(f, e, LK), '', e.loc)
        else:
            g = [e for e in f.effects if e.kind == 'call' and e.name.endswith('get_alloc_deps_in_allocation')]
            a = 'arg2' if kind == 'one' else 'arg2[*]'
            r.ob(f'{lab}: what the variable named depends on is gathered', bool(g) and all(pp(e.args[1]) == a for e in g) and (kind == 'one' or all(e.loops and e.loops[-1] in ('each *arg2', 'each arg2') for e in g)), str([(pp(e.args[1])[:60], e.loops) for e in g]), r.at(g, f))
            r.imp(f'{lab}: whatever it is', w, r.tot(g), r.at(g, f))
            for e in g: r.ob(f'{lab}: under the lock', held(f, e, LK), '', e.loc)
        for e in x: r.ob(f'{lab}: written after gathering, outside the lock', all(y.order < e.order for y in g) and not held(f, e, LK), '', e.loc)
        balanced(r, lab, f, LK)

def reading(r, p):
    for par, sub, lab in ((2, 'istream', 'reading'), (2, r'\(char const', 'reading a file')):
        f = flow_of(r, p, 'read_checkpoint', par, sub)
        x = [e for e in f.effects if e.kind == 'call' and e.name.endswith('::restore')]
        r.ob(f'{lab}: the agent restores it', bool(x), '', f.label)
        if not x: continue
        w = r.tot(x)
        if sub == 'istream': r.same(f'{lab}: the agent always restores it', w, 1, r.at(x, f)); r.ob(f'{lab}: from the stream given', all(pp(e.args[1]) == 'arg1' for e in x), '', r.at(x, f))
        s = [e for e in f.effects if e.kind == 'call' and e.name.endswith('::restore_stls')]
        r.ob(f'{lab}: the containers of every allocation are restored', bool(s) and all(pp(e.args[1]) == MAP + '[*].second' and e.loops and e.loops[-1] == 'each ' + MAP for e in s) and all(e.order > y.order for e in s for y in x), str([pp(e.args[1])[:60] for e in s]), r.at(s, f))
        r.same(f'{lab}: iff it is asked for', r.tot(s), M.AND(w, gx(b('arg2'))), r.at(s, f))
        n = [e for e in f.effects if e.kind == 'store' and sp(e) == MAP + '[*].second.name']
        er = [e for e in f.effects if e.kind == 'call' and e.name.split('::')[-1] == 'erase']
        e0 = lambda local, name, hit: Env({MAP + '[*].second.stcl': 0 if local else 1, MAP + '[*].second.name': name}, [(r'strstr\(.*second\.name,this\.local_anon_var_prefix\)$', name if hit == 1 else name + 2 if hit else 0), (r'strncmp\(.*second\.name,this\.local_anon_var_prefix.*', int(hit != 1)),
              (r'.*is_open\(.*', 1), (r'.*::restore\(.*', 0)])
        for local in (0, 1):
            for name, hit in ((0, 0), (500, 0), (500, 1), (500, 2)):
                env = e0(local, name, hit); want = bool(local and name and hit == 1)
                for what, es in (('its name is taken back', n), ('its name is no longer known', er)):
                    o = [on(e.guard, env) for e in es]
                    if any(y is None for y in o): r.undecided(f'{lab}: {what}', ''); continue
                    r.ob(f'{lab}: {what} iff it was made for the checkpoint ({"local" if local else "external"}, {"named" if name else "nameless"}{("", ", made", ", made-like")[hit]})', any(o) == want, f' {o}', r.at(es, f))
        r.ob(f'{lab}: the names made for the checkpoint are taken back after the containers are restored', all(a.order < b_.order for a in s for b_ in n + er), '', r.at(n, f))
        for e in n + er: r.ob(f'{lab}: names are taken back under the lock', held(f, e, LK), '', e.loc)
        for e in er: r.ob(f'{lab}: the name taken back is its own', pp(e.args[0]) == '&' + VM and re.fullmatch(r'str\(' + re.escape(MAP) + r'\[\*\]\.second\.name\)|' + re.escape(MAP) + r'\[\*\]\.second\.name', pp(e.args[1])) is not None, pp(e.args[1])[:90], e.loc)
        balanced(r, lab, f, LK)
    for par, sub, lab in ((2, 'istream', 'initialising'), (2, r'\(char const', 'initialising from a file')):
        f = flow_of(r, p, 'init_from_checkpoint', par, sub)
        z = [e for e in f.effects if e.kind == 'call' and e.name.endswith('::reset_memory')]; x = [e for e in f.effects if e.kind == 'call' and e.name.endswith('::restore')]
        r.same(f'{lab}: memory is reset', r.tot(z), 1, r.at(z, f))
        r.ob(f'{lab}: before the checkpoint is read', bool(x) and all(a.order < b_.order for a in z for b_ in x), '', r.at(x, f))

def extent(r):
    u = r.unit([MD + 'MemoryManager*.cpp', 'trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp'])
    traversals(r, u); clearing(r, u); writing(r, u)
    p = u.extract(roots=['ClassicCheckPointAgent::(write_decl|input_perm_check|output_perm_check)\\(', '^Trick::MemoryManager::make_reference_attr'], opaque=['basic_string', 'trickTypeCharString'])
    declarations(r, p)
    describing(r, p); permitted(r, p)
    checkpoint(r, u)
    p = u.extract(roots=['^Trick::MemoryManager::(write_checkpoint|read_checkpoint|init_from_checkpoint)\\('], opaque=NOISE + ['MemoryManager::(execute_checkpoint|reset_memory|get_alloc_deps_in_allocation|restore_stls)'])
    gathering(r, p); reading(r, p)
    return r.finish('every traversal of the attributes (collecting, STL collecting, restoring and clearing, writing) visits every permitted member and element exactly once, at its own address, with the action its type needs, for all kinds of members and array shapes; '
        'declarations spell the type, stars and dimensions of the allocation; checkpoints of sample worlds of allocations are simulated from the source: names, declarations, clearing, assignments and clean-up, in order; '
        'gathering and reading act on every allocation under the lock',
        ['pairs of the class hierarchy are resolved as the program links', 'the files are read back by the input processor as they are written', 'the attributes describe the compiled layout', 'arrays of STL containers and what is pointed to from within containers in a selected checkpoint are not covered'], floor=4000)

RULES = {'C04': extent}
