"""Rules on references: a name stands for the address it names, an address for its name."""
import itertools, os, re, subprocess
import flow as F
from vk import *
from flow import M, pp
from rules.mem import val
from rules.messages import Out
from rules.sim import Outside, simulate

MM = 'trick_source/sim_services/MemoryManager/'
CA = 'trick_source/sim_services/CheckPointAgent/'
CHAR, SHORT, INT, LONG, DOUBLE, ENUM, STRUCT = 1, 4, 6, 8, 11, 21, 22
SIZES = {1: 1, 2: 1, 3: 32, 4: 2, 5: 2, 6: 4, 7: 4, 8: 8, 9: 8, 10: 4, 11: 8, 14: 8, 15: 8, 17: 1, 18: 4, 19: 32}

class Type:
    """a struct: members (name, type, size, dims, offset, mods)"""
    def __init__(s, name, size, members): s.name, s.size, s.members = name, size, members

IN = Type('In', 20, [('c', CHAR, 1, (), 0, 0), ('x', INT, 4, (), 4, 0), ('y', INT, 4, (3,), 8, 0)])
S = Type('S', 560, [('a', INT, 4, (3, 0), 0, 0), ('p', IN, 20, (0,), 24, 0), ('arr', IN, 20, (2, 3), 32, 0), ('d', DOUBLE, 8, (), 152, 0), ('fa', IN, 20, (2,), 160, 0),
                    ('r', INT, 4, (), 200, 1 | 8 << 3), ('st', INT, 4, (2,), 9000, 2), ('q', IN, 20, (2, 0), 208, 0), ('pp', IN, 20, (0, 0), 224, 0), ('m', DOUBLE, 8, (2, 3, 4), 232, 0),
                    ('in', IN, 20, (), 424, 0), ('sr', IN, 20, (), 448, 1 | 8 << 3), ('l', LONG, 8, (0,), 456, 0), ('h', SHORT, 2, (2, 2), 464, 0), ('tail', CHAR, 1, (3,), 472, 0)])
TYPES = {'In': IN, 'S': S}

def trailing(dims, size, k):
    """the size of what is left after k indices"""
    n = size
    for d in reversed(dims[k:]): n = n * d if d else 8
    return n

class Var:
    def __init__(s, name, type, size, dims, start, num): s.name, s.type, s.size, s.dims, s.start, s.num = name, type, size, dims, start, num
    def bytes(s): return trailing(s.dims, s.size, 0)

def memory():
    """the variables of the sample, and the pointers in them"""
    V = [Var('s', S, 560, (), 10000, 1), Var('ss', S, 560, (2, 2), 20000, 4), Var('in', IN, 20, (4,), 30000, 4), Var('ip', IN, 20, (0,), 31000, 1), Var('n', INT, 4, (5,), 32000, 5),
         Var('np', INT, 4, (0,), 33000, 1), Var('A', DOUBLE, 8, (3, 4), 34000, 12), Var('aq', INT, 4, (3, 0), 35000, 3), Var('x', DOUBLE, 8, (), 36000, 1), Var('grid', INT, 4, (2, 3, 0), 38000, 6), Var('pp', IN, 20, (0, 0), 37000, 1),
         *[Var(f't{k}', k, n, (0,), 50000 + 100 * k, 1) for k, n in SIZES.items()], *[Var(f'u{k}', k, n, (2, 0), 60000 + 100 * k, 2) for k, n in SIZES.items()],
         *[Var(f'w{k}', k, n, (3,), 70000 + 100 * k, 3) for k, n in SIZES.items()],
         Var('other', IN, 20, (6,), 40000, 6), Var('on', INT, 4, (7,), 41000, 7)]
    cells = {31000: 30000, 33000: 32000, 35000: 32000, 35008: 41000, 35016: 0, 37000: 31000, 38000: 32000, 38008: 0, 38016: 41000, 38024: 41000, 38032: 32000, 38040: 32000}
    cells.update({50000 + 100 * k: 80000 + 1000 * k for k in SIZES}); cells.update({60008 + 100 * k: 80000 + 1000 * k for k in SIZES}); cells.update({60000 + 100 * k: 0 for k in SIZES})
    for b in (10000, 20000, 20560, 21120, 21680):
        cells.update({b: 32000, b + 8: 41000, b + 16: 0, b + 24: 30000, b + 200: 32004, b + 208: 30000, b + 216: 40000, b + 224: 31000, b + 448: 30040, b + 456: 0})
    return V, cells

class Refs(Out):
    """attributes in tables, data in cells"""
    def __init__(s, cells, tables=()):
        Out.__init__(s, {}, {}, {}, {})
        s.mem = {'this.debug_level': 0, 'this.mm_mutex': 0}
        s.cells, s.path, s.n, s.freed, s.text_of = cells, [], 0, [], {}
        s.nums, s.vars, s.target, s.known, s.locked = {}, [], None, [], 0
        for n, t in TYPES.items():
            for i, (m, ty, size, dims, off, mods) in enumerate(t.members + [('', 0, 0, (), 0, 0)]): s.attr(f'{n}[{i}]', m, ty, size, dims, off, mods)
        for n, t in TYPES.items(): s.mem[n] = n
    def attr(s, k, name, ty, size, dims, off, mods):
        st = isinstance(ty, Type)
        s.mem.update({k + '.name': '"' + name, k + '.type': STRUCT if st else ty, k + '.size': size, k + '.offset': off, k + '.mods': mods, k + '.num_index': len(dims), k + '.attr': ty.name if st else 0,
                      k + '.stl_elem_type_name': 0, k + '.stl_type': 0, k + '.stl_elem_type': 0, k + '.io': 15, k + '.units': '"1', k + '.get_stl_size': 0, k + '.get_stl_element': 0, k + '.set_stl_element': 0})
        for j in range(8): s.mem[f'{k}.index[{j}].size'] = dims[j] if j < len(dims) else 0
    def place(s, e, env): return re.sub(r'^(NEW[^.]*\.\d+)\.(type|value)$', lambda m: m[1] + {'type': '.operator_', 'value': '.operand'}[m[2]], Out.place(s, e, env))
    def tracks(s, c): return c.rsplit('.', 1)[-1] not in ('units', 'io', 'language', 'range_min', 'range_max', 'alias', 'user_defined', 'des', 'type_name', 'start', 'language')
    # ---- addresses are numbers
    def ptr(s, t, env):
        if t[0] == 'new': return s.made(t, env)
        if t[0] not in ('fld', 'g', 'ver', 'al'):
            v = s.addr(t, env)
            if isinstance(v, int):
                if v <= 0: raise Outside(f'a null pointer, {pp(t)[:80]}')
                return f'@{v}'
            if isinstance(v, str): return v + '[0]' if v in TYPES and t[0] != 'ite' and pp(t) not in TYPES else v
        return Out.ptr(s, t, env)
    def owner_of(s, a): return next((v for v in s.vars if v.start <= a < v.start + max(v.bytes(), 1)), None)
    def addr(s, t, env):
        if t[0] == 'idx' and not (len(t) > 3 and t[3] == 'c'):
            b = s.addr(t[1], env)
            if isinstance(b, int): return b + s.num(t[2], env)
            if isinstance(b, str) and b.startswith('@'): return int(b[1:]) + s.num(t[2], env)
            return None
        return val(t, env)
    def made(s, t, env):
        return f'NEW{s.n}.{t[1]}'
    def where(s, t, env):
        if t[0] == 'fld' and t[3] == 'second': return 'VM.second'      # the entry that was found
        if t[0] == 'idx' and not (len(t) > 3 and t[3] == 'c'):
            v = s.addr(t, env)
            if isinstance(v, int): return f'@{v}'
            return s.step(s.ptr(t[1], env), s.index(t[2], env))
        if t[0] in ('ld', 'a', 'ret', 'ite', 'self', 'rec'):
            n = s.ptr(t, env)
            if n.startswith('@') or n.startswith('NEW'): return n
            if t[0] == 'rec' and n in TYPES: return n + '[0]'
            return n if n in s.mem else n + '[0]'
        return Out.where(s, t, env)
    def step(s, n, k):
        m = re.fullmatch(r'(\w+)\[(\d+)\]', n)
        return f'{m[1]}[{int(m[2]) + int(k)}]' if m and m[1] in TYPES and str(k).isdigit() else f'{n}[{k}]'
    def term(s, t, env):
        if t[0] == 'idx' and len(t) > 3 and t[3] == 'p' or t[0] == 'idx' and len(t) == 3:
            v = s.addr(t, env)
            return v if isinstance(v, int) else s.where(t, env)
        if t[0] == 'new': return s.made(t, env)
        if t[0] == 'it' and t[2] in ('find', 'end'): return 0 if t[2] == 'find' and s.text(t[3], env) in s.known else 1
        if t[0] == 'off': return F.ev(t[1], env)
        if t[0] == 'out' and t[1] == 'DLL_GetNext':
            k = s.num(t[3], env); return k + 1 if k < len(s.path) else 0
        return Out.term(s, t, env)
    def load(s, t, env):
        if t[1][0] == 'idx' and t[1][1][0] == 'al' and 'basic_string' in str(t[1][1]) and s.target: return ord('&')      # a copy of the name of an address
        c = s.where(t[1], env)
        m = re.fullmatch(r'"(.*)\[(\d+)\]', c, re.S)
        if m: return ord((m[1] + '\0')[int(m[2])])
        if c.startswith('NEW') and c in s.mem: return s.mem[c]      # what was made in between
        if c in env.snap: return env.snap[c]
        if c.startswith('@'):
            if int(c[1:]) not in s.cells: raise Outside(f'{c[1:]} is read as a pointer, in {pp(t)[:60]}')
            return s.cells[int(c[1:])]
        return s.answer(c, env)
    def text(s, t, env):
        v = Out.text(s, t, env)
        return v[1:] if isinstance(v, str) and v.startswith('"') else v
    def result(s, t, env):
        n, a = t[1], t[2:]
        b = n.split('::')[-1].split('#')[0]
        if b == 'strcmp': x, y = s.text(a[0], env), s.text(a[1], env); return (x > y) - (x < y)
        if b == 'vval_int': return s.index_value
        if b == 'DLL_GetTailPosition': return len(s.path)
        if b == 'DLL_GetAt': return s.path[s.num(a[0], env) - 1]
        if b == 'DLL_GetHeadPosition': return 1 if s.path else 0
        if b == 'DLL_GetNext': return s.path[s.num(a[0], env) - 1]
        if b == 'get_size': return s.nums.get(s.num(a[1], env), 0)
        if b in ('get_alloc_info_of', 'get_alloc_info_at'): return 'ALLOC' if s.owner_of(s.num(a[1], env)) else 0
        if b == 'ref_name_from_address':
            v = s.target = s.owner_of(s.num(a[1], env)); return '"&' + v.name + ''.join(f'[{0}]' for d in v.dims if d)
        if b == 'ref_attributes':
            v = s.target; s.attr('RT', v.name, v.type, v.size, v.dims, 0, 0); s.mem.update({'R2.attr': 'RT', 'R2.num_index': len([d for d in v.dims if d]), 'R2.address': v.start})
            env.snap.update({k: x for k, x in s.mem.items() if k.startswith('R2.') or k.startswith('RT.')}); return 'R2'
        if b in ('size', 'empty') and len(a) == 1:
            n = len(s.text(a[0], env)); return n if b == 'size' else int(not n)
        if b in ('substr', 'c_str') and s.target: return s.text(a[0], env)
        if b in ('calloc', 'malloc'): return 'RA'
        if b == 'io_src_sizeof_user_type': return TYPES[s.text(a[1], env)].size
        if b == 'add_attr_info': return 0
        if n.startswith('out0:') or b in ('memset',): return None
        return Out.result(s, t, env)
    def other(s, e, env):
        b = e.name.split('::')[-1]
        if b in ('pthread_mutex_lock', 'pthread_mutex_unlock'): s.locked += 1 if b.endswith('_lock') else -1
        if b == 'DLL_AddTail':
            if val(e.args[1], env) != 'PATH': raise Outside('a list that is not there is added to')
            s.path.append(s.ptr(e.args[0], env))
        elif b == 'DLL_RemoveAll': s.path = []
        elif b == 'free': s.freed.append(val(e.args[0], env))
        elif e.name.startswith('out<') or e.name in ('stream::new', 'snprintf'): Out.other(s, e, env)
    def ref(s, v, path=1):
        """as the parser asks for a variable"""
        s.mem.update({'R.attr': 0, 'R.ref_attr': 0, 'R.address': 0, 'R.num_index': 0, 'R.num_index_left': 0, 'R.pointer_present': 0, 'R.stl_present': 0, 'R.ref_type': 0,
                      'R.create_add_path': path, 'R.address_path': 'PATH' if path else 0, 'R.reference': '"' + v.name, 'VM.second': 'INFO'})
        st = isinstance(v.type, Type)
        s.mem.update({'INFO.name': '"' + v.name, 'INFO.type': STRUCT if st else v.type, 'INFO.attr': v.type.name if st else 0, 'INFO.start': v.start, 'INFO.num': v.num, 'INFO.num_index': len(v.dims),
                      'INFO.size': 8 if v.dims and not v.dims[-1] else v.size, 'INFO.language': 1, 'INFO.user_type_name': '"' + v.type.name if st else 0, 'INFO.alloc_type': 0, 'INFO.stcl': 0})
        for k in range(8): s.mem[f'INFO.index[{k}]'] = v.dims[k] if k < len(v.dims) else 0
        s.path, s.known, s.locked = [], [v.name], 0
        s.args = {'arg1': 'R', 'R': 'R', 'arg2': '"' + v.name, 'name': '"' + v.name}

class Model:
    """what a reference means in C"""
    def __init__(s, V, cells): s.V, s.cells = V, cells
    def start(s, v): return ('ok', v.type, v.size, v.dims, 0, v.start, 0)
    def index(s, st, i):
        _, ty, size, dims, k, a, ptr = st
        if k >= len(dims): return None
        if dims[k]:
            if not 0 <= i < dims[k]: return None
        else:
            if i < 0: return None
            a = s.cells.get(a)
            if not a: return None
            v = next((v for v in s.V if v.start == a), None)
            if v and i >= v.num: return None
            ptr = 1
        return ('ok', ty, size, dims, k + 1, a + i * trailing(dims, size, k + 1), ptr)
    def member(s, st, name):
        _, ty, size, dims, k, a, ptr = st
        if not isinstance(ty, Type): return None
        m = next((m for m in ty.members if m[0] == name), None)
        if m is None: return None
        b = m[4] if m[5] & 2 else a + m[4]
        if m[5] & 1: b = s.cells[b]
        return ('ok', m[1], m[2], m[3], 0, b, ptr)

def names(model, v, depth):
    """references: sequences of steps with the state expected after each (None: refused)"""
    out = []
    def go(steps, st, d):
        if d == 0: return
        k, dims, ty = st[4], st[3], st[1]
        if k < len(dims):
            top = dims[k] or 3
            for i in sorted({0, 1, top - 1, top, -1, top + 3}):
                n = model.index(st, i); out.append((steps + [i], n))
                if n and i < 3: go(steps + [i], n, d - 1)
        else:
            n = model.index(st, 0); out.append((steps + [0], n))
            for m in ([m[0] for m in ty.members] if isinstance(ty, Type) else []) + ['none']:
                n = model.member(st, m); out.append((steps + [m], n))
                if n and m != 'c': go(steps + [m], n, d - 1)
    go([], model.start(v), depth)
    return out

def show(v, steps): return v.name + ''.join(f'[{x}]' if isinstance(x, int) else '.' + x for x in steps)

def references(r, p):
    fv, fd, fn, fp = [r.flow(p, n, ver=True) for n in ('MemoryManager::ref_var', 'MemoryManager::ref_dim', 'MemoryManager::ref_name', 'follow_address_path')]
    V, cells = memory()
    model = Model(V, cells)
    nums = {v.start: v.num for v in V}
    other = dict(cells)      # the pointers as they may be later
    for a in list(other):
        if other[a] == 30000: other[a] = 40000
        elif other[a] == 32000: other[a] = 41000
    later = Model(V, other)
    for v in V:
        for path in (1, 0):
            base = Refs(cells); base.nums, base.vars = nums, V; base.ref(v, path); lab = f'{v.name}, a variable' + ('' if path else ' in a checkpoint')
            try: env = simulate(fv, base); rc = val(fv.retval(), env)
            except Outside as ex: r.ob(f'{lab} is found', False, f' {ex}', fv.label); continue
            except F.Unknown as ex: r.undecided(lab, f' {ex}'); continue
            if rc is None: r.undecided(lab, ' the result is not understood'); continue
            a = base.mem['R.attr']
            r.ob(f'{lab} is taken, stands for its start and has its type', (rc, base.mem['R.address'], base.mem.get(f'{a}.type'), base.mem.get(f'{a}.attr'), base.mem.get(f'{a}.num_index'), base.locked) ==
                 (0, v.start, base.mem['INFO.type'], base.mem['INFO.attr'], len(v.dims), 0), f' {a}, {rc}', fv.label)
            r.ob(f'{lab} has the size of what it or its pointers hold', base.mem.get(f'{a}.size') == v.size, f" {base.mem.get(f'{a}.size')}, not {v.size}", fv.label)
            r.ob(f'{lab} has its dimensions', [base.mem.get(f'{a}.index[{k}].size') for k in range(len(v.dims))] == list(v.dims), '', fv.label)
            if rc: continue
            base.mem['R.num_index_left'] = len(v.dims)
            done = {}
            done[()] = (dict(base.mem), list(base.path), 0)
            for steps, want in names(model, v, 9 if v.name != 'ss' else 4):
                lab = show(v, steps) + ('' if path else ' in a checkpoint'); pre = tuple(steps[:-1])
                if pre not in done: continue
                w = Refs(cells); w.nums, w.vars = nums, V; w.mem, w.path, w.n = dict(done[pre][0]), list(done[pre][1]), done[pre][2] + 1
                w.args = {'arg1': 'R', 'R': 'R', 'arg2': 'ARG', 'V': 'ARG', 'name': 'ARG'}
                x = steps[-1]; w.mem['ALLOC.name'] = '"alloc'; f = fd if isinstance(x, int) else fn
                if isinstance(x, int): w.index_value = x
                else: w.args['arg2'] = w.args['name'] = '"' + x; w.mem['R.num_index'] = 0
                try: env = simulate(f, w); rc = val(f.retval(), env)
                except Outside as ex: r.ob(f'{lab} is found without reading anything else', False, f' {ex}', f.label); continue
                except F.Unknown as ex: r.undecided(lab, f' {ex}'); continue
                if rc is None: r.undecided(lab, ' the result is not understood'); continue
                r.ob(f'{lab} is ' + ('taken' if want else 'refused'), (rc == 0) == (want is not None), f' {rc}', f.label)
                if w.mem['R.attr'] in TYPES: w.mem['R.attr'] += '[0]'
                if rc or not want: continue
                if not isinstance(x, int): w.mem['R.num_index_left'] = w.mem.get(str(w.mem['R.attr']) + '.num_index')
                r.ob(f'{lab} stands for its own address', w.mem['R.address'] == want[5], f" {w.mem['R.address']}, not {want[5]}", f.label)
                a = w.mem['R.attr']
                r.ob(f'{lab} has the type, size and dimensions it was declared with', (w.mem.get(f'{a}.size'), w.mem.get(f'{a}.attr'), w.mem.get(f'{a}.num_index'), w.mem['R.num_index']) ==
                     (want[2], want[1].name if isinstance(want[1], Type) else 0, len(want[3]), want[4]), f' {a}', f.label)
                r.ob(f'{lab} is known to depend on a pointer', bool(w.mem['R.pointer_present']) or not want[6], '', f.label)
                done[tuple(steps)] = (w.mem, w.path, w.n)
                if not path: continue
                st = later.start(v)
                for y in steps: st = st and (later.index(st, y) if isinstance(y, int) else later.member(st, y))
                for mod, exp, what in ((cells, want, 'found again'), (other, st, 'found where the pointers point later')):
                    if exp is None: continue
                    z = Refs(mod); z.mem, z.path = dict(w.mem), list(w.path); z.args = {'arg0': 'R', 'R': 'R'}
                    z.lists = {}
                    got = follow(r, fp, z, lab)
                    if got is not None: r.ob(f'{lab} is {what}', got == exp[5], f' {got}, not {exp[5]}', fp.label)

def follow(r, f, w, lab):
    try: env = simulate(f, w); v = val(f.retval(), env)
    except Outside as ex: r.ob(f'{lab} is followed without reading anything else', False, f' {ex}', f.label); return None
    except F.Unknown as ex: r.undecided('following ' + lab, f' {ex}'); return None
    if v is None: r.undecided('following ' + lab, ' the result is not understood')
    return v

def rule(r):
    u = r.unit([MM + 'MemoryManager_ref_name.cpp', MM + 'MemoryManager_ref_dim.cpp', MM + 'MemoryManager_ref_var.cpp', MM + 'MemoryManager_make_reference_attr.cpp', MM + 'MemoryManager_get_type_attributes.cpp', MM + 'follow_address_path.c'])
    p = u.extract(roots=['MemoryManager::ref_(name|dim|var)\\(', '^follow_address_path'], opaque=['basic_string', 'emitError', 'operator<<', 'add_attr_info', 'DLL_', 'vval_', 'get_size', 'get_alloc_info', 'ref_attributes', 'ref_name_from', 'io_src_sizeof', 'std::'])
    references(r, p)
    return r.finish('For variables of every kind of declaration (plain, arrays up to three dimensions, pointers, arrays of pointers and pointers to pointers, structures within structures, members by value, by pointer and by reference, base class members), '
        'the sequences of index and member steps of a reference are decided from the IR of ref_var, ref_dim, ref_name, make_reference_attr and follow_address_path over an abstract memory: status, address, size, type, dimensions, and the path that is followed again when pointers move',
        ['The attributes of a member are those the io sources declare; get_size and get_alloc_info_of report the live allocation (M01)', 'The parser calls one operation per step of the text (read, not decided)', 'Elements of STL containers and enumeration descriptions are not decided'], 5000)

RULES = {'M02': rule}
