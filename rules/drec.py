"""data recording: samples, rates, recorded values"""
import re, scan
from vk import *
from flow import pp, _addr, M
from rules.mem import val
from rules.sim import Lists, Outside, simulate
D = 'trick_source/sim_services/DataRecord/'
DR = [D + 'DataRecordGroup.cpp', D + 'DataRecordDispatcher.cpp', D + 'DRAscii.cpp', D + 'DRBinary.cpp']
DOPQ = ['basic_string', 'operator<<', 'message_publish', 'follow_address_path', 'ReferenceUtils::', 'ref_attributes', 'ref_free'] + opq('DataRecordGroup', 'DataRecordDispatcher', 'SysThread', 'ThreadBase', 'JobData', 'SimObject')
RB = 'this.rec_buffer[*]'
REF = RB + '.ref'
SIZE = f'ReferenceUtils::effective_trick_size({REF})'

def leaves(f, t, g=1):
    """(leaf term, guard) of an ite tree"""
    out = []
    def rec(t, g):
        if g == 0: return
        if t[0] == 'ite': rec(t[2], M.AND(g, t[1])); rec(t[3], M.AND(g, M.NOT(t[1])))
        else: out.append((t, g))
    rec(t, gx(g))
    return out

def copies(f, loops=None):
    """every copy done by f, as (destination, source, bytes, guard, effect): typed stores and memcpy"""
    out = []
    W = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'double': 8, 'float': 4}
    for e in f.effects:
        if loops is not None and not any(re.fullmatch(loops, x) for x in e.loops): continue
        if e.kind == 'store' and e.ty in W:
            for v, g in leaves(f, e.val, e.guard):
                m = re.fullmatch(r'(i8|i16|i32|i64|double|float)\((.*)\)', pp(v))
                if m and m[1] == e.ty: out.append((_addr(e.addr), m[2], W[e.ty], g, e))
                elif v[0] == 'ld': out.append((_addr(e.addr), _addr(v[1]), W[e.ty], g, e))
        elif e.kind == 'call' and re.fullmatch(r'memcpy|memmove|llvm\.mem(cpy|move)\..*', e.name):
            for d, g in leaves(f, e.args[0], e.guard):
                for s, g2 in leaves(f, e.args[1], g):
                    ad = lambda x: pp(x)[1:] if pp(x).startswith('&') else '*' + pp(x)
                    out.append((ad(d), ad(s), pp(e.args[2]), g2, e))
    return out

class Group(Lists):
    """a recording group: which change variables differ from their references; which samples are taken"""
    FREQ = ('always', 'on changes', 'on changes with the value before')
    def __init__(s, freq, num, differ, record=1):
        s.compared, s.updated = [], []
        n = len(differ); s.differ = {f'C{i}': d for i, d in enumerate(differ)}
        Lists.__init__(s, {'this.freq': freq, 'this.record': record, 'this.buffer_num': num, 'this.writer_num': 0, 'this.max_num': 100, 'this.buffer_type': 0, 'this.curr_time': 1}, {'this.change_buffer': list(s.differ), 'this.rec_buffer': ['R0']}, {}, {'in_time': 5, 'arg1': 5})
        for x in list(s.differ) + ['R0']: s.mem.update({x + '.ref': x + 'r', x + 'r.attr': x + 'a', x + 'a.size': 4, x + 'r.pointer_present': 0, x + 'r.address': x + ' now', x + '.buffer': x + ' old', x + '.last_value': x + ' last', x + '.curr_buffer': x + ' old'})
    def tracks(s, c): return c in ('this.buffer_num', 'this.writer_num') or c.endswith('.address')
    def result(s, t, env):
        b = t[1].split('::')[-1].split('#')[0]
        if b == 'memcmp':
            x = [str(s.num(a, env)) for a in t[2:4]]; c = x[0].split()[0]
            if sorted(x) != [c + ' now', c + ' old'] or c not in s.differ: raise F.Unknown(pp(t)[:100])
            return 1 if s.differ[c] else 0
        if b == 'effective_trick_size': return 4
        return Lists.result(s, t, env)

def sampling(r, p):
    f = r.flow(p, 'DataRecordGroup::data_record', ver=True)
    for freq in range(3):
        for num in (0, 1, 2):
            for differ in ((), (0,), (1,), (0, 0), (0, 1), (1, 0), (1, 1), (0, 1, 0)):
                for record in (1, 0):
                    lab = f'{"a group" if record else "a disabled group"} recording {Group.FREQ[freq]}, sample {num}, variables that differ: {[i for i, d in enumerate(differ) if d]} of {len(differ)}'
                    w = Group(freq, num, differ, record)
                    try: simulate(f, w); n = w.mem['this.buffer_num']
                    except F.Unknown as ex: r.undecided(lab, f' {ex}'); continue
                    if n is None: r.undecided(lab, ' form'); continue
                    want = record and (freq == 0 or num == 0 or any(differ))
                    r.ob(lab, n == num + want * (2 if freq == 2 else 1), f' {n - num} samples', f.label)

def d01(r):
    u = r.unit(DR)
    p = u.extract(roots=['DataRecordGroup::(data_record|write_data|shutdown|init)\\(', 'DataRecordDispatcher::(remove_group|remove_all_groups|preload_checkpoint|add_group|init)\\(', 'DRDWriterThread::thread_body'], opaque=DOPQ)
    f = r.flow(p, 'DataRecordGroup::data_record', typed=True)
    atoms = set()
    passes = [e for e in f.effects if e.kind == 'loop' and re.fullmatch(r'each this\.rec_buffer', e.name)]
    for e in passes: atoms |= {v for v in M.support(F.norm(e.guard)) if 'memcmp' in repr(M.vars[v]) and 'change_buffer' in repr(M.vars[v])}
    r.ob('samples depend on one test of all change variables', len(atoms) == 1, str(len(atoms)), r.at(passes, f))
    if len(atoms) != 1: return r.finish('', floor=1)
    C = G(M.var(M.vars[next(iter(atoms))]))
    freq, bn, wn, mx = t('this.freq'), t('this.buffer_num'), t('this.writer_num'), t('this.max_num')
    rec = b('this.record')
    C2 = [C, ~C]
    sampling(r, p)
    GS = None
    for c in C2:
        g = rec & ((freq == 0) | (bn == 0) | c)
        if equiv(F.norm(r.tot(passes)), g.f): GS = g; C = c
    r.ob('a sample is taken exactly when recording and (always, first sample or a change)', GS is not None, ' taken when ' + pbdd(F.norm(r.tot(passes)))[:600], r.at(passes, f))
    if GS is None: return r.finish('', floor=1)
    both = freq == 2
    srcs = {}
    for e in passes:
        cs = [c for c in copies(f) if c[4].lids and c[4].lids[-1] == e.blk and 'last_value' not in c[0]]
        srcs[e] = 'before' if any('last_value' in c[1] for c in cs) else 'now'
    stp = [e for e in passes if srcs[e] == 'before']
    now = [e for e in passes if srcs[e] == 'now']
    r.same('the value before the step is recorded exactly in step mode', r.tot(stp), GS & both, r.at(stp, f))
    r.same('the current values are recorded once per sample', r.tot(now), GS, r.at(now, f))
    r.ob('no further sample passes', len(stp) == 1 and len(now) == 1, '', r.at(passes, f))
    for e in passes: r.ob('a sample covers every recorded variable', not [x for x in e.nr if F.norm(x)], '', e.loc)
    order(r, 'the value before the step comes before the current value', f, stp, now)
    r.every('every change variable is tested', f, r'each this\.change_buffer')
    CB = 'this.change_buffer[*]'
    # test and reference update of the change variables
    cm = r.sel(f, 'memcmp|bcmp')
    r.ob('each change variable is compared', bool(cm) and all(any(CB + '.buffer' in pp(a) for a in e.args[:2]) for e in cm), str(cm)[:200], r.at(cm, f))
    r.same('change variables are tested whenever recording on change', r.tot(cm), rec & ~(freq == 0), r.at(cm, f))
    ups = [c for c in copies(f) if c[0] == '*' + CB + '.buffer']
    for e in cm: r.ob('the whole variable is compared', pp(e.args[2]) == CB + '.ref.attr.size', pp(e.args[2]), e.loc)
    for c in ups: r.ob('the whole variable becomes the new reference', c[2] == CB + '.ref.attr.size' and CB + '.ref.address' in c[1] or 'follow_address_path' in c[1], str(c[:3]), c[4].loc)
    if cm:
        ch = [v for v in M.support(F.norm(M.OR(*[c[3] for c in ups]))) if 'memcmp' in repr(M.vars[v])]
        diff = G(M.NOT(int_eq_name(pp(('ret', cm[0].name) + cm[0].args))))
        r.same('the reference follows exactly the detected changes', M.OR(*[c[3] for c in ups]), G(r.tot(cm)) & diff, r.at([c[4] for c in ups], f))
    fa = r.sel(f, 'follow_address_path', {0: re.escape(CB + '.ref')})
    r.same('pointer change variables are followed', r.tot(fa), rec & ~(freq == 0) & (t(CB + '.ref.pointer_present') == 1), r.at(fa, f))
    # slots
    stl = b(f'ReferenceUtils::is_stl_ref({REF})')
    ptr = (t(REF + '.pointer_present') == 1) & ~stl
    D0, D1 = '*' + RB + '.buffer', f'{RB}.curr_buffer[{SIZE}]'
    off = t('rem(this.buffer_num,this.max_num)') == 0
    off1 = t('rem(this.buffer_num+1,this.max_num)') == 0
    lastv = '*' + RB + '.last_value'
    sizes = {8: t(SIZE) == 8, 4: t(SIZE) == 4, 2: t(SIZE) == 2, 1: t(SIZE) == 1}
    oth = ~sizes[8] & ~sizes[4] & ~sizes[2] & ~sizes[1]
    def full(c): return G(c[3]) & (TRUE if c[2] == SIZE else t(SIZE) == c[2] if isinstance(c[2], int) else FALSE)
    for e, nm in [(x, 'before') for x in stp] + [(x, 'now') for x in now]:
        cs = [c for c in copies(f) if c[4].lids and c[4].lids[-1] == e.blk]
        first = off if nm == 'before' else (both & off1) | (~both & off)
        src = {lastv: TRUE} if nm == 'before' else {f'*follow_address_path({REF})': ptr, '*' + REF + '.address': ~ptr}
        guard, inl = G(e.guard), G(e.val)
        for dst, dg in ((D0, first), (D1, ~first)):
            for s, sg in src.items():
                got = OR(*[full(c) for c in cs if c[0] == dst and c[1] == s])
                r.imp(f'{nm}: every variable gets its {"first" if dst is D0 else "next"} slot filled from {"the old value" if nm == "before" else "its address" if sg is not ptr else "the address its pointers lead to"}', guard & dg & sg, got, e.loc, extra=inl.f)
        for c in cs:
            if c[0] in (D0, D1): r.imp(f'{nm}: only its own slot', G(c[3]), first if c[0] == D0 else ~first, c[4].loc, extra=inl.f)
            if isinstance(c[2], int) and c[0] in (D0, D1, lastv): r.imp(f'{nm}: a {c[2]}-byte copy is for {c[2]}-byte variables', G(c[3]), t(SIZE) == c[2], c[4].loc, extra=inl.f)
            if not isinstance(c[2], int): r.ob(f'{nm}: copies have the size of the variable', c[2] == SIZE, str(c[:3])[:300], c[4].loc)
        cb = [x for x in r.stores(f, re.escape(RB) + r'\.curr_buffer') if x.lids and x.lids[-1] == e.blk]
        got = {}
        for x in cb:
            for v, g in leaves(f, x.val, x.guard): got[pp(v)] = M.OR(got.get(pp(v), 0), g)
        r.same(f'{nm}: the write position returns to the start when the buffer is full', got.pop(RB + '.buffer', 0), guard & first, e.loc, extra=inl.f)
        r.same(f'{nm}: and otherwise advances by one value', got.pop(f'&{D1}', 0), guard & ~first, e.loc, extra=inl.f)
        r.ob(f'{nm}: no other position', not got, str(list(got))[:200], e.loc)
        if nm == 'now':
            lv = [c for c in cs if c[0] == lastv]
            r.imp('now: the value is kept for the next step record', guard, OR(*[full(c) for c in lv]), e.loc, extra=inl.f)
            fp = [x for x in r.sel(f, 'follow_address_path', {0: re.escape(REF)}) if x.lids and x.lids[-1] == e.blk]
            r.same('now: pointers are followed for every sample', r.tot(fp), guard & ptr, r.at(fp, f), extra=inl.f)
    lt = [x for x in r.stores(f, r'\*?this\.rec_buffer\[0\]\.last_value|\*this\.rec_buffer\[0\]\.last_value')]
    r.same('the value before the step carries the current time', r.tot([x for x in lt if pp(x.val) == 'arg1']), GS & both, r.at(lt, f))
    ct = r.stores(f, r'this\.curr_time')
    r.same('a sample carries the time of the call', r.tot([x for x in ct if pp(x.val) == 'arg1']), GS, r.at(ct, f))
    order(r, 'the time is set before the samples are taken', f, ct, now)
    r.final_is('samples counted', f, 'this.buffer_num', {'this.buffer_num+2': GS & both, 'this.buffer_num+1': GS & ~both, 'this.buffer_num': ~GS})
    bst = r.stores(f, r'this\.buffer_num')
    if stp and now: r.ob('a sample is counted after its values are stored', len(bst) == 2 and stp[0].order < bst[0].order < now[0].order < bst[1].order and all(max(c[4].order for c in copies(f) if c[4].lids and c[4].lids[-1] == e.blk) < x.order for e, x in zip(stp + now, bst)), '', r.at(bst, f))
    # flush before overwriting
    w = r.sel(f, 'DataRecordGroup::write_data')
    nring = ~(t('this.buffer_type') == 2)
    pend = bn - wn - mx
    fl = G(r.tot([e for e in w if pp(e.args[1]) == '1']))
    for k, c in ((1, ~both), (2, both)):
        r.imp('pending samples are written before they would be overwritten', GS & nring & c & (pend + k > 0), fl, r.at(w, f))
    r.ob('pending samples are written before the new one is stored', bool(w) and all(max(e.order for e in w) < x.order for x in passes), '', r.at(w, f))
    r.ob('the space test does not wrap around', not wraps(p, 'DataRecordGroup::data_record'), ' unsigned subtraction of a constant at ' + str(wraps(p, 'DataRecordGroup::data_record')), f.label)
    # writing
    g = r.flow(p, 'DataRecordGroup::write_data', prime=r'this\.(writer_num|total_bytes_written)')
    GW = rec & b('this.inited') & ((t('this.buffer_type') == 1) | b('arg1')) & (t('this.total_bytes_written') <= t('this.max_file_size'))
    lk, ul = r.sel(g, 'pthread_mutex_lock', {0: r'&this\.buffer_mutex'}), r.sel(g, 'pthread_mutex_unlock', {0: r'&this\.buffer_mutex'})
    ws = r.sel(g, 'DataRecordGroup::format_specific_write_data|virtual:.*')
    r.ob('samples are written in one place', len(ws) == 1 and len(ws[0].loops) == 1, str(ws)[:200], r.at(ws, g))
    if len(ws) == 1 and ws[0].loops:
        W = ws[0]
        lp = [e for e in g.effects if e.kind == 'loop' and e.blk == W.lids[0]]
        r.same('samples are written when they must be', r.tot(lp), GW, W.loc)
        r.ob('until all are written', all(not [x for x in e.nr if F.norm(x)] for e in lp), '', W.loc)
        N = bn - wn
        arg = pp(W.args[1])
        envs = [dict(bn=x, wn=y, mx=m) for x in range(0, 9) for y in range(0, x + 1) for m in (1, 2, 3, 5)]
        nm = {'bn': 'this.buffer_num', 'wn': 'this.writer_num', 'mx': 'this.max_num'}
        ok, why = True, ''
        base = {'this.record': 1, 'this.inited': 1, 'this.buffer_type': 1, 'arg1': 1, 'this.total_bytes_written': 0, 'this.max_file_size': 10}
        for v in envs:
            env = dict(base, **{nm[k]: x for k, x in v.items()})
            got = unroll(g, W, lp[0], env)
            n = min(v['bn'] - v['wn'], v['mx'])
            exp = [k % v['mx'] for k in range(v['bn'] - n, v['bn'])]
            if got != exp: ok, why = False, f' slots {got} are written but must be {exp} with buffer_num={v["bn"]} writer_num={v["wn"]} max_num={v["mx"]}'; break
        r.stats['orderings_evaluated'] = r.stats.get('orderings_evaluated', 0) + len(envs)
        r.ob('every pending sample is written once, oldest first', ok, why, W.loc)
        order(r, 'samples are written under the buffer lock', g, lk, lp)
        r.ob('the buffer lock is released after the writing', bool(ul) and all(e.order > W.order for e in ul), '', r.at(ul, g))
        r.same('the buffer lock is taken', r.tot(lk), GW, r.at(lk, g))
        r.same('the buffer lock is released', r.tot(ul), GW, r.at(ul, g))
        cnt = [e for e in r.stores(g, r'this\.total_bytes_written') if e.loops]
        r.ob('what is written counts against the file size', bool(cnt) and all('format_specific_write_data' in pp(e.val) and 'this.total_bytes_written' in pp(e.val) for e in cnt), str(cnt)[:200], r.at(cnt, g))
    # init
    h = r.flow(p, 'DataRecordGroup::init')
    for e in r.stores(h, r'.*\.buffer'):
        v = pp(e.val)
        if not v.startswith('calloc('): continue
        if 'change_buffer' in _addr(e.addr): continue
        m = re.fullmatch(r'calloc\(this\.max_num,(.*)\)', v)
        r.ob('a buffer holds max_num values', bool(m) and ('size' in m[1]), v[:200], e.loc)
    for c in ('buffer_num', 'writer_num'):
        st = r.stores(h, r'this\.' + c)
        r.ob(f'{c} starts at 0', len(st) == 1 and st[0].guard == 1 and pp(st[0].val) == '0', '', r.at(st, h))
    # shutdown
    s = r.flow(p, 'DataRecordGroup::shutdown')
    en = r.stores(s, r'this\.record', '1')
    w = r.sel(s, 'DataRecordGroup::write_data', {1: '1'})
    cl = r.sel(s, 'DataRecordGroup::format_specific_shutdown|virtual:.*format_specific_shutdown.*|virtual:.*') or []
    r.same('shutdown: pending samples are written', r.tot(w), TRUE, r.at(w, s))
    r.same('shutdown: even of a disabled group', r.tot(en), TRUE, r.at(en, s))
    order(r, 'shutdown: enable, write, close, free', s, en, w, cl[:1], r.sel(s, 'DataRecordGroup::remove_all_variables'))
    # writer thread and dispatcher
    x = r.flow(p, 'DRDWriterThread::thread_body')
    ws = r.sel(x, 'DataRecordGroup::write_data|virtual:.*')
    r.every('the writer serves every group', x, r'each .*groups')
    r.ob('the writer flushes buffered groups', bool(ws) and all(len(e.loops) == 2 and pp(e.args[1]) == '1' for e in ws), str(ws)[:300], r.at(ws, x))
    if ws:
        gp = pp(ws[0].args[0])
        r.same('the writer flushes exactly the buffered groups', r.tot(ws), t(gp + '.buffer_type') == 0, r.at(ws, x), extra=M.AND(*[e.val for e in x.effects if e.kind == 'loop' and e.blk in ws[0].lids[:1]]))
    q = r.flow(p, 'DataRecordDispatcher::remove_group', ['Trick::DataRecordGroup*'])
    m = r'&this\.drd_writer_thread\.dr_go_mutex|&.*dr_go_mutex'
    lk, ul = r.sel(q, 'pthread_mutex_lock', {0: m}), r.sel(q, 'pthread_mutex_unlock', {0: m})
    er = r.sel(q, 'erase', {0: r'&.*groups'})
    sd = r.sel(q, 'DataRecordGroup::shutdown|virtual:.*shutdown.*|virtual:.*')
    r.ob('a removed group leaves the writer list', bool(er), '', q.label)
    r.before('under the writer lock', q, lk, er)
    if er: r.ob('and the lock is released after', bool(ul) and all(e.order > er[0].order for e in ul if G(M.AND(e.guard, er[0].guard)).f), '', r.at(ul, q))
    if sd and er: r.ob('a removed group is shut down after it left the writer list', all(e.order > er[0].order for e in sd), '', r.at(sd, q))
    r.ob('a removed group is shut down', bool(sd), '', q.label)
    return r.finish('Per sample: guard, coverage, slot, width and source of every copied value; slot arithmetic of the writer evaluated over all small buffer states; order of storing, counting, flushing and shutting down.', ['change detection is one opaque truth value over the comparison of all change variables'], floor=60)

def order(r, label, f, *gs):
    for k, (a, z) in enumerate(zip(gs, gs[1:])):
        r.ob(f'{label} ({k + 1})', bool(a) and bool(z) and max(e.order for e in a) < min(e.order for e in z), '', r.at(z or a, f))

def int_eq_name(n): return F.int_eq(('t', n), ('c', 0))

def wraps(p, name):
    """comparisons whose operand is an unsigned `x - constant`"""
    out = []
    for f in p.get(name):
        cmp = set()
        for bb in f['blocks']:
            for i in bb:
                if i['o'] == 'icmp': cmp |= {o[1] for o in i['ops'] if o[0] == 'v'}
        for bb in f['blocks']:
            for i in bb:
                if (i['o'] == 'sub' or i['o'] == 'add') and i.get('uw') and i['i'] in cmp and i['ops'][1][0] == 'c' and i['ops'][0][0] != 'c' and (i['o'] == 'sub') == (i['ops'][1][1] > 0): out.append(p.files[i['f']] + ':' + str(i.get('l')) if 'f' in i else '?')
    return out

def first_of(r, f, path, loop):
    """value of a field when the loop is entered"""
    cur = tt(path.replace(chr(92), ''))
    for e in f.effects:
        if e.order >= loop.order: break
        if e.kind == 'store' and re.fullmatch(path, _addr(e.addr)): cur = F.mkite(e.guard, e.val, cur)
    return cur

def unroll(f, W, loop, env, limit=64):
    """slots a loop hands to W, in order: concrete evaluation of the loop summary (carried fields primed, counters count(a,k))"""
    env = dict(env)
    fields = sorted({_addr(e.addr) for e in f.effects if e.kind == 'store' and loop.blk in (e.lids or ())})
    cur = {}
    for e in f.effects:
        if e.order >= loop.order: break
        if e.kind == 'store' and not e.lids:
            try:
                if F.evb(e.guard, env): cur[_addr(e.addr)] = F.ev(e.val, env)
            except F.Unknown: pass
    st = {p: cur.get(p, env.get(p, 0)) for p in fields}
    counts = {}
    out = []
    for n in range(limit):
        e2 = dict(env)
        for p, v in st.items(): e2[p + "'"] = v
        e2['#iter'] = n
        try:
            if not F.evb(loop.val, e2): return out
            if F.evb(W.guard, e2): out.append(F.ev(W.args[1], e2))
            for e in f.effects:
                if e.kind == 'store' and loop.blk in (e.lids or ()):
                    try:
                        if F.evb(e.guard, e2): st[_addr(e.addr)] = F.ev(e.val, e2)
                    except F.Unknown: pass
        except F.Unknown as x: return f'depends on {x}'
    return 'no end'

def recs(t):
    """accumulator terms inside a term"""
    out = []
    def w(x):
        if isinstance(x, tuple):
            if x and x[0] == 'rec' and x not in out: out.append(x)
            for y in x: w(y)
    w(t)
    return out

def d02(r):
    u = r.unit([D + 'DataRecordGroup.cpp'])
    LC = ['LoggingCycle::set_rate\\(']
    p0 = u.extract(roots=LC, opaque=DOPQ)
    f = r.flow(p0, 'LoggingCycle::set_rate')
    now = [x for x in ('exec_get_time_tics()',)]
    tic = ['JobData::time_tic_value', 'exec_get_time_tic_value()']
    r.final_is('the rate in seconds is kept', f, 'this.rate_in_seconds', {'arg1': TRUE})
    dom = {'rate': (0.1, 0.25, 0.3, 0.5, 1.0, 1.5, 2.0), 'tic': (10, 20, 1000)}
    nm = {'rate': ['arg1', 'this.rate_in_seconds'], 'tic': tic}
    cyc = lambda v: max(1, int(v['rate'] * v['tic'] + 0.5))
    r.table('a rate in tics is the rate times tics per second, rounded', f.final('this.rate_in_tics'), dom, cyc, f.label, names=nm)
    r.table('a rate below one tic keeps a positive number of tics', f.final('this.rate_in_tics'), {'rate': (0.01, 0.001), 'tic': (10,)}, cyc, f.label, names=nm)
    r.table('a new rate first records at the current time, if that is a multiple of the rate, or at the next multiple', f.final('this.next_cycle_in_tics'),
            {'rate': (0.1, 0.3, 0.4, 0.5, 1.0, 0.01), 'tic': (10,), 'now': range(0, 25)}, lambda v: -(-v['now'] // cyc(v)) * cyc(v), f.label, names={**nm, 'now': now})
    p = u.extract(roots=['DataRecordGroup::(calculate_next_logging_tic|advance_log_tics_given_curr_tic|set_cycle|add_cycle|init|data_record|configure_jobs|call_function)\\('], opaque=DOPQ + LC)
    # next time
    f = r.flow(p, 'DataRecordGroup::calculate_next_logging_tic')
    r.every('the next recording time covers all rates', f, r'each this\.logging_rates')
    v = f.retval()
    R = recs(v)
    N, C = 'this.logging_rates[*].next_cycle_in_tics', 'this.logging_rates[*].rate_in_tics'
    if len(R) == 1 and v == R[0]:
        BIG = 9223372036854775807
        nm = {'n': N, 'c': C, 'min': 'arg1', 'i': 'count(0,1)', 'k': 'size(this.logging_rates)', 'best': ['self'], 'max': ['std::numeric_limits::max()']}
        dom = {'n': (2, 3, 5), 'c': (1, 2, 4), 'min': (2, 3, 4), 'i': (0,), 'k': (1,), 'best': (1, 3, 4, 5, 7, 9, BIG), 'max': (BIG,)}
        r.table('the next recording time is the earliest of all rates after the given time', R[0][2], dom, lambda e: min(e['best'], e['n'] + (e['c'] if e['n'] == e['min'] else 0)), f.label, names=nm)
        r.table('the search for the next recording time starts from infinity', R[0][1], {'max': (BIG,)}, lambda e: BIG, f.label, names=nm)
    else: r.undecided('the next recording time is the earliest of all rates after the given time', ' form ' + pp(v)[:200])
    # advance
    f = r.flow(p, 'DataRecordGroup::advance_log_tics_given_curr_tic')
    r.every('recorded rates advance: all rates', f, r'each this\.logging_rates')
    st = r.stores(f, r'this\.logging_rates\[\*\]\.next_cycle_in_tics')
    r.ob('recorded rates advance', bool(st) and all(e.loops[0] == 'each this.logging_rates' for e in st), str(st)[:200], f.label)
    inner = [e for e in f.effects if e.kind == 'loop' and len(e.loops) == 1]
    due = t('arg1') >= t(N)
    if inner:
        r.same('a rate advances while it is due', M.OR(*[e.val for e in inner]), due, r.at(inner, f))
        for e in inner: r.ob('and until it is not', not [x for x in e.nr if F.norm(x)], '', e.loc)
        r.table('by one period at a time', st[0].val if st else tt(N), {'n': (3, 4), 'c': (1, 2), 'now': (4,)}, lambda e: e['n'] + e['c'], r.at(st, f), names={'n': [N, N + "'"], 'c': C, 'now': 'arg1'}, given=lambda e: e['n'] <= e['now'])
    elif st:
        r.table('a due rate moves to its first time after the current one', r.cell(f, r'this\.logging_rates\[\*\]\.next_cycle_in_tics', N), {'k': range(5), 'c': (1, 2, 3), 'now': range(8), 'i': (0,), 's': (1,)},
                lambda e: e['k'] * e['c'] if e['k'] * e['c'] > e['now'] else (e['now'] // e['c'] + 1) * e['c'], f.label, names={'c': C, 'now': 'arg1', 'i': 'count(0,1)', 's': 'size(this.logging_rates)'}) if False else r.undecided('a due rate moves to its first time after the current one', ' closed form')
    # changing and adding rates
    f = r.flow(p, 'DataRecordGroup::set_cycle')
    r.call_when('set_cycle changes the first rate', f, 'LoggingCycle::set_rate', TRUE, {0: r'&this\.logging_rates(\[0\])?', 1: 'arg1'})
    r.call_when('set_cycle changes the cycle of the recording job', f, 'JobData::set_cycle', TRUE, {0: r'this\.write_job', 1: 'arg1'})
    f = r.flow(p, 'DataRecordGroup::add_cycle')
    es = r.sel(f, 'emplace_back|push_back', {0: r'&this\.logging_rates'})
    r.ob('add_cycle adds one rate', len(es) == 1 and r.tot(es) == 1 and not es[0].loops, '', r.at(es, f))
    if es and es[0].name == 'emplace_back': r.ob('add_cycle adds the rate asked for', 'arg1' in pp(es[0].args[-1]), pp(es[0].args[-1])[:200], es[0].loc)
    # the recording job
    def rearm(f, label, guard, cur):
        for fld in ('next_tics', 'cycle_tics', 'cycle'):
            st = r.stores(f, r'this\.write_job\.' + fld)
            r.same(f'{label}: the {fld} of the recording job is set', r.tot(st), guard, r.at(st, f))
            r.ob(f'{label}: the {fld} of the recording job is set once', not any(e.loops for e in st), '', r.at(st, f))
        c = r.sel(f, 'DataRecordGroup::calculate_next_logging_tic')
        r.ob(f'{label}: the next recording time is searched from the current one', bool(c) and all(pp(e.args[1]) in (cur, 'this.write_job.next_tics') for e in c), str(c)[:300], r.at(c, f))
        ret = pp(c[0].val) if c and c[0].val else None
        return c
    f = r.flow(p, 'DataRecordGroup::data_record')
    CUR = 'toint(round(fmul(arg1,tofp(JobData::time_tic_value))))'
    c = rearm(f, 'after a sample', TRUE, CUR)
    ad = r.sel(f, 'DataRecordGroup::advance_log_tics_given_curr_tic')
    r.ob('after a sample: the rates are advanced first', bool(ad) and r.tot(ad) == 1 and bool(c) and ad[0].order < c[0].order and all(pp(e.args[1]) == CUR for e in ad), str(ad)[:300], r.at(ad, f))
    def nxt(f, call, curs, nextspec, g):
        name = lambda e: f'{e.name}({",".join(pp(a) for a in e.args)})'
        nm = {'next': [name(e) for e in call], 'now': curs, 'tic': tic, 'x': ['arg1']}
        dom = {'next': (7, 9), 'now': (4,), 'tic': (10,), 'x': (0 if g else 0.4,)}
        for fld, sp in (('next_tics', nextspec), ('cycle_tics', lambda v: v['next'] - v['now']), ('cycle', lambda v: (v['next'] - v['now']) / v['tic'])):
            st = r.parts(r.stores(f, r'this\.write_job\.' + fld))
            for e in st: r.table(f'the {fld} of the recording job', e.val, dom, sp, e.loc, names=nm)
    nxt(f, c, [CUR, 'exec_get_time_tics()'], lambda v: v['next'], False)
    f = r.flow(p, 'DataRecordGroup::init')
    new = ~b('arg1')
    c = rearm(f, 'at initialization', new, 'exec_get_time_tics()')
    nxt(f, c, ['exec_get_time_tics()'], lambda v: v['now'], True)
    sr = r.sel(f, 'LoggingCycle::set_rate', {0: r'&this\.logging_rates(\[\*\])?', 1: r'this\.logging_rates\[\*\]\.rate_in_seconds'})
    r.ob('at initialization: every rate is converted with the tic value of the simulation', bool(sr) and all(e.loops == ('each this.logging_rates',) for e in sr), str(sr)[:300], f.label)
    if sr: r.same('at initialization: the rates of a new group are converted', r.tot(sr), new, r.at(sr, f)); r.ob('at initialization: rates are converted before the first recording time is searched', bool(c) and sr[0].order < c[0].order, '', sr[0].loc)
    r.every('at initialization: all rates', f, r'each this\.logging_rates')
    er = r.sel(f, 'message_publish', {1: '"DataRecordGroup ERROR: Cycle for.*less than.*'})
    RS = 'this.logging_rates[*].rate_in_seconds'
    r.ob('a rate below one tic is reported', bool(er), '', f.label)
    if er: r.table('a rate is reported exactly when it is below one tic', G(r.tot(er)), {'rate': (0.05, 0.1, 0.2), 'tic': (10,), 'restart': (0,)}, lambda v: v['rate'] < 1.0 / v['tic'], r.at(er, f), names={'rate': RS, 'tic': tic, 'restart': 'arg1'})
    st = r.stores(f, r'this\.inited', '1')
    F0 = [e for e in r.sel(f, '.*format_specific_init.*|virtual:.*') if 'format_specific_init' in e.name or e.name.startswith('virtual:')]
    nmF = [f'{e.name}({",".join(pp(a) for a in e.args)})' for e in F0]
    fm = [f'{e.name}({",".join(pp(a) for a in e.args)})' for e in r.sel(f, 'fmod')]
    r.table('a group records only when its destination opened and its rates can be scheduled', G(r.tot(st)), {'open': (0, 1), 'rate': (0.05, 0.1, 0.2), 'tic': (10,), 'restart': (0,), 'frac': (0.0, 0.5), 'i': (0,), 'n': (1,)},
            lambda v: v['open'] == 0 and v['rate'] >= 1.0 / v['tic'] and v['frac'] <= 0.001, r.at(st, f), names={'open': nmF, 'rate': RS, 'tic': tic, 'restart': 'arg1', 'frac': fm, 'i': 'count(0,1)', 'n': 'size(this.logging_rates)'})
    # the scheduler leaves the recording job's times alone
    f = r.flow(p, 'DataRecordGroup::configure_jobs')
    s = [e for e in r.sel(f, 'JobData::set_system_job_class') if pp(e.args[-1]) == '1' and 'write_job' in pp(e.args[0])] or [e for e in r.stores(f, r'.*\.system_job_class', '1')]
    s = s or [e for e in r.sel(f, 'JobData::set_system_job_class', {1: '1'})]
    r.ob('the recording job keeps its own call times', bool(s) and r.tot(s) == 1, '', r.at(s, f))
    return r.finish('Recording times as guarded terms: conversion of a rate, first recording time, next recording time over all rates, advance after a sample, and the call time of the recording job, evaluated for every ordering of the quantities.', ['tic products that are exactly representable'], floor=20)

RULES = {'D01': d01, 'D02': d02}
