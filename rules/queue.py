"""job queue: ordering (E03) and cyclic call times (E02)"""
import re
from rules.heap import Heap
from rules.sim import Outside, simulate
from rules.mem import val
from vk import *
from flow import pp, pbdd, _addr, M

SJQ = ['trick_source/sim_services/ScheduledJobQueue/*.cpp']
JD = ['trick_source/sim_services/SimObject/*.cpp']
MAXT = 9223372036854775807

def heap(r, p):
    """the list itself: every insertion and removal at every position of small queues, in front of, at and behind a pass in progress"""
    JOBS = ['A', 'B', 'C', 'D']
    def world(n, cur, jobs=JOBS):
        w = Heap({'this.list_size': n, 'this.curr_index': cur, 'this.next_job_time': 0}); w.mem['this.list'] = w.block(jobs[:n]) if n else 0; w.keys = {x: i for i, x in enumerate(JOBS)}
        for x in JOBS: w.mem.update({x + '.disabled': 0, x + '.handled': 0})
        return w
    def run(f, w, lab, want):
        try:
            env = simulate(f, w); n = w.mem['this.list_size']; got = w.list(w.mem['this.list'], n) if n else []
            rv = val(f.retval(), env) if want[2:] else None
        except Outside as ex: r.ob(lab, False, f' {ex}', f.label); return
        except F.Unknown as ex: r.undecided(lab, f' {ex}'); return
        if None in got or n is None or want[2:] and rv is None: r.undecided(lab, f' {got}'); return
        r.ob(lab, (got, w.mem['this.curr_index']) + ((rv,) if want[2:] else ()) == want, f" {got}, at {w.mem['this.curr_index']}{', ' + str(rv) if want[2:] else ''}", f.label)
    rm, pu, gn = (r.flow(p, 'ScheduledJobQueue::' + x, ver=True, typed=True) for x in ('remove', 'push', 'get_next_job'))
    for n in range(5):
        for cur in range(n + 1):
            for x in JOBS[:n] + ['X']:
                w = world(n, cur); w.args = {'delete_job': x, 'arg1': x}; rest = [y for y in JOBS[:n] if y != x]
                run(rm, w, f'remove: job {x} of {n}, {cur} of them run', (rest, cur - (x in JOBS[:cur])))
    for k, x in enumerate(JOBS):
        for m in range(8):
            jobs = [y for i, y in enumerate([y for y in JOBS if y != x]) if m >> i & 1]; n = len(jobs); at = len([y for y in jobs if y < x])
            for cur in range(n + 1):
                w = world(n, cur, jobs); w.args = {'new_job': x, 'arg1': x}
                run(pu, w, f'push: job {x} into {"".join(jobs) or "an empty queue"}, {cur} of them run', (sorted(jobs + [x]), cur + (at < cur)))
    for n in range(4):
        for cur in range(n + 1):
            for m in range(1 << n):
                w = world(n, cur)
                for i in range(n): w.mem[JOBS[i] + '.disabled'] = m >> i & 1
                nx = next((i for i in range(cur, n) if not m >> i & 1), None)
                run(gn, w, f'next job of {n} behind {cur}, disabled: {"".join(JOBS[i] for i in range(n) if m >> i & 1) or "none"}', (JOBS[:n], n if nx is None else nx + 1))

def e03(r):
    u = r.unit(SJQ)
    p = u.extract(roots=[r'ScheduledJobQueue::.*', r'compare_.*', r'.*(comp|less|order|before|cmp).*'], opaque=opq('JobData'))
    push = r.flow(p, 'ScheduledJobQueue::push')
    # where the new job goes
    ins = [e for e in push.effects if e.kind == 'store' and pp(e.val) == 'arg1' and 'bound(' in _addr(e.addr)]
    if not ins: raise Broken('push: the ordered insertion is not recognised (anchor vanished)')
    ad = _addr(ins[0].addr)
    m = re.fullmatch(r'\*(std::\w+_bound)\((?P<l>.+?),&(?P=l)\[this\.list_size\],arg1,fn:(?P<c>[\w:]+)\)', ad) or \
        re.fullmatch(r'(?P<l>.+?)\[div\(-(?P=l)\+(std::\w+_bound)\((?P=l),&(?P=l)\[this\.list_size\],arg1,fn:(?P<c>[\w:]+)\),8\)\]', ad)
    f = re.search(r'(std::\w+_bound)\((.*),fn:([\w:]+)\)', ad)
    if m or not f: r.ob('push inserts at the bound of the whole list under the job order', bool(m), ' inserts at ' + ad[:300], ins[0].loc)
    else: r.undecided('push inserts at the bound of the whole list under the job order', ' inserts at ' + ad[:300])
    if m:
        L, kind = m.group('l'), f.group(1)
        UB = f'{kind}({L},&{L}[this.list_size],arg1,fn:{m.group("c")})'
        r.ob('push keeps insertion order among equal keys', kind == 'std::upper_bound', f' uses {kind}', ins[0].loc)
        r.ob('push works on the grown list', L == 'realloc(this.list,8*this.list_size+8)' or 'realloc' not in L, ' list is ' + L, ins[0].loc)
        ok = b(L) if 'realloc' in L else TRUE
        r.same('the job is stored whenever memory is available', r.tot(ins), ok, ins[0].loc, extra=ok)
        end = f'&{L}[this.list_size]'
        mv = [e for e in push.effects if e.kind == 'call' and e.name in ('memcpy', 'memmove') and pp(e.args[0]) == f'&{UB}[1]' and pp(e.args[1]) == UB]
        lp = [e for e in push.effects if e.kind == 'store' and e.loops and _addr(e.addr).startswith(L + '[') and pp(e.val).startswith(L + '[')]
        if mv:
            r.imp('later jobs are shifted up before the insertion', ok & ~t(UB).same(t(end)), r.tot([e for e in mv if e.order < ins[0].order]), r.at(mv, push))
            for e in mv: r.ob('the whole tail is shifted', pp(e.args[2]) in (f'{end}-{UB}', f'8*{end}-8*{UB}'), ' size ' + pp(e.args[2])[:200], e.loc)
        elif lp:
            C = 'count(this.list_size,-1)'
            if any(_addr(e.addr) == f'{L}[{C}]' and pp(e.val) == f'{L}[{C}-1]' for e in lp):
                for i in range(4):
                    r.table('the whole tail is shifted', r.inl(push, lp[0]), {'this.list_size': range(4), '#iter': range(4), L: [1000], UB: [1000 + 8 * i]},
                            lambda v: v['this.list_size'] - v['#iter'] > i, lp[0].loc, given=lambda v: i <= v['this.list_size'] and v['#iter'] <= v['this.list_size'] - i)
                r.imp('later jobs are shifted up before the insertion', ok, r.tot([e for e in lp if e.order < ins[0].order]), r.at(lp, push))
            else: r.undecided('later jobs are shifted up before the insertion', ' loop of an unknown form')
        elif [e for e in push.effects if e.kind == 'call' and re.search('copy|move|rotate', e.name)]: r.undecided('later jobs are shifted up before the insertion', ' unknown form')
        else: r.ob('later jobs are shifted up before the insertion', False, ' no shift', ins[0].loc)
        names = {'ok': L, 'ub': [UB], 'end': end}
        dom = {'idx': range(4), 'this.curr_index': range(4), 'this.list_size': range(4)}
        for lab, path, sp in (('push: list length grows by one', 'this.list_size', lambda v: v['this.list_size'] + 1),
                              ('push: position of the iteration in progress is kept', 'this.curr_index', lambda v: v['this.curr_index'] + (v['idx'] < v['this.curr_index']))):
            best = None
            for sc in (8, 1):
                r2 = Run(r.prop)
                # insertion point and list base are addresses: base 1000, element size sc
                d = {}
                what = r.cell(push, re.escape(path), path)
                okk = True
                for i in dom['idx']:
                    if not okk: break
                    dd = {'this.curr_index': dom['this.curr_index'], 'this.list_size': dom['this.list_size'], L: [1000], UB: [1000 + sc * i]}
                    okk = r2.table(lab, what, dd, lambda v, i=i: sp({**v, 'idx': i}), push.label, given=lambda v, i=i: i <= v['this.list_size'])
                r.stats['orderings_evaluated'] = r.stats.get('orderings_evaluated', 0) + r2.stats.get('orderings_evaluated', 0)
                best = r2 if okk or best is None else best
                if okk: break
            r.ob(lab, okk, best.viol[0][2] if best.viol else '', push.label)
        cmpf = r.flow(p, m.group('c').split('::')[-1] if m.group('c') not in p.fns else m.group('c'))
        q = ['job_class', 'phase', 'sim_object_id', 'id']
        dom = {f'arg{i}.{x}': range(2) if x != 'id' else range(3) for x in q for i in (1, 2)}
        rv = cmpf.retval()
        r.table('jobs are ordered by class, phase, sim object, then definition', rv, dom,
                lambda v: int(tuple(v['arg1.' + x] for x in q) < tuple(v['arg2.' + x] for x in q)), cmpf.label)
        st = r.stores(push, 'this\\.list')
        r.ob('push publishes the grown list', any(pp(e.val) == L for e in st) or 'realloc' not in L, '', push.label)
    # sim-object-independent insertion
    pi = r.flow(p, 'ScheduledJobQueue::push_ignore_sim_object')
    so = r.stores(pi, 'arg1\\.sim_object_id')
    ins2 = [e for e in pi.effects if e.kind == 'store' and pp(e.val) == 'arg1' and 'bound(' in _addr(e.addr)] + r.sel(pi, 'ScheduledJobQueue::push')
    r.ob('push_ignore_sim_object restores the job', bool(so) and pp(r.flow_final(pi, 'arg1.sim_object_id')) == 'arg1.sim_object_id', '', pi.label)
    r.ob('push_ignore_sim_object inserts behind every sim object', bool(ins2) and bool([e for e in so if e.order < ins2[0].order and re.fullmatch(r'\d{5,}', pp(e.val))]), '', pi.label)
    # removal
    rm = r.flow(p, 'ScheduledJobQueue::remove')
    heap(r, p)
    # clear
    cl = r.flow(p, 'ScheduledJobQueue::clear')
    for path, v in (('this.list', '0'), ('this.list_size', '0'), ('this.curr_index', '0'), ('this.next_job_time', str(MAXT))):
        r.final_is('clear empties the queue: ' + path, cl, path, {v: TRUE})
    r.call_when('clear releases the list', cl, 'free', b('this.list'), {0: 'this\\.list'})
    # fetch in order: every position is visited once
    gn = r.flow(p, 'ScheduledJobQueue::get_next_job')
    J = 'this.list[this.curr_index]'
    dom = {'ci': range(4), 'ls': range(4), 'dis': (0, 1), 'J': [5]}
    nm = {'ci': ['this.curr_index', 'count(this.curr_index,1)'], 'ls': 'this.list_size', 'dis': [J + '.disabled', 'this.list[this.curr_index..].disabled'], 'J': [J, 'this.list[this.curr_index..]']}
    r.table('next job: the first enabled job at or after the position', gn.retval(), dom, lambda v: 5 if v['ci'] < v['ls'] and not v['dis'] else 0, gn.label, names=nm)
    r.table('next job: the position moves past each visited job', r.cell(gn, r'this\.curr_index', 'this.curr_index'), dom,
            lambda v: v['ci'] + 1 if v['ci'] < v['ls'] else v['ls'], gn.label, names=nm, given=lambda v: v['ci'] <= v['ls'] and (not v['dis'] or v['ci'] + 1 >= v['ls']))
    rs = r.flow(p, 'ScheduledJobQueue::reset_curr_index')
    r.final_is('reset returns to the first job', rs, 'this.curr_index', {'0': TRUE})
    # class-wide execution
    p2 = u.extract(roots=['ScheduledJobQueue::execute_all_jobs'], opaque=opq('JobData', 'ScheduledJobQueue'))
    ex = r.flow(p2, 'ScheduledJobQueue::execute_all_jobs')
    N = 'ScheduledJobQueue::get_next_job(this)'
    c = r.sel(ex, 'JobData::call', {0: re.escape(N)})
    r.ob('class execution runs the jobs in queue order from the first', bool(c) and bool(r.sel(ex, 'ScheduledJobQueue::reset_curr_index')), '', ex.label)
    if c:
        r.same('class execution runs every fetched job', r.tot(c), b(N), r.at(c))
        r.before('class execution starts at the first job', ex, r.sel(ex, 'ScheduledJobQueue::reset_curr_index'), c)
        R = t(f'JobData::call({N})')
        r.cases_are('class execution stops at and returns the first failure', ex, ex.cases(ex.retval()),
                    {pp(R.t): X(b(N) & (R != 0)), '0': ~X(b(N) & (R != 0))})
    return r.finish('Guarded transfer functions of the job queue operations (comparator, ordered insertion, removal, iteration) compared with the declared order for every ordering of keys and positions.',
                    ['std::upper_bound, realloc and memmove behave as documented'], floor=12)


def e02(r):
    u = r.unit(SJQ + JD + ['trick_source/sim_services/Executive/Executive_*.cpp'])
    p = u.extract(roots=['ScheduledJobQueue::(find_next_job|find_job|get_next_job_call_time|test_next_job_call_time|set_next_job_call_time)',
                         'JobData::(set_cycle|calc_cycle_tics|set_next_call_time)'], also=['JobData::calc_cycle_tics'])
    E = 'this.list[this.curr_index]'
    E2 = 'this.list[this.curr_index..]'
    def nm(f): return [f'{E}.{f}', f'{E2}.{f}']
    names = {'ci': ['this.curr_index', 'count(this.curr_index,1)'], 'ls': 'this.list_size', 'T': 'arg1', 'next': nm('next_tics'), 'cyc': nm('cycle_tics'),
             'stop': nm('stop_tics'), 'sys': nm('system_job_class'), 'dis': nm('disabled'), 'njt': 'this.next_job_time', 'J': [E, E2]}
    fn = r.flow(p, 'ScheduledJobQueue::find_next_job')
    dom = {'ci': (0, 1), 'ls': (1,), 'T': (3,), 'next': (2, 3, 4, 5, MAXT), 'cyc': (1, 2, 4), 'stop': (2, 3, 4, 5, 7, MAXT), 'sys': (0, 1), 'dis': (0, 1),
           'njt': (3, 4, 5, 6, 7, MAXT), 'J': (77,)}
    due = lambda v: v['ci'] < v['ls'] and v['next'] == v['T']
    def nx(v):
        if not due(v) or v['sys']: return v['next']
        n = v['next'] + v['cyc']
        return MAXT if n > v['stop'] else n
    def njt(v):
        if v['ci'] >= v['ls']: return v['njt']
        n = nx(v)
        if due(v): return min(v['njt'], n) if not v['sys'] else v['njt']
        return min(v['njt'], n) if n > v['T'] else v['njt']
    nxt = f'({re.escape(E)}|{re.escape(E2)})\\.next_tics'
    r.table('due job: the next call is one cycle later, none after the stop time', r.cell(fn, nxt, E + '.next_tics'), dom, nx, fn.label, names=names)
    r.table('due pass: the earliest later call is remembered', r.cell(fn, r'this\.next_job_time', 'this.next_job_time'), dom, njt, fn.label, names=names)
    r.table('due pass: each job is examined once', r.cell(fn, r'this\.curr_index', 'this.curr_index'), dom, lambda v: v['ci'] + (v['ci'] < v['ls']), fn.label, names=names)
    r.table('due pass: exactly the due enabled jobs are handed out', fn.retval(), dom, lambda v: 77 if due(v) and not v['dis'] else 0, fn.label, names=names)
    others = sorted({_addr(e.addr) for e in fn.effects if e.kind == 'store'} - {E + '.next_tics', E2 + '.next_tics', 'this.next_job_time', 'this.curr_index'})
    r.ob('due pass changes nothing else', not others, ' stores to ' + ', '.join(others), fn.label)
    fj = r.flow(p, 'ScheduledJobQueue::find_job')
    r.table('plain pass: exactly the due enabled jobs are handed out', fj.retval(), dom, lambda v: 77 if due(v) and not v['dis'] else 0, fj.label, names=names)
    r.table('plain pass: each job is examined once', r.cell(fj, r'this\.curr_index', 'this.curr_index'), dom, lambda v: v['ci'] + (v['ci'] < v['ls']), fj.label, names=names)
    r.ob('plain pass leaves call times alone', not [e for e in fj.effects if e.kind == 'store' and 'curr_index' not in _addr(e.addr).split('.')[-1]], '', fj.label)
    gt = r.flow(p, 'ScheduledJobQueue::get_next_job_call_time')
    lp = [e for e in gt.effects if e.kind == 'loop']
    r.ob('next call time covers every unexamined job', any(e.name in ('i in this.curr_index..this.list_size',) for e in lp) or
         any(e.name.startswith('i in 0..this.list_size') for e in lp), ' loops: ' + str([e.name for e in lp]), gt.label)
    e3 = [f'{x}.next_tics' for x in (E, E2, 'this.list[*]')]
    nm3 = {'next': e3, 'njt': 'this.next_job_time', 'ci': names['ci'] + ['count(0,1)'], 'ls': 'this.list_size'}
    d3 = {'next': (1, 2, 3), 'njt': (1, 2, 3), 'ci': (0,), 'ls': (1,)}
    r.table('next call time is the minimum', r.cell(gt, r'this\.next_job_time', 'this.next_job_time'), d3, lambda v: min(v['next'], v['njt']), gt.label, names=nm3) \
        if r.stores(gt, r'this\.next_job_time') else r.ob('next call time is the minimum', False, ' the minimum is not kept', gt.label)
    r.cases_are('next call time is reported', gt, gt.cases(gt.retval()), {'this.next_job_time': TRUE})
    ts = r.flow(p, 'ScheduledJobQueue::test_next_job_call_time')
    r.table('later call is folded into the next call time', r.cell(ts, r'this\.next_job_time', 'this.next_job_time'),
            {'arg1.next_tics': (1, 2, 3, 4), 'arg2': (1, 2, 3), 'this.next_job_time': (1, 2, 3, 4)},
            lambda v: min(v['arg1.next_tics'], v['this.next_job_time']) if v['arg1.next_tics'] > v['arg2'] else v['this.next_job_time'], ts.label)
    sn = r.flow(p, 'ScheduledJobQueue::set_next_job_call_time')
    r.final_is('next call time can be re-armed', sn, 'this.next_job_time', {'arg1': TRUE})
    # job cycle arithmetic
    cc = r.flow(p, 'JobData::calc_cycle_tics')
    CY = 'toint(round(fmul(%s,tofp(JobData::time_tic_value))))'
    alt = lambda c: [CY % c, ('toint(round(fmul(tofp(JobData::time_tic_value),%s)))' % c), 'llround(fmul(%s,tofp(JobData::time_tic_value)))' % c]
    got = pp(cc.final('this.cycle_tics'))
    r.ob('cycle in tics is the cycle times tics per second, rounded', got in alt('this.cycle'), ' is ' + got, cc.label)
    sc = r.flow(p, 'JobData::set_cycle')
    r.final_is('a new cycle is stored', sc, 'this.cycle', {'arg1': TRUE})
    got = pp(sc.final('this.cycle_tics'))
    k = r.sel(sc, 'JobData::calc_cycle_tics', {0: 'this'})     # virtual: seen as a call
    st = r.stores(sc, 'this\\.cycle')
    r.ob('a new cycle takes effect in tics', got in alt('arg1') or (r.tot(k) == 1 and any(e.order < k[0].order for e in st)), ' is ' + got, sc.label)
    sx = r.flow(p, 'JobData::set_next_call_time')
    r.table('rescheduling: next multiple of the new cycle, or now when already due', r.cell(sx, r'this\.next_tics', 'this.next_tics'),
            {'this.next_tics': range(0, 9), 'arg1': range(0, 8), 'this.cycle_tics': (1, 2, 3, 5)},
            lambda v: v['arg1'] - v['arg1'] % v['this.cycle_tics'] + v['this.cycle_tics'] if v['this.next_tics'] > v['arg1'] else v['arg1'], sx.label)
    # first call
    p2 = u.extract(roots=['Executive::add_jobs_to_queue', 'Executive::set_job_cycle'], opaque=['Executive::add_job_to_queue', 'Executive::get_job', 'Threads::Threads', 'message_publish'] + opq('JobData'))
    aj = r.flow(p2, 'Executive::add_jobs_to_queue')
    J = 'arg1.jobs[*]'
    cmp = lambda s: f'compare("{s}",{J}.job_class_name)'
    nm4 = {'restart': 'arg2', 'jc': J + '.job_class', 's0': 'this.scheduled_start_index', 'ret': f'Executive::add_job_to_queue(this,{J})', 'start': J + '.start', 'stop': J + '.stop',
           'tic': ['this.time_tic_value'], 'time': 'this.time_tics', 'cyc': J + '.cycle_tics', 'dis': J + '.disabled', 'next': J + '.next_tics', 'stt': J + '.start_tics', 'spt': J + '.stop_tics',
           'integ': cmp('integ_loop'), 'adv': cmp('system_advance_sim_time'), 'frz': cmp('freeze_scheduled'), 'i': 'count(0,1)', 'n': f'size(arg1.jobs)'}
    BIG = 1e30
    dom4 = {'restart': (0, 1), 'jc': (4, 5, 6), 's0': (5,), 'ret': (0, -1), 'start': (0.0, 2.0, BIG), 'stop': (1.0, 2.0, 3.0, BIG), 'tic': (10,), 'time': (7,), 'cyc': (3,), 'dis': (0, 1),
            'next': (555,), 'stt': (-5,), 'spt': (-6,), 'integ': (0, 1), 'adv': (0, 1), 'frz': (1,), 'i': (0,), 'n': (1,)}
    act = lambda v: not v['restart'] and v['jc'] >= v['s0'] and v['ret'] == 0
    big = lambda x: x > MAXT // 10
    def dis(v):
        return int(v['dis'] or (act(v) and (big(v['start']) or (not big(v['stop']) and v['stop'] < v['start']))))
    def stt(v): return v['stt'] if not act(v) else MAXT if big(v['start']) else int(v['start'] * 10)
    def nx4(v):
        if act(v): return MAXT if dis(v) else v['time'] + stt(v) + (v['cyc'] if v['integ'] == 0 else 0)
        return v['time'] if v['adv'] == 0 and not v['restart'] else v['next']
    def spt(v): return v['spt'] if not act(v) else MAXT if big(v['stop']) else v['spt'] if v['stop'] < v['start'] else int(v['stop'] * 10)
    JE = re.escape(J)
    ok1 = lambda v: v['adv'] or not v['integ'] == 0   # a job has one class
    for lab, fld, sp in (('first call time of a cyclic job', 'next_tics', nx4), ('a job that can never start or stops before it starts is disabled', 'disabled', dis),
                         ('start time in tics', 'start_tics', stt), ('stop time in tics', 'stop_tics', spt)):
        r.table(lab, r.cell(aj, f'{JE}\\.{fld}', f'{J}.{fld}'), dom4, sp, aj.label, names=nm4, given=ok1)
    frz = {**dom4, 'frz': (0,), 'jc': (4,), 'ret': (0, -1), 'integ': (1,), 'adv': (1,)}
    r.table('freeze cyclic jobs never stop', r.cell(aj, f'{JE}\\.stop_tics', f'{J}.stop_tics'), frz, lambda v: MAXT, aj.label, names=nm4)
    c = r.sel(aj, 'JobData::calc_cycle_tics', {0: JE})
    r.table('the cycle is converted before it is used', G(r.tot(c)), {**dom4, 'frz': (0, 1)}, lambda v: act(v) or v['frz'] == 0, aj.label, names=nm4, given=ok1)
    q = r.sel(aj, 'Executive::add_job_to_queue', {1: JE})
    r.ob('every job of the sim object is offered to the scheduler', bool(q) and r.tot(q) == 1 and any(e.loops in (('each arg1.jobs',),) for e in q), '', aj.label)
    sj = r.flow(p2, 'Executive::set_job_cycle')
    cs, cn = r.sel(sj, 'JobData::set_cycle'), r.sel(sj, 'JobData::set_next_call_time')
    a = sorted((pp(e.args[0]), F.norm(e.guard)) for e in cs if pp(e.args[1]) == 'arg3')
    c2 = sorted((pp(e.args[0]), F.norm(e.guard)) for e in cn if pp(e.args[1]) == 'this.time_tics')
    r.ob('changing a cycle at run time always reschedules the job from now', len(cs) >= 2 and a == c2, f' set_cycle {len(cs)} sites, reschedule {len(cn)} sites', r.at(cs, sj))
    neg = t('arg3').flt(fc(0))
    for e in cs:
        r.imp('a negative cycle is refused', e.guard, ~neg, e.loc)
        r.ob('the new cycle is in force before rescheduling', any(x.order > e.order and pp(x.args[0]) == pp(e.args[0]) for x in cn), '', e.loc)
    return r.finish('Value of every job timing field after one pass of the scheduling functions, as a guarded term, evaluated for every ordering of call, start, stop and current times.',
                    ['tic products that are exactly representable; rounding of other products is not decided', 'no arithmetic overflow of tic counts'], floor=12)

RULES = {'E03': e03, 'E02': e02}
