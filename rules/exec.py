"""executive: time advance, job loops, child threads, mode transitions"""
import re, scan
from vk import *
from flow import pp, _addr, M
EX = ['trick_source/sim_services/Executive/*.cpp']
OPQ = ['ThreadTrigger', 'exec_terminate_with_return'] + opq('ScheduledJobQueue', 'JobData', 'Threads', 'Executive')
NX = 'ScheduledJobQueue::get_next_job_call_time(&%s)'

def e01(r):
    u = r.unit(EX)
    p = u.extract(roots=['Executive::advance_sim_time$', 'Executive::advance_sim_time\\('], opaque=opq('ScheduledJobQueue', 'JobData') + ['Executive::scheduled_thread_sync'])
    f = r.flow(p, 'Executive::advance_sim_time', prime=r'this\.time_tics')
    T = 'this.time_tics'
    C = 'this.threads[1..]'
    names = {'old': [T, 'time_tics@old'], 'frame': 'this.next_frame_check_tics', 'q0': NX % 'this.threads[0].job_queue', 'ip': NX % 'this.input_processor_run_queue',
             'en': C + '.enabled', 'pt': C + '.process_type', 'qn': NX % (C + '.job_queue'), 'amfc': C + '.amf_cycle_tics', 'amfn': C + '.amf_next_tics', 'term': 'this.terminate_time',
             'i': 'count(1,1)', 'sz': 'size(this.threads)', 'sf': 'this.software_frame_tics'}
    dom = {'old': (2,), 'frame': (3, 6), 'q0': (1, 2, 4, 7), 'ip': (2, 5, 7), 'en': (0, 1), 'pt': (0, 1, 2), 'qn': (3, 4, 8), 'amfc': (0, 1), 'amfn': (3, 5, 8), 'term': (3, 5, 9), 'i': (1,), 'sz': (2,), 'sf': (100,)}
    def spec(v):
        c = [v['frame'], v['term']]
        if v['q0'] > v['old']: c.append(v['q0'])
        if v['ip'] > v['old']: c.append(v['ip'])
        if v['en'] and v['pt'] == 0: c.append(v['qn'])
        if v['en'] and v['pt'] == 2 and v['amfc'] > 0: c.append(v['amfn'])
        return min(c)
    st = r.stores(f, re.escape(T))
    if not st: raise Broken('advance_sim_time no longer sets the time (anchor vanished)')
    r.seqtable('time moves to the earliest pending call, frame, child boundary or end', f, T, dom, spec, names)
    r.every('every child thread is considered', f, r'each this\.threads from 1')
    q = r.sel(f, 'ScheduledJobQueue::set_next_job_call_time')
    small = {**dom, 'qn': (4, 8), 'ip': (2, 5)}
    for lab, a in (('input processor', 'this.input_processor_run_queue'), ('main thread', 'this.threads[0].job_queue')):
        c = [e for e in q if pp(e.args[0]) == '&' + a]
        r.ob(f'{lab}: the pending-call horizon is re-armed after every advance', bool(c) and r.tot(c) == 1 and c[-1].order > st[-1].order, '', r.at(c, f))
        for e in c:
            r.seqtable(f'{lab}: the horizon reaches the next frame', f, T, small, lambda v: spec(v) + 100, names, at=e, what=e.args[1])
    for lab, path in (('the advance job is due at the new time', r'this\.advance_sim_time_job\.next_tics'), ('the main thread runs at the new time', r'this\.threads\[0\]\.curr_time_tics')):
        c = r.stores(f, path)
        r.ob(lab, bool(c) and r.tot(c) == 1, '', r.at(c, f))
        for e in c: r.seqtable(lab + ' (value)', f, T, small, spec, names, at=e, what=e.val)
    lp = r.stores(f, r'this\.time_last_pass_tics', re.escape(T))
    r.ob('the previous time is recorded first', bool(lp) and r.tot(lp) == 1 and lp[0].order < st[0].order, '', f.label)
    y = r.sel(f, 'Executive::scheduled_thread_sync')
    r.ob('child threads are synchronised before time moves', bool(y) and r.tot(y) == 1 and y[0].order < st[0].order, '', f.label)
    # who else may move time
    p2 = u.extract(all=True, inline=False)
    ww = scan.writers(p2, 'Executive', 'time_tics')
    n = sum(len(x) for x in p2.fns.values())
    r.stats['functions_searched_for_time_writes'] = n
    r.ob('the writers of the simulation time are found', len(ww) >= 3, '', '')
    for fn, i in ww:
        nme = fn.name
        if nme in ('Executive::advance_sim_time', 'Executive::Executive', 'Executive::set_time', 'Executive::set_time_tics', 'Executive::set_time_tic_value'): continue
        if nme.startswith('Executive::loop_'): continue      # decided below
        r.ob('only the time advance moves the time', False, f' {nme} writes it', nme)
    for loop in ('Executive::loop_single_thread', 'Executive::loop_multi_thread'):
        p3 = u.extract(roots=[loop], opaque=OPQ)
        g = r.flow(p3, loop)
        for e in r.parts(r.stores(g, re.escape(T))):
            r.ob('a finished run keeps the last executed time', pp(e.val) == 'this.time_last_pass_tics', ' stores ' + pp(e.val), e.loc)
            r.imp('time is only restored when the end time was passed', e.guard, t('this.time_last_pass_tics') >= t('this.terminate_time'), e.loc)
    return r.finish('Value of the simulation time after an advance, evaluated as a guarded term over every ordering of the pending times; writers of the time field over all executive functions.',
                    ['queue call times are those decided by E02'], floor=12)


SQ = 'ScheduledJobQueue::'
def fetch(q, time=None):
    return f'{SQ}find_next_job(&{q},{time})' if time else f'{SQ}get_next_job(&{q})'

def jobloop(r, f, q, time=None, fail=True, alt=()):
    """one job loop over queue q: all jobs of the pass are run; returns (guard of the pass, calls)"""
    lab = f'{f.label} {q}'
    J = fetch(q, time)
    c = r.sel(f, 'JobData::call', {0: re.escape(J)})
    rs = r.sel(f, SQ + 'reset_curr_index', {0: re.escape('&' + q)})
    if not c:
        r.ob(f'{lab}: jobs are run', False, ' no call of the fetched jobs', f.label)
        return FALSE, []
    r.ob(f'{lab}: the pass starts at the first job', bool(rs) and all(any(x.order < e.order and set(x.lids) <= set(e.lids) for x in rs) for e in c), '', r.at(c))
    outer = G(r.tot([x for x in rs]))
    r.same(f'{lab}: every fetched job runs', r.tot(c), outer & b(J), r.at(c))
    lp = [e for e in f.effects if e.kind == 'loop' and e.blk == c[0].lids[-1]] if c[0].lids else []
    r.ob(f'{lab}: the pass goes on until no job is left', bool(lp) and all(equiv(e.val, b(J).f) for e in lp), ' loop continues while ' + (pbdd(lp[0].val) if lp else '?'), r.at(c))
    if fail:
        R = t(f'JobData::call({J})')
        te = r.sel(f, 'exec_terminate_with_return', {0: re.escape(pp(R.t)), 1: r'c_str\(' + re.escape(J) + r'\.name\)'})
        th = [e for e in r.sel(f, 'ExecutiveException::ExecutiveException') if pp(e.args[1]) == pp(R.t) and J + '.name' in pp(e.args[2])]
        g = r.tot(te)
        bad = outer & b(J) & (R != 0)
        if te: r.same(f'{lab}: a failing job stops the simulation with its result', g, bad, r.at(te))
        elif th: r.same(f'{lab}: a failing job stops the simulation with its result', F.xfree(F.norm(r.tot(th))), b(J) & (R != 0), r.at(th))
        else: r.ob(f'{lab}: a failing job stops the simulation with its result', False, ' the result is not checked', r.at(c))
        if lp: r.ob(f'{lab}: nothing else ends the pass', te and not [x for x in lp[0].nr if F.norm(x)] or th and all(equiv(x, (b(J) & (R != 0)).f) for x in lp[0].nr), '', r.at(c))
    return outer, c

CH = 'this.threads[1..]'
def e04(r):
    u = r.unit(EX)
    roots = ['Executive::loop_single_thread', 'Executive::loop_multi_thread', 'Executive::freeze_loop', 'Executive::call_default_data', 'Executive::call_initialization',
             'Executive::call_input_processor', 'Executive::shutdown', 'Executive::init\\(', 'Executive::loop\\(', 'Threads::thread_body', 'exec_terminate_with_return', 'ExecutiveException::ExecutiveException', 'Executive::exec_terminate\\(']
    p = u.extract(roots=roots, opaque=OPQ)
    T = 'this.time_tics'
    for n in ('Executive::loop_single_thread', 'Executive::loop_multi_thread'):
        f = r.flow(p, n)
        jobloop(r, f, 'this.top_of_frame_queue')
        jobloop(r, f, 'this.input_processor_run_queue', T)
        jobloop(r, f, 'this.threads[0].job_queue', T)
        jobloop(r, f, 'this.end_of_frame_queue')
        if 'multi' in n:
            jobloop(r, f, 'this.thread_sync_queue')
            jobloop(r, f, CH + '.top_of_frame_queue')
            jobloop(r, f, CH + '.end_of_frame_queue')
    f = r.flow(p, 'Executive::freeze_loop')
    jobloop(r, f, 'this.freeze_scheduled_queue', 'this.freeze_time_tics')
    jobloop(r, f, 'this.freeze_queue')
    for n, q in (('call_default_data', 'default_data_queue'), ('call_initialization', 'initialization_queue')):
        jobloop(r, r.flow(p, 'Executive::' + n), 'this.' + q)
    f = r.flow(p, 'Executive::call_input_processor')
    J = fetch('this.input_processor_queue'); R = t(f'JobData::call({J})')
    c = r.sel(f, 'JobData::call', {0: re.escape(J)})
    th = [e for e in r.sel(f, 'ExecutiveException::ExecutiveException') if pp(e.args[1]) == pp(R.t)]
    r.same('input processor jobs run until a restart takes over', r.tot(c), ~b('this.restart_called') & b(J), r.at(c, f))
    r.same('a failing input processor job stops the simulation with its result', F.xfree(F.norm(r.tot(th))), ~b('this.restart_called') & b(J) & (R != 0), r.at(th, f))
    # child threads: every run of a job is checked
    tb = r.flow(p, 'Threads::thread_body')
    calls = r.sel(tb, 'JobData::call')
    if len(calls) < 5: raise Broken('thread_body: job calls not recognised')
    for e in calls:
        J = pp(e.args[0]); R = t(f'JobData::call({J})')
        te = [x for x in r.sel(tb, 'exec_terminate_with_return', {0: re.escape(pp(R.t))}) if x.lids == e.lids]
        if not te: te = [x for x in r.sel(tb, 'exec_terminate_with_return', {0: re.escape(pp(R.t))}) if x.loc.split(':')[0] == e.loc.split(':')[0] and x.order > e.order][:1]
        r.ob(f'child thread {J[len(SQ):]}: a failing job stops the simulation with its result', bool(te), ' the result is not checked', e.loc)
        if te: r.same(f'child thread {J[len(SQ):]}: exactly the failures stop it', r.tot(te), G(e.guard) & (R != 0), r.at(te))
    # the exception carries the result to the exit code
    x = r.flow(p, 'exec_terminate_with_return')
    c = r.sel(x, 'ExecutiveException::ExecutiveException')
    r.ob('termination raises the given code', bool(c) and r.tot(c) == 1 and pp(c[0].args[1]) == 'arg1' and 'arg2' in pp(c[0].args[2]) and 'arg4' in pp(c[0].args[4]) and r.tot(r.sel(x, '__cxa_throw')) == 1, str(c), r.at(c, x))
    x = r.flow(p, 'Executive::exec_terminate')
    c = r.sel(x, 'ExecutiveException::ExecutiveException')
    r.ob('exec_terminate ends the run with a failure', bool(c) and r.tot(c) == 1 and pp(c[0].args[1]) not in ('0',) and r.tot(r.sel(x, '__cxa_throw')) == 1, str(c), r.at(c, x))
    x = r.flow(p, 'ExecutiveException::ExecutiveException')
    r.final_is('the exception keeps the code', x, 'this.ret_code', {'arg1': TRUE})
    for n in ('Executive::init', 'Executive::loop', 'Executive::shutdown'):
        x = r.flow(p, n, eh=True)
        st = r.stores(x, r'this\.except_return')
        r.ob(f'{n}: a termination code is kept', any(re.search(r'\.ret_code$', pp(e.val)) for e in st) and all(re.search(r'\.ret_code$', pp(e.val)) for e in st), ' stores ' + str([pp(e.val) for e in st]), r.at(st, x))
        r.ob(f'{n}: catches terminations', any('ExecutiveException' in pbdd(e.guard) for e in st), '', r.at(st, x))
    x = r.flow(p, 'Executive::init', eh=True)
    cs = x.cases(x.retval())
    z = F.norm(cs.get('0', 0))
    st = r.stores(x, r'this\.except_return')
    r.ob('a failed initialization is reported to the caller', M.AND(z, F.norm(r.tot(st))) == 0 and any(k != '0' for k in cs), f' returns {list(cs)}', x.label)
    x = r.flow(p, 'Executive::shutdown')
    r.ob('the process exit code is the recorded termination code', set(x.cases(x.retval())) == {'this.except_return'}, ' returns ' + str(list(x.cases(x.retval())))[:200], x.label)
    x = r.flow(p, 'Threads::thread_body', eh=True)
    c = r.sel(x, 'exit')
    r.ob('a termination in a child thread ends the process with its code', bool(c) and all(re.search(r'\.ret_code$', pp(e.args[0])) for e in c), str([pp(e.args[0]) for e in c]), r.at(c, x))
    um = r.unit(['trick_source/sim_services/mains/master.cpp'])
    pm = um.extract(roots=['master$', 'master\\('], opaque=opq('Executive') + ['exec_', 'memory_init', 'command_line'])
    x = r.flow(pm, 'master')
    I = f'Executive::init(exec_get_exec_cpp())'
    lp, sd = r.sel(x, 'Executive::loop'), r.sel(x, 'Executive::shutdown')
    if not lp or not sd: raise Broken('master: loop/shutdown calls not recognised')
    ini = r.sel(x, 'Executive::init')
    r.same('the run starts only after a successful initialization', r.tot(lp), G(r.tot(ini)) & (t(I) == 0), r.at(lp))
    r.same('shutdown follows every initialization', r.tot(sd), r.tot(ini), r.at(sd))
    r.ob('shutdown is last', sd[-1].order > lp[-1].order > ini[-1].order, '', r.at(sd))
    cs = x.cases(x.retval())
    r.ob('the process returns the shutdown result', [k for k in cs if k.startswith('Executive::shutdown(')] and equiv(sum_(cs, 'Executive::shutdown('), r.tot(sd)), str(list(cs)), x.label)
    return r.finish('Every job execution site of the executive: fetch, run, result check and propagation of the result to the process exit code, as guarded dataflow.',
                    ['C++ exception delivery', 'results of freeze_init, unfreeze and shutdown jobs are not covered: the executive ignores them by design'], floor=60)

def sum_(cs, pre):
    x = 0
    for k, g in cs.items():
        if k.startswith(pre): x = M.OR(x, g)
    return x


def done_wait(r, label, f, flag, guard, loops=None):
    """before going on the thread waits until `flag` is set"""
    return r.waits(label, f, ~b(flag), guard, loops)

def e05(r):
    u = r.unit(EX)
    p = u.extract(roots=['Executive::scheduled_thread_sync\\(', 'Executive::thread_sync\\(', 'Executive::isThreadReadyToRun\\(', 'Executive::loop_multi_thread\\(', 'Threads::thread_body\\('],
                  opaque=[x for x in OPQ if 'Executive' not in x] + opq('Executive', but=('isThreadReadyToRun',)))
    pq = u.extract(roots=['Executive::loop_multi_thread\\('], opaque=OPQ)
    T = 'this.time_tics'
    A = CH
    pt = lambda x: t(x + '.process_type')
    # when is a child triggered
    rd = r.flow(p, 'Executive::isThreadReadyToRun')
    dom = {'arg1.enabled': (0, 1), 'arg1.process_type': (0, 1, 2), 'arg1.amf_next_tics': (1, 2, 3), 'arg1.amf_cycle_tics': (0, 2), 'arg1.child_complete': (0, 1), 'arg2': (2,)}
    r.table('a child is triggered when its kind and time say so', rd.retval(), dom,
            lambda v: int(bool(v['arg1.enabled'] and (v['arg1.process_type'] == 0 or v['arg1.process_type'] == 2 and v['arg1.amf_next_tics'] == v['arg2'] or
                          v['arg1.process_type'] == 1 and v['arg1.child_complete'] and (v['arg1.amf_cycle_tics'] == 0 or v['arg1.amf_next_tics'] == v['arg2'])))), rd.label)
    # synchronisation points of the main thread
    ss = r.flow(p, 'Executive::scheduled_thread_sync')
    r.every('scheduled children are all considered', ss, r'each this\.threads from 1')
    done_wait(r, 'time does not move before scheduled children are done', ss, A + '.child_complete', b(A + '.enabled') & (pt(A) == 0), ('each this.threads from 1',))
    ts = r.flow(p, 'Executive::thread_sync')
    r.every('synchronised children are all considered', ts, r'each this\.threads from 1')
    done_wait(r, 'an AMF child is done when its frame ends', ts, A + '.child_complete', (pt(A) == 2) & (t(A + '.amf_next_tics') == t(T)))
    lp = [e for e in ts.effects if e.kind == 'loop' and equiv(e.val, (t(A + '.amf_next_tics') < t(T)).f)]
    r.same('a late asynchronous child catches up with the frame', r.tot(lp), (pt(A) == 1) & b(A + '.child_complete') & (t(A + '.amf_cycle_tics') != 0), r.at(lp, ts))
    st = [e for e in r.stores(ts, re.escape(A) + r'\.amf_next_tics')]
    r.ob('catching up goes frame by frame', bool(st) and all(pp(e.val) in (f'{A}.amf_cycle_tics+{A}.amf_next_tics', f'{A}.amf_next_tics+{A}.amf_cycle_tics') and lp and e.lids[-1:] == (lp[0].blk,) for e in st), ' stores ' + str([pp(e.val) for e in st]), r.at(st, ts))
    B = 'this.threads[*]'
    rdy = lambda X_: b(X_ + '.enabled') & ((pt(X_) == 0) | (pt(X_) == 2) & (t(X_ + '.amf_next_tics') == t(T)) | (pt(X_) == 1) & b(X_ + '.child_complete') & ((t(X_ + '.amf_cycle_tics') == 0) | (t(X_ + '.amf_next_tics') == t(T))))
    en = lambda X_: ((pt(X_) == 0) | (pt(X_) == 1) | (pt(X_) == 2)).f
    J = f'{SQ}find_job(&{B}.job_queue,{T})'
    st = r.stores(ts, re.escape(J) + r'\.complete', '0')
    r.every('jobs due now are re-armed in every thread', ts, r'each this\.threads')
    if not st: r.ob('jobs due now become incomplete before any thread runs', False, ' no such store', ts.label)
    else: r.same('jobs due now become incomplete before any thread runs', r.tot(st), rdy(B) & b(J), r.at(st), extra=en(B))
    rs = r.sel(ts, SQ + 'reset_curr_index', {0: re.escape('&' + B + '.job_queue')})
    r.before('re-arming starts at the first job', ts, rs, st)
    # the multi threaded loop
    f = r.flow(pq, 'Executive::loop_multi_thread')
    R = f'Executive::isThreadReadyToRun(this,{A},{T})'
    done_wait(r, 'the run starts when every child is waiting', f, A + '.child_complete', TRUE, ('each this.threads from 1',))
    fire = r.sel(f, 'ThreadTriggerBase::fire')
    r.same('exactly the ready children are triggered', r.tot(fire), b(R), r.at(fire, f))
    r.ob('every child is considered for triggering', bool(fire) and all(e.loops[-1] == 'each this.threads from 1' for e in fire), '', r.at(fire, f))
    for lab, path, val in (('the child works at the current time', r'\.curr_time_tics', re.escape(T)), ('the child is marked busy', r'\.child_complete', '0')):
        st = r.stores(f, re.escape(A) + path, val)
        r.same(lab + ' before it is triggered', r.tot(st), b(R), r.at(st, f))
        r.before(lab + ' before it is triggered (order)', f, st, fire)
    st = r.stores(f, re.escape(A) + r'\.amf_next_tics')
    r.ob('the end of the child frame moves on once per trigger', len(st) == 1 and pp(st[0].val) in (f'{A}.amf_cycle_tics+{A}.amf_next_tics', f'{A}.amf_next_tics+{A}.amf_cycle_tics') and equiv(st[0].guard, b(R).f) and st[0].order < fire[0].order if fire else False, str(st)[:300], r.at(st, f))
    sync = fetch('this.thread_sync_queue')
    r.before('children are synchronised before they are triggered', f, r.sel(f, SQ + 'reset_curr_index', {0: r'&this\.thread_sync_queue'}), fire)
    main = r.sel(f, 'JobData::call', {0: re.escape(fetch('this.threads[0].job_queue', T))})
    if not main: raise Broken('loop_multi_thread: scheduled jobs not recognised')
    r.ob('children are triggered before the main thread runs its jobs', bool(fire) and all(x.order < e.order for x in fire for e in main), '', r.at(main))
    def depends(f, calls, lab):
        for e in calls:
            J = pp(e.args[0])
            ws = [x for x in f.effects if x.kind == 'loop' and equiv(x.val, (~b(J + '.depends[*].complete')).f) and x.order < e.order and x.lids[:-1] == e.lids and x.loops[-1].startswith('each ' + J + '.depends')]
            ol = [x for x in f.effects if x.kind == 'loop' and x.name == f'each {J}.depends' and x.lids == e.lids and x.order < e.order]
            r.ob(f'{lab}: a job waits for all jobs it depends on', bool(ws) and bool(ol) and all(F.norm(n) == 0 for x in ol for n in x.nr) and implies(e.guard, r.tot(ol)), ' no wait on every dependency before the call', e.loc)
            if ws: r.same(f'{lab}: the wait is unconditional', r.tot(ol), e.guard, e.loc)
            cs = [x for x in r.stores(f, re.escape(J) + r'\.complete', '1') if x.lids == e.lids and x.order > e.order]
            r.ob(f'{lab}: a job is complete only after it ran', bool(cs) and equiv(r.tot(cs), e.guard) and not [x for x in r.stores(f, re.escape(J) + r'\.complete') if x.order < e.order and x.lids == e.lids], '', e.loc)
    depends(f, main, 'main thread')
    # the child
    g = r.flow(p, 'Threads::thread_body')
    w = r.sel(g, 'ThreadTriggerBase::wait')
    r.ob('a child waits for its trigger in every round', len(w) == 1 and w[0].guard == 1 and w[0].loops == ('loop',), str(w), r.at(w, g))
    calls = r.sel(g, 'JobData::call')
    r.ob('a child only works after its trigger', bool(w) and bool(calls) and all(e.order > w[0].order and e.loops[:1] == ('loop',) for e in calls), '', r.at(calls, g))
    fin = r.stores(g, r'this\.child_complete')
    inl = [e for e in fin if e.loops]
    r.ob('a child reports completion once per round, after all its work', len(inl) == 1 and pp(inl[0].val) == '1' and inl[0].guard == 1 and inl[0].loops == ('loop',) and all(e.order < inl[0].order for e in calls) and
         not [e for e in g.effects if e.order > inl[0].order and e.loops and e.kind != 'loop'], str(fin)[:300], r.at(fin, g))
    r.ob('a child is ready once it has started', bool([e for e in fin if not e.loops and pp(e.val) == '1']), '', r.at(fin, g))
    PT, cyc = t('this.process_type'), t('this.amf_cycle_tics')
    dom3 = ((PT == 0) | (PT == 1) | (PT == 2)).f
    en_ = b('this.enabled')
    frame = en_ & ((PT == 2) | (PT == 1) & (cyc != 0))
    JQ = 'this.job_queue'
    sel = {'cyclic jobs': (fetch(JQ, 'this.curr_time_tics'), en_ & (PT == 0) | frame), 'free running jobs': (fetch(JQ), en_ & (PT == 1) & (cyc == 0)),
           'top of frame jobs': (fetch('this.top_of_frame_queue'), frame), 'end of frame jobs': (fetch('this.end_of_frame_queue'), frame)}
    k = {}
    for lab, (J, when) in sel.items():
        c = k[lab] = r.sel(g, 'JobData::call', {0: re.escape(J)})
        if not c: r.ob(f'child: {lab} run in their rounds', False, '', g.label); continue
        r.same(f'child: {lab} run in their rounds', r.tot(c), when & b(J), r.at(c), extra=dom3)
        for e in c:
            L = [x for x in g.effects if x.kind == 'loop' and x.blk == e.lids[-1]]
            r.ob(f'child: {lab} run until none is left', bool(L) and all(equiv(x.val, b(J).f) and not [n for n in x.nr if F.norm(n)] for x in L), '', e.loc)
            q = re.search(r'&(this\.\w+)', J).group(1)
            r.before(f'child: {lab} start at the first', g, [x for x in r.sel(g, SQ + 'reset_curr_index', {0: '&' + re.escape(q)}) if not set(x.loops) - set(e.loops) and (x.lids == e.lids[:-1])], [e])
    r.ob('a child runs nothing else', len(calls) == sum(len(x) for x in k.values()), '', g.label)
    depends(g, k['cyclic jobs'] + k['free running jobs'], 'child')
    HZ = NX.replace('&', '&') % JQ
    fr = [e for e in g.effects if e.kind == 'loop' and equiv(e.val, (t(HZ) < t('this.amf_next_tics')).f)]
    r.same('a frame child works through its whole frame', r.tot(fr), frame, r.at(fr, g), extra=dom3)
    for e in k['cyclic jobs']:
        if implies(e.guard, frame.f, dom3) and not implies(e.guard, (PT == 0).f):
            r.ob('frame jobs run inside the frame', any(x.blk in e.lids for x in fr), '', e.loc)
            for q in ('top of frame jobs', 'end of frame jobs'):
                same = [x for x in k[q] if M.AND(F.norm(x.guard), F.norm(e.guard))]
                r.ob(f'{q} run {"before" if q[0] == "t" else "after"} the frame', bool(same) and all((x.order < e.order) == (q[0] == 't') for x in same), '', e.loc)
    ct = r.stores(g, r'this\.curr_time_tics')
    r.ob('the child time follows its next pending job', bool(ct) and all(pp(e.val) == HZ and any(x.blk in e.lids for x in fr) for e in ct), str(ct)[:300], r.at(ct, g))
    hz = r.sel(g, SQ + 'set_next_job_call_time', {0: '&this.job_queue'})
    r.same('the pending-call horizon of a frame child ends with the frame', r.tot([e for e in hz if pp(e.args[1]) == 'this.amf_next_tics']), frame, r.at(hz, g), extra=dom3)
    r.same('a scheduled child looks for its next pending call without limit', r.tot([e for e in hz if pp(e.args[1]) == '9223372036854775807' and implies(e.guard, (PT == 0).f)]), en_ & (PT == 0), r.at(hz, g), extra=dom3)
    # who else may touch the handshake
    p2 = u.extract(all=True, inline=False)
    for fn, i in scan.writers(p2, 'Threads', 'child_complete'):
        ok = fn.name in ('Threads::Threads', 'Threads::thread_body', 'Executive::loop_multi_thread') or fn.name not in KN()
        r.ob('only the loop and the child itself move the busy mark', ok, f' {fn.name} writes it', fn.name)
    return r.finish('Handshake between main loop and child threads: guards, order and completeness of waits, triggers and job runs, and the writers of the handshake flag.',
                    ['a trigger wakes its thread at least once per fire (the platform primitives)', 'memory ordering of the plain flags is not decided'], floor=50)

_kn = set()
def KN():
    if not _kn: _kn.update(l.strip() for l in open(os.path.join(VERIF, 'rules', 'known.txt')))
    return _kn


def e06(r):
    u = r.unit(EX)
    p = u.extract(roots=['Executive::loop_single_thread\\(', 'Executive::loop_multi_thread\\(', 'Executive::init\\(', 'Executive::set_software_frame\\('], opaque=OPQ)
    T = 'this.time_tics'
    NF, SF = t('this.next_frame_check_tics'), t('this.software_frame_tics')
    last, term, cmd = t('this.time_last_pass_tics'), t('this.terminate_time'), t('this.exec_command')
    for n in ('loop_single_thread', 'loop_multi_thread'):
        f = r.flow(p, 'Executive::' + n)
        multi = 'multi' in n
        go = ~(term <= last)
        start, end = t(T) == NF - SF, t(T) == NF
        seq = []
        z = r.sel(f, 'Executive::freeze_loop')
        r.call_when(f'{n}: a requested freeze is entered before any job of the step', f, 'Executive::freeze_loop', cmd == 2)
        st = [e for e in r.stores(f, r'this\.exec_command', '0') if implies(e.guard, (cmd == 2).f)]
        r.same(f'{n}: the freeze request is consumed', r.tot(st), cmd == 2, r.at(st, f))
        r.ob(f'{n}: the request is consumed before freezing', bool(z) and bool(st) and st[0].order < z[0].order, '', r.at(st, f))
        seq.append(('freeze', z))
        def pas(lab, q, when, time=None, extra=1, loops=('loop',)):
            g, c = jobloop(r, f, q, time, fail=False)
            if c:
                r.same(f'{n}: {lab} jobs run at their point of the frame', g, when, r.at(c), extra)
                r.ob(f'{n}: {lab} jobs run in every round', all(e.loops[:len(loops)] == loops for e in c), str(c[0].loops), r.at(c))
            seq.append((lab, c))
        pas('top of frame', 'this.top_of_frame_queue', start)
        if multi: pas('child top of frame', CH + '.top_of_frame_queue', start & (t(CH + '.process_type') == 0), loops=('loop', 'each this.threads from 1'))
        fc_ = r.stores(f, r'this\.frame_count')
        r.ob(f'{n}: every frame is counted once', len(fc_) == 1 and pp(fc_[0].val) == 'this.frame_count+1' and equiv(fc_[0].guard, start.f), str(fc_)[:300], r.at(fc_, f))
        if multi: pas('thread synchronisation', 'this.thread_sync_queue', TRUE)
        pas('input processor', 'this.input_processor_run_queue', TRUE, T)
        pas('scheduled', 'this.threads[0].job_queue', TRUE, T)
        MJ = fetch('this.threads[0].job_queue', T)
        IJ = fetch('this.input_processor_run_queue', T)
        te = r.sel(f, SQ + 'test_next_job_call_time', {0: r'&this\.threads\[0\]\.job_queue', 1: re.escape(MJ), 2: re.escape(T)})
        r.same(f'{n}: a job that reschedules itself is seen by the time advance', r.tot(te), b(MJ) & (t(MJ + '.system_job_class') != 0), r.at(te, f))
        te2 = r.sel(f, SQ + 'test_next_job_call_time', {0: r'&this\.input_processor_run_queue', 1: re.escape(IJ), 2: re.escape(T)})
        r.imp(f'{n}: an input event that reschedules itself is seen by the time advance', b(IJ) & (t(IJ + '.system_job_class') != 0), r.tot(te2), r.at(te2, f))
        for x in te: r.ob(f'{n}: rescheduling is looked at after the job', any(c.order < x.order for c in seq[-1][1]), '', x.loc)
        ex = [e for e in r.sel(f, 'exec_terminate_with_return', {0: '0'})]
        r.same(f'{n}: the run ends on an exit request or at the end time', r.tot(ex), (cmd == 10) | (term <= last), r.at(ex, f))
        rc = [e for e in r.stores(f, r'this\.exec_command', '0') if implies(e.guard, (cmd == 3).f)]
        r.same(f'{n}: a run request while running is dropped', r.tot(rc), cmd == 3, r.at(rc, f))
        seq.append(('end', ex))
        pas('end of frame', 'this.end_of_frame_queue', end, extra=go.f)
        if multi: pas('child end of frame', CH + '.end_of_frame_queue', end & (t(CH + '.process_type') == 0), extra=go.f, loops=('loop', 'each this.threads from 1'))
        if multi:
            for q, w in (('top', start), ('end', end)):
                lp = [e for e in f.effects if e.kind == 'loop' and e.name == 'each this.threads from 1' and e.loops == ('loop',)]
                r.ob(f'{n}: all children are visited', bool(lp) and not [1 for e in lp for k in e.nr if F.norm(k)], '', f.label)
        fr = r.stores(f, r'this\.next_frame_check_tics')
        r.ob(f'{n}: the next frame ends one frame later', len(fr) == 1 and pp(fr[0].val) in ('this.next_frame_check_tics+this.software_frame_tics', 'this.software_frame_tics+this.next_frame_check_tics'), str(fr)[:300], r.at(fr, f))
        r.same(f'{n}: the frame end moves at the frame end', r.tot(fr), end, r.at(fr, f), extra=go.f)
        seq.append(('frame', fr))
        have = [(l, c) for l, c in seq if c]
        for (l1, a), (l2, c) in zip(have, have[1:]):
            r.ob(f'{n}: {l1} comes before {l2}', max(e.order for e in a) < min(e.order for e in c), '', r.at(c, f))
        others = [e for e in r.sel(f, 'JobData::call') if not any(e in c for _, c in seq)]
        r.ob(f'{n}: no other jobs run', not others, str(others)[:300], r.at(others, f))
        body = [e for e in f.effects if e.kind == 'loop' and e.name == 'loop']
        r.ob(f'{n}: the loop only ends by termination', bool(body) and not [k for e in body for k in e.nr if F.norm(k)], '', f.label)
    x = r.flow(p, 'Executive::init')
    st = r.stores(x, r'this\.next_frame_check_tics')
    r.ob('the first frame ends one frame after the start time', bool(st) and all(pp(e.val) in ('this.software_frame_tics+this.time_tics', 'this.time_tics+this.software_frame_tics') for e in st), str(st)[:300], r.at(st, x))
    r.same('the first frame is always set up', r.tot(st), TRUE, r.at(st, x))
    ini = r.sel(x, 'Executive::call_initialization') + r.sel(x, 'Executive::call_input_processor')
    r.ob('the first frame is set up after the input and the initialization', bool(ini) and bool(st) and all(e.order < st[-1].order for e in ini), '', r.at(st, x))
    x = r.flow(p, 'Executive::set_software_frame')
    tic = 'toint(fmul(arg1,tofp(this.time_tic_value)))'
    r.ob('a new frame length takes effect in tics', pp(x.final('this.software_frame_tics')) in (tic, 'toint(round(fmul(arg1,tofp(this.time_tic_value))))'), ' is ' + pp(x.final('this.software_frame_tics')), x.label)
    r.final_is('a new frame length is kept in seconds', x, 'this.software_frame', {'arg1': TRUE})
    p2 = u.extract(all=True, inline=False)
    for fld in ('next_frame_check_tics', 'frame_count'):
        for fn, i in scan.writers(p2, 'Executive', fld):
            ok = fn.name in ('Executive::Executive', 'Executive::init', 'Executive::loop_multi_thread', 'Executive::loop_single_thread', 'Executive::set_software_frame', 'Executive::set_time_tic_value') or fn.name not in KN()
            r.ob('only the loops move the frame', ok, f' {fn.name} writes {fld}', fn.name)
    return r.finish('Order, guards and completeness of every job pass, command and frame update in one round of the main loops.', ['exec_terminate_with_return does not return (E04)'], floor=60)

def e07(r):
    u = r.unit(EX)
    roots = ['Executive::' + x + '\\(' for x in ('freeze_loop', 'loop', 'freeze', 'async_freeze_to_exec_command', 'sched_freeze_to_exec_command', 'init_freeze_scheduled', 'run', 'stop', 'set_terminate_time', 'loop_single_thread', 'loop_multi_thread')]
    p = u.extract(roots=roots, opaque=OPQ)
    f = r.flow(p, 'Executive::freeze_loop')
    FT, NFF = t('this.freeze_time_tics'), t('this.next_freeze_frame_check_tics')
    mode, cmd = t('this.mode'), t('this.exec_command')
    md = r.parts(r.stores(f, r'this\.mode'))
    calls = r.sel(f, 'JobData::call')
    r.ob('the mode is freeze before the first freeze job', bool(md) and pp(md[0].val) == '1' and md[0].guard == 1 and all(md[0].order < e.order for e in calls), str(md)[:200], f.label)
    g0, c0 = jobloop(r, f, 'this.freeze_init_queue', fail=False)
    r.same('freeze init jobs run on every freeze', g0, TRUE, r.at(c0, f))
    out = [e for e in f.effects if e.kind == 'loop' and equiv(e.val, (mode == 1).f)]
    r.ob('freeze lasts until the mode changes', len(out) == 1 and out[0].guard == 1 and not out[0].loops and not [x for x in out[0].nr if F.norm(x)], str(out), f.label)
    if not out: return r.finish('freeze', floor=1)
    L = out[0]
    inn = [e for e in f.effects if e.kind == 'loop' and equiv(e.val, (FT < NFF).f) and e.lids == (L.blk,)]
    r.ob('freeze time runs to the end of its frame', len(inn) == 1 and equiv(inn[0].guard, (mode == 1).f), '', f.label)
    g1, c1 = jobloop(r, f, 'this.freeze_scheduled_queue', 'this.freeze_time_tics', fail=False)
    r.ob('freeze cyclic jobs run inside the freeze frame', bool(c1) and bool(inn) and all(inn[0].blk in e.lids for e in c1), '', r.at(c1, f))
    r.same('freeze cyclic jobs run at every freeze time', g1, (mode == 1) & (FT < NFF), r.at(c1, f))
    N = NX % 'this.freeze_scheduled_queue'
    st = r.stores(f, r'this\.freeze_time_tics')
    r.ob('freeze time is only moved by its loop', bool(st) and all(inn and inn[0].blk in e.lids and all(c.order < e.order for c in c1) for e in st), '', r.at(st, f))
    ini = dict(next=(3, 5, 8), nff=(4, 6), cur=(1,), m=(1,))
    nm = {'next': N, 'nff': 'this.next_freeze_frame_check_tics', 'cur': ['this.freeze_time_tics'], 'm': 'this.mode'}
    r.table('freeze time moves to the next freeze call, at most to the frame end', r.cell(f, r'this\.freeze_time_tics', 'this.freeze_time_tics'), ini, lambda v: min(v['next'], v['nff']), f.label, names=nm)
    te = r.sel(f, SQ + 'test_next_job_call_time', {0: r'&this\.freeze_scheduled_queue'})
    FJ = fetch('this.freeze_scheduled_queue', 'this.freeze_time_tics')
    r.imp('a freeze job that reschedules itself is seen', (mode == 1) & (FT < NFF) & b(FJ) & (t(FJ + '.system_job_class') != 0), r.tot(te), r.at(te, f))
    hz = r.sel(f, SQ + 'set_next_job_call_time', {0: r'&this\.freeze_scheduled_queue'})
    r.ob('the freeze call horizon is re-armed after each move', bool(hz) and bool(st) and all(e.order > st[-1].order and inn[0].blk in e.lids for e in hz), '', r.at(hz, f))
    nf = r.stores(f, r'this\.next_freeze_frame_check_tics')
    r.ob('freeze frames follow each other', len(nf) == 1 and pp(nf[0].val) in ('this.freeze_frame_tics+this.next_freeze_frame_check_tics', 'this.next_freeze_frame_check_tics+this.freeze_frame_tics') and nf[0].lids == (L.blk,) and equiv(nf[0].guard, (mode == 1).f), str(nf)[:300], r.at(nf, f))
    g2, c2 = jobloop(r, f, 'this.freeze_queue', fail=False)
    r.same('freeze jobs run once per freeze frame', g2, mode == 1, r.at(c2, f))
    r.ob('freeze jobs run after the freeze time has moved', bool(c2) and bool(inn) and all(e.order > inn[0].order and e.lids[0] == L.blk for e in c2), '', r.at(c2, f))
    leave = [e for e in md if pp(e.val) == '5']
    r.same('freeze ends exactly on a run request', r.tot(leave), (mode == 1) & (cmd == 3), r.at(leave, f))
    r.ob('freeze ends no other way', {pp(e.val) for e in md} == {'1', '5'} and sum(1 for e in md if pp(e.val) == '1') == 1, str([pp(e.val) for e in md]), r.at(md, f))
    cl = r.stores(f, r'this\.exec_command')
    r.same('run and freeze requests are consumed', r.tot(cl), (mode == 1) & ((cmd == 3) | (cmd == 2)), r.at(cl, f))
    r.ob('consumed requests leave none behind', {pp(e.val) for e in cl} == {'0'}, '', r.at(cl, f))
    ex = r.sel(f, 'exec_terminate_with_return', {0: '0'})
    r.same('an exit request ends the simulation from freeze', r.tot(ex), (mode == 1) & (cmd == 10), r.at(ex, f))
    for e in leave + ex: r.ob('requests are looked at after the freeze jobs', all(c.order < e.order for c in c2), '', e.loc)
    g3, c3 = jobloop(r, f, 'this.unfreeze_queue', fail=False)
    r.same('unfreeze jobs run when freeze ends', g3, TRUE, r.at(c3, f))
    r.ob('unfreeze jobs run after freeze', bool(c3) and all(e.order > max(x.order for x in c2 + leave) and L.blk not in e.lids for e in c3), '', r.at(c3, f))
    r.ob('freeze init, freeze and unfreeze are the only jobs of a freeze', len(calls) == len(c0) + len(c1) + len(c2) + len(c3), '', f.label)
    r.ob('simulation time stands still in freeze', not r.stores(f, r'this\.time_tics') and not r.sel(f, 'Executive::advance_sim_time'), '', f.label)
    # requests
    x = r.flow(p, 'Executive::loop')
    SZ = t('size(this.threads)', True)
    r.store_when('a run can start in freeze', x, r'this\.exec_command', ~(SZ == 0) & b('this.freeze_command'), '2')
    r.store_when('a run starts in run mode', x, r'this\.mode', ~(SZ == 0), '5')
    r.call_when('one thread: single threaded loop', x, 'Executive::loop_single_thread', SZ == 1)
    r.call_when('several threads: multi threaded loop', x, 'Executive::loop_multi_thread', ~(SZ == 0) & ~(SZ == 1))
    x = r.flow(p, 'Executive::freeze', [])
    r.store_when('an immediate freeze is requested', x, r'this\.async_freeze_command', TRUE, '1')
    x = r.flow(p, 'Executive::async_freeze_to_exec_command')
    r.store_when('an immediate freeze request becomes the freeze command', x, r'this\.exec_command', b('this.async_freeze_command'), '2')
    r.store_when('an immediate freeze request is used once', x, r'this\.async_freeze_command', b('this.async_freeze_command'), '0')
    x = r.flow(p, 'Executive::freeze', ['double'])
    W = 'toint(fmul(arg1,tofp(this.time_tic_value)))'
    ps = r.sel(x, 'push', {0: r'&this\.freeze_times'})
    W = pp(ps[0].args[1]) if ps else W
    r.ob('a scheduled freeze is kept in tics', W in ('toint(fmul(arg1,tofp(this.time_tic_value)))', 'toint(round(fmul(arg1,tofp(this.time_tic_value))))'), ' is ' + W, r.at(ps, x))
    fut = t(W) > t('this.time_tics')
    r.same('a future freeze time is remembered', r.tot(ps), fut, r.at(ps, x))
    st = r.stores(x, r'this\.freeze_job\.next_tics', re.escape(W))
    r.same('the freeze job is due at the earliest freeze time', r.tot(st), fut & (t(W) < t('this.freeze_job.next_tics')), r.at(st, x))
    x = r.flow(p, 'Executive::sched_freeze_to_exec_command')
    FS = t('size(this.freeze_times)', True)
    top = t('this.freeze_times[top()]')
    look = b('arg1') | ~b('this.freeze_on_frame_boundary')
    st, po = r.stores(x, r'this\.exec_command', '2'), r.sel(x, 'pop', {0: r'&this\.freeze_times'})
    r.same('a reached freeze time raises the freeze command', r.tot(st), look & ~(FS == 0) & (top <= t('this.time_tics')), r.at(st, x))
    r.same('a reached freeze time is used once', r.tot(po), look & ~(FS == 0) & (top <= t('this.time_tics')), r.at(po, x))
    r.ob('all reached freeze times are used', bool(po) and all(e.loops for e in po) and bool(st), '', r.at(po, x))
    J = b('this.freeze_job')
    st = r.stores(x, r'this\.freeze_job\.next_tics', r'this\.freeze_times\[top\(\)\]')
    r.same('the freeze job is due at the next freeze time', F.xfree(F.norm(r.tot(st))), look & ~(FS == 0) & J, r.at(st, x))
    st2 = r.stores(x, r'this\.freeze_job\.next_tics', '9223372036854775807')
    r.same('without a freeze time the freeze job is idle', F.xfree(F.norm(r.tot(st2))), look & (FS == 0) & J, r.at(st2, x))
    for e in st + st2: r.ob('the freeze job is re-armed after the reached times are dropped', bool(po) and e.order > po[-1].order and not e.loops, '', e.loc)
    x = r.flow(p, 'Executive::run')
    r.store_when('run requests run', x, r'this\.exec_command', TRUE, '3')
    x = r.flow(p, 'Executive::stop', [])
    r.store_when('stop requests exit', x, r'this\.exec_command', TRUE, '10')
    x = r.flow(p, 'Executive::stop', ['double'])
    r.ob('stop at a time sets the end time', r.tot(r.sel(x, 'Executive::set_terminate_time', {1: 'arg1'})) == 1 or 'arg1' in pp(x.final('this.terminate_time')), '', x.label)
    x = r.flow(p, 'Executive::set_terminate_time')
    v = pp(x.final('this.terminate_time'))
    r.ob('the end time is kept in tics', v in ('toint(fmul(arg1,tofp(this.time_tic_value)))', 'toint(round(fmul(arg1,tofp(this.time_tic_value))))'), ' is ' + v, x.label)
    x = r.flow(p, 'Executive::init_freeze_scheduled')
    r.final_is('freeze time starts at zero', x, 'this.freeze_time_tics', {'0': TRUE})
    r.final_is('the first freeze frame is one frame long', x, 'this.next_freeze_frame_check_tics', {'this.freeze_frame_tics': TRUE})
    NJ = fetch('this.freeze_scheduled_queue')
    st = r.stores(x, re.escape(NJ) + r'\.next_tics', '0')
    r.same('every freeze cyclic job is due at freeze start', r.tot(st), b(NJ), r.at(st, x))
    r.before('from the first freeze cyclic job on', x, r.sel(x, SQ + 'reset_curr_index', {0: r'&this\.freeze_scheduled_queue'}), st)
    # nobody else changes mode
    p2 = u.extract(all=True, inline=False)
    for fn, i in scan.writers(p2, 'Executive', 'mode'):
        ok = fn.name in ('Executive::Executive', 'Executive::freeze_loop', 'Executive::init', 'Executive::loop', 'Executive::shutdown') or fn.name not in KN()
        r.ob('only the phases of the executive change the mode', ok, f' {fn.name} writes it', fn.name)
    return r.finish('Guards and order of all effects of the freeze loop and the mode requests.', ['the freeze request jobs are called by the executive sim object as shipped'], floor=60)

RULES = {'E01': e01, 'E04': e04, 'E05': e05, 'E06': e06, 'E07': e07}
