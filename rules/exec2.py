"""executive: start-up and shutdown, job routing, restart, tic changes"""
import re, scan
from vk import *
from flow import pp, _addr, M
from rules.exec import EX, OPQ, SQ, CH, fetch, jobloop, KN

def done_before(r, label, f, a, bs):
    r.ob(label, bool(a) and bool(bs) and max(e.order for e in a) < min(e.order for e in bs), '', r.at(bs or a, f))

def e08(r):
    u = r.unit(EX)
    p = u.extract(roots=['Executive::init\\(', 'Executive::shutdown\\(', 'Executive::call_(default_data|input_processor|initialization)\\('], opaque=OPQ + ['VariableServer::', 'SysThread::', 'ThreadBase::', 'operator<<', 'message_publish'])
    f = r.flow(p, 'Executive::init')
    md = r.stores(f, r'this\.mode')
    steps = {n: r.sel(f, 'Executive::call_' + n) for n in ('default_data', 'input_processor', 'initialization')}
    r.ob('the run starts in initialization mode', bool(md) and all(pp(e.val) == '0' for e in md) and r.tot(md) == 1, str(md)[:200], r.at(md, f))
    for n, es in steps.items():
        r.same(f'init: the {n} jobs run once' + (' unless a checkpoint was loaded' if n == 'initialization' else ''), r.tot(es), ~b('this.restart_called') if n == 'initialization' else TRUE, r.at(es, f))
        r.ob(f'init: the {n} jobs run once, not in a loop', bool(es) and all(not e.loops for e in es), '', r.at(es, f))
    done_before(r, 'init: the mode is set first', f, md, steps['default_data'])
    done_before(r, 'init: default data before input', f, steps['default_data'], steps['input_processor'])
    done_before(r, 'init: input before initialization', f, steps['input_processor'], steps['initialization'])
    ic = r.stores(f, r'this\.initialization_complete', '1')
    r.same('init: a successful initialization is recorded', r.tot(ic), TRUE, r.at(ic, f))
    done_before(r, 'init: completion is recorded after the jobs', f, steps['initialization'], ic)
    r.ob('init: completion is recorded only there', len(r.stores(f, r'this\.initialization_complete')) == len(ic), '', f.label)
    g = r.flow(p, 'Executive::init', eh=True)
    for e in r.stores(g, r'this\.initialization_complete', '1'):
        st = r.stores(g, r'this\.except_return')
        r.ob('init: a failed initialization is not complete', M.AND(F.norm(e.guard), F.norm(r.tot(st))) == 0, '', e.loc)
    for n, q in (('default_data', 'default_data_queue'), ('initialization', 'initialization_queue')):
        x = r.flow(p, 'Executive::call_' + n)
        o, c = jobloop(r, x, 'this.' + q, fail=False)
        r.same(f'all {n} jobs are run', o, TRUE, r.at(c, x))
    x = r.flow(p, 'Executive::call_input_processor')
    J = fetch('this.input_processor_queue')
    c = r.sel(x, 'JobData::call', {0: re.escape(J)})
    r.same('input processor jobs run until a checkpoint is loaded', r.tot(c), ~b('this.restart_called') & b(J), r.at(c, x))
    r.before('input processing starts with the first job', x, r.sel(x, SQ + 'reset_curr_index', {0: r'&this\.input_processor_queue'}), c)
    # shutdown
    s = r.flow(p, 'Executive::shutdown')
    md = r.stores(s, r'this\.mode')
    r.ob('shutdown: exit mode first', bool(md) and all(pp(e.val) == '6' for e in md) and r.tot(md) == 1, str(md)[:200], r.at(md, s))
    A = CH
    pt = t(A + '.process_type')
    run = ~(t('this.mode') == 0)
    r.waits('shutdown: waits for asynchronous children that ask for it', s, ~b(A + '.child_complete'), run & ((pt == 1) | (pt == 2)) & b(A + '.shutdown_wait_async'), ('each this.threads from 1',))
    r.every('shutdown: every child is considered', s, r'each this\.threads from 1')
    w = [e for e in s.effects if e.kind == 'loop' and equiv(e.val, (~b(A + '.child_complete')).f)]
    vs = r.sel(s, 'VariableServer::shutdownConnections')
    r.same('shutdown: the variable server connections are closed', r.tot(vs), TRUE, r.at(vs, s))
    o, c = jobloop(r, s, 'this.shutdown_queue', fail=False)
    r.same('shutdown jobs run exactly after a complete initialization', o, b('this.initialization_complete'), r.at(c, s))
    if md and w and c:
        r.ob('shutdown: children finish before the shutdown jobs', md[0].order < w[0].order < c[0].order, '', r.at(w))
    r.ob('shutdown: connections close before the shutdown jobs', bool(vs) and bool(c) and vs[0].order < c[0].order, '', r.at(vs, s))
    en = r.sel(s, 'SysThread::ensureAllShutdown')
    r.same('shutdown: all service threads are ended', r.tot(en), TRUE, r.at(en, s))
    done_before(r, 'shutdown: service threads end after the shutdown jobs', s, c, en)
    sx = r.flow(p, 'Executive::shutdown', eh=True)
    en = r.sel(sx, 'SysThread::ensureAllShutdown')
    r.same('shutdown: a terminating shutdown job does not skip the rest', r.tot(en), TRUE, r.at(en, sx), extra=(t('eh(&typeinfo for Trick::ExecutiveException)') == t('ev1(uninit)')).f)
    ca = r.sel(s, 'pthread_cancel')
    r.same('shutdown: running children are cancelled at the end', r.tot(ca), b(A + '.running'), r.at(ca, s))
    done_before(r, 'shutdown: children are cancelled last', s, c + r.sel(s, 'SysThread::ensureAllShutdown'), ca)
    p2 = u.extract(all=True, inline=False)
    for fn, i in scan.writers(p2, 'Executive', 'initialization_complete'):
        r.ob('only the initialization completes the initialization', fn.name in ('Executive::Executive', 'Executive::init') or fn.name not in KN(), f' {fn.name} writes it', fn.name)
    return r.finish('Order, guards and completeness of the start-up and shutdown sequences.', ['C++ exception delivery'], floor=38)

def routes(r, f, op, J, cls, lab):
    """where does op send job J: the queues and the guards"""
    found = G(M.NOT(F.ptr_eq(tt('end(this.class_map)'), tt('find(this.class_map)'))))
    inq = G(M.NOT(F.ptr_eq(tt('end(this.class_to_queue)'), tt('find(this.class_to_queue)'))))
    ge = t(cls) >= t('this.scheduled_start_index')
    main = t(J + '.thread') == 0
    nm = lambda s: t(f'compare("{s}",{J}.job_class_name)') == 0
    both = ~(nm('top_of_frame') & nm('end_of_frame'))
    es = r.sel(f, SQ + op)
    es = [e for e in es if pp(e.args[1]) == J]
    Q = lambda x: [e for e in es if re.fullmatch(x, pp(e.args[0]))]
    TH = r'&this\.threads\[(0|' + re.escape(J) + r'\.thread)\]'
    want = {'the job queue of its thread': (Q(TH + r'\.job_queue'), found & ge), 'the list of all scheduled jobs': (Q(r'&this\.scheduled_queue'), found & ge),
            'the top of frame queue of its thread': (Q(TH + r'\.top_of_frame_queue'), found & ~ge & ~main & nm('top_of_frame')),
            'the end of frame queue of its thread': (Q(TH + r'\.end_of_frame_queue'), found & ~ge & ~main & nm('end_of_frame')),
            'the queue of its class': (Q(r'this\.class_to_queue\[' + re.escape(cls) + r'\]\.second'), found & ~ge & inq & (main | ~nm('top_of_frame') & ~nm('end_of_frame')))}
    seen = 0
    for n, (xs, g) in want.items():
        seen += len(xs)
        r.same(f'{lab}: {n}', r.tot(xs), g, r.at(xs, f), extra=both.f)
        for e in xs:
            if 'threads[0]' in pp(e.args[0]): r.imp(f'{lab}: only main thread jobs use the main queues', e.guard, main, e.loc)
    r.ob(f'{lab}: nowhere else', seen == len(es), str([pp(e.args[0]) for e in es])[:300], f.label)
    return found, inq, ge, main, nm, both, es

def e09(r):
    u = r.unit(EX)
    p = u.extract(roots=['Executive::add_job_to_queue\\(', 'Executive::remove_jobs\\(', 'Executive::delete_sim_object\\(', 'Executive::add_sim_object\\(', 'Executive::clear_scheduled_queues\\(', 'Executive::Executive\\(', 'Threads::clear_scheduled_queues', 'Executive::add_jobs_to_queue\\('],
                  opaque=OPQ + ['message_publish', 'Scheduler::'])
    f = r.flow(p, 'Executive::add_job_to_queue')
    C = 'this.class_map[arg1.job_class_name].second'
    found, inq, ge, main, nm, both, es = routes(r, f, 'push', 'arg1', C, 'add')
    st = r.stores(f, r'arg1\.job_class')
    r.same('add: a job of a known class gets the number of its class', r.tot([e for e in r.parts(st) if pp(e.val) == C]), found, r.at(st, f))
    r.ob('add: and no other number', all(pp(e.val) == C for e in r.parts(st)), str(st)[:200], r.at(st, f))
    cs = f.cases(f.retval())
    r.same('add: success is reported exactly for queued jobs', cs.get('0', 0), r.tot(es), f.label, extra=both.f)
    for reg, what in (('all_jobs', 'arg1'), ('all_jobs_vector', 'arg1')):
        c = r.sel(f, 'push_back|insert|emplace|emplace_back', {0: r'&this\.' + reg})
        r.same(f'add: every job is registered in {reg}', r.tot(c), TRUE, r.at(c, f))
        r.ob(f'add: once in {reg}', len(c) == 1 and not c[0].loops, str(c)[:200], r.at(c, f))
    c = r.sel(f, 'push_back|insert|emplace', {0: r'&this\.all_tagged_jobs'})
    r.ob('add: every tag is registered', bool(c) and r.tot(c) == 1 and all(e.loops for e in c), str(c)[:200], r.at(c, f))
    # removal
    g = r.flow(p, 'Executive::remove_jobs')
    J = 'arg1.jobs[*]'
    es2 = routes(r, g, 'remove', J, J + '.job_class', 'remove')[-1]
    r.every('remove: every job of the object is removed', g, r'each arg1\.jobs')
    r.ob('remove: for each job of the object', bool(es2) and all(e.loops and e.loops[-1] == 'each arg1.jobs' for e in es2), '', g.label)
    for reg in ('all_jobs', 'all_jobs_vector', 'all_tagged_jobs'):
        c = r.sel(g, 'erase', {0: r'&this\.' + reg})
        ok = bool(c) and all(e.loops for e in c)
        rm = [e for e in c if pp(e.args[1]).startswith(f'remove(begin(this.{reg}),end(this.{reg}),')]
        if rm and len(rm) == len(c): c = r.sel(g, 'vk_mark', {0: rf'&this\.{reg}\[\*\]'}); ok = bool(c) and r.tot(rm) == 1 and all(pp(e.args[2]) == f'end(this.{reg})' for e in rm if len(e.args) > 2)
        for e in c:                     # taken out exactly when the owner of the element looked at is the object
            own = [v for v in M.support(F.norm(e.guard)) if M.vars[v][0] == 'EQ' and {'.parent_object', 'arg1'} == {('.parent_object' if pp(x).endswith('.parent_object') else pp(x)) for x in M.vars[v][1:3]}]
            ok = ok and len(own) == 1 and equiv(e.guard, M.var(M.vars[own[0]]))
        r.ob(f'remove: exactly the jobs of the object leave {reg}', ok, ' when ' + (pbdd(F.norm(c[0].guard)) if c else 'never'), r.at(c, g))
    # objects
    d = r.flow(p, 'Executive::delete_sim_object')
    r.call_when('delete: the jobs of a deleted object leave the queues', d, 'Executive::remove_jobs', TRUE, {1: 'arg1'})
    a = r.flow(p, 'Executive::add_sim_object', ['Trick::SimObject*', 'char const*'])
    q = r.sel(a, 'Executive::add_jobs_to_queue', {1: 'arg1'})
    r.ob('add: the jobs of an added object are queued', r.tot(q) == 1 and all(len(e.args) < 3 or pp(e.args[2]) == '0' for e in q), str(q)[:200], r.at(q, a))
    r.ob('add: an added object is numbered before its jobs are queued', bool(q) and bool([e for e in r.stores(a, r'arg1\.id') if e.guard == 1 and e.order < q[0].order and pp(e.val) == 'this.num_sim_objects+1']), '', a.label)
    r.same('add: an added object is listed', r.tot(r.sel(a, 'push_back', {0: r'&this\.sim_objects', 1: 'arg1'})), TRUE, a.label)
    for fl, v, fn in ((a, 'add', 'add_sim_object'), (d, 'delete', 'delete_sim_object')):
        r.call_when(f'{v}: every other scheduler is told', fl, 'Scheduler::' + fn, TRUE, {0: r'this\.other_schedulers\[\*\]', 1: 'arg1'}, loops=('each this.other_schedulers',))
        r.every(f'{v}: all other schedulers', fl, r'each this\.other_schedulers')
        for part in ('pre', 'post'):
            r.call_when(f'{v}: {part} component objects follow', fl, 'Executive::' + fn, TRUE, {1: rf'arg1\.{part}_component_objects\[\*\]'}, loops=(f'each arg1.{part}_component_objects',))
            r.every(f'{v}: all {part} component objects', fl, rf'each arg1\.{part}_component_objects')
    # class registration and clearing
    k = r.flow(p, 'Executive::Executive')
    qs, cl = {}, {}
    for e in k.effects:
        if e.kind == 'store':
            m = re.fullmatch(r'this\.class_to_queue\[(\d+)\](\.second)?', _addr(e.addr))
            if m: qs[m[1]] = pp(e.val)
            m = re.fullmatch(r'this\.class_map\["(\w+)"\](\.second)?', _addr(e.addr))
            if m: cl[m[1]] = pp(e.val)
    want = {'default_data': 'default_data_queue', 'input_processor': 'input_processor_queue', 'initialization': 'initialization_queue', 'input_processor_run': 'input_processor_run_queue',
            'system_thread_sync': 'thread_sync_queue', 'top_of_frame': 'top_of_frame_queue', 'end_of_frame': 'end_of_frame_queue', 'shutdown': 'shutdown_queue', 'freeze_init': 'freeze_init_queue',
            'freeze_scheduled': 'freeze_scheduled_queue', 'freeze_automatic': 'freeze_scheduled_queue', 'freeze': 'freeze_queue', 'unfreeze': 'unfreeze_queue', 'exec_time_tic_changed': 'time_tic_changed_queue'}
    for c, q in want.items():
        r.ob(f'class {c} goes to its queue', qs.get(cl.get(c)) == '&this.' + q, f' class {cl.get(c)} -> {qs.get(cl.get(c))}', k.label)
    r.ob('class numbers are distinct', len(set(cl.values())) == len(cl), str(cl), k.label)
    z = r.flow(p, 'Executive::clear_scheduled_queues')
    for q in sorted(set(qs.values()) | {'&this.scheduled_queue'}):
        c = r.sel(z, SQ + 'clear', {0: re.escape(q)})
        r.ob(f'clear: {q[1:]} is emptied', bool(c) and r.tot(c) == 1, '', r.at(c, z))
    r.call_when('clear: every thread is emptied', z, 'Threads::clear_scheduled_queues', TRUE, {0: r'this\.threads\[\*\]'}, loops=('each this.threads',))
    r.every('clear: all threads', z, r'each this\.threads')
    y = r.flow(p, 'Threads::clear_scheduled_queues')
    for q in ('job_queue', 'top_of_frame_queue', 'end_of_frame_queue'):
        c = r.sel(y, SQ + 'clear', {0: '&this\\.' + q})
        r.ob(f'clear: {q} of a thread is emptied', bool(c) and r.tot(c) == 1, '', r.at(c, y))
    # threads exist for their jobs
    w = r.flow(p, 'Executive::add_jobs_to_queue')
    r.every('every job of an added object is queued', w, r'each arg1\.jobs')
    c = r.sel(w, 'Executive::add_job_to_queue', {1: re.escape(J)})
    r.ob('every job is queued once', len(c) == 1 and c[0].guard == 1 and c[0].loops == ('each arg1.jobs',), str(c)[:300], r.at(c, w))
    n = r.sel(w, 'push_back', {0: r'&this\.threads'})
    r.ob('the thread of a job exists before the job is queued', bool(n) and bool(c) and all(e.order < c[0].order and e.loops for e in n), '', r.at(n, w))
    for fld, val in (('sim_object_id', 'arg1.id'), ('parent_object', 'arg1')):
        st = r.stores(w, re.escape(J) + r'\.' + fld, re.escape(val))
        r.ob(f'a queued job knows its object ({fld})', bool(st) and st[0].guard == 1 and bool(c) and st[0].order < c[0].order, '', r.at(st, w))
    return r.finish('Routing tables of job insertion and removal compared guard by guard, class registration against clearing, and bookkeeping of the object lists.', [], floor=70)

def e10(r):
    u = r.unit(EX + ['trick_source/sim_services/SimObject/JobData.cpp'])
    jo = [x for x in OPQ]
    p = u.extract(roots=['Executive::set_time_tic_value\\(', 'Threads::time_tic_changed\\(', 'JobData::set_time_tic_value\\(', 'JobData::calc_cycle_tics\\(', 'Executive::get_terminate_time\\(', 'Executive::get_sim_time\\(', 'Executive::set_time\\('],
                  opaque=[x for x in OPQ if not re.search(r'JobData::|Executive::|Threads::', x)] + opq('JobData', but=('set_time_tic_value', 'calc_cycle_tics')) + opq('Executive', but=('reset_job_cycle_times', 'reset_job_call_times')) + ['Threads::', 'message_publish'])
    f = r.flow(p, 'Executive::set_time_tic_value')
    old, new = 'this.time_tic_value', 'arg1'
    OLD = (10, 1000, 1000000)
    NEW = (10, 1000, 3000)
    nm = {'old': [old, 'this.old_time_tic_value'], 'new': [new]}
    def scaled(label, term, x, where, names=None, **dom):
        """a time x in old tics keeps its value in seconds (to the nearest new tic)"""
        d = {'old': OLD, 'new': NEW, 'x': (0, 10, 1000, 5000, 12345, 9999999), **dom}
        n2 = {**nm, 'x': x, **(names or {})}
        bad = []
        import itertools
        keys = list(d)
        for v in itertools.product(*[d[k] for k in keys]):
            env = dict(zip(keys, v)); e2 = dict(env)
            for k, w in env.items():
                for y in ([n2[k]] if isinstance(n2.get(k), str) else n2.get(k, [])): e2[y] = w
            try: got = F.ev(term, e2)
            except F.Unknown as ex: return r.ob(label, False, f' depends on {ex}', where)
            r.stats['orderings_evaluated'] = r.stats.get('orderings_evaluated', 0) + 1
            if abs(got - env['x'] * env['new'] / env['old']) > 1: bad.append((env, got))
        return r.ob(label, not bad, f' {bad[0][0]["x"] / bad[0][0]["old"]} s becomes {bad[0][1] / bad[0][0]["new"]} s when {bad[0][0]}' if bad else '', where)
    def one(label, path, x, guard=TRUE, names=None, extra=1, **dom):
        es = r.stores(f, path)
        r.same(f'{label} is rescaled', r.tot(es), guard, r.at(es, f), extra)
        for e in es: scaled(f'{label} keeps its value in seconds', e.val, x, e.loc, names, **dom)
        return es
    one('the simulation time', r'this\.time_tics', 'this.time_tics')
    one('the end time', r'this\.terminate_time', 'this.terminate_time', ~(t('this.terminate_time') == 9223372036854775806))
    one('the freeze job', r'this\.freeze_job\.next_tics', 'this.freeze_job.next_tics', b('this.freeze_job') & ~(t('this.freeze_job.next_tics') == 9223372036854775807))
    ps = [e for e in r.sel(f, 'push|emplace')]
    r.ob('every scheduled freeze time is rescaled', bool(ps) and all(e.loops for e in ps) and bool(r.stores(f, r'this\.freeze_times') or r.sel(f, 'swap', {0: r'&this\.freeze_times'}) or r.sel(f, 'swap', {1: r'&this\.freeze_times'})), str(ps)[:200], r.at(ps, f))
    for e in ps: scaled('a scheduled freeze keeps its value in seconds', e.args[1], 'this.freeze_times[top()]', e.loc)
    po = r.sel(f, 'pop', {0: r'&this\.freeze_times'})
    r.ob('each freeze time is rescaled once', len(po) == 1 and len(ps) == 1 and po[0].lids == ps[0].lids and equiv(po[0].guard, ps[0].guard) and po[0].order > ps[0].order, '', r.at(po, f))
    for fld, sec in (('software_frame_tics', 'software_frame'), ('freeze_frame_tics', 'freeze_frame')):
        es = r.stores(f, r'this\.' + fld)
        r.ob(f'{fld} follows the new tic', bool(es) and r.tot(es) == 1, '', r.at(es, f))
        for e in es: r.table(f'{fld} is the frame in new tics', e.val, {'s': (0.1, 1.0, 2.5), 'new': NEW}, lambda v: int(round(v['s'] * v['new'])), e.loc, names={'s': 'this.' + sec, 'new': new})
    st = r.stores(f, r'this\.time_tic_value')
    r.ob('the new tic value is kept', bool(st) and all(pp(e.val) == new for e in st) and r.tot(st) == 1, '', r.at(st, f))
    J = 'this.all_jobs_vector[*]'
    r.every('every job is rescaled', f, r'each this\.all_jobs_vector')
    cy = r.sel(f, 'JobData::calc_cycle_tics', {0: re.escape(J)}) + r.stores(f, re.escape(J) + r'\.cycle_tics')
    r.ob('cycles follow the new tic', bool(cy) and all(e.guard == 1 for e in cy), '', r.at(cy, f))
    cc = r.flow(p, 'JobData::calc_cycle_tics')
    for v, w, jj in [(e.val, e.loc, J) for e in cy if e.kind == 'store'] + [(cc.final('this.cycle_tics'), cc.label, 'this')]:
        r.table('a cycle keeps its value in seconds', v, {'s': (0.1, 1.0, 2.5, 0.3), 'new': NEW}, lambda v: int(round(v['s'] * v['new'])), w, names={'s': jj + '.cycle', 'new': [new, 'JobData::time_tic_value']})
    tv = r.stores(f, r'JobData::time_tic_value') + r.sel(f, 'JobData::set_time_tic_value')
    r.ob('jobs know the new tic before their cycles are rescaled', bool(tv) and bool(cy) and tv[0].guard == 1 and tv[0].order < cy[0].order, '', r.at(tv, f))
    sp, stt, nx = (r.stores(f, re.escape(J) + r'\.' + x) for x in ('stop_tics', 'start_tics', 'next_tics'))
    MX = 9223372036854775807
    JT = [new, 'JobData::time_tic_value']
    env = {'new': NEW, 'i': (0,), 'n': (1,), 'now': (0,), 'old': (10, 1000000)}
    en = {'new': JT, 'i': 'count(0,1)', 'n': 'size(this.all_jobs_vector)', 'now': 'this.time_tics', 'old': [old, 'this.old_time_tic_value']}
    def each(lab, fld, d, n, spec):
        c = r.cell(f, re.escape(J) + r'\.' + fld, J + '.' + fld)
        return r.table(lab, c, {**env, **d}, spec, r.at(r.stores(f, re.escape(J) + r'\.' + fld), f), names={**en, **n})
    each('a stop time keeps its value in seconds', 'stop_tics', {'s': (0.1, 1.0, 20.0, 12.3, 1e37), 'st': (77, MX)}, {'s': J + '.stop', 'st': J + '.stop_tics'},
         lambda v: MX if v['st'] == MX or v['s'] > 1e30 else int(v['s'] * v['new']))
    sd = {'s': (0.5, 1.0, 20.0, 1e37)}
    def starts(v): return MX if v['s'] > 1e30 else int(v['s'] * v['new'])
    each('a start time keeps its value in seconds', 'start_tics', {**sd, 'st': (77,)}, {'s': J + '.start', 'st': J + '.start_tics'}, starts)
    each('a job not yet due is due at its start time', 'next_tics', {'s': (0.5, 1.0, 20.0), 'st': (77,), 'nx': (55,), 'dis': (0, 1), 'sys': (0, 1), 'adv': (0, 1), 'int': (0, 1), 'cyc': (7,)},
         {'s': J + '.start', 'st': J + '.start_tics', 'nx': J + '.next_tics', 'dis': J + '.disabled', 'sys': J + '.system_job_class', 'adv': f'compare("system_advance_sim_time",{J}.job_class_name)', 'int': f'compare("integ_loop",{J}.job_class_name)', 'cyc': J + '.cycle_tics'},
         lambda v: 55 if v['dis'] or v['sys'] and v['adv'] else starts(v) + (0 if v['int'] else 7))
    # nothing may read tics before they are rescaled
    cb = r.sel(f, 'JobData::call')
    r.ob('jobs that follow the tic are told after everything is rescaled', bool(cb) and all(e.order < cb[0].order for e in cy + sp + stt + r.stores(f, r'this\.(time_tics|terminate_time|software_frame_tics|freeze_frame_tics)')), '', r.at(cb, f))
    th = r.sel(f, 'Threads::time_tic_changed')
    r.every('every thread is rescaled', f, r'each this\.threads')
    r.ob('threads get the old and the new tic', bool(th) and all(pp(e.args[2]) == new and pp(e.args[1]) in (old, 'this.old_time_tic_value') and e.loops == ('each this.threads',) for e in th), str(th)[:200], r.at(th, f))
    x = r.flow(p, 'Threads::time_tic_changed')
    es = r.stores(x, r'this\.amf_next_tics')
    r.ob('the next child boundary is rescaled', bool(es) and r.tot(es) == 1, '', r.at(es, x))
    nm.update(old=['arg1'], new=['arg2'])
    for e in es: scaled('the next child boundary keeps its value in seconds', e.val, 'this.amf_next_tics', e.loc)
    es = r.stores(x, r'this\.amf_cycle_tics')
    r.ob('the child frame is rescaled', bool(es) and r.tot(es) == 1, '', r.at(es, x))
    for e in es: r.table('the child frame keeps its length in seconds', e.val, {'s': (0.1, 1.0, 2.5), 'new': NEW}, lambda v: int(round(v['s'] * v['new'])), e.loc, names={'s': 'this.amf_cycle', 'new': 'arg2'})
    x = r.flow(p, 'JobData::set_time_tic_value')
    r.final_is('jobs know the tic', x, 'JobData::time_tic_value', {'arg1': TRUE})
    for n, fld in (('get_terminate_time', 'this.terminate_time'),):
        x = r.flow(p, 'Executive::' + n)
        r.table(f'{n} gives seconds', x.retval(), {'t': (0, 5, 15, 12345), 'tic': (10, 1000)}, lambda v: v['t'] / v['tic'], x.label, names={'t': fld, 'tic': old})
    return r.finish('Every tic quantity of the executive is rescaled; each rescaling term evaluated symbolically over a set of tic pairs and times.', ['floating point rounding below one tic is not decided'], floor=30)

def e11(r):
    u = r.unit(EX + ['trick_source/sim_services/SimObject/JobData.cpp'])
    p = u.extract(roots=['Executive::restart\\(', 'Executive::checkpoint\\(', 'Executive::post_checkpoint\\(', 'JobData::copy_from_checkpoint\\(', 'Executive::add_jobs_to_queue\\(', 'JobData::operator='], opaque=OPQ + ['message_publish', 'Scheduler::', 'TMM_'])
    f = r.flow(p, 'Executive::restart')
    clr = r.sel(f, 'Executive::clear_scheduled_queues')
    r.same('restart: the job queues are emptied', r.tot(clr), TRUE, r.at(clr, f))
    add = r.sel(f, 'Executive::add_jobs_to_queue')
    r.ob('restart: every object is queued again, as a restart', bool(add) and r.tot(add) == 1 and all(pp(e.args[1]) == 'this.sim_objects[*]' and pp(e.args[2]) == '1' and e.loops == ('each this.sim_objects',) for e in add), str(add)[:300], r.at(add, f))
    r.every('restart: all objects', f, r'each this\.sim_objects')
    r.every('restart: all jobs of an object', f, r'each this\.sim_objects\[\*\]\.jobs')
    for reg in ('all_jobs', 'all_jobs_vector', 'all_tagged_jobs'):
        c = r.sel(f, 'clear', {0: r'&this\.' + reg})
        r.ob(f'restart: {reg} is rebuilt', bool(c) and r.tot(c) == 1 and bool(add) and c[0].order < add[0].order, '', r.at(c, f))
    K = 'this.all_jobs_for_checkpoint[*]'
    cp = r.sel(f, 'JobData::copy_from_checkpoint')
    if not cp: r.ob('restart: checkpointed job data are restored', False, ' no copy', f.label)
    for e in cp:
        me = pp(e.args[0])
        r.ob('restart: the checkpointed job is the source', K in pp(e.args[1]) and 'all_jobs_for_checkpoint' not in me.split('equal_range')[0], '', e.loc)
        w = pbdd(F.norm(e.guard))
        r.ob('restart: a job is matched by its id', re.search(r'\.id == ' , w) or '.id-' in w or re.search(r'\.id', w), w[:300], e.loc)
        r.ob('restart: a job is matched by its object', '.sim_object_id' in w, w[:300], e.loc)
        r.ob('restart: a job is matched by its name', 'equal_range' in me and K + '.name' in me, me[:300], e.loc)
        r.ob('restart: every checkpointed job is looked up', e.loops[0] == 'i in 0..this.num_all_jobs', str(e.loops)[:200], e.loc)
    r.every('restart: the look-up covers all checkpointed jobs', f, r'i in 0\.\.this\.num_all_jobs')
    if cp and add and clr:
        r.ob('restart: data are restored between emptying and queueing', clr[0].order < cp[0].order < add[0].order, '', r.at(cp))
    te = r.sel(f, 'exec_terminate_with_return')
    r.ob('restart: a checkpointed job that does not exist ends the simulation', bool(te) and all(pp(e.args[0]) != '0' and e.loops == ('i in 0..this.num_all_jobs',) for e in te), '', r.at(te, f))
    for e in te:
        w = pbdd(F.norm(e.guard))
        q = re.search(r'(?:ev\d+\()?std::multimap::equal_range\(.*?\.name\)\)?', w)
        q = q[0] if q else ''
        z = [G(M.var(M.vars[v])) for v in M.support(F.norm(e.guard))]
        ends = len(z) == 1 and F.norm(e.guard) == F.norm(z[0].f) and (w in (f'({q}==field:second({q}))', f'(field:second({q})=={q})') or re.fullmatch(r'\(end\(local\)==find\(local\)\)', w))
        r.ob('restart: exactly when no job has its name', ends, ' when ' + w[:400], e.loc)
    J = 'this.sim_objects[*].jobs[*]'
    for fld, val in (('sim_object_id', 'this.sim_objects[*].id'), ('parent_object', 'this.sim_objects[*]')):
        st = r.stores(f, re.escape(J) + r'\.' + fld, re.escape(val))
        r.ob(f'restart: jobs know their object ({fld})', bool(st) and r.tot(st) == 1, '', r.at(st, f))
    ix = r.sel(f, SQ + 'set_curr_index', {0: r'&this\.input_processor_queue'})
    r.ob('restart: input processing goes on where it was', bool(ix) and all(pp(e.args[1]) == SQ + 'get_curr_index(&this.input_processor_queue)' for e in ix) and r.tot(ix) == 1 and bool(add) and ix[0].order > add[0].order, '', r.at(ix, f))
    gi = r.sel(f, SQ + 'get_curr_index')
    r.ob('restart: the place in the input is read before emptying', bool(gi) and bool(clr) and gi[0].order < clr[0].order, '', r.at(gi, f))
    r.store_when('restart: initialization is not repeated', f, r'this\.restart_called', TRUE, '1')
    n = r.stores(f, r'this\.num_sim_objects')
    r.ob('restart: the object count is restored', bool(n) and pp(n[-1].val) == 'size(this.sim_objects)' and r.tot(n) == 1, '', r.at(n, f))
    r.store_when('restart: the main thread is at the restored time', f, r'this\.threads\[0\]\.curr_time_tics', TRUE, r'this\.time_tics')
    r.call_when('restart: threads are created', f, 'Executive::create_threads', TRUE)
    A = CH
    ty, cyc, now = t(A + '.process_type'), t(A + '.amf_cycle_tics'), 'this.time_tics'
    st = r.stores(f, re.escape(A) + r'\.amf_next_tics')
    r.same('restart: the next boundary of asynchronous children is recomputed', r.tot(st), (ty == 1) | (ty == 2), r.at(st, f))
    r.table('restart: it is the first multiple of the child frame not before the restored time', r.cell(f, re.escape(A) + r'\.amf_next_tics', A + '.amf_next_tics'),
            {'p': (1, 2), 'c': (0, 3, 5), 'now': (0, 3, 4, 5, 10, 14), 'n': (99,), 'i': (1,), 'ts': (2,)}, lambda v: v['now'] if not v['c'] else -(-v['now'] // v['c']) * v['c'], r.at(st, f),
            names={'p': A + '.process_type', 'c': A + '.amf_cycle_tics', 'now': now, 'n': A + '.amf_next_tics', 'i': 'count(1,1)', 'ts': 'size(this.threads)'})
    r.every('restart: every child', f, r'each this\.threads from 1')
    r.call_when('restart: freeze scheduling starts again when frozen', f, 'Executive::init_freeze_scheduled', t('this.mode') == 1)
    x = r.flow(p, 'JobData::copy_from_checkpoint')
    for fld in ('disabled', 'complete', 'handled', 'cycle', 'start', 'stop', 'job_class_name', 'phase', 'system_job_class', 'thread', 'cycle_tics', 'start_tics', 'stop_tics', 'next_tics'):
        st = r.stores(x, 'this\\.' + fld)
        r.ob(f'a restored job has its checkpointed {fld}', bool(st) and pp(st[-1].val) == 'arg1.' + fld and st[-1].guard == 1, str(st)[:200], r.at(st, x))
    c = r.flow(p, 'Executive::checkpoint')
    n = t('size(this.all_jobs_vector)', True)
    AJ = 'this.all_jobs_for_checkpoint'
    st = r.stores(c, r'this\.num_all_jobs')
    r.ob('checkpoint: all jobs are counted', bool(st) and st[-1].guard == 1 and pp(st[-1].val) == 'size(this.all_jobs_vector)', '', r.at(st, c))
    cpy = [e for e in r.sel(c, 'JobData::operator=') if pp(e.args[1]) == 'this.all_jobs_vector[*]']
    r.same('checkpoint: every job is copied for the checkpoint', r.tot(cpy), ~(n == 0), r.at(cpy, c))
    r.every('checkpoint: all jobs', c, r'each this\.all_jobs_vector')
    al = r.sel(c, 'TMM_declare_var')
    r.ob('checkpoint: the copy is allocated with the number of jobs', bool(al) and bool(st) and al[0].order > st[-1].order and pp(al[0].args[-1]) == '&this.num_all_jobs' and equiv(al[0].guard, (~(n == 0)).f), str(al)[:300], r.at(al, c))
    pc = r.flow(p, 'Executive::post_checkpoint')
    r.call_when('after a checkpoint the copy is freed', pc, 'TMM_delete_var_a', TRUE, {0: r'this\.all_jobs_for_checkpoint'})
    r.final_is('and forgotten', pc, 'this.all_jobs_for_checkpoint', {'0': TRUE})
    w = r.flow(p, 'Executive::add_jobs_to_queue')
    JJ = 'arg1.jobs[*]'
    for fld in ('cycle_tics', 'start_tics', 'stop_tics', 'next_tics', 'disabled'):
        for e in r.stores(w, re.escape(JJ) + r'\.' + fld):
            if fld == 'stop_tics' and pp(e.val) == '9223372036854775807' and 'freeze_scheduled' in pbdd(e.guard): continue
            r.imp(f'a restored {fld} is not overwritten when the job is queued again', e.guard, ~b('arg2'), e.loc)
    for e in r.stores(w, re.escape(JJ) + r'\.name'): r.imp('a restored name is not prefixed again', e.guard, ~b('arg2'), e.loc)
    for e in r.sel(w, 'JobData::calc_cycle_tics', {0: re.escape(JJ)}):
        if 'freeze_scheduled' in pbdd(e.guard): continue
        r.imp('a restored cycle is not recomputed', e.guard, ~b('arg2'), e.loc)
    return r.finish('Guards, order and completeness of saving and rebuilding the job queues; job fields restored one by one.', ['the memory manager restores the checkpointed job array (M properties)'], floor=50)

RULES = {'E08': e08, 'E09': e09, 'E10': e10, 'E11': e11}
