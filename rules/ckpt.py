"""checkpoints: dumping and loading, scheduled and safestore checkpoints"""
import re, scan
from vk import *
from flow import pp, _addr, M
from rules.exec import fetch, SQ
S = 'trick_source/sim_services/'
CK = [S + 'CheckPointRestart/CheckPointRestart.cpp', S + 'Scheduler/Scheduler.cpp']
COPQ = ['basic_string', 'operator<<', 'message_publish'] + opq('ScheduledJobQueue', 'JobData', 'CheckPointRestart', 'MemoryManager', 'SimObject')

def allrun(r, f, q, call, guard, args):
    """all jobs of queue q run once under guard"""
    J = fetch('this.' + q)
    c = r.sel(f, call, {k: re.escape(v.replace('$J', J)) for k, v in args.items()})
    rs = r.sel(f, SQ + 'reset_curr_index', {0: '&this\\.' + q})
    lab = f'{f.label}: {q}'
    if not c: return r.ob(f'{lab} jobs are run', False, '', f.label) or []
    r.same(f'{lab}: every job is run', r.tot(c), guard & b(J), r.at(c, f))
    r.ob(f'{lab}: from the first job', bool(rs) and rs[0].order < c[0].order and set(rs[0].lids) <= set(c[0].lids), '', r.at(c, f))
    lp = [e for e in f.effects if e.kind == 'loop' and c[0].lids and e.blk == c[0].lids[-1]]
    r.ob(f'{lab}: to the last job', bool(lp) and all(equiv(e.val, b(J).f) for e in lp) and not [x for e in lp for x in e.nr if F.norm(x)], '', r.at(c, f))
    return c

def order(r, label, f, *gs):
    for k, (a, z) in enumerate(zip(gs, gs[1:])):
        r.ob(f'{label} ({k + 1})', bool(a) and bool(z) and max(e.order for e in a) < min(e.order for e in z), '', r.at(z or a, f))

def c01(r):
    u = r.unit(CK)
    p = u.extract(roots=['CheckPointRestart::do_checkpoint\\(', 'CheckPointRestart::load_checkpoint_job\\(', 'CheckPointRestart::load_checkpoint\\(', 'CheckPointRestart::checkpoint\\(', 'CheckPointRestart::CheckPointRestart\\(', 'Scheduler::add_sim_object', 'Scheduler::delete_sim_object',
                         'CheckPointRestart::write_(pre_init|post_init|end)_checkpoint\\('], opaque=COPQ)
    f = r.flow(p, 'CheckPointRestart::do_checkpoint')
    inproc = t('this.cpu_num') == -1
    child = ~inproc & (t('fork()') == 0)
    pre = allrun(r, f, 'checkpoint_queue', 'SimObject::call_function', TRUE, {1: '$J'})
    post = allrun(r, f, 'post_checkpoint_queue', 'SimObject::call_function', ~child, {1: '$J'})
    J = fetch('this.checkpoint_queue')
    for e in pre + post: r.ob('a checkpoint job runs on its own sim object', pp(e.args[0]) == pp(e.args[1]) + '.parent_object', '', e.loc)
    w = r.sel(f, 'MemoryManager::write_checkpoint')
    r.same('the checkpoint is written, by the process or its forked copy', r.tot(w), inproc | child, r.at(w, f))
    of = r.stores(f, r'this\.output_file')
    r.ob('one output file per checkpoint', len(of) == 1 and of[0].guard == 1 and not of[0].loops, '', r.at(of, f))
    path = pp(of[0].val) if of else ''
    empty = t('size(this.obj_list)') == 0
    for e in w:
        r.ob('the checkpoint goes to the announced file', pp(e.args[1]) in (f'c_str({path})', 'c_str(this.output_file)'), ' goes to ' + pp(e.args[1])[:200], e.loc)
        sub = len(e.args) > 2
        r.ob('the object selection is the requested one', not sub or pp(e.args[2]) == '&this.obj_list', '', e.loc)
        r.imp('a selection is written exactly when objects are selected', e.guard, ~empty if sub else empty, e.loc)
        r.ob('the checkpoint is written once', not e.loops, '', e.loc)
    r.ob('the file is in the output directory', path.startswith('cat(str(command_line_args_get_output_dir()),"/",'), ' ' + path[:200], r.at(of, f))
    if of:
        nm = [e for e in f.cases(of[0].val)]
        r.ob('a named checkpoint keeps its name', ',*arg1' in path or path.endswith('*arg1)'), ' ' + path[:200], r.at(of, f))
    r.imp('the forked copy ends after writing', r.tot([e for e in w if M.AND(F.norm(e.guard), F.norm(child.f))]), inproc | G(r.tot(r.sel(f, '_Exit|_exit'))), r.at(w, f))
    ex = r.sel(f, '_Exit|_exit')
    order(r, 'checkpoint jobs, then the file, then post checkpoint jobs', f, pre, [e for e in w if M.AND(F.norm(e.guard), F.norm(inproc.f))], post)
    order(r, 'checkpoint jobs come before the copy is made', f, pre, r.sel(f, 'fork'), [e for e in w if M.AND(F.norm(e.guard), F.norm(child.f))], ex)
    r.same('only the forked copy ends', r.tot(ex), child, r.at(ex, f))
    for nme in ('pre_init', 'post_init', 'end'):
        g = r.flow(p, f'CheckPointRestart::write_{nme}_checkpoint')
        r.call_when(f'the {nme} checkpoint is dumped when asked for', g, 'CheckPointRestart::(do_)?checkpoint', b(f'this.{nme}_checkpoint'), {1: f'"chkpnt_{nme}"'})
    g = [x for x in p.get('CheckPointRestart::checkpoint') if len(x['args']) == 4]
    if len(g) == 1:
        g = Flow(p, g[0]); g.label = 'CheckPointRestart::checkpoint'; r.fns.append(g.label)
        d = r.sel(g, 'CheckPointRestart::do_checkpoint', {1: r'\*?arg1'})
        r.ob('a requested checkpoint is dumped under its name', bool(d) and r.tot(d) == 1 and len(d) == 1, '', r.at(d, g))
        cl = r.sel(g, 'clear', {0: r'&this\.obj_list'})
        pb = r.sel(g, 'push_back|emplace_back', {0: r'&this\.obj_list'})
        r.ob('an earlier selection does not leak into the next checkpoint', bool(cl) and cl[0].guard == 1 and all(cl[0].order < e.order for e in pb + d), '', r.at(cl, g))
        r.ob('the selection is complete before the dump', all(e.order < d[0].order for e in pb), '', g.label)
    else: r.ob('checkpoint(name, status, objects) exists', False, '', '')
    # load
    f = r.flow(p, 'CheckPointRestart::load_checkpoint_job')
    named = ~(t('size(this.load_checkpoint_file_name)') == 0)
    st = r.sel(f, 'stat|access')
    r.ob('the file is looked up', bool(st), '', f.label)
    if st:
        res = t(pp(('t', st[0].name + '(' + ','.join(pp(x) for x in st[0].args) + ')')))
        ok = named & (res == 0)
        i = r.sel(f, 'MemoryManager::init_from_checkpoint', {1: r'c_str\(this\.load_checkpoint_file_name\)'})
        r.same('a requested, existing checkpoint is loaded', r.tot(i), ok, r.at(i, f))
        r.ob('the checkpoint is loaded once', len(i) == 1 and not i[0].loops, '', r.at(i, f))
        p1 = allrun(r, f, 'preload_checkpoint_queue', 'JobData::call', ok, {0: '$J'})
        p2 = allrun(r, f, 'restart_queue', 'JobData::call', ok, {0: '$J'})
        rs = [e for e in r.sel(f, 'virtual:.*ExecutiveE:.*|Executive::restart') if pp(e.args[0]) == 'the_exec' and e.order > i[0].order] if i else []
        r.same('the executive restarts after a load', r.tot(rs), ok, r.at(rs, f))
        order(r, 'preload jobs, load, executive restart, restart jobs', f, p1, i, rs, p2)
        k = r.flow(p, 'CheckPointRestart::CheckPointRestart')
        qs = sorted({pp(e.val) for e in k.effects if e.kind == 'store' and re.fullmatch(r'this\.class_to_queue\[\d+\](\.second)?', _addr(e.addr))})
        r.ob('the checkpoint job classes are registered', len(qs) >= 4, str(qs), k.label)
        cl = {}
        for e in k.effects:
            if e.kind == 'store':
                m = re.fullmatch(r'this\.class_map\["(\w+)"\](\.second)?', _addr(e.addr))
                if m: cl[m[1]] = pp(e.val)
        tq = {m[1]: pp(e.val) for e in k.effects if e.kind == 'store' for m in [re.fullmatch(r'this\.class_to_queue\[(\d+)\](\.second)?', _addr(e.addr))] if m}
        for c in ('checkpoint', 'post_checkpoint', 'preload_checkpoint', 'restart'):
            r.ob(f'class {c} goes to its queue', tq.get(cl.get(c)) == f'&this.{c}_queue', f' {cl.get(c)} -> {tq.get(cl.get(c))}', k.label)
        for q in qs:
            c = r.sel(f, SQ + 'clear', {0: re.escape(q)})
            r.same(f'{q[1:]} is emptied before it is rebuilt', r.tot(c), ok, r.at(c, f))
            order(r, f'{q[1:]} is emptied after the preload jobs and before the restart', f, p1, c, rs)
        fin = f.cases(f.final('this.load_checkpoint_file_name'))
        r.same('a load request is served once', M.OR(*[g for k2, g in fin.items() if k2 == '""']), TRUE, f.label, extra=named.f)
        so = r.sel(f, 'set_output_dir')
        r.same('redirected data recording takes effect', r.tot(so), ok & b('this.redirect_data_recording'), r.at(so, f))
        order(r, 'the output directory is changed before the restart jobs', f, i, so, p2)
    for g in p.get('CheckPointRestart::load_checkpoint'):
        fl = Flow(p, g); fl.label = 'CheckPointRestart::load_checkpoint'; r.fns.append(fl.label)
        n = len(g['args']) - 1
        s = r.stores(fl, r'this\.load_checkpoint_file_name', r'\*arg1') + r.sel(fl, 'CheckPointRestart::load_checkpoint', {1: r'\*?arg1'})
        r.ob(f'load_checkpoint with {n} arguments requests the file', bool(s) and r.tot(s) == 1, str(fl.effects)[:200], fl.label)
    # bookkeeping of objects in the other schedulers
    C = 'this.class_map[arg1.jobs[*].job_class_name].second'
    for nme, op in (('add_sim_object', 'push'), ('delete_sim_object', 'remove')):
        g = r.flow(p, 'Scheduler::' + nme)
        found = G(M.NOT(F.ptr_eq(tt('end(this.class_map)'), tt('find(this.class_map)'))))
        inq = G(M.NOT(F.ptr_eq(tt('end(this.class_to_queue)'), tt('find(this.class_to_queue)'))))
        r.every(f'{nme}: every job of the object', g, r'each arg1\.jobs')
        c = r.sel(g, SQ + op, {0: re.escape(f'this.class_to_queue[{C}].second'), 1: r'arg1\.jobs\[\*\]'})
        r.same(f'{nme}: each job of a known class', r.tot(c), found & inq, r.at(c, g))
        r.ob(f'{nme}: nothing else', len(r.sel(g, SQ + '.*')) == len(c) == 1, '', g.label)
        if op == 'push':
            s = r.stores(g, r'arg1\.jobs\[\*\]\.job_class', re.escape(C))
            r.same('a queued job knows its class', r.tot(s), found, r.at(s, g))
            if s and c: r.ob('the class is set before queueing', s[0].order < c[0].order, '', r.at(s, g))
    return r.finish('Order, guards and completeness of the dump and load sequences; queue registration against clearing; insertion and removal in the non-executive schedulers.', ['fork() copies the process'], floor=60)

def c02(r):
    u = r.unit(CK)
    p = u.extract(roots=['CheckPointRestart::checkpoint\\(double', 'CheckPointRestart::write_checkpoint\\(', 'CheckPointRestart::safestore_checkpoint\\(', 'CheckPointRestart::set_safestore_time\\(', 'CheckPointRestart::find_write_checkpoint_jobs\\('], opaque=COPQ)
    MAXT = 9223372036854775807
    f = r.flow(p, 'CheckPointRestart::checkpoint', ['double'])
    now = 'exec_get_time_tics()'
    names = {'now': now, 'at': 'arg1', 'tv': 'exec_get_time_tic_value()', 'nx': 'this.write_checkpoint_job.next_tics'}
    dom = {'now': (0, 10, 20), 'at': (0.5, 1.0, 1.5, 2.0, 2.5), 'tv': (10,), 'nx': (10, 15, 25, MAXT)}
    T = lambda v: int(v['at'] * v['tv'])
    pu = r.sel(f, 'push', {0: r'&this\.checkpoint_times'})
    r.ob('a request is remembered once', bool(pu) and not any(e.loops for e in pu), '', r.at(pu, f))
    r.table('exactly requests that are not in the past are remembered', r.tot(pu) if pu else 0, dom, lambda v: T(v) >= v['now'], f.label, names=names) if pu else None
    for e in pu: r.table('at the requested time', e.args[1], dom, T, e.loc, names=names)
    for e in r.stores(f, r'this\.write_checkpoint_job\.next_tics'): pass
    r.table('the checkpoint job is due at the earliest request', r.cell(f, r'this\.write_checkpoint_job\.next_tics'), dom, lambda v: min(T(v), v['nx']) if T(v) >= v['now'] else v['nx'], f.label, names=names)
    f = r.flow(p, 'CheckPointRestart::write_checkpoint')
    top = t('this.checkpoint_times[top()]')
    due = t(now) == top
    some = ~(t('size(this.checkpoint_times)') == 0)
    w = r.sel(f, 'CheckPointRestart::(do_)?checkpoint')
    r.same('a due checkpoint is written', r.tot(w), due, r.at(w, f), extra=some.f)
    r.ob('once', len(w) == 1 and not w[0].loops, '', r.at(w, f))
    po = r.sel(f, 'pop', {0: r'&this\.checkpoint_times'})
    r.ob('requests that are served are forgotten', bool(po) and all(e.loops for e in po), '', r.at(po, f))
    for e in po: r.imp('only served requests are forgotten', e.guard, due, e.loc)
    lp = [e for e in f.effects if e.kind == 'loop' and po and e.blk == po[0].lids[-1]]
    if lp:      # the loop goes on exactly while the earliest request is due
        r.same('all requests for this time are forgotten', r.tot(po), F.norm(M.AND(r.tot(lp), (due & some).f)), r.at(po, f), extra=some.f)
    na = r.parts(r.stores(f, r'this\.write_checkpoint_job\.next_tics'))
    r.ob('the job is re-armed after the served requests are gone', bool(na) and bool(po) and all(e.order > po[-1].order and not e.loops for e in na), '', r.at(na, f))
    r.same('the job is re-armed for the next request', r.tot([e for e in na if pp(e.val) == 'this.checkpoint_times[top()]']), due & some, r.at(na, f), extra=M.OR(1))
    r.same('the job rests when no request is left', r.tot([e for e in na if pp(e.val) == str(MAXT)]), due & ~some, r.at(na, f))
    r.ob('the job is armed with nothing else', all(pp(e.val) in (str(MAXT), 'this.checkpoint_times[top()]') for e in na), str(na)[:200], r.at(na, f))
    # safestore
    f = r.flow(p, 'CheckPointRestart::safestore_checkpoint')
    en = b('this.safestore_enabled')
    w = r.sel(f, 'CheckPointRestart::(do_)?checkpoint', {1: '"chkpnt_safestore"'})
    r.same('a safestore checkpoint is written when enabled', r.tot(w), en, r.at(w, f))
    dom = {'this.safestore_enabled': (0, 1), 'this.safestore_time': (5, 10), 'this.safestore_period': (5, 7)}
    r.table('safestores follow each other by the period', r.cell(f, r'this\.safestore_time'), dom, lambda v: v['this.safestore_time'] + v['this.safestore_period'] * v['this.safestore_enabled'], f.label)
    na = r.stores(f, r'this\.safestore_checkpoint_job\.next_tics')
    r.imp('the safestore job is re-armed', b('this.safestore_checkpoint_job') & en, r.tot(na), r.at(na, f))
    for e in na: r.table('at the next safestore time', e.val, {**dom, 'this.safestore_enabled': (1,)}, lambda v: v['this.safestore_time'] + v['this.safestore_period'], e.loc)
    f = r.flow(p, 'CheckPointRestart::set_safestore_time')
    dom = {'arg1': (0.5, 1.0, 1.3, 2.0, 3.7), 'tv': (10,), 'sf': (1, 3, 4, 10), 'this.safestore_time': (0, 8, 40, MAXT), 'this.safestore_period': (0, 9)}
    names = {'tv': 'exec_get_time_tic_value()', 'sf': 'exec_get_software_frame_tics()'}
    sp = lambda v: -(-int(v['arg1'] * v['tv']) // v['sf']) * v['sf']
    for fld in ('safestore_period', 'safestore_time'):
        r.table(f'{fld} is the requested time at the next frame boundary', r.cell(f, r'this\.' + fld), dom, sp, f.label, names=names)
    na = r.stores(f, r'this\.safestore_checkpoint_job\.next_tics')
    r.imp('an existing safestore job is armed', b('this.safestore_checkpoint_job'), r.tot(na), r.at(na, f))
    for e in na: r.table('the first safestore is due then', e.val, dom, sp, e.loc, names=names)
    f = r.flow(p, 'CheckPointRestart::find_write_checkpoint_jobs')
    te = r.sel(f, 'exec_terminate_with_return')
    for j in ('write_checkpoint', 'safestore_checkpoint'):
        s = r.stores(f, rf'this\.{j}_job')
        r.ob(f'the {j} job is looked up', bool(s) and r.tot(s) == 1 and all(f'"{"." + j}"' in pp(e.val) for e in s), str(s)[:300], r.at(s, f))
        for e in s:
            x = pp(e.val)
            na = r.stores(f, re.escape(x) + r'\.next_tics|this\.' + j + r'_job\.next_tics')
            r.same(f'the {j} job rests until requested', r.tot([y for y in na if pp(y.val) == str(MAXT)]), b(x), r.at(na, f))
            r.same(f'a missing {j} job is an error', r.tot([y for y in te if y.order < (s[0].order + 10**6) and equiv(y.guard, M.NOT(b(x).f))]), ~b(x), r.at(te, f))
    return r.finish('Value of every pending time after a request and after a dump, evaluated as guarded terms over the orderings of the times involved.', ['the checkpoint jobs are called when due (E02)'], floor=25)

RULES = {'C01': c01, 'C02': c02}
