"""Rules on integration loops: what is integrated over which interval, by which jobs, in which order."""
import itertools, math, re
import flow as F
from vk import *
from flow import M, pp
from rules.comm import sp
from rules.mem import Env, on, val
from rules.sim import Lists, Outside, simulate

ID = 'trick_source/sim_services/Integrator/src/'
OPQ = ['message_publish', 'exec_', 'ScheduledJobQueue::', 'JobData::', 'IntegrationManager::', 'basic_string', 'process_dynamic_events', 'integrate_dt', 'get_last_step', 'get_first_step', 'rebuild_jobs', 'fprintf']

class Cells(dict):
    """a memory whose vector elements are those of the lists"""
    def __init__(s, d, w): dict.__init__(s, d); s.w = w
    def __setitem__(s, k, v):
        m = re.fullmatch(r'(.*)\[(\d+)\]', str(k))
        if m and m[1] in s.w.lists: s.w.lists[m[1]][int(m[2])] = v
        else: dict.__setitem__(s, k, v)

class Loop(Lists):
    """queues of jobs walked with a cursor, and what the jobs return"""
    def __init__(s, mem={}, queues={}, args={}, answers={}, lists={}, calls={}):
        Lists.__init__(s, {(k if '.' in k or '[' in k or '::' in k or k == 'trick_curr_integ' else 'this.' + k): v for k, v in dict(mem).items()}, {k if '.' in k else 'this.' + k: v for k, v in lists.items()}, {}, args)
        s.queues, s.answers, s.calls, s.log = {'this.' + k: list(v) for k, v in queues.items()}, dict(answers), dict(calls), []
        s.mem = Cells(s.mem, s); s.sizes = {k: len(v) for k, v in s.queues.items()}
    def queue(s, t, env):
        return s.where(t, env) if t[0] in ('fld', 'idx') else s.ptr(t, env)
    def where(s, t, env):
        if t[0] == 'idx' and t[1][0] in ('fld', 'ver') and t[2][0] != 'iterpos':
            b = s.where(t[1], env)
            if b in s.maps: return f'{b}[{s.num(t[2], env)}]'
        return Lists.where(s, t, env)
    def load(s, t, env):
        if t[1][0] == 'idx' and t[1][1][0] in ('fld', 'ver') and t[1][2][0] != 'iterpos' and s.where(t[1][1], env) in s.maps: return s.mem.get(s.where(t[1], env))
        return Lists.load(s, t, env)
    outermost = ()
    def level(s, env, k):
        """the iteration of the k-th of the loops around a point, or None"""
        c = []
        e = env
        while e is not None and e.it is not None: c.append(e); e = e.outer
        return c[-1 - k] if k < len(c) else None if k else env
    maps = ('this.class_to_queue',)
    def result(s, t, env):
        n = t[1].split('::')[-1]
        if n == 'get_next_job':
            k = s.queue(t[2], env); q = s.queues[k]; e = s.level(env, 0) if k in s.outermost else env
            return q[e.it] if e.it is not None and e.it < len(q) else 0
        if n == 'max': return 2 ** 63 - 1
        if n == 'fmod': return math.fmod(s.num(t[2], env), s.num(t[3], env))
        if n == 'compare': return int(s.num(t[2], env) != s.num(t[3], env))
        if n in ('round', 'llround', 'lround'): return float(math.floor(abs(s.num(t[2], env)) + 0.5)) * (1 if s.num(t[2], env) >= 0 else -1)
        if n in s.calls: return s.calls[n](s, t, env)
        if n == 'empty' and s.queue(t[2], env) in s.queues: return int(not s.queues[s.queue(t[2], env)])
        if n == 'size' and s.queue(t[2], env) in s.queues: return len(s.queues[s.queue(t[2], env)])
        if n in s.answers: return s.answers[n]
        return Lists.result(s, t, env)
    def other(s, e, env):
        n = e.name.split('::')[-1]
        if n == 'reset_curr_index': s.log.append(('reset', s.queue(e.args[0], env)))
        elif n == 'get_next_job': s.log.append(('next', s.queue(e.args[0], env), (s.level(env, 0) if s.queue(e.args[0], env) in s.outermost else env).it))
        elif n == 'call': s.log.append(('call', s.ptr(e.args[0], env), s.mem.get('trick_curr_integ'), {k: v for k, v in s.mem.items() if k.endswith(('.time', '.dt', '.target_integ_time'))}))
        elif n in ('set_handled', 'clear', 'set_integrated_by', 'clear_integrated_by', 'add_jobs_to_queue', 'build_sim_object_info', 'remove_sim_object', 'rebuild_jobs'):
            def a(x):
                try: return s.ptr(x, env)
                except F.Unknown:
                    v = val(x, env)
                    if v is None: raise
                    return v
            s.log.append((n,) + tuple(a(x) for x in e.args))
            if n == 'clear' and s.queue(e.args[0], env) in s.queues: s.queues[s.queue(e.args[0], env)] = []
        elif n == 'call_double': s.log.append((n, s.ptr(e.args[0], env)))
        elif n.startswith('exec_terminate'): s.log.append(('terminate',))
        elif n in ('integrate_dt', 'process_dynamic_events'): s.log.append((n, s.num(e.args[1], env), s.num(e.args[2], env)))

def walked(log, w):
    """every walk of a queue begins at its start: no more is taken from it than there is, until it is reset"""
    taken = {}
    for x in log:
        if x[0] == 'reset': taken[x[1]] = 0
        elif x[0] == 'next':
            if x[1] not in taken or taken[x[1]] > w.sizes.get(x[1], 0): return x[1]
            taken[x[1]] += 1
    return None

def close(a, b): return isinstance(a, (int, float)) and isinstance(b, (int, float)) and abs(a - b) < 1e-9

def integration(r):
    u = r.unit([ID + '*.cpp', 'trick_source/sim_services/SimObject/JobData.cpp'])
    p = u.extract(roots=['IntegLoopScheduler::', 'IntegrationManager::'], opaque=OPQ, devirt=['Trick::IntegLoopScheduler$'])
    S = 'IntegLoopScheduler::'; KI = 2001
    # ---- one interval
    f = r.flow(p, S + 'integrate', ver=True)
    for sizes in ((0, 0, 0), (1, 2, 1), (2, 1, 3)):
        for st, dn, ds, ld, nc in itertools.product((0, 5), (0, 2), (0, 7), (0, 1), (0.1, 0.35)):
            if not dn and ds: continue
            q = dict(pre_integ_jobs=[f'a{i}' for i in range(sizes[0])], deriv_jobs=[f'd{i}' for i in range(sizes[1])], post_integ_jobs=[f'z{i}' for i in range(sizes[2])], dynamic_event_jobs=[f'y{i}' for i in range(dn)], integ_jobs=['i0'])
            q['integ_jobs'] = ['i0']
            w = Loop({'next_cycle': nc, 'nominal_cycle': 0.1, 'last_step_deriv': 0, 'integ_ptr': 'I', 'I.last_step_deriv': 0, 'i0.job_class': KI, 'i0.sup_class_data': 'S0', 'S0[0]': 'J0', 'J0.last_step_deriv': ld, 'trick_curr_integ': 0}, q, {}, dict(integrate_dt=st, process_dynamic_events=ds, exec_get_sim_time=2.0, get_last_step_deriv=ld))
            lab = f'{sizes} jobs, results {st} and {ds}, {dn} dynamic events, last derivative {ld}, cycle {nc}'
            try: env = simulate(f, w)
            except F.Unknown as ex: r.undecided(f'integrating ({lab})', f' {ex}'); continue
            got = [x[:2] if x[0] == 'call' else x for x in w.log if x[0] in ('call', 'integrate_dt', 'process_dynamic_events')]
            want = [('call', x) for x in q['pre_integ_jobs']] + [('integrate_dt', 2.0 - nc, nc)]
            if not st and dn: want.append(('process_dynamic_events', 2.0 - nc, 2.0))
            bad = st or (dn and ds)
            if not bad: want += [('call', x) for x in (q['deriv_jobs'] if ld else []) + q['post_integ_jobs']]
            same = len(got) == len(want) and all(a[0] == b[0] and all((close(x, y) if isinstance(y, float) else x == y) for x, y in zip(a[1:], b[1:])) for a, b in zip(got, want))
            r.ob(f'an interval is integrated once, between its jobs, from its start to now ({lab})', same, f' {got} instead of {want}', f.label)
            r.ob(f'every queue is walked from its start ({lab})', walked(w.log, w) is None, f' {walked(w.log, w)}', f.label)
            if not bad: r.ob(f'the next interval is the nominal one ({lab})', w.mem.get('this.next_cycle') == 0.1, f" {w.mem.get('this.next_cycle')}", f.label)
            rv = f.retval(); v = val(rv, env) if rv is not None else None
            if v is None: r.undecided(f'the result of integrating ({lab})', pp(rv)[:120] if rv else '')
            else: r.ob(f'a failed integration is reported ({lab})', bool(v) == bool(bad), f' {v}', f.label)
    # ---- the passes of the integrators
    f = r.flow(p, S + 'integrate_dt', ver=True)
    for nj, passes, own, ip, first, nd, off in itertools.product((1, 2, 3), (1, 2, 4), (0, 1, 2), (0, 1), (0, 1), (0, 2), ('', '0', '1', '01', '2')):
        if any(int(x) >= nj for x in off) or off and own != 1 and not ip or nj == 3 and (passes == 4 or off == '01'): continue
        jobs = [f'i{j}' for j in range(nj)]
        mem = {'integ_ptr': 'I' if ip else 0, 'trick_curr_integ': 'OLD', 'verbosity': 0}
        integ = {}
        for j, x in enumerate(jobs):
            mine = own == 1 or own == 2 and j == 0
            mem[f'{x}.sup_class_data'] = f'S{j}' if mine else 0
            mem[f'S{j}[0]'] = f'J{j}'; mem[f'S{j}'] = f'J{j}'
            mem[f'{x}.disabled'] = int(str(j) in off)
            integ[x] = f'J{j}' if mine else ('I' if ip else None)
        for I in ('I', 'J0', 'J1', 'J2', 'OLD'): mem.update({I + '.verbosity': 0, I + '.time': -1.0, I + '.dt': -1.0, I + '.target_integ_time': -1.0})
        def outer(env): 
            while env.outer is not None and env.outer.it is not None: env = env.outer
            return env.it
        w = Loop(mem, dict(deriv_jobs=[f'd{i}' for i in range(nd)], integ_jobs=jobs), {'t_start': 3.0, 'dt': 0.25, 'arg1': 3.0, 'arg2': 0.25}, dict(get_first_step_deriv_from_integrator=first),
                 calls=dict(call=lambda s, t, env: 0 if s.mem.get(s.num(t[2], env) + '.disabled') else (outer(env) + 1) % passes))
        lab = f'{nj} jobs of {passes} passes, own integrators {own}, common {ip}, first derivative {first}, {nd} derivative jobs, disabled: {off}'
        try: env = simulate(f, w)
        except F.Unknown as ex: r.undecided(f'the passes ({lab})', f' {ex}'); continue
        want, miss = [], None
        on_ = [x for j, x in enumerate(jobs) if str(j) not in off]
        for k in range(passes if on_ else 1):
            if k or first: want += [(f'd{i}', None) for i in range(nd)]
            for x in on_:
                if integ[x] is None: miss = x; break
                want.append((x, integ[x]))
            if miss: break
        got = [(x[1], x[2] if x[1][0] == 'i' else None) for x in w.log if x[0] == 'call' and (x[1][0] == 'd' or x[1] in on_)]
        r.ob(f'each pass calls derivatives, then each integration job with its integrator ({lab})', got == want, f' {got} instead of {want}', f.label)
        r.ob(f'every queue is walked from its start ({lab})', walked(w.log, w) is None, f' {walked(w.log, w)}', f.label)
        times = [(x[3].get(x[2] + '.time'), x[3].get(x[2] + '.dt'), x[3].get(x[2] + '.target_integ_time')) for x in w.log if x[0] == 'call' and x[1][0] == 'i' and x[1] in on_ and isinstance(x[2], str)]
        r.ob(f'integrators know the interval before their first pass ({lab})', all(close(a, 3.0) and close(b, 0.25) and close(c, 3.25) for a, b, c in times), f' {times[:3]}', f.label)
        v = val(f.retval(), env)
        if v is None: r.undecided(f'the result of the passes ({lab})', pp(f.retval())[:120])
        else: r.ob(f'a job without an integrator is reported ({lab})', bool(v) == bool(miss), f' {v}', f.label)
    # ---- dynamic events
    f = r.flow(p, S + 'process_dynamic_events', ver=True, fresh=('call_double',))
    depth = {str(e.blk): len(e.lids) for e in f.effects if e.kind == 'call' and e.name.endswith('call_double')}
    SEQ = ((0.5,), (0.0,), (-0.2, 0.0), (-0.2, 0.05, 0.0), (-0.1, -0.05, 0.01, 0.0))
    for seqs, st in itertools.product([()] + list(itertools.product(SEQ, repeat=1)) + list(itertools.product(SEQ, repeat=2)), (0, 5)):
        def tgo(s, t, env):
            j = s.num(t[2], env); q = seqs[int(j[1:])]; d = depth.get(t[-1][1][1:].split('.')[0], 1) - 1
            e = s.level(env, 1) if d else None
            if d and e is None: raise F.Unknown('the last result of an event')
            return q[min(e.it + 1 if d else 0, len(q) - 1)]
        w = Loop({}, dict(dynamic_event_jobs=[f'y{j}' for j in range(len(seqs))]), {'t_start': 2.0, 'arg1': 2.0, 't_end': 3.0, 'arg2': 3.0, 'depth': 4, 'arg3': 4}, dict(integrate_dt=st, process_dynamic_events=0), calls=dict(call_double=tgo))
        w.outermost = ('this.dynamic_event_jobs',)
        lab = f'events {seqs}, result {st}'
        try: env = simulate(f, w)
        except F.Unknown as ex: r.undecided(f'dynamic events ({lab})', f' {ex}'); continue
        got = [x for x in w.log if x[0] in ('integrate_dt', 'process_dynamic_events', 'call_double')]
        want, at, fired, bad = [], 3.0, False, False
        for j, q in enumerate(seqs):
            if bad: break
            want.append(('call_double', f'y{j}'))
            if q[0] >= 0: continue
            fired = True
            for x in q[:-1]:
                want.append(('integrate_dt', at, x)); at += x
                if st: bad = True; break
                want.append(('call_double', f'y{j}'))
        if fired and not bad: want += [('integrate_dt', at, 3.0 - at)] + ([('process_dynamic_events', at, 3.0)] if not st else [])
        same = len(got) == len(want) and all(a[0] == b[0] and all((close(x, y) if isinstance(y, float) else x == y) for x, y in zip(a[1:], b[1:])) for a, b in zip(got, want))
        r.ob(f'each integration for an event starts where the last one ended, and the interval is completed ({lab})', same, f' {got} instead of {want}', f.label)
        r.ob(f'every queue is walked from its start ({lab})', walked(w.log, w) is None, f' {walked(w.log, w)}', f.label)
        v = val(f.retval(), env)
        if v is None: r.undecided(f'the result ({lab})', pp(f.retval())[:120])
        else: r.ob(f'a failed integration is reported ({lab})', bool(v) == bool(st and fired), f' {v}', f.label)
    # ---- derivatives before the first pass and after the last
    for name in ('first', 'last'):
        f = r.flow(p, S + ('get_first_step_deriv_from_integrator' if name == 'first' else 'get_last_step_deriv'), ver=True)
        fl = name + '_step_deriv'
        for ip, own, flag, ks in itertools.product((None, 0, 1), (0, 1), (0, 1), [()] + list(itertools.product((None, 0, 1, 'n'), repeat=1)) + list(itertools.product((None, 0, 1, 'n'), repeat=2))):
            if name == 'first' and own: continue
            mem = {'integ_ptr': 'I' if ip is not None else 0, f'I.{fl}': ip or 0, fl: own, 'trick_curr_integ': 0}
            for o in ('first_step_deriv', 'last_step_deriv'):
                if o != fl: mem[f'I.{o}'] = 1 - (ip or 0)
            for j, k in enumerate(ks):
                mem.update({f'i{j}.job_class': KI, f'i{j}.sup_class_data': f'S{j}' if k is not None else 0, f'S{j}[0]': 0 if k == 'n' else f'J{j}'})
                for o in ('first_step_deriv', 'last_step_deriv'): mem[f'J{j}.{o}'] = int(k == 1) if o == fl else int(k != 1)
            w = Loop(mem, dict(integ_jobs=[f'i{j}' for j in range(len(ks))]))
            lab = f'{name}: common {ip}, loop {own}, own integrators {ks}'
            try: env = simulate(f, w)
            except F.Unknown as ex: r.undecided(f'derivatives ({lab})', f' {ex}'); continue
            v = val(f.retval(), env)
            if v is None: r.undecided(f'derivatives ({lab})', pp(f.retval())[:120]); continue
            r.ob(f'derivatives are computed when some integrator asks for them ({lab})', bool(v) == bool(ip or own or 1 in ks), f' {v}', f.label)
            r.ob(f'every queue is walked from its start ({lab})', walked(w.log, w) is None, f' {walked(w.log, w)}', f.label)
            if flag: break
    # ---- changing the cycle between intervals
    q = u.extract(roots=['IntegLoopScheduler::set_integ_cycle'], opaque=['message_publish', 'exec_'], devirt=['JobData$'])
    f = r.flow(q, S + 'set_integ_cycle', ver=True)
    R = 1000
    for cls, old, seq in itertools.product((('x',), ('integ_loop',), ('x', 'integ_loop'), ('integ_loop', 'x'), ('integ_loop', 'integ_loop')), (100, 40), itertools.product((50, 20, 100, 130), repeat=2)):
        for now, late in ((0, 0), (30, 10), (100, 5)):
            start = now // old * old if now else 0       # the end of the last interval
            mem = {'parent_sim_object': 'P', 'next_cycle': old / R, 'nominal_cycle': old / R, 'JobData::time_tic_value': R, 'Trick::JobData::time_tic_value': R}
            for j, c in enumerate(cls): mem.update({f'j{j}.job_class_name': c, f'j{j}.cycle': old / R, f'j{j}.cycle_tics': old, f'j{j}.next_tics': start + old, f'j{j}.time_tic_value': R})
            one = [f'j{j}' for j, c in enumerate(cls) if c == 'integ_loop']
            lab = f'jobs {cls}, cycle {old}, then {seq}, at {now}'
            ok = True
            for n, c in enumerate(seq):
                at = now + n * late
                w = Loop(dict(mem), {}, {'in_cycle': c / R, 'arg1': c / R}, dict(exec_get_time_tics=at), {'P.jobs': [f'j{j}' for j in range(len(cls))]})
                w.mem.update({k: mem[k] for k in mem if '.' in k})
                try: env = simulate(f, w)
                except F.Unknown as ex: r.undecided(f'the cycle ({lab})', f' {ex}'); ok = False; break
                v = val(f.retval(), env)
                if len(one) != 1:
                    r.ob(f'a cycle is only changed if there is one loop job ({lab})', v and not any(e != mem.get(k.replace('this.', '', 1) if k.startswith('this.') else k) for k, e in w.mem.items()), f' {v}', f.label); ok = False; break
                nx, nc = w.mem.get(f'{one[0]}.next_tics'), w.mem.get('this.next_cycle')
                if not isinstance(nx, (int, float)) or not isinstance(nc, (int, float)): r.undecided(f'the cycle ({lab})', f' {nx} {nc}'); ok = False; break
                r.ob(f'the interval to the next call starts where the last one ended ({lab}, change {n + 1})', close(nx / R - nc, start / R), f' {nx / R - nc} instead of {start / R}', f.label)
                r.ob(f'the loop job runs at the new cycle ({lab}, change {n + 1})', v == 0 and close(w.mem[f'{one[0]}.cycle'], c / R) and w.mem[f'{one[0]}.cycle_tics'] == c and close(w.mem['this.nominal_cycle'], c / R) and at <= nx <= at + c, f' {v} {nx}', f.label)
                mem = {k[5:] if k.startswith('this.') else k: v for k, v in w.mem.items()}
    # ---- which loop integrates what
    CL = {'pre_integration': 'pre_integ_jobs', 'derivative': 'deriv_jobs', 'integration': 'integ_jobs', 'dynamic_event': 'dynamic_event_jobs', 'post_integration': 'post_integ_jobs'}
    f = r.flow(p, S + 'complete_construction', ver=True)
    w = Loop({}, {}); w.maps = ('this.class_to_queue', 'this.class_map')
    try: simulate(f, w)
    except F.Unknown as ex: r.undecided('the job classes', f' {ex}')
    else:
        cm = {k[len('this.class_map['):-1]: v for k, v in w.mem.items() if k.startswith('this.class_map[')}; cq = {k[len('this.class_to_queue['):-1]: v for k, v in w.mem.items() if k.startswith('this.class_to_queue[')}
        if not cm: r.undecided('the job classes', f' {list(w.mem)[:4]}')
        else: r.ob('each class of integration jobs has its queue', len(set(cm.values())) == 5 and {k: cq.get(str(v)) for k, v in cm.items()} == {k: 'this.' + v for k, v in CL.items()}, f' {cm} {cq}', f.label)
    f = r.flow(p, S + 'rebuild_jobs', ver=True)
    for objs, filled in itertools.product(((), ('o1',), ('o1', 'o2')), (0, 2)):
        mem = {}
        for k, (c, n) in enumerate(CL.items()): mem.update({f'class_map[{k}].first': c, f'class_map[{k}].second': 2000 + k, f'class_to_queue[{2000 + k}]': 'this.' + n})
        w = Loop({'this.' + k: v for k, v in mem.items()}, {n: [f'{n}{i}' for i in range(filled)] for n in CL.values()}, {}, {}, {'sim_objects': list(objs), 'class_map': list(range(5))})
        lab = f'objects {objs}, {filled} jobs before'
        try: env = simulate(f, w)
        except F.Unknown as ex: r.undecided(f'rebuilding ({lab})', f' {ex}'); continue
        g = [x for x in w.log if x[0] not in ('next', 'reset')]
        def pos(c): return [i for i, x in enumerate(g) if c(x)]
        r.ob(f'each object of the loop is entered as integrated by it, after the others were removed ({lab})', [x[2:] for x in g if x[0] == 'set_integrated_by'] == [(o, 'this') for o in objs]
             and len(pos(lambda x: x[0] == 'clear_integrated_by' and x[2] == 'this')) == 1 and pos(lambda x: x[0] == 'clear_integrated_by')[0] < min(pos(lambda x: x[0] == 'set_integrated_by') or [99]), f' {g[:6]}', f.label)
        for k, (c, n) in enumerate(CL.items()):
            ad = pos(lambda x: x[0] == 'add_jobs_to_queue' and x[5] == 'this.' + n)
            r.ob(f'the {c} jobs of each object are queued once, in order ({lab})', [(g[i][3], g[i][4]) for i in ad] == [(2000 + k, o) for o in objs], f' {[g[i] for i in ad]}', f.label)
            r.ob(f'the {c} jobs queued before are released first ({lab})', not filled or pos(lambda x: x[:2] == ('clear', 'this.' + n)) and [x[1] for x in g if x[0] == 'set_handled' and x[1].startswith(n) and x[2] == 0] == [f'{n}{i}' for i in range(filled)]
                 and pos(lambda x: x[:2] == ('clear', 'this.' + n))[0] < min(ad or [99]) and max(pos(lambda x: x[0] == 'set_handled' and x[1].startswith(n))) < pos(lambda x: x[:2] == ('clear', 'this.' + n))[0], f' {g[:9]}', f.label)
        r.ob(f'the jobs of all objects are known before they are queued ({lab})', bool(g) and g[0][0] == 'build_sim_object_info', f' {g[:2]}', f.label)
        r.ob(f'every queue is walked from its start ({lab})', walked(w.log, w) is None, f' {walked(w.log, w)}', f.label)
    for name in ('add_sim_object', 'remove_sim_object'):
        f = r.flow(p, S + name, params=['Trick::SimObject&'], ver=True)
        for objs, empty, by in itertools.product(((), ('o1',), ('o2',), ('o1', 'o2'), ('o2', 'o1')), (0, 1), (0, 'L2')):
            w = Loop({}, {}, {'sim_obj': 'o1', 'arg1': 'o1'}, dict(is_empty=empty, get_integrated_by=by), {'sim_objects': list(objs), 'L2.sim_objects': ['o3', 'o1', 'o4']})
            lab = f'{name}: {objs}, before initialisation {empty}, integrated by {by}'
            try: env = simulate(f, w)
            except F.Unknown as ex: r.undecided(f'membership ({lab})', f' {ex}'); continue
            v = val(f.retval(), env); new = w.lists['this.sim_objects']
            ok = ('o1' in objs) == (name == 'remove_sim_object')
            want = list(objs) if not ok else [o for o in objs if o != 'o1'] + (['o1'] if name == 'add_sim_object' else [])
            r.ob(f'an object is integrated by one loop at most, which knows it once ({lab})', sorted(new) == sorted(want) and bool(v) == (not ok), f' {new}, {v}', f.label)
            moved = ok and name == 'add_sim_object' and not empty and by
            r.ob(f'the former loop gives the object up ({lab})', w.lists['L2.sim_objects'] == (['o3', 'o4'] if moved else ['o3', 'o1', 'o4']), f" {w.lists['L2.sim_objects']}", f.label)
            r.ob(f'the queues are rebuilt for the new objects, of the former loop first ({lab})', [x[1] for x in w.log if x[0] == 'rebuild_jobs'] == (['L2'] if moved else []) + (['this'] if ok and not empty else []), f' {w.log}', f.label)
    # ---- loops of several rates
    D = 'MultiDtIntegLoopScheduler::'
    m = u.extract(roots=[D], opaque=OPQ + [D + 'find_integ_loop_job'], devirt=['Trick::MultiDtIntegLoopScheduler$'])
    f = r.flow(m, D + 'integrate', ver=True)
    def rated(cyc, nxt, mem, ans, q={}, args={}):
        w = Loop({'JobData::time_tic_value': R, 'next_tic': min(nxt or [0]), 'verbosity': 0, 'trick_curr_integ': 'T', **mem}, {**{n: [] for n in CL.values()}, **q}, args, dict(exec_get_curr_job='job', find_integ_loop_job='job', exec_get_time_tic_value=R, **ans),
                 {'integ_rates': [c / R for c in cyc], 'integ_cycle_tics': list(cyc[:len(nxt)]), 'integ_next_tics': list(nxt), 'indices_to_process': list(range(len(cyc)))})
        return w
    for (cyc, nxt), back, st, dn, ds, ld, at in itertools.product((((20,), (60,)), ((20, 30), (60, 60)), ((20, 30), (60, 90)), ((30, 20), (90, 60)), ((20, 50, 10), (70, 60, 60))), (10, 20), (0, 5), (0, 2), (0, 7), (0, 1), (0, 3)):
        if not dn and ds or at and (st or dn): continue
        now = min(nxt) + at
        q = {n: [f'{n}{i}' for i in range(2)] for n in CL.values()}; q['dynamic_event_jobs'] = q['dynamic_event_jobs'][:dn]
        w = rated(cyc, nxt, {'next_cycle': back / R, 'nominal_cycle': cyc[0] / R}, dict(exec_get_time_tics=now, exec_get_sim_time=now / R, integrate_dt=st, process_dynamic_events=ds, get_last_step_deriv=ld), q)
        lab = f'rates {cyc}, next {nxt}, interval {back}, results {st} and {ds}, {dn} dynamic events, last derivative {ld}, at {now}'
        try: env = simulate(f, w)
        except F.Unknown as ex: r.undecided(f'several rates ({lab})', f' {ex}'); continue
        if at:
            r.ob(f'a call at another time than the next boundary ends the simulation ({lab})', ('terminate',) in w.log, f' {w.log[:3]}', f.label); continue
        got = [x[:2] if x[0] == 'call' else x for x in w.log if x[0] in ('call', 'integrate_dt', 'process_dynamic_events', 'terminate')]
        want = [('call', x) for x in q['pre_integ_jobs']] + [('integrate_dt', (now - back) / R, back / R)]
        if not st and dn: want.append(('process_dynamic_events', (now - back) / R, now / R))
        bad = st or (dn and ds)
        if not bad: want += [('call', x) for x in (q['deriv_jobs'] if ld else []) + q['post_integ_jobs']]
        same = len(got) == len(want) and all(a[0] == b[0] and all((close(x, y) if isinstance(y, float) else x == y) for x, y in zip(a[1:], b[1:])) for a, b in zip(got, want))
        r.ob(f'an interval is integrated once, between its jobs, from its start to now ({lab})', same, f' {got} instead of {want}', f.label)
        r.ob(f'every queue is walked from its start ({lab})', walked(w.log, w) is None, f' {walked(w.log, w)}', f.label)
        v = val(f.retval(), env)
        if v is None: r.undecided(f'the result of integrating ({lab})', pp(f.retval())[:120])
        else: r.ob(f'a failed integration is reported ({lab})', bool(v) == bool(bad), f' {v}', f.label)
        if bad: continue
        new = [n + c if n == now else n for c, n in zip(cyc, nxt)]
        r.ob(f'the rates that are due move on by their cycle, the others stay ({lab})', w.lists['this.integ_next_tics'] == new, f" {w.lists['this.integ_next_tics']} instead of {new}", f.label)
        nx, nc = w.mem.get('this.next_tic'), w.mem.get('this.next_cycle')
        r.ob(f'the next interval ends at the earliest boundary and starts now ({lab})', nx == w.mem.get('job.next_tics') == min(new) and close(nc, (min(new) - now) / R), f" {nx}, {w.mem.get('job.next_tics')}, {nc}", f.label)
    f = r.flow(m, D + 'set_integ_rate', ver=True)
    skipped = False
    for (cyc, nxt, nt), idx, to, now in itertools.product((((20,), (60,), 60), ((20, 30), (60, 60), 60), ((20, 30), (60, 90), 60), ((30, 20), (90, 60), 60)), (0, 1, 2), (10, 25, 50), (40, 45, 60)):
        last = 40
        w = rated(cyc, nxt, {'next_cycle': (nt - last) / R, 'nominal_cycle': cyc[0] / R, 'job.next_tics': nt}, dict(exec_get_time_tics=now, exec_get_sim_time=now / R), {}, {'rate_idx': idx, 'arg1': idx, 'integRateIn': to / R, 'arg2': to / R})
        was = dict(w.mem)
        lab = f'rate {idx} of {cyc} to {to}, next {nxt}, at {now}'
        try: env = simulate(f, w)
        except F.Unknown as ex: r.undecided(f'changing a rate ({lab})', f' {ex}'); continue
        v = val(f.retval(), env)
        if idx >= len(cyc): r.ob(f'a rate that is not there is refused ({lab})', v and w.mem == was and w.lists['this.integ_rates'] == [c / R for c in cyc], f' {v}', f.label); continue
        nx, nc, n = w.mem.get('this.next_tic'), w.mem.get('this.next_cycle'), w.lists['this.integ_next_tics']
        begin = nx / R - nc if isinstance(nc, float) and isinstance(nx, int) else None
        r.ob(f'the interval to the next boundary repeats no time and starts by now ({lab})', begin is not None and last / R - 1e-9 <= begin <= now / R + 1e-9, f' {nx} and {nc}, last {last}', f.label)
        skipped = skipped or begin is not None and begin > last / R + 1e-9
        r.ob(f'the changed rate has its new cycle, the others stay ({lab})', v == 0 and w.lists['this.integ_cycle_tics'] == [to if i == idx else c for i, c in enumerate(cyc)] and all(close(a, (to if i == idx else c) / R) for i, (a, c) in enumerate(zip(w.lists['this.integ_rates'], cyc))) and [x for i, x in enumerate(n) if i != idx] == [x for i, x in enumerate(nxt) if i != idx], f" {w.lists['this.integ_cycle_tics']} {n}", f.label)
        r.ob(f'the loop runs at the earliest boundary that is not past ({lab})', nx == w.mem.get('job.next_tics') == min(n) and nx >= now and n[idx] <= now + to, f" {nx}, {w.mem.get('job.next_tics')}, {n}", f.label)
    r.ob('a rate that is changed between two boundaries skips no time', not skipped, ' the next interval starts now instead of where the last one ended', f.label)
    f = r.flow(m, D + 'initialize_rates', ver=True)
    for cyc, now in itertools.product(((20,), (20, 30), (30, 20, 50)), (0, 100)):
        w = rated(cyc, (), {'next_cycle': 9.0, 'next_tic': 1}, dict(exec_get_time_tics=now, exec_get_sim_time=now / R))
        lab = f'rates {cyc} at {now}'
        try: env = simulate(f, w)
        except F.Unknown as ex: r.undecided(f'initialising rates ({lab})', f' {ex}'); continue
        nx, nc = w.mem.get('this.next_tic'), w.mem.get('this.next_cycle')
        r.ob(f'each rate starts with an interval of its cycle ({lab})', w.lists['this.integ_cycle_tics'] == list(cyc) and w.lists['this.integ_next_tics'] == [now + c for c in cyc], f" {w.lists['this.integ_next_tics']}", f.label)
        r.ob(f'the first interval ends at the earliest boundary ({lab})', nx == w.mem.get('job.next_tics') == now + min(cyc) and close(nc, min(cyc) / R), f' {nx} {nc}', f.label)
    return r.finish('Intervals, passes, membership and cycles of integration loops evaluated from their summaries over sample queues, results and times.', [], floor=100)

RULES = {'I01': integration}
