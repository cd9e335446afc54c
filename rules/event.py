"""Rules on events: when they fire, what they run, and when they are looked at."""
import itertools, re
import flow as F
from vk import *
from flow import M, pp
from rules.comm import held, balanced, sp
from rules.mem import Env, on, val, calls
from rules.sim import State, World, Lists, Outside, simulate

IP, EM = 'trick_source/sim_services/InputProcessor/', 'trick_source/sim_services/EventManager/'
NOW = 777
OPQ = ['message_publish', 'basic_string', 'TMM_', 'exec_get', 'JobData::', 'IPPython::', 'exec_term', 'follow_addr', 'ref_attributes']

class Event(World):
    """an event with its conditions and actions; what it asks and runs is logged in order"""
    def __init__(s, conds, acts, reactivate=None, **ev):
        m = {'this.' + k: v for k, v in {**dict(active=1, is_user_event=1, manual=0, manual_fired=0, fired=1, hold=1, ran=1, cond_all=0, fired_count=3, fired_time=1, ran_count=5, ran_time=1,
             condition_count=len(conds), action_count=len(acts), condition_list=9000, action_list=9500), **ev}.items()}
        for i, c in enumerate(conds):
            for k, v in {**dict(enabled=1, hold=0, fired=0, fired_count=0, fired_time=-1, kind='text', value=0), **c}.items():
                if k not in ('kind', 'value'): m[f'this.condition_list[{i}].{k}'] = v
            kd = c.get('kind', 'text')
            m[f'this.condition_list[{i}].ref'] = 4000 + i if kd[:3] == 'var' else 0
            m[f'this.condition_list[{i}].job'] = 5000 + i if kd[:3] == 'job' else 0
            m[f'this.condition_list[{i}].ref.pointer_present'] = int(kd in ('varptr', 'varbad'))
            m[f'this.condition_list[{i}].ref.address'] = 0 if kd in ('varnull',) else 6000 + i
            m[f'this.condition_list[{i}].job.disabled'] = int(kd == 'joboff')
            m[f'this.condition_list[{i}].str'] = 3000 + i
        for i, a in enumerate(acts):
            for k, v in {**dict(enabled=1, ran=0, ran_count=0, ran_time=-1, act_type=0, disabled=0), **a}.items():
                if k not in ('kind', 'disabled'): m[f'this.action_list[{i}].{k}'] = v
            m[f'this.action_list[{i}].job'] = 8000 + i if a.get('act_type') else 0
            m[f'this.action_list[{i}].job.disabled'] = a.get('disabled', 0)
            m[f'this.action_list[{i}].str'] = 7000 + i
        World.__init__(s, m); s.conds, s.acts, s.re = conds, acts, reactivate
    def cell(s, p, env):
        p = World.cell(s, p.replace('*this.condition_list.', 'this.condition_list[0].').replace('*this.action_list.', 'this.action_list[0].'), env)
        return re.sub(r'(_list\[\d+\])\[0\]', r'\1', p)
    def answer(s, k, env):
        if k == 'arg1': return NOW
        if k in ('IPPythonEvent::ip', 'IPPythonEvent::mtv'): return 1
        if 'info_msg' in k and '(' not in k or 'terminate_sim_on' in k: return 0
        m = re.match(r'(?:\*follow_address_path\(this\.condition_list\[(\d+)\]\.ref\)|\*this\.condition_list\[(\d+)\]\.ref\.address)', k)
        if m:
            i = int(m[1] or m[2]); return s.truth(i)
        m = re.match(r'follow_address_path\(this\.condition_list\[(\d+)\]\.ref\)', k)
        if m: return 0 if s.conds[int(m[1])].get('kind') == 'varbad' else 6000 + int(m[1])
        m = re.match(r'(?:[\w:]*::)?JobData::call\(this\.condition_list\[(\d+)\]\.job\)', k)
        if m: return s.truth(int(m[1]))
        if re.match(r'out\d+:.*parse_condition\(', k):
            m = re.search(r'condition_list\[(\d+)\]\.str', k)
            return s.truth(int(m[1])) if m else None
        if re.match(r'(?:[\w:]*::)?IPPython::parse(_condition)?\(', k): return 0
        return None
    def truth(s, i): return s.conds[i].get('value', 0)
    def tracks(s, c): return c.startswith('this.')
    def call(s, e, env):
        n = e.name.split('::')[-1]
        at = lambda rx: [int(x) for a in e.args for x in re.findall(rx, s.cell(pp(a), env))]
        if n == 'parse_condition': s.log.append(('ask', at(r'condition_list\[(\d+)\]\.str')[0]))
        elif n == 'parse':
            i = at(r'action_list\[(\d+)\]\.str')
            if i:
                s.log.append(('run', i[0]))
                if s.re == i[0]: s.mem['this.active'] = 1
        elif n == 'call' and 'Job' in e.name:
            a = s.cell(pp(e.args[0]), env); m = re.fullmatch(r'this\.(condition|action)_list\[(\d+)\]\.job', a)
            if m: s.log.append(('ask' if m[1] == 'condition' else 'run', int(m[2])) + (('off',) if s.mem[a + '.disabled'] else ()))

def expect(w):
    """what should be left behind and done"""
    m = dict(w.mem); g = lambda k: m['this.' + k]
    log = []
    if not (g('active') or g('manual_fired')): return m, log
    if not g('is_user_event'):
        m['this.active'] = int(w.re == 0); log.append(('run', 0))
        m['this.fired_count'] += 1; m['this.fired_time'] = NOW; m['this.ran'] = 1; m['this.ran_count'] += 1; m['this.ran_time'] = NOW
        a = 'this.action_list[0].'; m[a + 'ran'] = 1; m[a + 'ran_count'] += 1; m[a + 'ran_time'] = NOW
        return m, log
    m['this.fired'] = m['this.ran'] = 0
    if not g('manual'):
        fs, hs = [], []
        for i, c in enumerate(w.conds):
            p = f'this.condition_list[{i}].'
            if not m[p + 'enabled']: m[p + 'fired'] = 0; continue
            if not (m[p + 'hold'] and m[p + 'fired']):
                k = c.get('kind', 'text')
                v = 0 if k in ('varnull', 'varbad') else w.truth(i)
                if k[:3] != 'var': log.append(('ask', i))
                m[p + 'fired'] = int(bool(v))
                if v: m[p + 'fired_count'] += 1; m[p + 'fired_time'] = NOW
            fs.append(m[p + 'fired']); hs.append(m[p + 'hold'])
        al = all if g('cond_all') else any
        m['this.fired'] = int(bool(fs) and al(fs)); m['this.hold'] = int(bool(hs) and al(hs))
    it = g('manual_fired') or g('fired')
    if it:
        m['this.fired_count'] += 1; m['this.fired_time'] = NOW
        if not g('manual_fired'): m['this.active'] = 0
    ran = False
    if it and w.acts:
        for i, a in enumerate(w.acts):
            p = f'this.action_list[{i}].'
            if not m[p + 'enabled']: m[p + 'ran'] = 0; continue
            k = a.get('act_type', 0)
            if k == 0:
                log.append(('run', i))
                if w.re == i: m['this.active'] = 1
            elif k == 1: m[p + 'job.disabled'] = 0
            elif k == 2: m[p + 'job.disabled'] = 1
            elif k == 3: log.append(('run', i))
            m[p + 'ran'] = 1; m[p + 'ran_count'] += 1; m[p + 'ran_time'] = NOW; ran = True
        m['this.manual_fired'] = int(g('manual_fired') and g('hold')); m['this.fired'] = int(g('fired') and g('hold'))
        m['this.ran'] = int(ran)
    if ran: m['this.ran_count'] += 1; m['this.ran_time'] = NOW
    return m, log

GROUPS = [('its conditions', r'this\.condition_list\[\d+\]\.(enabled|hold|fired)$'), ('when and how often its conditions fired', r'this\.condition_list\[\d+\]\.fired_(count|time)'), ('the jobs of its conditions are as they were', r'this\.condition_list\[\d+\]\.job'),
          ('whether it fired', r'this\.(fired|fired_count|fired_time|manual_fired)$'), ('whether it holds', r'this\.hold$'), ('whether it stays active', r'this\.active$'), ('whether it ran', r'this\.ran(_count|_time)?$'), ('what its actions record', r'this\.action_list\[\d+\]\.(ran|ran_count|ran_time|enabled)$'),
          ('the jobs its actions turn on or off', r'this\.action_list\[\d+\]\.job\.disabled$')]

def firing(r, u):
    p = u.extract(roots=['IPPythonEvent::process\\('], opaque=OPQ)
    f = r.flow(p, 'IPPythonEvent::process', ver=True)
    worlds = []
    C = lambda e, h, fi, v, **k: dict(enabled=e, hold=h, fired=fi, value=v, fired_count=2, fired_time=3, **k)
    one = [C(*x) for x in itertools.product((0, 1), repeat=4)]
    P = [dict(act_type=0), dict(act_type=0)]
    for c in one: worlds.append((f'one condition {sum(c.values()) and tuple(c.values())[:4]}', Event([c], P)))
    for a in one:
        for b_ in one:
            for al in (0, 1): worlds.append((f'{"all" if al else "any"} of {tuple(a.values())[:4]} {tuple(b_.values())[:4]}', Event([a, b_], P, cond_all=al)))
    few = [C(1, 0, 0, 1), C(1, 0, 1, 0), C(1, 1, 1, 0), C(0, 0, 1, 1), C(0, 1, 1, 1)]
    for t_ in itertools.product(few, repeat=3):
        for al in (0, 1): worlds.append((f'{"all" if al else "any"} of three {[tuple(x.values())[:4] for x in t_]}', Event(list(t_), P, cond_all=al)))
    for k in ('text', 'job', 'joboff', 'var', 'varptr', 'varnull', 'varbad'):
        for v in (0, 1):
            worlds.append((f'a condition on {k} that is {bool(v)}', Event([C(1, 0, 0, v, kind=k)], P)))
            worlds.append((f'a condition on {k} after another that is {bool(v)}', Event([C(1, 0, 0, 1), C(1, 0, 0, v, kind=k)], P, cond_all=1)))
            worlds.append((f'a condition after another on {k} that is {bool(v)}', Event([C(1, 0, 0, v, kind=k), C(1, 0, 0, 1 - v)], P, cond_all=1)))
    worlds.append(('no conditions', Event([], P))); worlds.append(('no conditions, all', Event([], P, cond_all=1)))
    for ac, mn, mf, ho in itertools.product((0, 1), repeat=4):
        for v in (0, 1): worlds.append((f'active={ac} manual={mn} manual fired={mf} hold={ho} condition={v}', Event([C(1, 0, 0, v)], P, active=ac, manual=mn, manual_fired=mf, hold=ho)))
    acts = [dict(act_type=k, enabled=e, disabled=d, ran=1, ran_count=4, ran_time=2) for k in (0, 1, 2, 3) for e in (0, 1) for d in (0, 1)]
    for a in acts:
        worlds.append((f'an action {tuple(a.values())[:3]}', Event([C(1, 0, 0, 1)], [a])))
        worlds.append((f'an action {tuple(a.values())[:3]}, not fired', Event([C(1, 0, 0, 0)], [a])))
        worlds.append((f'an action {tuple(a.values())[:3]} between others', Event([C(1, 0, 0, 1)], [dict(act_type=3), a, dict(act_type=0)])))
    worlds.append(('no actions', Event([C(1, 0, 0, 1)], []))); worlds.append(('no actions, manual', Event([C(1, 0, 0, 1)], [], manual=1, manual_fired=1)))
    for i in (0, 1): worlds.append((f'action {i} activates it again', Event([C(1, 0, 0, 1)], P, reactivate=i)))
    for i in (0, 1): worlds.append((f'action {i} activates it again while it holds', Event([C(1, 1, 1, 0)], P, reactivate=i)))
    for ac, mf in ((0, 0), (1, 0), (0, 1)): worlds.append((f'a read, active={ac} manual fired={mf}', Event([], [dict(act_type=0)], is_user_event=0, active=ac, manual_fired=mf)))
    worlds.append(('a read that activates itself', Event([], [dict(act_type=0)], is_user_event=0, reactivate=0)))
    for lab, w in worlds:
        m, log = expect(w)
        try: simulate(f, w)
        except F.Unknown as ex: r.undecided(f'an event with {lab}', f' {ex}'); continue
        for what, rx in GROUPS:
            ks = [k for k in m if re.search(rx, k)]
            bad = [f'{k[5:]} = {w.mem.get(k)}, not {m[k]}' for k in ks if w.mem.get(k) != m[k]]
            if ks: r.ob(f'event: {what} ({lab})', not bad, ' ' + '; '.join(bad[:3]), f.label)
        ask = lambda l: [x for x in l if x[0] == 'ask']
        r.ob(f'event: each condition is asked once, in order, when it has to be ({lab})', ask(w.log) == ask(log), f' {ask(w.log)}, not {ask(log)}', f.label)
        run = lambda l: [x for x in l if x[0] == 'run']
        r.ob(f'event: each enabled action is run once, in order, when it fired ({lab})', run(w.log) == run(log), f' {run(w.log)}, not {run(log)}', f.label)
        r.ob(f'event: conditions before actions ({lab})', w.log == ask(w.log) + run(w.log), f' {w.log}', f.label)

TICMAX = 2**63 - 1

class Queue(Lists):
    """the events of a processor"""
    def __init__(s, evs, sched, pend, job=-1, restart=0, arg=None, adds=None):
        m = {'this.process_event_job.next_tics': job}
        for n, (nx, cy, ac) in evs.items():
            m[n + '.next_tics'] = nx; m[n + '.cycle_tics'] = cy; m[n + '.active'] = ac
        Lists.__init__(s, m, {'this.event_set': sched, 'this.pending_events': pend}, {'this.event_set': lambda w, x: w.mem[x + '.next_tics']})
        s.re, s.arg, s.evs, s.adds = restart, arg, evs, adds or {}
        for k in ('this.event_set', 'this.pending_events'): m
    def answer(s, k, env):
        if k == 'arg1': return NOW if s.arg is None else s.arg
        if k == 'arg2': return s.re
        return None
    def tracks(s, c): return c.split('.')[0] in s.evs or c == 'this.process_event_job.next_tics'
    def other(s, e, env):
        n = e.name.split('::')[-1]
        if n == 'process' and 'Event' in e.name and 'Processor' not in e.name:
            v = s.num(e.args[0], env); s.log.append((v, s.mem[v + '.next_tics'], s.num(e.args[1], env)))
            for x in s.adds.get(v, ()): s.lists['this.pending_events'].append(x)

def due(w):
    """what processing does to the events"""
    q = list(w.lists['this.event_set']); m = dict(w.mem); log = []; pend = list(w.lists['this.pending_events'])
    while q and m[q[0] + '.next_tics'] == NOW:
        x = q.pop(0)
        if m[x + '.active']: log.append((x, NOW, NOW)); pend += w.adds.get(x, ())
        c = m[x + '.cycle_tics']
        if c:
            m[x + '.next_tics'] += c
            i = 0
            while i < len(q) and not m[x + '.next_tics'] < m[q[i] + '.next_tics']: i += 1
            q.insert(i, x)
    m['this.process_event_job.next_tics'] = m[q[0] + '.next_tics'] if q else TICMAX
    return m, q, pend, log

def admitted(w):
    q = list(w.lists['this.event_set']); m = dict(w.mem)
    for x in w.lists['this.pending_events']:
        if m[x + '.cycle_tics']:
            if not w.re: m[x + '.next_tics'] = NOW
        elif m[x + '.next_tics'] < NOW: continue
        i = 0
        while i < len(q) and not m[x + '.next_tics'] < m[q[i] + '.next_tics']: i += 1
        q.insert(i, x); m['this.process_event_job.next_tics'] = m[q[0] + '.next_tics']
    return m, q, [], []

def forgotten(w):
    m = dict(w.mem); q = [x for x in w.lists['this.event_set'] if x != w.arg]; pend = [x for x in w.lists['this.pending_events'] if x != w.arg]
    m['this.process_event_job.next_tics'] = m[q[0] + '.next_tics'] if q else TICMAX
    return m, q, pend, []

def emptied(w): return dict(w.mem), [], [], []
def rescheduled(w):
    q = w.lists['this.event_set']; m = dict(w.mem)
    m['this.process_event_job.next_tics'] = m[q[0] + '.next_tics'] if q else TICMAX
    return m, q, w.lists['this.pending_events'], []
def appended(w): return dict(w.mem), w.lists['this.event_set'], w.lists['this.pending_events'] + [w.arg], []

def compare(r, f, what, worlds, spec):
    """obligations over sample queues: the order of the events, their times, the time of the job, what is processed"""
    for lab, w in worlds:
        m, q, pend, log = spec(w)
        try: simulate(f, w)
        except Outside as ex: r.ob(f'{what}: only what is there is used, and it ends ({lab})', False, f' {ex}', f.label); continue
        except F.Unknown as ex: r.undecided(f'{what} ({lab})', f' {ex}'); continue
        bad = [f'{k} = {w.mem[k]}, not {m[k]}' for k in m if k.endswith('.next_tics') and k[:4] != 'this' and w.mem[k] != m[k]]
        r.ob(f'{what}: when each event is next looked at ({lab})', not bad, ' ' + '; '.join(bad[:3]), f.label)
        k = 'this.process_event_job.next_tics'
        r.ob(f'{what}: the events are looked at when the earliest is due ({lab})', w.mem[k] == m[k], f' {w.mem[k]}, not {m[k]}', f.label)
        r.ob(f'{what}: the scheduled events, in order ({lab})', w.lists['this.event_set'] == q, f" {w.lists['this.event_set']}, not {q}", f.label)
        r.ob(f'{what}: the events to be scheduled, in order ({lab})', w.lists['this.pending_events'] == pend, f" {w.lists['this.pending_events']}, not {pend}", f.label)
        r.ob(f'{what}: the active events that are due are processed, in order ({lab})', w.log == log, f' {w.log}, not {log}', f.label)

def queues(r, u):
    p = u.extract(roots=['EventProcessor::', 'CompareEventPtrs::operator'], opaque=OPQ + ['IPPython'])
    get = lambda n: r.flow(p, 'EventProcessor::' + n, ver=True)
    f = r.flow(p, 'CompareEventPtrs::operator()', ver=True)
    for a, b_ in ((1, 2), (2, 1), (2, 2), (-1, 2), (2 ** 40, 5)):
        w = Lists({'L.next_tics': a, 'R.next_tics': b_}, args={'arg1': 'L', 'arg2': 'R'})
        v = val(f.retval(), State(w))
        if v is None: r.undecided('the order of events', pp(f.retval())[:160])
        else: r.ob(f'an event comes before another if it is due earlier ({a} and {b_})', bool(v) == (a < b_), f' {v}', f.label)
    p1 = u.extract(roots=['Event::set_cycle'], opaque=OPQ)
    if p1.get('Event::set_cycle'):
        f = r.flow(p1, 'Event::set_cycle')
        for rate, tt in ((1.0, 1000000), (0.001, 1000000), (0.1, 1000), (0.29, 100), (0.0, 10), (1.001, 1000), (0.57, 100), (0.1, 7)):
            env = Env([('arg1', rate), ('exec_get_time_tic_value()', tt), ('round', None)], [(r'exec_get_time_tic_value\(.*', tt)])
            fin = [val(e.val, env) for e in f.effects if e.kind == 'store' and sp(e) == 'this.cycle_tics' and on(e.guard, env)]
            if not fin or fin[-1] is None: r.undecided('the cycle of an event', ''); continue
            r.ob(f'the cycle of an event is rounded to tics ({rate} s of {tt})', fin[-1] == int(rate * tt + 0.5), f' {fin[-1]}', f.label)
    f = get('process_event')
    kinds = {'now once': (NOW, 0, 1), 'now cyclic': (NOW, 5, 1), 'now idle': (NOW, 7, 0), 'now idle once': (NOW, 0, 0), 'soon': (NOW + 5, 3, 1), 'later once': (NOW + 9, 0, 1)}
    ws = []
    for n in range(4):
        for c in itertools.product(kinds, repeat=n):
            evs = {f'E{i}': kinds[k] for i, k in enumerate(c)}
            if list(evs) != sorted(evs, key=lambda x: evs[x][0]): continue
            ws.append((', '.join(c) or 'none', Queue(evs, list(evs), [])))
    ws.append(('one that adds another', Queue({'E0': (NOW, 5, 1), 'E1': (3, 0, 1)}, ['E0'], [], adds={'E0': ['E1']})))
    compare(r, f, 'processing events', ws, due)
    f = get('add_pending_events')
    kinds = {'cyclic': (0, 5, 1), 'cyclic later': (NOW + 5, 5, 1), 'past': (NOW - 1, 0, 1), 'now': (NOW, 0, 1), 'future': (NOW + 9, 0, 0)}
    ws = []
    for n in range(4):
        for c in itertools.product(kinds, repeat=n):
            for base in ({}, {'S0': (NOW + 2, 4, 1), 'S1': (NOW + 20, 0, 1)}):
                if n == 3 and base: continue
                for re_ in (0, 1):
                    evs = {f'E{i}': kinds[k] for i, k in enumerate(c)}
                    ws.append((f'{", ".join(c) or "none"}{" to others" if base else ""}{" at a restart" if re_ else ""}', Queue({**evs, **base}, list(base), list(evs), job=base['S0'][0] if base else TICMAX, restart=re_)))
    compare(r, f, 'scheduling events', ws, admitted)
    f = get('remove_event')
    A = {'E0': (NOW, 5, 1), 'E1': (NOW + 2, 0, 1), 'E2': (NOW + 7, 3, 1)}
    ws = [(f'{x} of {q} and {p_}', Queue({**A, 'E9': (1, 1, 1)}, q, p_, arg=x)) for x in ('E0', 'E1', 'E2', 'E9') for q in ([], ['E0'], ['E0', 'E1'], ['E0', 'E1', 'E2'], ['E1', 'E2']) for p_ in ([], ['E0'], ['E2', 'E1'], ['E1', 'E9'])]
    compare(r, f, 'removing an event', ws, forgotten)
    some = [([], []), (['E0'], []), (['E0', 'E2'], ['E1'])]
    for n, sp_ in (('preload_checkpoint', emptied), ('set_process_event_job_time', rescheduled)):
        f = get(n)
        compare(r, f, {'preload_checkpoint': 'before a checkpoint is loaded', 'set_process_event_job_time': 'rescheduling'}[n], [(f'{q} and {p_}', Queue(A, q, p_)) for q, p_ in some], sp_)
    f = get('add_event')
    compare(r, f, 'adding an event', [(f'{q} and {p_}', Queue({**A, 'E9': (1, 1, 1)}, q, p_, arg='E9')) for q, p_ in some], appended)

class Manager(Lists):
    """the list of events with the processors and instrumented jobs; calls are logged"""
    SIZES = {'ARR': 0, 'NEW': 100, 'BIG': 0}
    def __init__(s, n=0, alloc=100, evs={}, insts=(), procs=2, args={}, jobs=('nT',), tics=(1, 1)):
        m = {'this.num_active_events': n, 'this.num_allocated': alloc if n else 0, 'this.active_events': 'ARR' if n else 0}
        for i in range(alloc): m[f'ARR[{i}]'] = f'E{i}' if i < n else 0
        names = {f'E{i}' for i in range(n)} | set(evs)
        for e in names:
            for k, v in {**dict(thread_id=0, before_after=0, target_inst=1, free_on_removal=0, next_tics=0, cycle=1.0, cycle_tics=1, active=0, name='n' + e, target_name='nT'), **evs.get(e, {})}.items(): m[f'{e}.{k}'] = v
        for i, (e, j) in enumerate(insts): m[f'I{i}.event'], m[f'I{i}.target_job'], m[f'I{i}.name'] = e, j, f'nI{i}'
        m.update({k: v for k, v in args.items() if k[0] == 'S'})
        Lists.__init__(s, m, {'this.event_processors': [f'P{i}' for i in range(procs)], 'this.events_instrumented': [f'I{i}' for i in range(len(insts))]}, args={k: v for k, v in args.items() if k[0] == 'a'})
        s.size = {'ARR': alloc if n else 0}; s.jobs, s.tics, s.names = jobs, tics, names
    def check(s, c):
        m = re.fullmatch(r'(ARR|NEW|BIG)\[(-?\d+)\]', c)
        if m and not 0 <= int(m[2]) < s.size.get(m[1], 0): raise Outside(f'element {m[2]} of an array of {s.size.get(m[1], 0)} events')
        return m
    def tracks(s, c):
        s.check(c); return True
    def result(s, t, env):
        n = t[1].split('::')[-1]
        if n in ('str', 'c_str', 'std::string'): return s.num(t[2], env)
        if n == 'compare': return int(s.num(t[2], env) != s.num(t[3], env))
        if n == 'exec_get_job': return 'J' if s.num(t[2], env) in s.jobs else 0
        if n == 'exec_get_time_tic_value': return s.tics[1]
        if n == 'exec_get_old_time_tic_value': return s.tics[0]
        if n == 'TMM_declare_var_s': return 'NEW'
        if n.startswith('TMM_resize_array'): return 'BIG'
        return None
    def answer(s, k, env): return 'NEWI' if k == 'new' else None
    def other(s, e, env):
        n = e.name.split('::')[-1]
        if n in ('operator new', 'exec_get_job') or n.startswith(('exec_get', 'message')): return
        if n == 'TMM_declare_var_s': s.size['NEW'] = int(re.search(r'\[(\d+)\]', pp(e.args[0]))[1]); s.mem.update({f'NEW[{i}]': 0 for i in range(s.size['NEW'])}); return
        if n.startswith('TMM_resize_array'):
            k = s.num(e.args[1], env); old = s.ptr(e.args[0], env); s.size['BIG'] = k
            for i in range(min(k, s.size.get(old, 0))): s.mem[f'BIG[{i}]'] = env.snap[f'BIG[{i}]'] = s.mem[f'{old}[{i}]']
            for i in range(s.size.get(old, 0), k): s.mem[f'BIG[{i}]'] = env.snap[f'BIG[{i}]'] = 'junk'
            s.size.pop(old, None); return
        a = []
        for x in e.args:
            try: a.append(s.ptr(x, env) if x[0] != 'c' else x[1])
            except F.Unknown: a.append(val(x, env))
        s.log.append(('~' if n[0] == '~' else n,) + tuple(a))
    def known(s):
        """the events in the list"""
        n, a = s.mem['this.num_active_events'], s.mem['this.active_events']
        l = [s.mem.get(f'{a}[{i}]') for i in range(n)]
        return l if a == 0 and n == 0 or s.size.get(a, 0) >= n else 'a freed or too small array'
    def spare(s):
        a, n = s.mem['this.active_events'], s.mem['this.num_active_events']
        return [i for i in range(n, s.size.get(a, 0)) if s.mem[f'{a}[{i}]'] != 0]

def managed(r, f, what, worlds):
    """worlds: label, world, events afterwards, calls, instrumented jobs afterwards, other cells, return value"""
    for lab, w, evs, log, insts, cells, ret in worlds:
        keep = {k: v for k, v in w.mem.items() if '.' in k and k.split('.')[0] in w.names}
        try: env = simulate(f, w, 260)
        except Outside as ex: r.ob(f'{what}: only what is there is used, and it ends ({lab})', False, f' {ex}', f.label); continue
        except F.Unknown as ex: r.undecided(f'{what} ({lab})', f' {ex}'); continue
        if evs is not None:
            r.ob(f'{what}: the known events, in order ({lab})', w.known() == evs, f' {str(w.known())[-80:]}, not {str(evs)[-80:]}', f.label)
            r.ob(f'{what}: the rest of the list is empty ({lab})', not w.spare(), f' slots {w.spare()[:5]} are not', f.label)
            a = w.mem['this.active_events']
            r.ob(f'{what}: the size of the list is known ({lab})', a == 0 or w.mem['this.num_allocated'] == w.size.get(a), f" {w.mem['this.num_allocated']}, not {w.size.get(a)}", f.label)
        r.ob(f'{what}: what is done, in order ({lab})', w.log == log, f' {w.log}, not {log}', f.label)
        r.ob(f'{what}: the jobs that are instrumented ({lab})', w.lists['this.events_instrumented'] == insts, f" {w.lists['this.events_instrumented']}, not {insts}", f.label)
        keep.update(cells)
        bad = [f'{k} = {w.mem.get(k)}, not {v}' for k, v in keep.items() if w.mem.get(k) != v]
        r.ob(f'{what}: what the events hold ({lab})', not bad, ' ' + '; '.join(bad[:3]), f.label)
        if ret is not None:
            v = val(f.retval(), env)
            if v is None: r.undecided(f'{what}: what is returned ({lab})', pp(f.retval())[:160])
            else: r.ob(f'{what}: what is returned ({lab})', v == ret, f' {v}, not {ret}', f.label)

def manager(r, u):
    OP = OPQ + ['EventProcessor::', 'EventInstrument::EventInstrument', 'InstrumentBase::~', 'IPPython', 'JobData::']
    p = u.extract(roots=['EventManager::'], opaque=OP)
    get = lambda n: r.flow(p, 'EventManager::' + n, ver=True)
    L = lambda n: [f'E{i}' for i in range(n)]
    NS = ((0, 100), (1, 100), (2, 100), (98, 100), (99, 100), (100, 200), (198, 200), (199, 200))
    ws = []
    for n, al in NS:
        for th in (0, 1, 2, 7):
            new = {'X': dict(thread_id=th)}
            ok = th < 2
            lg = lambda x: [('add_event', f'P{th}', x), ('add', x)] if ok else []
            ws.append((f'new, thread {th}, {n} others', Manager(n, al, new, args={'arg1': 'X'}), L(n) + ['X'], lg('X'), [], {}, 0 if ok else -1))
            if n: ws.append((f'known, thread {th}, of {n}', Manager(n, al, {f'E{n-1}': dict(thread_id=th)}, args={'arg1': f'E{n-1}'}), L(n), lg(f'E{n-1}'), [], {}, 0 if ok else -1))
    ws.append(('new, of the name of another', Manager(2, 100, {'X': dict(name='nE0')}, args={'arg1': 'X'}), L(2) + ['X'], [('add_event', 'P0', 'X'), ('add', 'X')], [], {}, 0))
    managed(r, get('add_event'), 'adding an event', ws)
    for fn, code, call in (('add_event_before', 1, 'add_inst_before'), ('add_event_after', 2, 'add_inst_after')):
        ws = []
        for n, al in ((0, 100), (2, 100), (99, 100)):
            for tn in ('nT', 'nNone'):
                ok = tn == 'nT'; x = {'X': dict(target_name='nOld', target_inst=9, before_after=3 - code)}
                a = {'arg1': 'X', 'arg2': 'S2', 'S2': tn, 'arg3': 3}
                ws.append((f'{"a" if ok else "no"} job, {n} others', Manager(n, al, x, args=a), L(n) + ['X'] if ok else L(n), [('EventInstrument', 'NEWI', 'X', 'J'), (call, 'J', 'NEWI'), ('add', 'X')] if ok else [], ['NEWI'] if ok else [],
                           {'X.before_after': code, 'X.target_name': tn, 'X.target_inst': 3} if ok else {}, 0))
        managed(r, get(fn), f'adding an event {"before" if code == 1 else "after"} a job', ws)
    ws = []
    for n in (1, 2, 3, 5):
        for i in range(n):
            for fr in (0, 1):
                e = f'E{i}'; rest = [x for x in L(n) if x != e]
                for th in (0, 1, 5):
                    lg = ([('remove_event', f'P{th}', e)] if th < 2 else []) + [('remove', e)] + ([('TMM_delete_var_a', 'ARR')] if n == 1 else []) + ([('TMM_delete_var_a', e)] if fr else [])
                    ws.append((f'{e} of {n}, thread {th}{", to be freed" if fr else ""}', Manager(n, 100, {e: dict(thread_id=th, free_on_removal=fr)}, args={'arg1': e}), rest, lg, [], {}, 0))
                ins = [(e, 'J0'), (e, 'J1'), ('Z', 'J2'), (e, 'J3'), ('Z', 'J4')]
                lg = [y for k in (0, 1, 3) for y in (('remove_inst', f'J{k}', f'nI{k}'), ('~', f'I{k}'))] + [('remove', e)] + ([('TMM_delete_var_a', 'ARR')] if n == 1 else []) + ([('TMM_delete_var_a', e)] if fr else [])
                for ba in (1, 2): ws.append((f'{e} of {n}, on jobs {ba}{", to be freed" if fr else ""}', Manager(n, 100, {e: dict(before_after=ba, free_on_removal=fr), 'Z': {}}, ins, args={'arg1': e}), rest, lg, ['I2', 'I4'], {}, 0))
    for n in (0, 2): ws.append((f'one that is not known, {n} others', Manager(n, 100, {'X': {}}, args={'arg1': 'X'}), L(n), [('remove_event', 'P0', 'X'), ('remove', 'X')], [], {}, 0))
    ws.append(('none', Manager(2, 100, args={'arg1': 0}), L(2), [], [], {}, 0))
    managed(r, get('remove_event'), 'removing an event', ws)
    f = get('get_event')
    ws = [(f'{nm} of {n}', Manager(n, 100, {'E1': dict(name='nE1')}, args={'arg1': 'S1', 'S1': nm}), L(n), [], [], {}, nm[1:] if nm in [f'nE{i}' for i in range(n)] else 0) for n in (0, 1, 3) for nm in ('nE0', 'nE1', 'nE2', 'nX')]
    managed(r, f, 'finding an event', ws)
    for fn, v in (('activate_event', 1), ('deactivate_event', 0)):
        ws = [(f'{nm} of {n}', Manager(n, 100, {f'E{i}': dict(active=1 - v) for i in range(n)}, args={'arg1': nm}), L(n), [], [], {nm[1:] + '.active': v} if nm in [f'nE{i}' for i in range(n)] else {}, None) for n in (0, 1, 3) for nm in ('nE0', 'nE1', 'nE2', 'nX')]
        managed(r, get(fn), f'turning an event {"on" if v else "off"} by name', ws)
    ws = []
    for old, new in ((1000, 1000000), (1000000, 1000), (3, 7), (1, 10)):
        T = [dict(next_tics=3000, cycle=0.5), dict(next_tics=0, cycle=0.0), dict(next_tics=old * 2, cycle=1.001)]
        rd = lambda x: int(abs(x) + 0.5)
        ws.append((f'from {old} to {new}', Manager(3, 100, {f'E{i}': t_ for i, t_ in enumerate(T)}, tics=(old, new)), L(3), [('set_process_event_job_time', 'P0'), ('set_process_event_job_time', 'P1')], [],
                   {f'E{i}.{k}': v for i, t_ in enumerate(T) for k, v in (('next_tics', rd(t_['next_tics'] / old * new)), ('cycle_tics', rd(t_['cycle'] * new)))}, None))
    managed(r, get('time_tic_changed'), 'changing the time tic value', ws)
    managed(r, get('preload_checkpoint'), 'before a checkpoint is loaded', [(f'{k} jobs', Manager(2, 100, {'Z': {}}, [('E0', 'J0'), ('E1', 'J1'), ('E0', 'J2')][:k]), L(2), [y for i in range(k) for y in (('remove_inst', f'J{i}', f'nI{i}'), ('~', f'I{i}'))], [], {}, None) for k in (0, 1, 3)])
    p2 = u.extract(roots=['EventManager::restart'], opaque=OP + ['EventManager::add_event'])
    f = r.flow(p2, 'EventManager::restart', ver=True)
    ws = []
    for c in itertools.product((0, 1, 2), repeat=3):
        lg = []
        for i, k in enumerate(c):
            lg += [('restart', f'E{i}'), ('add_event', 'this', f'E{i}') if k == 0 else (('add_event_before', 'add_event_after')[k - 1], 'this', f'E{i}', f't{i}', i + 4)]
        ws.append((f'{c}', Manager(3, 100, {f'E{i}': dict(before_after=k, target_name=f't{i}', target_inst=i + 4) for i, k in enumerate(c)}), L(3), lg, [], {}, None))
    ws.append(('none', Manager(0), [], [], [], {}, None))
    managed(r, f, 'after a checkpoint was loaded', ws)

class Edited(Lists):
    """an event with n conditions and actions that is changed; L is the list, of size n, X0.. its elements"""
    def __init__(s, kind, n, args, found=1, cls='scheduled', **m):
        s.kind, s.n, s.found = kind, n, found
        s.lst, s.cnt = f'this.{kind}_list', f'this.{kind}_count'
        mem = {s.cnt: n, s.lst: 'L' if n else 0, 'J.disabled': 1, 'J.job_class_name': cls, **{k: v for k, v in args.items() if k[0] == 'S'}}
        mem.update({'this.' + k: 7 for k in ('manual', 'manual_fired', 'hold', 'fired', 'cond_all', 'active')})
        for i in range(n):
            mem[f'L[{i}]'] = f'X{i}'
            for k, v in s.fields().items(): mem[f'X{i}.{k}'] = v
        mem.update(m)
        Lists.__init__(s, mem, args={k: v for k, v in args.items() if k[0] != 'S'}); s.size = {'L': n}
    def fields(s):
        if s.kind == 'condition': return dict(ref='oldref', job='oldjob', enabled=5, hold=5, fired=6, cond_type=8, str='oldstr', comment='oldcomment', fired_count=9, fired_time=10)
        return dict(job='oldjob', enabled=5, ran=6, act_type=8, str='oldstr', comment='oldcomment', ran_count=9, ran_time=10)
    def tracks(s, c):
        m = re.fullmatch(r'(\w+)\[(-?\d+)\](.*)', c)
        if m and m[1] in ('L', 'N', 'B') and not 0 <= int(m[2]) < s.size.get(m[1], 0): raise Outside(f'element {m[2]} of {s.size.get(m[1], 0)}')
        return True
    def load(s, t, env):
        a = t[1]
        if a[0] == 'idx' and len(a) == 3: s.tracks(s.where(a, env))
        return Lists.load(s, t, env)
    def result(s, t, env):
        n = t[1].split('::')[-1]
        if n in ('c_str', 'str', 'std::string'): return s.num(t[2], env)
        if n == 'compare': return int(s.num(t[2], env) != s.num(t[3], env))
        if n in ('size', 'length'): return len(s.num(t[2], env))
        if n == 'substr': x = s.num(t[2], env); i = s.num(t[3], env); return x[i:i + s.num(t[4], env)]
        if n == 'exec_get_job': return 'J' if s.found and s.num(t[2], env)[:3] != 'old' else 'J ' + s.num(t[2], env) if s.found else 0
        if n == 'ref_attributes': return 'R' if s.found and s.num(t[2], env)[:3] != 'old' else 'R ' + s.num(t[2], env) if s.found else 0
        if n == 'TMM_declare_var_s': return 'N' if '*' in s.num(t[2], env) else 'X' + str(s.n)
        if n.startswith('TMM_resize_array'): return 'B'
        if n == 'exec_get_time_tics': return NOW
        return s.answer(pp(t), env)
    def other(s, e, env):
        n = e.name.split('::')[-1]
        if n == 'TMM_declare_var_s':
            if '*' in s.num(e.args[0], env): s.size['N'] = int(re.search(r'\[(\d+)\]', s.num(e.args[0], env))[1]); s.mem['N[0]'] = 0
            else: s.log.append(('made', s.num(e.args[0], env)))
        elif n.startswith('TMM_resize_array'):
            k = s.num(e.args[1], env); old = s.ptr(e.args[0], env); s.size['B'] = k
            for i in range(min(k, s.size.get(old, 0))): s.mem[f'B[{i}]'] = env.snap[f'B[{i}]'] = s.mem[f'{old}[{i}]']
            s.size.pop(old, None)
        elif n == 'process_user_event': s.log.append(('process', s.num(e.args[1], env)))
    def elements(s):
        a, k = s.mem[s.lst], s.mem[s.cnt]
        if a == 0: return [] if k == 0 else 'none'
        return [s.mem.get(f'{a}[{i}]') for i in range(k)] if s.size.get(a) == k else f'a list of {s.size.get(a)}'

def edited(r, f, what, worlds):
    """worlds: label, world, elements afterwards, fields changed, calls, value returned"""
    for lab, w, els, cells, log, ret in worlds:
        want = {k: v for k, v in w.mem.items() if '.' in k and k not in (w.lst, w.cnt)}; want.update(cells)
        try: env = simulate(f, w, 20)
        except Outside as ex: r.ob(f'{what}: only what is there is used ({lab})', False, f' {ex}', f.label); continue
        except F.Unknown as ex: r.undecided(f'{what} ({lab})', f' {ex}'); continue
        r.ob(f'{what}: the elements ({lab})', w.elements() == els, f' {w.elements()}, not {els}', f.label)
        bad = [f'{k} = {w.mem.get(k)}, not {v}' for k, v in want.items() if w.mem.get(k) != v]
        r.ob(f'{what}: what they hold ({lab})', not bad, ' ' + '; '.join(bad[:3]), f.label)
        if log is not None: r.ob(f'{what}: what is done ({lab})', w.log == log, f' {w.log}, not {log}', f.label)
        if ret is not None:
            v = val(f.retval(), env)
            if v is None: r.undecided(f'{what}: what is returned ({lab})', pp(f.retval())[:160])
            else: r.ob(f'{what}: what is returned ({lab})', v == ret, f' {v}, not {ret}', f.label)

def edits(r, u):
    OP = ['message_publish', 'basic_string', 'TMM_', 'exec_get', 'JobData::', 'IPPython::', 'exec_term', 'ref_attributes']
    get = lambda n, *a: r.flow(u.extract(roots=[f'IPPythonEvent::{n}\\('], opaque=OP + list(a)), 'IPPythonEvent::' + n, ver=True)
    NUMS = [(n, i) for n in (0, 1, 3) for i in (-1, 0, 1, 2, 3, 4) if i <= n + 1]
    LONG = 'x' * 60
    X = lambda n: [f'X{i}' for i in range(n)]
    def setters(kind, fn, name, ctype, extra=(), off=False):
        ws = []
        for n, i in NUMS:
            for com in ('', 'why') if n < 3 else ('', ):
                for text in ('job', LONG) if not ctype else ('job',):
                    for found in ((0, 1) if ctype else (1,)):
                        for cls in ('scheduled', 'malfunction') if ctype in ('job', 3) and n < 3 else ('scheduled',):
                            a = {'arg1': i, 'arg2': 'S2', 'S2': text, 'arg3': 'S3', 'S3': com, **dict(extra)}
                            w = Edited(kind, n, a, found, cls); ok = 0 <= i <= n; cells = {}
                            if kind == 'action' and ctype and not found: ok = False
                            if ok:
                                if kind == 'condition':
                                    cells = dict(ref=0, job=0, enabled=1, hold=0, fired=0, cond_type=0, str=text, comment=com)
                                    if ctype and not found: cells['str'] = 'False'
                                    elif ctype == 'var': cells.update(ref='R', cond_type=1)
                                    elif ctype == 'job': cells.update(job='J', cond_type=2)
                                    if not com: cells['comment'] = cells['str'][:50]
                                    if i == n: cells.update(fired_count=0, fired_time=-1)
                                else:
                                    cells = dict(job='J' if ctype else 0, enabled=1, ran=0, act_type=ctype or 0, str=text, comment=com or text[:50])
                                    if i == n: cells.update(ran_count=0, ran_time=-1)
                                cells = {f'X{i}.{k}': v for k, v in cells.items()}
                            if cls == 'malfunction' and found: cells['J.disabled'] = 0
                            new = [('made', f'Trick::{kind}_t')] if ok and i == n else []
                            ws.append((f'number {i} of {n}, {"a" if found else "no"} {"text" if not ctype else cls}{", commented" if com else ""}{", long" if text == LONG else ""}', w, X(n + (ok and i == n)), cells, new, None))
        edited(r, get(fn), name, ws)
    setters('condition', 'condition', 'setting a condition', None, {'arg4': 0, 'arg5': 0}.items())
    setters('condition', 'condition_var', 'setting a condition on a variable', 'var')
    setters('condition', 'condition_job', 'setting a condition on a job', 'job')
    setters('action', 'action', 'setting an action', None, {'arg4': 0, 'arg5': 0}.items())
    for fn, c in (('action_job', 3), ('action_job_on', 1), ('action_job_off', 2)): setters('action', fn, f'setting an action, {fn}', c)
    for kind, names in (('condition', (('hold_on', 'hold', 1), ('hold_off', 'hold', 0), ('enable', 'enabled', 1), ('disable', 'enabled', 0))), ('action', (('enable', 'enabled', 1), ('disable', 'enabled', 0)))):
        for fn, fld, v in names:
            edited(r, get(f'{kind}_{fn}'), f'{kind}_{fn}', [(f'number {i} of {n}', Edited(kind, n, {'arg1': i}), X(n), {f'X{i}.{fld}': v} if 0 <= i < n else {}, [], None) for n, i in NUMS])
    for kind, names in (('condition', ('fired', 'fired_count', 'fired_time')), ('action', ('ran', 'ran_count', 'ran_time'))):
        for k in names:
            v = Edited(kind, 0, {}).fields()[k]
            ws = [(f'number {i} of {n}, {b_}', Edited(kind, n, {'arg1': i}, **({f'X{i}.{k}': b_} if 0 <= i < n else {})), X(n), {}, [], (b_ if 0 <= i < n else 0)) for n, i in NUMS for b_ in ((0, 1) if k in ('fired', 'ran') else (0, 9))]
            edited(r, get(f'{kind}_{k}'), f'{kind}_{k}', ws)
    T = lambda **k: {'this.' + a: v for a, v in k.items()}
    for fn, cells, log in (('condition_all', T(cond_all=1), []), ('condition_any', T(cond_all=0), []), ('manual_on', T(manual=1, manual_fired=1, hold=1, fired=0), []), ('manual_off', T(manual=1, manual_fired=0, hold=0, fired=0), []),
                           ('manual_done', T(manual=0, manual_fired=0, hold=0), []), ('manual_fire', T(manual=1, manual_fired=1, hold=0, fired=0), [('process', NOW)])):
        edited(r, get(fn, 'process_user_event'), fn, [(f'{n} conditions', Edited('condition', n, {}), X(n), cells, log, None) for n in (0, 2)])
    f = get('restart')
    for kind, fld, types in (('condition', 'cond_type', (0, 1, 2)), ('action', 'act_type', (0, 1, 2, 3))):
        ws = []
        for c in itertools.product(types, repeat=2):
            new = {f'X{i}.{fld}': k for i, k in enumerate(c)}; new.update({f'X{i}.str': f'old{i}' for i in range(2)})
            cells = {f'X{i}.job': f'J old{i}' for i, k in enumerate(c) if (k == 2 if kind == 'condition' else k)}
            if kind == 'condition': cells.update({f'X{i}.ref': f'R old{i}' for i, k in enumerate(c) if k == 1})
            o = 'action' if kind == 'condition' else 'condition'
            ws.append((f'{kind}s of kinds {c}', Edited(kind, 2, {}, **{**new, f'this.{o}_count': 0, f'this.{o}_list': 0}), X(2), cells, [], None))
        edited(r, f, 'after a checkpoint was loaded', ws)

def asking(r, u):
    """the value of a condition is the one it set, read while no other thread can set it"""
    p = u.extract(roots=['IPPython::parse_condition'], opaque=['basic_string', 'message_publish', 'GILGuard'], also=[])
    f = r.flow(p, 'IPPython::parse_condition')
    run = [e for e in f.effects if e.kind == 'call' and e.name.split('::')[-1].startswith('PyRun_SimpleString')]
    if len(run) != 1: return r.undecided('a condition is run by one call', str(len(run)))
    run = run[0]
    r.ob('a condition is run whenever it is asked', run.guard == 1 and not run.loops, '', f.label)
    lock = [e for e in f.effects if e.kind == 'call' and re.search(r'GILGuard::GILGuard|PyGILState_Ensure', e.name)]
    unlock = [e for e in f.effects if e.kind == 'call' and re.search(r'GILGuard::~GILGuard|PyGILState_Release', e.name)]
    outs_ = [e for e in f.effects if e.kind == 'store' and pp(e.addr) in ('arg2', '*arg2', 'arg2[0]') or e.kind == 'store' and sp(e) in ('*arg2', 'arg2')]
    r.ob('a condition runs with the interpreter lock', bool(lock), '', f.label)
    if not lock or not unlock or not outs_: return r.undecided('the interpreter lock and the value of a condition', f'{len(lock)} {len(unlock)} {len(outs_)}')
    lo, hi = min(e.order for e in lock), max(e.order for e in unlock)
    r.ob('a condition runs under the interpreter lock', lo < run.order < min(e.order for e in unlock if e.order > lo), '', f.label)
    for e in outs_:
        r.ob('the value of a condition is taken after it ran, before the interpreter is released', run.order < e.order < hi or not re.search('return_val', pp(e.val)), f' order {e.order}', f.label)
    fin = outs_[-1] if len(outs_) == 1 else None
    for ret, old in ((0, 0), (0, 1), (0, 5), (-1, 1), (-1, 0), (1, 5)):
        env = Env([('this.return_val', old)], [(r'.*PyRun_SimpleString\w*\(.*\)$', ret), (r'.*return_val$', old)])
        v = None
        for e in outs_:
            o = on(e.guard, env)
            if o is None: v = None; break
            if o: v = val(e.val, env)
        if v is None: r.undecided('the value of a condition', pp(outs_[-1].val)[:160]); continue
        r.ob(f'the value of a condition that {"set " + str(old) if ret == 0 else "could not be run"}', v == (old if ret == 0 else 0), f' {v}', f.label)
        v = val(f.retval(), env)
        if v is not None: r.ob(f'whether a condition could be run ({ret})', bool(v) == bool(ret), f' {v}', f.label)

def times(r):
    u = r.unit([IP + 'IPPythonEvent.cpp', EM + '*.cpp', 'trick_source/sim_services/*/InstrumentBase.cpp'])
    queues(r, u)
    manager(r, u)
    return r.finish('Each function on the queues of events is summarised as guarded effects on containers and objects; the summary is evaluated over sample queues, lists, threads, instrumented jobs and tic values, and what it leaves behind and calls, in order, is compared with the specified outcome.',
                    ['std containers keep their contracts; a multiset inserts after equal keys', 'an event does not remove itself while it is processed, and is added once', 'sample states stand for all: up to three queued events, lists around the sizes at which they grow'], floor=2500)

def events(r):
    u = r.unit([IP + 'IPPythonEvent.cpp', IP + 'IPPython.cpp'])
    firing(r, u)
    edits(r, u)
    asking(r, u)
    return r.finish('The processing of an event and each function that changes or reads one is summarised as guarded effects; the summaries are evaluated over all combinations of flags of one and two conditions, samples of three, all kinds of conditions and actions, and all indices around the bounds, and compared with the specified outcome.',
                    ['python statements, jobs and reference attributes are opaque and answer as given', 'sample states stand for all: up to three conditions and actions'], floor=6000)

RULES = {'P01': events, 'P02': times}
