"""Rules on real time: frames wait for their time, overruns are counted and acted upon, freezing does not lose time."""
import itertools, re
import flow as F
from vk import *
from flow import M, pp
from rules.comm import sp
from rules.mem import Env, on, val
from rules.sim import Lists, Outside, simulate

RS, CK, TM = 'trick_source/sim_services/RealtimeSync/', 'trick_source/sim_services/Clock/', 'trick_source/sim_services/Timer/'
OPQ = ['message_publish', 'basic_string', 'exec_', r'^Trick::Clock::', r'^Trick::Timer::', 'Run_Ratio', r'^snprintf', r'ios_base', r'basic_ostream', 'operator<<', 'std::set']
BIG = 2 ** 63 - 1

class Sync(Lists):
    """the synchroniser; what it asks of the clock, the timer and the executive is logged"""
    WORK = dict(clock_time=0, clock_spin=1, clock_reset=1, adjust_ref_time=1, clock_stop=0, sync_to_wall_clock=1, pause=0, stop=0, start=1, reset=1, shutdown=0, init=0, exec_freeze=0, exec_terminate_with_return=0, clock_init=0, set_rt_clock_ratio=1, set_active=1)
    def __init__(s, args={}, exe={}, clock=1000, ratio=2.0, **m):
        d = dict(active=1, enable_flag=0, disable_flag=0, rt_clock='CLK', sleep_timer='TMR', default_clock='DEF', frame_overrun_cnt=4, total_overrun=9, rt_max_overrun_cnt=1000, rt_max_overrun_time_tics=BIG,
                 rt_max_overrun_time=1e37, rt_overrun_freeze=0, freeze_shutdown=0, last_clock_time=700, tics_per_sec=100, freeze_frame=40, freeze_time_tics=500, align_sim_to_wall_clock=0, align_tic_mult=3.0,
                 frame_time=0.0, frame_sched_time=0, frame_overrun=0.0, frame_overrun_time=0, actual_run_ratio=0.0)
        d.update(m)
        Lists.__init__(s, {'this.' + k: v for k, v in d.items()}, args=args)
        s.exe = {**dict(exec_get_software_frame=0.1, exec_get_freeze_frame=0.4, exec_get_time_tics=800, exec_get_freeze_time_tics=820, exec_get_time_tic_value=100, exec_get_mode=5), **exe}
        s.clock, s.ratio = clock, ratio
    def tracks(s, c): return c.startswith('this.') and c != 'this.actual_run_ratio'
    def result(s, t, env):
        n = t[1].split('::')[-1]
        if n == 'clock_time': return s.clock
        if n == 'get_rt_clock_ratio': return s.ratio
        if n == '__cxa_guard_acquire': return 0
        if n == 'clock_init': return s.exe.get('clock_init', 0)
        return s.exe.get(n)
    def answer(s, k, env): return 1 if k.startswith('guard variable') else None
    def other(s, e, env):
        n = e.name.split('::')[-1]
        if n not in s.WORK or n == 'clock_time': return
        a = [s.num(x, env) for x in e.args[1:1 + s.WORK[n]]]
        s.log.append((n, *[round(x, 9) if isinstance(x, float) else x for x in a]))

def compare(r, f, what, worlds):
    """worlds: label, world, members changed, calls"""
    for lab, w, cells, log in worlds:
        want = {k: v for k, v in w.mem.items() if k != 'this.actual_run_ratio'}; want.update({'this.' + k: v for k, v in cells.items()})
        try: simulate(f, w)
        except Outside as ex: r.ob(f'{what}: only what is there is used ({lab})', False, f' {ex}', f.label); continue
        except F.Unknown as ex: r.undecided(f'{what} ({lab})', f' {ex}'); continue
        same = lambda a, b_: a == b_ or isinstance(b_, float) and isinstance(a, (int, float)) and abs(a - b_) <= 1e-9 * max(1, abs(b_))
        bad = [f'{k[5:]} = {w.mem.get(k)}, not {v}' for k, v in want.items() if not same(w.mem.get(k), v)]
        r.ob(f'{what}: what is left behind ({lab})', not bad, ' ' + '; '.join(bad[:3]), f.label)
        r.ob(f'{what}: what the clock, the timer and the simulation are told, in order ({lab})', w.log == log, f' {w.log}, not {log}', f.label)

def starting(s_, frame, ref, **m):
    """start_realtime: members, calls"""
    if not m.get('active', 1): return dict(last_clock_time=s_.clock), []
    if ref < 0: return dict(active=0, enable_flag=1, last_clock_time=s_.clock), []
    c, l = timer(s_, m)
    return dict(last_clock_time=s_.clock, **c), [('clock_reset', ref)] + l + [('start', round(frame / s_.ratio, 9))]

def timer(w, m):
    if not m.get('active', 1) or w.exe['exec_get_time_tics'] < 0: return {}, []
    x = m.get('rt_max_overrun_time', 1e37)
    return dict(rt_max_overrun_time_tics=BIG if x > 1e36 else int(x * m.get('tics_per_sec', 100))), [('init',)]

def sync(r):
    u = r.unit([RS + 'RealtimeSync.cpp', CK + '*.cpp', TM + '*.cpp'])
    p = u.extract(roots=['RealtimeSync::'], opaque=OPQ, devirt=['RealtimeSync$'])
    get = lambda n: r.flow(p, 'RealtimeSync::' + n, ver=True)
    FLAGS = list(itertools.product((0, 1), repeat=3))
    def flagged(a, e, d):
        """active, enable_flag, disable_flag after a frame that does not start"""
        return dict(active=int(a and not d), enable_flag=0, disable_flag=0) if a else dict(disable_flag=0)
    # frames
    ws = []
    for a, e, d in FLAGS:
        for now, due in ((1000, 1500), (1500, 1500), (1501, 1500), (3000, 1500)):
            for cnt, mx in ((0, 1000), (998, 1000), (999, 1000), (1005, 1000), (0, 1)):
                for lim in (BIG, 1500, 1501, 0):
                    for fr in (0, 1):
                        if (a, e, d) != (1, 0, 0) and (cnt not in (0, 999) or mx == 1 or lim not in (BIG, 1500)): continue
                        k = dict(active=a, enable_flag=e, disable_flag=d, frame_overrun_cnt=cnt, rt_max_overrun_cnt=mx, rt_max_overrun_time_tics=lim, rt_overrun_freeze=fr)
                        w = Sync({'arg1': due}, clock=now, **k)
                        cells = dict(frame_sched_time=now - 700, frame_time=(now - 700) / 100, last_clock_time=now); log = []
                        if not a:
                            cells['disable_flag'] = 0
                            if e:
                                c, log = starting(w, 0.1, due); cells.update(active=1, enable_flag=0); cells.update(c)
                        else:
                            cells.update(flagged(a, e, d)); cells.update(frame_overrun_time=now - due, frame_overrun=(now - due) / 100)
                            if now > due:
                                cells.update(frame_overrun_cnt=cnt + 1, total_overrun=10)
                                if cnt + 1 >= mx or now - due >= lim:
                                    if fr: cells['freeze_shutdown'] = 1
                                    log.append(('exec_freeze' if fr else 'exec_terminate_with_return',))
                                log += [('stop',), ('clock_spin', due)]
                            else:
                                cells['frame_overrun_cnt'] = 0
                                log += [('pause',), ('clock_spin', due), ('reset', 0.05)]
                        ws.append((f'active={a} enable={e} disable={d}, {now} at {due}, {cnt} of {mx} overruns, {"no" if lim == BIG else lim} limit, {"freeze" if fr else "terminate"}', w, cells, log))
    for due in (-5,):
        w = Sync({'arg1': due}, clock=10, active=0, enable_flag=1)
        ws.append(('enabled before time 0', w, dict(frame_sched_time=10 - 700, frame_time=(10 - 700) / 100, last_clock_time=10, active=0, enable_flag=1), []))
    compare(r, get('rt_monitor'), 'at the end of a frame', ws)
    # freeze frames
    ws = []
    for a, e, d in FLAGS:
        for ratio in (1.0, 2.0):
            w = Sync({'arg1': 0.4}, ratio=ratio, active=a, enable_flag=e, disable_flag=d); log = []
            if a: cells = {**flagged(a, e, d), 'freeze_time_tics': 540}; log = [('pause',), ('clock_spin', 540), ('reset', round(0.4 / ratio, 9))]
            else:
                cells = dict(disable_flag=0)
                if e: c, log = starting(w, 0.4, 500); cells.update(active=1, enable_flag=0, **c)
            ws.append((f'active={a} enable={e} disable={d} ratio={ratio}', w, cells, log))
    compare(r, get('freeze_pause'), 'at the end of a freeze frame', ws)
    ws = [(f'active={a} ratio={ratio}', Sync({'arg1': 0.4}, ratio=ratio, active=a, tics_per_sec=tt), dict(freeze_frame=int(0.4 * tt), freeze_time_tics=800), [('start', round(0.4 / ratio, 9))] if a else [])
          for a in (0, 1) for ratio in (1.0, 2.0) for tt in (100, 1000)]
    compare(r, get('freeze_init'), 'at the start of a freeze', ws)
    ws = [(f'active={a} overrun={o} ratio={ratio}', Sync({'arg1': 300, 'arg2': 0.1}, ratio=ratio, active=a, freeze_shutdown=o), dict(last_clock_time=1000),
           ([('exec_terminate_with_return',)] if o else []) + [('adjust_ref_time', 200), ('start', round(0.1 / ratio, 9))] if a else []) for a in (0, 1) for o in (0, 1) for ratio in (1.0, 2.0)]
    compare(r, get('unfreeze'), 'at the end of a freeze', ws)
    # starting
    ws = []
    for a in (0, 1):
        for ref in (-1, 0, 300):
            for tm in (-1, 0, 800):
                for mo in (1e37, 2.5, 4e6):
                    w = Sync({'arg1': 0.1, 'arg2': ref}, exe=dict(exec_get_time_tics=tm), active=a, rt_max_overrun_time=mo)
                    ws.append((f'active={a} at {ref}, time {tm}, limit {mo}', w, *starting(w, 0.1, ref, active=a, rt_max_overrun_time=mo)))
    compare(r, get('start_realtime'), 'starting', ws)
    ws = []
    for a, e, d in FLAGS:
        for al in (0, 1):
            for mode in (1, 5):
                for tm in (-1, 800):
                    w = Sync(exe=dict(exec_get_mode=mode, exec_get_time_tics=tm, exec_get_time_tic_value=1000), active=a, enable_flag=e, disable_flag=d, align_sim_to_wall_clock=al, rt_max_overrun_time=2.5)
                    act = int((a or e) and not d); c, l = timer(w, dict(active=act, rt_max_overrun_time=2.5, tics_per_sec=1000))
                    if al: l = l + [('clock_reset', 0), ('sync_to_wall_clock', 3.0), ('clock_spin', 0), ('clock_reset', 820 if mode == 1 else tm)]
                    ws.append((f'active={a} enable={e} disable={d} align={al} mode={mode} time={tm}', w, dict(active=act, enable_flag=0, disable_flag=0, tics_per_sec=1000, **c), l))
    compare(r, get('initialize'), 'at initialisation', ws)
    ws = []
    for a in (0, 1):
        for mode in (0, 1, 2, 5):
            w = Sync({'arg1': 300}, exe=dict(exec_get_mode=mode), active=a); cells, log = {}, []
            if mode == 5: cells, log = starting(w, 0.1, 300, active=a)
            if mode == 1: cells, log = dict(freeze_frame=40, freeze_time_tics=800), ([('start', 0.2)] if a else [])
            ws.append((f'active={a} mode={mode}', w, cells, [('clock_reset', 300)] + log))
    compare(r, get('restart'), 'after a checkpoint was loaded', ws)
    for n, k in (('enable', 'enable_flag'), ('disable', 'disable_flag')): compare(r, get(n), n, [(f'active={a}', Sync(active=a), {k: 1}, []) for a in (0, 1)])
    compare(r, get('set_rt_clock_ratio'), 'changing the ratio', [('', Sync({'arg1': 4.0}), {}, [('set_rt_clock_ratio', 4.0), ('set_active', 0)])])
    compare(r, get('change_clock'), 'changing the clock', [(f'which {"fails" if x else "works"}', Sync({'arg1': 'NEW'}, exe=dict(clock_init=x)), {} if x else dict(rt_clock='NEW'), [('clock_init',)]) for x in (0, 1)])
    compare(r, get('change_timer'), 'changing the timer', [('', Sync({'arg1': 'NEW'}), dict(sleep_timer='NEW'), [])])
    f = get('RealtimeSync')
    new = {sp(e): e for e in f.effects if e.kind == 'store' and not e.loops and e.guard == 1}
    for k, v in (('active', 0), ('enable_flag', 0), ('disable_flag', 0), ('frame_overrun_cnt', 0), ('total_overrun', 0), ('rt_overrun_freeze', 0), ('freeze_shutdown', 0), ('align_sim_to_wall_clock', 0)):
        x = new.get('this.' + k)      # objects of a simulation are zero-initialised
        if x is not None: r.ob(f'a new synchroniser starts with {k} = {v}', val(x.val, Env()) == v, f' {pp(x.val)[:60]}', f.label)
    clock(r, u)
    timers(r, u)
    return r.finish('Each function of the synchroniser, the clock and the interval timer is summarised as guarded effects; the summaries are evaluated over all combinations of flags, times around the due time, counts around the limits, ratios and modes, and what is left behind and told to the clock, the timer and the executive, in order, is compared with the specified outcome.',
                    ['clocks and timers other than the provided ones keep the contracts of theirs', 'how long the host takes is not decided', 'sample values stand for all'], floor=600)

class Ticks(Lists):
    """a clock; times are what the wall clock (or clock_time) says at each reading in a loop"""
    def __init__(s, args, times, nap=0, **m):
        Lists.__init__(s, {'this.' + k: v for k, v in m.items()}, args=args); s.times, s.nap, s.naps = times, nap, 0
    def tracks(s, c): return c.startswith('this.')
    def result(s, t, env):
        n = t[1].split('::')[-1]
        if n in ('clock_time', 'wall_clock_time'):
            k = env.it if env.it is not None else max(list(env.exits.values()) + [0])
            return s.times[min(k, len(s.times) - 1)]
        if n == 'exec_get_rt_nap': return s.nap
        return None
    def other(s, e, env):
        n = e.name.split('::')[-1]
        if n in ('nanosleep', 'usleep', 'sched_yield', 'clock_nanosleep'): s.naps += 1
        elif n in ('clock_reset', 'set_reference'): s.log.append((n, s.num(e.args[1], env)))

def clock(r, u):
    p = u.extract(roots=['Clock::'], opaque=['message_publish', 'basic_string', 'exec_', r'^Trick::Clock::(clock_time|wall_clock_time|clock_reset)$', r'^Trick::GetTimeOfDayClock::wall_clock_time$'], devirt=[])
    q = u.extract(roots=['Clock::clock_time', 'Clock::clock_reset', 'GetTimeOfDayClock::wall_clock_time'], opaque=['basic_string', 'exec_', r'^Trick::Clock::wall_clock_time$'])
    f = r.flow(p, 'Clock::clock_spin', ver=True)
    for req in (0, 5, 9, 10, 11):
        for times in ([5, 8, 10, 12], [10, 11], [4, 9, 9, 10, 20], [12]):
            for nap in (0, 1):
                if max(times) < req: continue
                w = Ticks({'arg1': req}, times, nap); k = next(i for i, x in enumerate(times) if x >= req)
                lab = f'{req}, clock {times}, {"with" if nap else "without"} naps'
                try: env = simulate(f, w)
                except Outside as ex: r.ob(f'waiting ends ({lab})', False, f' {ex}', f.label); continue
                except F.Unknown as ex: r.undecided(f'waiting ({lab})', f' {ex}'); continue
                v = val(f.retval(), env)
                if v is None: r.undecided(f'waiting: what is returned ({lab})', pp(f.retval())[:160]); continue
                r.ob(f'waiting ends at the first reading that is not before the time asked for ({lab})', v == times[k], f' {v}, not {times[k]}', f.label)
                r.ob(f'waiting naps once a reading if it may ({lab})', w.naps == (k if nap else 0), f' {w.naps}', f.label)
    RATIOS = ((1.0, 1.0), (2.0, 1.0), (0.5, 1.0), (1.0, 10.0), (4.0, 0.25))
    def ran(f, w, lab):
        try: return simulate(f, w)
        except F.Unknown as ex: r.undecided(lab, f' {ex}')
    for rr, sr in RATIOS:
        for wall, ref in ((1000000, 900000), (5000000, 5000000), (4000, 10000)):
            m = dict(ref_time_tics=ref, rt_clock_ratio=rr, sim_tic_ratio=sr); lab = f'wall {wall}, reference {ref}, ratios {rr} {sr}'
            f = r.flow(q, 'Clock::clock_time', ver=True); env = ran(f, Ticks({}, [wall], **m), lab)
            if env is not None:
                v = val(f.retval(), env)
                if v is None: r.undecided(f'the time of the clock ({lab})', pp(f.retval())[:160])
                else: r.ob(f'the time of the clock is the scaled time since its reference ({lab})', v == int((wall - ref) * rr * sr), f' {v}', f.label)
            for t_ in (0, 400, -800):
                f = r.flow(q, 'Clock::clock_reset', ver=True); w = Ticks({'arg1': t_}, [wall], **m)
                if ran(f, w, lab) is not None: r.ob(f'a clock reset to {t_} shows that time ({lab})', w.mem['this.ref_time_tics'] == wall - int(t_ / (rr * sr)), f" reference {w.mem['this.ref_time_tics']}", f.label)
                f = r.flow(p, 'Clock::adjust_ref_time', ver=True); w = Ticks({'arg1': t_}, [wall], **m)
                if ran(f, w, lab) is not None: r.ob(f'moving the reference by {t_} moves the time by it ({lab})', w.mem['this.ref_time_tics'] == ref + int(t_ / (rr * sr)), f" {w.mem['this.ref_time_tics']}", f.label)
            for mult, tps in ((1.0, 1000000), (3.0, 100000)):
                f = r.flow(p, 'Clock::sync_to_wall_clock', ver=True); w = Ticks({'arg1': mult, 'arg2': tps}, [wall + 777], **m); step = int(mult * tps / (rr * sr))
                if ran(f, w, lab) is not None: r.ob(f'aligning: the reference is the next multiple of the interval ({mult} s of {tps}, {lab})', w.mem['this.ref_time_tics'] == (wall + 777) // step * step + step, f" {w.mem['this.ref_time_tics']}", f.label)
    f = r.flow(p, 'Clock::set_rt_clock_ratio', ver=True); w = Ticks({'arg1': 4.0}, [333], ref_time_tics=1, rt_clock_ratio=1.0, sim_tic_ratio=1.0)
    if ran(f, w, 'changing the ratio') is not None:
        r.ob('changing the ratio of the clock keeps its time', w.log == [('clock_reset', 333)] and w.mem['this.rt_clock_ratio'] == 4.0, f" {w.log} {w.mem['this.rt_clock_ratio']}", f.label)
        read = [e.order for e in f.effects if e.kind == 'call' and e.name.endswith('clock_time')]; put = [e.order for e in f.effects if e.kind == 'store' and sp(e) == 'this.rt_clock_ratio']; back = [e.order for e in f.effects if e.kind == 'call' and e.name.endswith('clock_reset')]
        r.ob('changing the ratio of the clock: its time is read before and set after', bool(read and put and back) and read[0] < put[0] < back[-1], '', f.label)
    f = r.flow(p, 'Clock::calc_sim_time_ratio', ver=True)
    for tt, ct in ((1000000, 1000000), (1000, 1000000), (3, 2)):
        w = Ticks({'arg1': tt}, [0], clock_tics_per_sec=ct, sim_tic_ratio=0.0)
        if ran(f, w, 'ratio of tics') is not None: r.ob(f'the ratio of simulation tics ({tt}) to clock tics ({ct})', abs(w.mem['this.sim_tic_ratio'] - tt / ct) < 1e-12, f" {w.mem['this.sim_tic_ratio']}", f.label)
    for x in q.get('GetTimeOfDayClock::wall_clock_time'):
        f = F.Flow(q, x)
        for sec, ns in ((0, 0), (5, 999999999), (1700000000, 1500), (1, 999)):
            env = Env([], [(r'.*tv_sec.*', sec), (r'.*tv_nsec.*', ns)])
            v = val(f.retval(), env)
            if v is None: r.undecided('the wall clock', pp(f.retval())[:160]); break
            r.ob(f'the wall clock counts microseconds ({sec} s {ns} ns)', v == sec * 1000000 + ns // 1000, f' {v}', 'GetTimeOfDayClock::wall_clock_time')

def timers(r, u):
    """the interval timer is used for frames it can do, ends before the frame does, and no earlier wake-up is left over"""
    p = u.extract(roots=['ITimer::'], opaque=['message_publish', 'basic_string', 'exec_'])
    f = r.flow(p, 'ITimer::start', ver=True)
    for en in (0, 1):
        for ac in (0, 1):
            for t_ in (0.001, 0.00999, 0.0101, 0.5, 1.0, 1.001, 1.0025, 3.75):
                w = Ticks({'arg1': t_}, [0], enabled=en, active=ac, semaphore='SEM'); calls = []
                w.result = lambda t, env: (0 if (env.it or 0) < 2 and env.it is not None else -1) if t[1] == 'sem_trywait' else None
                w.other = lambda e, env: calls.append((e.name, e)) if e.name in ('setitimer', 'sem_trywait') else None
                lab = f'enabled={en}, active={ac}, {t_} s'
                try: simulate(f, w)
                except F.Unknown as ex: r.undecided(f'the timer ({lab})', f' {ex}'); continue
                usable = t_ >= 0.01
                if en:
                    r.ob(f'expiries left over from earlier frames are dropped ({lab})', len([1 for n, _ in calls if n == 'sem_trywait']) >= 2, f' {[n for n, _ in calls]}', f.label)
                    r.ob(f'the timer is active iff it can do the frame ({lab})', w.mem['this.active'] == int(usable), f" {w.mem['this.active']}", f.label)
                    r.ob(f'the timer is set iff it can do the frame ({lab})', len([1 for n, _ in calls if n == 'setitimer']) == int(usable), f' {[n for n, _ in calls]}', f.label)
                else: r.ob(f'a timer that is not enabled does nothing ({lab})', not calls and w.mem['this.active'] == ac, f' {[n for n, _ in calls]}', f.label)
    f = r.flow(p, 'ITimer::stop', ver=True)
    off = [e for e in f.effects if e.kind == 'store' and sp(e) == 'this.active']
    r.ob('a stopped timer is not waited for', len(off) >= 1 and off[-1].guard == 1 and val(off[-1].val, Env()) == 0, '', f.label)
    f = r.flow(p, 'ITimer::pause', ver=True)
    ws = [e for e in f.effects if e.kind == 'call' and e.name == 'sem_wait']
    if not ws: r.ob('the timer is waited for', False, ' no sem_wait', f.label)
    for en in (0, 1):
        for ac in (0, 1):
            o = [on(e.guard, Env([('this.enabled', en), ('this.active', ac)])) for e in ws]
            r.ob(f'the timer is waited for iff it is enabled and active (enabled={en}, active={ac})', (any(x != 0 for x in o)) == bool(en and ac), f' {o}', f.label)

RULES = {'R01': sync}
