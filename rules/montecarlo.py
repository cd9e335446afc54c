"""Rules on Monte Carlo: every run in range is given out, retried and counted once; slaves change state as specified; both ends of a connection agree."""
import itertools, re
import flow as F
from vk import *
from flow import M, pp
from rules.comm import sp
from rules.mem import Env, on, val
from rules.messages import Out
from rules.sim import Lists, Outside, simulate

MC = 'trick_source/sim_services/MonteCarlo/'
OPQ = ['message_publish', 'tc_', 'gettimeofday', 'MonteCarlo::run_queue', 'ScheduledJobQueue::', 'ntohl', 'htonl']
UNINIT, INITING, READY, RUNNING, STOPPING, STOPPED, FINISHED, UN_RUN, UN_STOP, DISC = range(10)
STATE = 'uninitialized initializing ready running stopping stopped finished unresponsive unresponsive-stopping disconnected'.split()
INCOMPLETE, COMPLETE, FAILED, CORE, TIMEOUT, NODIR, BADINPUT, UNKNOWN = range(8)

def swap(x): return int.from_bytes((int(x) & 0xffffffff).to_bytes(4, 'big'), 'little')

class Ended(Exception): pass

class Master(Out):
    """runs, slaves and a connection"""
    def __init__(s, mem={}, lists={}, args={}, net=(), now=(100, 0), answers={}, connect=1, values=()):
        Lists.__init__(s, {(k if k[0].isupper() else 'this.' + k): v for k, v in dict(mem).items()}, {(k if '.' in k else 'this.' + k): v for k, v in lists.items()}, {}, dict(args))
        s.net, s.got, s.sent, s.now, s.answers, s.connect, s.values, s.log = list(net), {}, [], now, dict(answers), connect, list(values), []
        s.came, s.accepts, s.turns, s.ends, s.grow, s.status = None, 1, {}, (), (), 0
        s.drawn, s.out, s.flushed, s.calls, s.strs, s.width, s.fill = {}, {}, {}, (), {}, 0, ' '
    def where(s, t, env):
        if t[0] == 'new': return s.made(t, env)
        return Lists.where(s, t, env)
    def made(s, t, env):
        n = f'N{t[1]}' + (f'x{env.it}' if env.it is not None else '')
        n = re.sub(r'\W', '_', n)
        s.lists.setdefault(n + '.variables', [])
        return n
    def ptr(s, t, env):
        if t[0] == 'new': return s.made(t, env)
        return Lists.ptr(s, t, env)
    def term(s, t, env):
        if t[0] == 'new': return s.made(t, env)
        if t[0] == 'out':
            n = t[1].split('::')[-1]
            if n == 'tc_read_': return s.got.get(pp(('ret', t[1]) + t[3:]))
            if n == 'waitpid': return s.status
            if n == 'gethostname': return 'hosts'
            return None
        if t[0] == 'ret' and t[1] in ('field:tv_sec', 'field:tv_usec') and 'gettimeofday' in pp(t[2]): return s.now[t[1] == 'field:tv_usec']
        return Lists.term(s, t, env)
    due = False
    def open(s, env):
        if s.due:      # what an unanalysed function changed is seen in the next round
            s.mem[s.grow[1]] += 1; s.due = False; e = env.outer
            while e is not None: e.snap[s.grow[1]] = s.mem[s.grow[1]]; e = e.outer
        Out.open(s, env)
    def answer(s, k, env): return None
    def result(s, t, env):
        n = t[1].split('::')[-1]
        if t[1].startswith('stream::str#'): return s.strs.get(t[1][12:])
        if n in ('ntohl', 'htonl'):
            x = swap(s.num(t[2], env))
            return x - 2 ** 32 if n == 'ntohl' and x >= 2 ** 31 else x
        if n == 'tc_read_':
            k = pp(t)
            if k not in s.got: raise F.Unknown('what is read before ' + k[:80])
            return s.num(t[4], env) if s.got[k] is not None else 0
        if n == 'tc_connect_': return 0 if s.connect else 1
        if n == 'tc_accept_': return 0 if env.it is None or env.it < s.accepts else 1
        if n in ('str', 'string', 'basic_string') and len(t) == 3 and t[2][0] in ('al', 'tmp') and s.came is not None: return s.came
        if n in s.turns:
            while env.outer is not None and env.outer.it is not None: env = env.outer
            return s.turns[n][env.it or 0] if (env.it or 0) < len(s.turns[n]) else 0
        if n == 'get_next_value': return s.drawn.get(s.num(t[2], env))
        if n.startswith('virtual:') or 'Executive' in t[1]: return s.answers.get('get_except_return')
        if n == 'compare': return int(s.num(t[2], env) != s.num(t[3], env))
        if n in s.answers: return s.answers[n]
        return Out.result(s, t, env)
    def other(s, e, env):
        n = e.name.split('::')[-1]
        def num(k): return s.num(e.args[k], env)
        if n in s.grow: s.due = True
        if n in s.ends: s.log.append((n,)); raise Ended
        if n == 'exit': s.log.append((n, num(0))); raise Ended
        if e.name == 'stream::str': s.strs[str(num(1))] = s.out.get(s.key(e.args[0], env), ''); return
        if e.name == 'stream::set': s.out[s.key(e.args[0], env)] = s.text(e.args[1], env); return
        if 'Setw' in e.name: s.width = s.num(e.args[1][2], env); return
        if 'Setfill' in e.name: s.fill = chr(s.num(e.args[1][2], env)); return
        if e.name.startswith('out<') and s.width:
            k = s.key(e.args[0], env); s.out[k] = s.out.get(k, '') + str(s.text(e.args[1], env)).rjust(s.width, s.fill); s.width = 0; return
        if n == 'tc_read_':
            x = s.net.pop(0) if s.net else None
            s.got[pp(('ret', e.name) + tuple(e.args))] = x
            s.log.append(('read', num(2)))
            if x is not None and e.args[1][0] == 'fld': s.mem[s.where(e.args[1], env)] = x; env.snap[s.where(e.args[1], env)] = x
            if isinstance(x, str): s.came = x
        elif n == 'tc_write_': s.log.append(('write', s.text(e.args[1], env), num(2)))
        elif n in ('tc_connect_', 'tc_disconnect_', 'tc_accept_', 'tc_disconnect'): s.log.append((n[3:].rstrip('_'),))
        elif n == 'run_queue': s.log.append(('jobs', s.where(e.args[1], env)))
        elif n == 'get_next_value': s.drawn[num(0)] = s.values.pop(0) if s.values else 'v'; s.log.append(('draw', num(0)))
        elif n == 'operator delete': s.log.append(('delete', num(0)))
        elif n == 'alarm': s.log.append((n, num(0)))
        elif n == 'handle_initialization' or n == 'handle_run_data': s.log.append((n, s.ptr(e.args[1], env)))
        elif n == 'dispatch_run_to_slave': s.log.append((n, num(1), num(2)))
        elif n in ('fork', 'kill', 'ip_parse', 'slave_shutdown', 'slave_die', 'slave_kill_run', 'slave_process_run', 'prepare_run', 'ensureAllShutdown', 'spawn_slaves', 'receive_results', 'check_timeouts', 'master_shutdown', 'dryrun'): s.log.append((n,))
        else: Out.other(s, e, env)

def montecarlo(r):
    u = r.unit([MC + '*.cpp'])
    p = u.extract(roots=['Trick::MonteCarlo::', 'MonteSlave::'], opaque=OPQ)
    C = 'MonteCarlo::'
    def run(f, w, lab, fn):
        try: env = simulate(f, w)
        except Ended: return w
        except Outside as ex: r.ob(f'{fn} stays within its lists ({lab})', False, f' {ex}', f.label); return None
        except F.Unknown as ex: r.undecided(f'{fn} ({lab})', f' {ex}'); return None
        return env
    # ---- results of a slave
    f = r.flow(p, C + 'handle_run_data', ver=True)
    MX = {'max_tries': None}
    for state, done, queue, tries, mx, status in itertools.product((RUNNING, STOPPING, UN_RUN, UN_STOP, STOPPED, READY), (INCOMPLETE, COMPLETE, TIMEOUT), ((), ('R1',), ('R0',), ('R2', 'R0', 'R1')), (1, 2, 3), (0, 2), (None, 0, 1, 2, 3, 4, 5, 6, 7, 9)):
        if done and (tries, mx) != (1, 2): continue
        if state in (STOPPED, READY) and (queue or tries > 1): continue
        w = Master({'verbosity': 0, 'max_tries': mx, 'num_results': 4, 'S0.state': state, 'S0.current_run': 'R0', 'S0.num_results': 2, 'S0.cpu_time': 10.0, 'S0.id': 1, 'R0.id': 3, 'R0.num_tries': tries,
                    'R0.exit_status': done, 'R0.start_time': 90.0, 'R0.end_time': 0.0},
                   dict(runs=queue, failed_runs=['F0'], error_runs=['E0']), {'slave': 'S0', 'arg1': 'S0'}, [None if status is None else swap(status)])
        lab = f'slave {STATE[state]}, run {"open" if not done else "resolved"}, queue {" ".join(queue) or "empty"}, {tries} of {mx} tries, status {status}'
        env = run(f, w, lab, 'results')
        if env is None: continue
        q = [x for x in queue if x != 'R0']; failed, error, n, out = ['F0'], ['E0'], 4, done
        st = {RUNNING: READY, UN_RUN: READY, STOPPING: STOPPED, UN_STOP: STOPPED}.get(state, state)
        post = 0
        if not done:
            final = {0: UNKNOWN, 1: COMPLETE, 2: FAILED, 3: CORE, 6: BADINPUT, 7: UNKNOWN, 9: UNKNOWN}.get(status)
            if status is None: st = DISC; final = None if not mx or tries < mx else 'error'
            elif final is None: final = None if not mx or tries < mx else status
            if final is None: q.append('R0')
            else:
                n += 1; out = final; post = final in (COMPLETE, FAILED)
                if final == FAILED: failed.append('R0')
                elif final != COMPLETE: error.append('R0')
        def is_(what, got, want): r.ob(f'{what} ({lab})', got == want, f' {got} instead of {want}', f.label)
        is_('a run that is back is not in the queue, a retry is last', w.lists['this.runs'], q)
        is_('a run is counted as failed or erroneous once', (w.lists['this.failed_runs'], w.lists['this.error_runs']), (failed, error))
        is_('each run is counted once', (w.mem['this.num_results'], w.mem['S0.num_results']), (n, 2 + n - 4))
        o = w.mem['R0.exit_status']
        r.ob(f'the outcome of the run is kept ({lab})', o == out or out == 'error' and o not in (INCOMPLETE, COMPLETE, FAILED), f' {o} instead of {out}', f.label)
        is_('the slave is ready again, or stopped', STATE[w.mem['S0.state']], STATE[st])
        is_('jobs after a run are called for runs that ended', sum(x == ('jobs', 'this.master_post_queue') for x in w.log), int(post))
        is_('the connection is closed once', sum(x == ('disconnect',) for x in w.log), 1)
        if n > 4: is_('the time of the run is counted', (w.mem['S0.cpu_time'], w.mem['R0.end_time']), (20.0, 100.0))
    # ---- timeouts
    f = r.flow(p, C + 'check_timeouts', ver=True)
    for sts in itertools.product(range(10), repeat=2):
        for age, mult, done, tries in itertools.product(((5, 50), (50, 5), (30, 31)), (1.0, 2.0), ((0, 0), (0, 1), (1, 0)), ((1, 1), (2, 1))):
            if (mult != 1.0 or tries != (1, 1)) and not {RUNNING, STOPPING} & set(sts): continue
            w = Master({'verbosity': 0, 'max_tries': 2, 'num_results': 4, 'timeout': 30.0}, dict(runs=['R7'], slaves=['S0', 'S1'], failed_runs=[], error_runs=[]))
            for i in (0, 1): w.mem.update({f'S{i}.state': sts[i], f'S{i}.multiplier': mult, f'S{i}.current_run': f'R{i}', f'S{i}.num_results': 0, f'S{i}.cpu_time': 0.0, f'S{i}.id': i + 1, f'R{i}.id': i,
                                           f'R{i}.start_time': 100.0 - age[i], f'R{i}.exit_status': done[i], f'R{i}.num_tries': tries[i], f'R{i}.end_time': 0.0})
            lab = f'slaves {STATE[sts[0]]} and {STATE[sts[1]]}, runs {age} s old times {mult}, resolved {done}, tries {tries}'
            env = run(f, w, lab, 'timeouts')
            if env is None: continue
            q, err, want = ['R7'], [], list(sts)
            for i in (0, 1):
                if sts[i] in (RUNNING, STOPPING) and age[i] * mult > 30:
                    want[i] = UN_RUN if sts[i] == RUNNING else UN_STOP
                    if not done[i]:
                        if tries[i] < 2: q.append(f'R{i}')
                        else: err.append(f'R{i}')
            got = [w.mem['S0.state'], w.mem['S1.state']]
            r.ob(f'slaves that take too long are unresponsive, others as before ({lab})', got == want, f' {[STATE[x] for x in got]}', f.label)
            r.ob(f'their open runs are queued again or given up ({lab})', (w.lists['this.runs'], w.lists['this.error_runs'], w.mem['this.num_results']) == (q, err, 4 + len(err)), f" {w.lists['this.runs']} {w.lists['this.error_runs']} {w.mem['this.num_results']}", f.label)
    # ---- slaves
    f = r.flow(p, C + 'get_ready_slave', ver=True)
    for sts in [()] + list(itertools.product((READY, RUNNING, STOPPED, UN_RUN, DISC, INITING), repeat=2)):
        w = Master({f'S{i}.state': x for i, x in enumerate(sts)}, dict(slaves=[f'S{i}' for i in range(len(sts))]))
        lab = ' '.join(STATE[x] for x in sts) or 'no slaves'
        env = run(f, w, lab, 'the next slave')
        if env is None: continue
        v, want = val(f.retval(), env), (f'S{sts.index(READY)}' if READY in sts else 0)
        if v is None: r.undecided(f'the next slave ({lab})', pp(f.retval())[:120])
        else: r.ob(f'only a ready slave gets a run ({lab})', v == want, f' {v} instead of {want}', f.label)
    for fn, table in (('start_slave', {STOPPING: RUNNING, UN_STOP: UN_RUN, STOPPED: READY}), ('stop_slave', {READY: STOPPED, RUNNING: STOPPING, UN_RUN: UN_STOP})):
        f = r.flow(p, C + fn, ver=True)
        for a, b, i in itertools.product(range(10), (READY, STOPPING, RUNNING, STOPPED), (1, 2, 3)):
            w = Master({'verbosity': 0, 'S0.state': a, 'S1.state': b, 'S0.id': 1, 'S1.id': 2}, dict(slaves=['S0', 'S1']), {'id': i, 'arg1': i})
            lab = f'{fn} {i} of {STATE[a]} {STATE[b]}'
            env = run(f, w, lab, fn)
            if env is None: continue
            want = [table.get(x, x) if i == k + 1 else x for k, x in enumerate((a, b))]
            got = [w.mem['S0.state'], w.mem['S1.state']]
            r.ob(f'a slave is stopped after its run and started again ({lab})', got == want, f' {[STATE[x] for x in got]}', f.label)
    f = r.flow(p, C + 'add_slave', ['Trick::MonteSlave*'], ver=True)
    for ids in ((), (1,), (1, 2), (1, 4)):
        w = Master({**{f'S{i}.id': x for i, x in enumerate(ids)}, 'SN.id': 0, 'slaves_head': 'H'}, dict(slaves=[f'S{i}' for i in range(len(ids))]), {'in_slave': 'SN', 'arg1': 'SN'}, answers=dict(TMM_resize_array_1d_a='H', TMM_declare_var_s='H'))
        lab = f'slaves {ids}'
        env = run(f, w, lab, 'add_slave')
        if env is None: continue
        r.ob(f'a new slave has an id of its own ({lab})', w.lists['this.slaves'][-1:] == ['SN'] and len(w.lists['this.slaves']) == len(ids) + 1 and w.mem['SN.id'] not in ids and w.mem['SN.id'] > 0, f" {w.mem['SN.id']}", f.label)
    # ---- ranges and numbers of runs
    RANGES = ((), ((2, 3),), ((0, 1), (4, 4)), ((3, 3), (1, 2)), ((5, 9),))
    def ranges(w, rg):
        w.lists['this.run_ranges'] = [f'G{i}' for i in range(len(rg))]
        for i, (a, b) in enumerate(rg): w.mem.update({f'G{i}.start': a, f'G{i}.end': b})
    inr = lambda i, rg: not rg or any(a <= i <= b for a, b in rg)
    f = r.flow(p, C + 'in_range', ver=True)
    for rg, i in itertools.product(RANGES, range(7)):
        w = Master({'R0.id': i}, {}, {'in_run': 'R0', 'arg1': 'R0'}); ranges(w, rg)
        lab = f'run {i}, ranges {rg}'
        env = run(f, w, lab, 'in_range')
        if env is None: continue
        v = val(f.retval(), env)
        if v is None: r.undecided(f'in range ({lab})', pp(f.retval())[:120])
        else: r.ob(f'a run is in range if a range holds it or there is none ({lab})', bool(v) == inr(i, rg), f' {v}', f.label)
    def runs(w, ids, tries=()):
        w.lists['this.runs'] = [f'R{i}' for i in ids]
        for k, i in enumerate(ids): w.mem.update({f'R{i}.id': i, f'R{i}.num_tries': tries[k] if k < len(tries) else 0, f'R{i}.exit_status': 0}); w.lists[f'R{i}.variables'] = []
    QUEUES = ((), (0, 1, 2), (3, 4, 5), (3, 4, 5, 1), (5, 1, 2), (2, 0))
    def counted(w, rg, sts, num): return num + sum(inr(w.mem[x + '.id'], rg) for x in w.lists['this.runs']) + sum(x in (RUNNING, STOPPING) for x in sts)
    f = r.flow(p, C + 'set_num_runs', ver=True)
    for ids, total, n, rg, sts in itertools.product(QUEUES, (3, 6), (0, 2, 3, 4, 6, 8), RANGES[:3], ((), (RUNNING, READY), (STOPPING, UN_RUN))):
        if any(i >= total for i in ids) or sts and rg: continue
        w = Master({'num_runs': total, 'num_results': 1, 'actual_num_runs': 0}, dict(slaves=[f'S{i}' for i in range(len(sts))]), {'in_num_runs': n, 'arg1': n})
        for i, x in enumerate(sts): w.mem[f'S{i}.state'] = x
        runs(w, ids); ranges(w, rg)
        lab = f'{total} runs, {ids} queued, set to {n}, ranges {rg}, slaves {[STATE[x] for x in sts]}'
        env = run(f, w, lab, 'the number of runs')
        if env is None: continue
        got = [w.mem[x + '.id'] for x in w.lists['this.runs']]
        want = [i for i in ids if i < n] if n < total else list(ids) + list(range(total, n))
        # removing stops at the runs that are no longer queued
        r.ob(f'runs are added behind the others, and exactly those beyond the number are removed ({lab})', got == want, f' {got} instead of {want}', f.label)
        gone = [f'R{i}' for i in ids if i >= n] if n < total else []
        r.ob(f'runs that are removed are deleted once ({lab})', sorted(x[1] for x in w.log if x[0] == 'delete') == sorted(gone), f' {w.log}', f.label)
        r.ob(f'the number of runs is kept ({lab})', w.mem['this.num_runs'] == (n if n >= total else total - len(gone)), f" {w.mem['this.num_runs']}", f.label)
        r.ob(f'the runs to wait for are those resolved, queued in range and being processed ({lab})', w.mem['this.actual_num_runs'] == counted(w, rg, sts, 1), f" {w.mem['this.actual_num_runs']}", f.label)
        new = [x for x in w.lists['this.runs'] if x[0] == 'N']
        r.ob(f'new runs are untried and open ({lab})', all(w.mem.get(x + '.num_tries') == 0 and w.mem.get(x + '.exit_status') == INCOMPLETE for x in new), '', f.label)
    # ---- what is given out
    f = r.flow(p, C + 'prepare_run', ver=True)
    for ids, k, tries, nv, eof in itertools.product(QUEUES[1:], (0, -1), (0, 1, 3), (0, 1, 2), (None, 0, 1)):
        if eof is not None and eof >= nv: continue
        i = ids[k]
        vals = [f'x{j} = 1' for j in range(nv)]
        if eof is not None: vals[eof] = 'EOF'
        w = Master({'verbosity': 0, 'num_runs': 6, 'num_results': 0, 'actual_num_runs': 6, 'current_run': 0, 'run_data_file': 'FP'}, dict(slaves=[], variables=[f'V{j}' for j in range(nv)]), {'curr_run': f'R{i}', 'arg1': f'R{i}'}, values=vals)
        for j in range(nv): w.mem[f'V{j}.value'] = f'{j}'
        runs(w, ids, [tries if x == i else 0 for x in ids]); ranges(w, ())
        lab = f'run {i} of {ids}, tried {tries} times, {nv} variables, end of file {eof}'
        env = run(f, w, lab, 'preparing a run')
        if env is None: continue
        v = val(f.retval(), env)
        end = tries == 0 and eof is not None
        pre = sum(x == ('jobs', 'this.master_pre_queue') for x in w.log)
        r.ob(f'jobs before a run are called and its values drawn the first time only ({lab})', (pre, sum(x[0] == 'draw' for x in w.log)) == ((1, eof + 1 if end else nv) if tries == 0 else (0, 0)), f' {w.log}', f.label)
        r.ob(f'the present run is this one ({lab})', w.mem['this.current_run'] == i, f" {w.mem['this.current_run']}", f.label)
        if not end:
            r.ob(f'the run has a value of each variable, in order ({lab})', w.lists[f'R{i}.variables'] == (vals if tries == 0 else []), f" {w.lists[f'R{i}.variables']}", f.label)
            r.ob(f'the run leaves the queue ({lab})', w.lists['this.runs'] == [f'R{x}' for x in ids if x != i], f" {w.lists['this.runs']}", f.label)
            r.ob(f'a prepared run is reported ({lab})', v == 0, f' {v}', f.label)
        else:
            r.ob(f'the end of a file ends the runs before this one ({lab})', w.lists['this.runs'] == [f'R{x}' for x in ids if x < i] , f" {w.lists['this.runs']}", f.label)
            r.ob(f'the end of a file is reported ({lab})', v == -1, f' {v}', f.label)
    montecarlo2(r, u, run, runs, ranges, inr)
    return r.finish('Run bookkeeping, slave states and both ends of the connection evaluated over queues of runs, slaves, ranges and results.', ['tc_read and tc_write move all bytes or report fewer; jobs do not change the bookkeeping'], 1000)

def montecarlo2(r, u, run, runs, ranges, inr):
    C = 'MonteCarlo::'
    p = u.extract(roots=['Trick::MonteCarlo::'], opaque=OPQ + ['prepare_run'])
    f = r.flow(p, C + 'dispatch_run_to_slave', ver=True, streams=True)
    for prep, con, hs, hr, queue in itertools.product((0, -1), (0, 1), (0, 1), (0, 1), ((), ('R5',))):
        w = Master({'verbosity': 0, 'current_run': 9, 'S0.state': READY, 'S0.num_dispatches': 3, 'S0.current_run': 'R8', 'S0.port': 77, 'S0.id': 1, 'S0.machine_name': 'host', 'slave_output_directory': 'DIR', 'R0.id': 4, 'R0.num_tries': 1, 'R0.start_time': 0.0},
                   {'runs': queue, 'R0.variables': ['a', 'b']}, {'run': 'R0' if hr else 0, 'slave': 'S0' if hs else 0, 'arg1': 'R0' if hr else 0, 'arg2': 'S0' if hs else 0}, connect=con, answers=dict(prepare_run=prep))
        lab = f'{"a" if hr else "no"} run, {"a" if hs else "no"} slave, prepared {prep}, connection {con}, queue {queue}'
        env = run(f, w, lab, 'dispatch')
        if env is None: continue
        go = hs and hr and prep == 0
        want = READY if not go else RUNNING if con else DISC
        r.ob(f'the slave is running if it has the run ({lab})', w.mem['S0.state'] == want, f" {STATE[w.mem['S0.state']]}", f.label)
        r.ob(f'a run no slave took is the next one again ({lab})', w.lists['this.runs'] == ['R0'] * bool(go and not con) + list(queue), f" {w.lists['this.runs']}", f.label)
        if go and con:
            text = 'a\nb\ntrick.set_output_dir("DIR/RUN_00004")\ntrick.mc_set_current_run(4)\n'
            sent = [x[1:] for x in w.log if x[0] == 'write']
            r.ob(f'the command, the size and the values of the run are sent ({lab})', sent == [(0, 4), (swap(len(text)), 4), (text, len(text))], f' {sent}', f.label)
            r.ob(f'the slave has the run, its start and its tries ({lab})', (w.mem['S0.current_run'], w.mem['S0.num_dispatches'], w.mem['R0.start_time'], w.mem['R0.num_tries'], w.mem['this.current_run']) == ('R0', 4, 100.0, 2, 4), '', f.label)
        elif not go: r.ob(f'nothing is sent ({lab})', not [x for x in w.log if x[0] in ('write', 'connect')] and w.mem['R0.num_tries'] == 1, '', f.label)
        else: r.ob(f'a run that is prepared is not prepared again ({lab})', w.mem['R0.num_tries'] > 0, '', f.label)
    # ---- the connection of a slave, seen by the master
    p = u.extract(roots=['Trick::MonteCarlo::'], opaque=OPQ + ['handle_run_data', 'handle_initialization'])
    f = r.flow(p, C + 'receive_results', ver=True)
    for acc, idn, sts in itertools.product((0, 1, 2), (1, 2, 3, 0), itertools.product((INITING, READY, RUNNING, UN_RUN), repeat=2)):
        w = Master({'verbosity': 0, 'S0.id': 1, 'S1.id': 2, 'S0.state': sts[0], 'S1.state': sts[1]}, dict(slaves=['S0', 'S1']), net=[swap(idn)] * 3); w.accepts = acc
        lab = f'{acc} connections of slave {idn}, states {[STATE[x] for x in sts]}'
        env = run(f, w, lab, 'receiving results')
        if env is None: continue
        got = [x for x in w.log if x[0] in ('handle_run_data', 'handle_initialization', 'disconnect')]
        want = [] if not acc else [('disconnect',)] if idn not in (1, 2) else [('handle_initialization' if sts[idn - 1] == INITING else 'handle_run_data', f'S{idn - 1}')] * acc
        r.ob(f'what arrives is given to the slave that sent it ({lab})', got == want, f' {got} instead of {want}', f.label)
    p = u.extract(roots=['Trick::MonteCarlo::'], opaque=OPQ)
    f = r.flow(p, C + 'handle_initialization', ver=True)
    for net in ([], [swap(4)], [swap(4), 'host'], [swap(4), 'host', swap(7000)]):
        w = Master({'verbosity': 0, 'S0.id': 1, 'S0.state': INITING, 'S0.port': 1, 'S0.machine_name': 'old'}, {}, {'slave': 'S0', 'arg1': 'S0'}, net=net)
        lab = f'{len(net)} parts'
        env = run(f, w, lab, 'initialization')
        if env is None: continue
        r.ob(f'a slave is ready if its name and port arrived ({lab})', w.mem['S0.state'] == (READY if len(net) == 3 else DISC), f" {w.mem['S0.state']}", f.label)
        if len(net) == 3: r.ob(f'name and port of a slave are kept ({lab})', (w.mem['S0.machine_name'], w.mem['S0.port']) == ('host', 7000), f" {w.mem['S0.machine_name']} {w.mem['S0.port']}", f.label)
        r.ob(f'the connection is closed once ({lab})', sum(x == ('disconnect',) for x in w.log) == 1, '', f.label)
    f = r.flow(p, C + 'shutdown_slaves', ver=True)
    for n, con in itertools.product((0, 1, 3), (0, 1)):
        w = Master({'verbosity': 0}, dict(slaves=[f'S{i}' for i in range(n)]), connect=con)
        for i in range(n): w.mem.update({f'S{i}.state': READY, f'S{i}.port': i, f'S{i}.machine_name': 'h', f'S{i}.id': i})
        lab = f'{n} slaves, connection {con}'
        env = run(f, w, lab, 'shutdown')
        if env is None: continue
        r.ob(f'every slave is told to shut down ({lab})', [x for x in w.log if x[0] == 'write'] == [('write', swap(1), 4)] * (n * con) and all(w.mem[f'S{i}.state'] == FINISHED for i in range(n)), f' {w.log}', f.label)
    # ---- what comes next
    f = r.flow(p, C + 'get_next_dispatch', ver=True)
    for ids, rg, tries, nv, eof in itertools.product(((), (0,), (0, 1, 2), (3, 4, 1), (2, 3)), (((2, 3),), (), ((0, 0), (4, 5)), ((9, 9),)), (0, 1), (0, 1), (0, 1)):
        if eof and not nv: continue
        w = Master({'verbosity': 0, 'num_runs': 5, 'num_results': 0, 'actual_num_runs': 5, 'current_run': 0, 'run_data_file': 'FP'}, dict(slaves=[], variables=[f'V{j}' for j in range(nv)]), values=['EOF' if eof else '1'] * 9)
        for j in range(nv): w.mem[f'V{j}.value'] = f'{j}'
        runs(w, ids, [tries] * len(ids)); ranges(w, rg)
        lab = f'{ids} queued, ranges {rg}, tried {tries}, {nv} variables, end of file {eof}'
        env = run(f, w, lab, 'the next run')
        if env is None: continue
        q = list(ids)
        while q and not inr(q[0], rg):
            if tries == 0 and eof: q = [x for x in q if x < q[0]]
            else: q.pop(0)
        v = val(f.retval(), env)
        if v is None: r.undecided(f'the next run ({lab})', pp(f.retval())[:120])
        else: r.ob(f'the next run is the first in range; others are passed over ({lab})', (v, w.lists['this.runs']) == (f'R{q[0]}' if q else 0, [f'R{x}' for x in q]), f" {v} {w.lists['this.runs']}", f.label)
    p = u.extract(roots=['Trick::MonteCarlo::'], opaque=OPQ + ['prepare_run', 'get_next_dispatch'])
    f = r.flow(p, C + 'dryrun', ver=True, streams=True)
    for n, end, ex, mk in itertools.product((0, 1, 3), (None, 0, 1, 2), (0, 1), (0, 1)):
        if end is not None and end >= n: continue
        w = Master({'run_directory': 'DIR'}, answers=dict(access=0 if ex else -1, mkdir=0 if mk else -1, command_line_args_get_input_file='input.py'))
        for i in range(n): w.mem[f'R{i}.id'] = i; w.lists[f'R{i}.variables'] = [f'v{i}', 'u']
        w.turns = dict(get_next_dispatch=[f'R{i}' for i in range(n)], prepare_run=[-1 if i == end else 0 for i in range(n)]); w.ends = ()
        lab = f'{n} runs, end of file at {end}, directory {"exists" if ex else "made" if mk else "refused"}'
        env = run(f, w, lab, 'dry run')
        if env is None: continue
        text = ''.join(v for k, v in w.out.items() if 'trick.mc_set' in v)
        want = [i for i in range(n) if i != end] if ex or mk else []
        r.ob(f'the input of every run is written ({lab})', [int(x) for x in re.findall(r'set_current_run\((\d+)\)', text)] == want and all(f'v{i}\nu\ntrick.set_output_dir("DIR/RUN_0000{i}")\ntrick.mc_set_current_run({i})\n' in text for i in want), f' {text[-200:]!r}', f.label)
        r.ob(f'a dry run ends without running ({lab})', w.log[-1:] == [('exit', 0)] and ('jobs', 'this.master_shutdown_queue') in w.log, f' {w.log[-2:]}', f.label)
    montecarlo3(r, u, run)

def montecarlo3(r, u, run):
    C = 'MonteCarlo::'
    # ---- the master's rounds
    p = u.extract(roots=['Trick::MonteCarlo::'], opaque=OPQ + ['spawn_slaves', 'receive_results', 'check_timeouts', 'get_next_dispatch', 'get_ready_slave', 'dispatch_run_to_slave', 'dryrun', 'master_shutdown'])
    f = r.flow(p, C + 'master', ver=True)
    for have, want, dry in itertools.product((0, 1, 3), (0, 1, 3), (0, 1)):
        w = Master({'num_results': have, 'actual_num_runs': want, 'dry_run': dry}, answers=dict(get_next_dispatch='R0', get_ready_slave='S0'))
        w.ends = ('master_shutdown', 'dryrun'); w.grow = ('receive_results', 'this.num_results')
        lab = f'{have} of {want} runs resolved, dry run {dry}'
        env = run(f, w, lab, 'the master')
        if env is None: continue
        got = [x for x in w.log]
        rounds = max(0, want - have)
        ex = [('jobs', 'this.master_init_queue')] + ([('dryrun',)] if dry else [('spawn_slaves',), ('receive_results',), ('check_timeouts',), ('dispatch_run_to_slave', 'R0', 'S0')] * rounds + [('master_shutdown',)])
        r.ob(f'the master goes on until all runs are resolved, then shuts down ({lab})', got == ex, f' {got} instead of {ex}', f.label)
    # ---- the slave
    SL = ['slave_shutdown', 'slave_die', 'slave_process_run']
    p = u.extract(roots=['Trick::MonteCarlo::'], opaque=OPQ + SL)
    f = r.flow(p, C + 'execute_as_slave', ver=True)
    for cmd, acc, ret in itertools.product((None, 0, 1, 2, 3, -1), (0, 1), (0, 1)):
        w = Master({'verbosity': 0, 'slave_id': 3}, net=[None if cmd is None else swap(cmd)]); w.accepts = acc
        w.turns = dict(slave_process_run=[ret, 0]); w.ends = ('slave_shutdown', 'slave_die')
        lab = f'command {cmd}, connected {acc}, result {ret}'
        env = run(f, w, lab, 'the slave')
        if env is None: continue
        got = [x[0] for x in w.log if x[0] in SL]
        ex = ['slave_shutdown'] if not acc or cmd not in (0, 2) else ['slave_die'] if cmd == 2 else ['slave_process_run'] + ['slave_shutdown'] * (not ret)
        r.ob(f'a slave processes runs until it is told to end or loses its master ({lab})', got == ex, f' {got} instead of {ex}', f.label)
    p = u.extract(roots=['Trick::MonteCarlo::'], opaque=OPQ + ['slave_shutdown', 'slave_die'])
    f = r.flow(p, C + 'slave_process_run', ver=True, streams=True)
    for net, pid, status, con, parse, ex, mk in itertools.product(([], [swap(5)], [swap(5), 'input'], [swap(-2)]), (-1, 0, 7), (0, 256, 14, 11, 139), (0, 1), (0, 1), (0, 1), (0, 1)):
        if pid <= 0 and (status or not con) or pid and (parse or not ex or not mk) or len(net) < 2 and (pid != 7 or status): continue
        w = Master({'verbosity': 0, 'slave_id': 3, 'machine_name': 'm', 'master_port': 7100, 'connection_device.port': 1, 'timeout': 120.0}, net=net, connect=con,
                   answers=dict(fork=pid, waitpid=pid, ip_parse=parse, access=0 if ex else -1, mkdir=0 if mk else -1, command_line_args_get_output_dir='OUT', command_line_args_get_input_file='IN', fopen='FP'))
        w.ends = ('slave_shutdown',); w.status = status
        lab = f'{len(net)} parts{" of negative size" if net == [swap(-2)] else ""}, process {pid}, status {status}, connection {con}, input {parse}, directory {ex} {mk}'
        env = run(f, w, lab, 'a run')
        if env is None: continue
        sent = [x[1:] for x in w.log if x[0] == 'write']; end = w.log[-1]
        v = None if env is w else val(f.retval(), env)
        if len(net) < 2 or pid == -1: r.ob(f'a slave that gets no whole run ends ({lab})', end == ('slave_shutdown',) and not sent, f' {w.log}', f.label)
        elif pid:
            sig = status & 127
            if not sig: r.ob(f'a run that ended by itself is not reported again ({lab})', not sent and v == 0, f' {sent} {v}', f.label)
            elif con: r.ob(f'a run that was killed is reported with the id of the slave ({lab})', sent == [(swap(3), 4), (swap(TIMEOUT if sig == 14 else CORE), 4)] and v == 0 and w.mem['this.connection_device.port'] == 7100, f' {sent} {v}', f.label)
            else: r.ob(f'a slave that cannot report ends ({lab})', end == ('slave_shutdown',), f' {w.log}', f.label)
        else:
            ok = not parse and (ex or mk)
            if not ok: r.ob(f'bad input or no directory end the run ({lab})', end == ('exit', BADINPUT if parse else NODIR), f' {end}', f.label)
            else: r.ob(f'the run is limited by the timeout and started ({lab})', v == 1 and ('alarm', 120) in w.log and ('jobs', 'this.slave_pre_queue') in w.log, f' {v} {w.log[-3:]}', f.label)
    p = u.extract(roots=['Trick::MonteCarlo::'], opaque=OPQ + ['slave_kill_run'])
    f = r.flow(p, C + 'shutdown', ver=True)
    for en, sid, ret, con in itertools.product((0, 1), (0, 3), (0, 5, -1), (0, 1)):
        w = Master({'enabled': en, 'slave_id': sid, 'verbosity': 0, 'master_port': 7100, 'connection_device.port': 1}, connect=con, answers=dict(get_except_return=ret)); w.mem['the_exec'] = 'X'
        w.mem['X.except_return'] = ret
        lab = f'enabled {en}, slave {sid}, exit code {ret}, connection {con}'
        env = run(f, w, lab, 'shutdown')
        if env is None: continue
        sent = [x[1:] for x in w.log if x[0] == 'write']
        r.ob(f'a slave reports the outcome of its run with its id ({lab})', sent == ([(swap(3), 4), (swap(FAILED if ret else COMPLETE), 4)] if en and sid and con else []), f' {sent}', f.label)
        if sent: r.ob(f'jobs after the run may send more before the connection closes ({lab})', w.log[-2:] == [('jobs', 'this.slave_post_queue'), ('disconnect',)] and w.mem['this.connection_device.port'] == 7100, f' {w.log[-2:]}', f.label)
    for fn, code in (('slave_shutdown', 0), ('slave_die', 1)):
        f = r.flow(p, C + fn, ver=True)
        w = Master(); env = run(f, w, fn, fn)
        if env is not None: r.ob(f'{fn} ends the slave', w.log[-1:] == [('exit', code)] and (('jobs', 'this.slave_shutdown_queue') in w.log) == (not code), f' {w.log}', f.label)
    f = r.flow(p, C + 'slave_init', ver=True)
    for con, ex, mk in itertools.product((0, 1), (0, 1), (0, 1)):
        w = Master({'verbosity': 0, 'slave_id': 3, 'master_port': 7100, 'listen_device.port': 7200, 'machine_name': 'm', 'connection_device.port': 1}, connect=con, answers=dict(access=0 if ex else -1, mkdir=0 if mk else -1, command_line_args_get_output_dir='OUT', strlen=5))
        lab = f'connection {con}, directory {ex} {mk}'
        env = run(f, w, lab, 'starting a slave')
        if env is None: continue
        sent = [x[1:] for x in w.log if x[0] == 'write']
        if con and (ex or mk): r.ob(f'a slave sends id, name and port ({lab})', [x for x in sent if not isinstance(x[0], str)] == [(swap(3), 4), (swap(5), 4), (swap(7200), 4)] and [x[1] for x in sent] == [4, 4, 5, 4], f' {sent}', f.label)
        else: r.ob(f'a slave that cannot start ends ({lab})', w.log[-1:] == [('exit', -1)] and not sent, f' {w.log}', f.label)

RULES = {'K01': montecarlo}
