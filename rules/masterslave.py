"""Rules on master/slave synchronisation: both sides speak the same protocol, and each lost or freezing peer has the stated effect."""
import itertools, re
import flow as F
from vk import *
from flow import M, pp
from rules.messages import Out
from rules.sim import Lists, Outside, decide, simulate

MS = 'trick_source/sim_services/MasterSlave/'
EXEC = ['message_publish', 'exec_', '^checkpoint_', '^get_checkpoint_(pre|post|end)', '^load_checkpoint', '^checkpoint$', 'command_line', 'dlsym', 'dlopen', 'dlclose', 'real_time', 'MSConnect::']
NO, FREEZE, RUN, EXIT, ERROR, RECON, DUMP, LOAD = 0, 2, 3, 10, 11, 12, 13, 14
CMD = {NO: 'none', FREEZE: 'freeze', RUN: 'run', EXIT: 'exit', ERROR: 'error', RECON: 'reconnect', DUMP: 'dump', LOAD: 'load'}
NOTIME = -1000000000
READS = ('read_time', 'read_command', 'read_name')
FRESH = READS + ('start', 'exec_get_exec_command', 'exec_get_time_tic_value', 'exec_get_freeze_frame')

class Ended(Exception): pass

class Peer(Out):
    """one simulation and what arrives on its connections"""
    def __init__(s, mem={}, lists={}, args={}, ex={}, net={}, socket=1, names={}, starts=()):
        Lists.__init__(s, {(k if re.match(r'[A-Z]+\d*[.\[]', k) else 'this.' + k): v for k, v in dict(mem).items()}, {'this.' + k: v for k, v in lists.items()}, {}, dict(args))
        s.ex, s.net, s.socket, s.log, s.got = dict(ex), {k: list(v) for k, v in net.items()}, socket, [], {}
        s.out, s.answers, s.calls, s.flushed, s.names, s.starts, s.width = {}, {}, (), {}, dict(names), list(starts), {}
    def load(s, t, env):
        a = t[1]
        while a[0] == 'ver': a = a[1]
        if a[0] in ('fld', 'idx') and not (a[0] == 'idx' and len(a) > 3):
            try: c = s.where(a, env)
            except F.Unknown: c = None
            if c and c.endswith('[0]'): c = c[:-3]
            if c in s.names: return env.snap.get(c, s.first(s.names[c]))
        return Out.load(s, t, env)
    @staticmethod
    def first(v): return -1 if v is None else ord(v[0]) if v else 0
    def place(s, e, env):
        c = Out.place(s, e, env)
        if c.endswith('[0]'): c = c[:-3]
        return c
    def text(s, t, env):
        while t[0] == 'ret' and t[1].split('::')[-1] in ('c_str', 'data', 'str', 'string', 'basic_string') and len(t) == 3: t = t[2]
        if t[0] in ('fld', 'idx', 'off'):
            if t[0] == 'fld' or len(t) == 3 and t[2] == ('c', 0):
                c = s.where(t if t[0] == 'fld' else t[1], env)
                if c in s.names: return s.names[c]
            if t[0] in ('idx', 'off'):
                v = s.text(t[1], env)
                if v == 0: raise Outside(f'a character behind a null pointer')
                if isinstance(v, str): return v[(t[2] if isinstance(t[2], int) else s.num(t[2], env)):]
        if t[0] == 'ite':
            o = decide(t[1], env)
            if o is None: raise F.Unknown(pp(t)[:160])
            return s.text(t[2 if o else 3], env)
        v = Out.text(s, t, env)
        if isinstance(v, str) and v in s.names: v = s.names[v]
        return v
    def result(s, t, env):
        n = t[1].split('::')[-1]
        if t[-1] in s.got: return s.got[t[-1]]
        if n.startswith('exec_get_') and n[9:] in s.ex: return s.ex[n[9:]]
        if n.startswith('get_checkpoint_') and n[15:] in s.ex: return s.ex[n[15:]]
        if n == '__dynamic_cast': return s.num(t[2], env) if s.socket else 0
        if n in s.ex: return s.ex[n]
        if n == 'dlopen': return 1
        if n == 'dlsym': return s.ex.get('has', 1)
        if n == 'strncmp':
            k = s.num(t[4], env); return int(str(s.text(t[2], env))[:k] != str(s.text(t[3], env))[:k])
        if n == 'strrchr':
            v, k = s.text(t[2], env), chr(s.num(t[3], env))
            return v[v.rindex(k):] if k in v else 0
        return Out.result(s, t, env)
    def other(s, e, env):
        n = e.name.split('::')[-1]
        if n == 'exec_terminate_with_return':
            s.log.append(('terminate', s.num(e.args[0], env))); raise Ended()
        if n in READS:
            c = s.ptr(e.args[0], env); q = s.net.get(c, [])
            if not q: raise Outside(f'{n} of {c} although nothing more is sent')
            k, v = q.pop(0)
            s.log.append((n, c))
            if k is not None and k != n[5:]: raise Outside(f'{n} of {c} takes what was written as a {k}')
            if n == 'read_name':
                if s.num(e.args[2], env) != 256: raise Outside('another size of a name')
                if v is not None: s.names[s.room(e.args[1], env)] = v[0]
                v = -1 if v is None or v[0] is None else s.first(v[0]) if s.socket else 0
            if e.ret: s.got[e.ret[-1]] = v
        elif n in ('write_time', 'write_command'): s.log.append((n, s.ptr(e.args[0], env), s.num(e.args[1], env)))
        elif n == 'write_name':
            c = s.room(e.args[1], env)
            v = s.names.get(c)
            if s.mem.get(c) == -1: v = None
            if v is not None and len(v) > 255: raise Outside('a name of more than 255 characters in an array of 256')
            s.log.append((n, s.ptr(e.args[0], env), v, s.num(e.args[2], env)))
        elif n == 'set_sync_wait_limit': s.log.append(('limit', s.ptr(e.args[0], env), s.num(e.args[1], env)))
        elif n in ('accept', 'connect'):
            s.log.append((n, s.ptr(e.args[0], env)))
        elif n == 'start':
            s.log.append((n, s.ptr(e.args[0], env)))
            if e.ret: s.got[e.ret[-1]] = s.starts.pop(0)
        elif n.startswith('exec_set_'):
            s.ex[n[9:]] = s.num(e.args[0], env); s.log.append((n[5:], s.ex[n[9:]]))
        elif n.startswith('exec_get_') and e.ret: s.got[e.ret[-1]] = s.ex[n[9:]]
        elif n in ('checkpoint', 'load_checkpoint'): s.log.append((n, s.text(e.args[0], env)))
        elif n.startswith('checkpoint_') and not n.startswith('checkpoint_get'): s.ex[n[11:]] = s.num(e.args[0], env)
        elif n == 'indirect':
            m = re.search(r'"(\w+)"', pp(e.args[0])); s.log.append(('off', m[1] if m else '?'))
        elif n == 'system':
            s.log.append((n, s.text(e.args[0], env)))
        elif n in ('strcpy', 'strncpy', 'memcpy'):
            c = s.room(e.args[0], env); s.names[c] = s.text(e.args[1], env); s.mem.pop(c, None)
            if n != 'strcpy' and len(s.names[c]) >= s.num(e.args[2], env): raise Outside('a name without an end')
        elif e.name.startswith('out<') and pp(e.args[1]).startswith('std::setprecision'): s.width[s.key(e.args[0], env)] = s.num(e.args[1][2], env)
        elif e.name.startswith('out<') and s.key(e.args[0], env) in s.width and isinstance(s.quiet(e.args[1], env), float):
            k = s.key(e.args[0], env); s.out[k] = s.out.get(k, '') + f'{s.num(e.args[1], env):.{s.width[k]}f}'
        else: Out.other(s, e, env)
    def quiet(s, t, env):
        try: return s.text(t, env)
        except F.Unknown: return None
    def room(s, t, env):
        c = s.where(t, env)
        return c[:-3] if c.endswith('[0]') else c

class Wire(Lists):
    """one end of a connection"""
    def __init__(s, mem={}, args={}, k=0, v=0, pid=0):
        Lists.__init__(s, {('this.' + n if n[0].islower() else n): x for n, x in dict(mem).items()}, {}, {}, dict(args)); s.k, s.v, s.pid, s.log = k, v, pid, []
    def term(s, t, env):
        if t[0] == 'out' and t[1].startswith('tc_read'): return s.v
        return Lists.term(s, t, env)
    def result(s, t, env):
        n = t[1].split('::')[-1]
        if n.startswith('tc_read'): return s.k
        if n == 'getpid': return s.pid
        if n == 'read_wait': return 1.0
        return Lists.result(s, t, env)
    def other(s, e, env):
        n = e.name.split('::')[-1].rstrip('_')
        if n == 'tc_read': s.log.append((n, s.ptr(e.args[0], env), s.num(e.args[2], env)))
        elif n == 'tc_write': s.log.append((n, s.ptr(e.args[0], env), s.num(e.args[1], env), s.num(e.args[2], env)))
        elif n in ('tc_blockio', 'tc_set_blockio_timeout_limit'): s.log.append((n, s.ptr(e.args[0], env), s.num(e.args[1], env)))
    def tracks(s, c): return not c.startswith('this.sync')

def made(f, w, ret=False):
    try: env = simulate(f, w)
    except Ended: env = None
    return env if ret else w

def master_slave(r):
    u = r.unit([MS + '*.cpp'])
    p = u.extract(roots=['Master::', 'SlaveInfo::', 'Slave::'], opaque=EXEC + ['SlaveInfo::start'])
    A, S = 'Master::', 'Slave::'
    def fl(n, **k): return r.flow(p, n, ver=True, fresh=FRESH, **k)
    def slave(k, **o):
        d = dict(enabled=1, activated=1, reconnect_count=0, reconnect_wait_limit=0.0, sync_error_terminate=0, sync_wait_limit=2.0, chkpnt_dump_auto=1, chkpnt_load_auto=1, connection=f'C{k}')
        d.update(o)
        return {f'S{k}.{n}': v for n, v in d.items()}
    def many(*os):
        m = {'enabled': 1}
        for k, o in enumerate(os): m.update(slave(k, **o))
        return m, {'slaves': [f'S{k}' for k in range(len(os))]}
    EX = dict(exec_command=NO, freeze_frame=0.5, time_tics=77, mode=2, software_frame_tics=100, time_tic_value=1000, freeze_command=0, pre_init=0, post_init=0, end=0)
    # ---- the master takes one status from each slave
    f = fl(A + 'end_of_frame_status_from_slave')
    def heard(o, cmd, ex, sock):
        """what a status does to the master: log, and the members of the slave afterwards"""
        o = dict(slave(0, **o)); g = lambda n: o['S0.' + n]
        log = []
        if not g('activated'): return log, o
        log.append(('read_command', 'C0'))
        if ex == EXIT: return log, o
        if sock and cmd == ERROR and g('reconnect_wait_limit') > 0 and not g('reconnect_count'): cmd = EXIT
        if cmd == ERROR:
            if g('reconnect_count') * EX['freeze_frame'] < g('reconnect_wait_limit'): o['S0.reconnect_count'] += 1
            elif g('sync_error_terminate'): log.append(('terminate', -1))
            else: o['S0.activated'] = 0
        elif cmd == EXIT:
            if g('sync_error_terminate'): log.append(('terminate', -1))
            elif g('reconnect_wait_limit') > 0: log.append(('limit', 'C0', EX['freeze_frame']))
            else: o['S0.activated'] = 0
        elif cmd == FREEZE:
            log.append(('set_exec_command', FREEZE)); o['S0.reconnect_count'] = 0
        elif cmd == RECON:
            log.append(('limit', 'C0', g('sync_wait_limit'))); o['S0.reconnect_count'] = 0
        return log, o
    for act, cnt, lim, term, cmd, ex, sock in itertools.product((0, 1), (0, 1, 2, 4), (0.0, 1.0), (0, 1), (NO, FREEZE, RUN, EXIT, ERROR, RECON), (NO, FREEZE, EXIT), (0, 1)):
        o = dict(activated=act, reconnect_count=cnt, reconnect_wait_limit=lim, sync_error_terminate=term)
        m, l = many(o)
        w = Peer(m, l, ex={**EX, 'exec_command': ex}, net={'C0': [('command', cmd)]}, socket=sock)
        lab = f'{"active" if act else "inactive"}, {CMD[cmd]}, master {CMD[ex]}, waits {lim} s, missed {cnt}, {"terminates" if term else "goes on"}, {"socket" if sock else "shared memory"}'
        try: made(f, w)
        except Outside as e_: r.ob(f'a status is taken from each active slave ({lab})', False, f' {e_}', f.label); continue
        except F.Unknown as e_: r.undecided(f'a status is taken from each active slave ({lab})', f' {e_}'); continue
        log, a = heard(o, cmd, ex, sock)
        got = {k: w.mem[k] for k in a}
        r.ob(f'a status has its effect on the master ({lab})', w.log == log and (got == a or ('terminate', -1) in log), f' {w.log}, {[k for k in a if got[k] != a[k]]} instead of {log}', f.label)
    def table(what, f, lab, w, log, mem={}, ex={}, env=None):
        try: made(f, w)
        except Outside as e_: r.ob(f'{what} ({lab})', False, f' {e_}', f.label); return None
        except F.Unknown as e_: r.undecided(f'{what} ({lab})', f' {e_}'); return None
        bad = [f'{k} is {w.mem.get(k)} instead of {v}' for k, v in mem.items() if w.mem.get(k) != v] + [f'{k} is {w.ex.get(k)} instead of {v}' for k, v in ex.items() if w.ex.get(k) != v]
        r.ob(f'{what} ({lab})', w.log == log and not bad, f' {w.log} instead of {log} {bad}' if w.log != log else f' {bad}', f.label)
        return w
    # ---- several slaves, one after the other
    for n in (0, 1, 2, 3):
        for acts in itertools.product((0, 1), repeat=n):
            m, l = many(*[dict(activated=a) for a in acts])
            table('each active slave is heard once', f, acts, Peer(m, l, ex=EX, net={f'C{k}': [('command', NO)] for k in range(n)}), [('read_command', f'C{k}') for k in range(n) if acts[k]])
    # ---- and gives time and command to each that is there
    g = fl(A + 'end_of_frame_status_to_slave')
    for n in (0, 1, 2, 3):
        for st in itertools.product(((0, 0), (1, 0), (1, 1), (0, 1)), repeat=n):
            for cmd in (NO, FREEZE, EXIT):
                m, l = many(*[dict(activated=a, reconnect_count=c) for a, c in st])
                log = [x for k in range(n) if st[k] == (1, 0) for x in (('write_time', f'C{k}', 77), ('write_command', f'C{k}', cmd))]
                table('each connected slave is given the time and then the command of the master', g, f'{st}, {CMD[cmd]}', Peer(m, l, ex={**EX, 'exec_command': cmd}), log)
    # ---- freeze
    h, un = fl(A + 'freeze_init'), fl(A + 'unfreeze')
    for n in (0, 1, 2, 3):
        for acts in itertools.product((0, 1), repeat=n):
            m, l = many(*[dict(activated=a, sync_wait_limit=1.5 + k) for k, a in enumerate(acts)])
            table('a freeze lets the master wait for its slaves', h, acts, Peer(m, l, ex=EX), [('limit', f'C{k}', -1.0) for k in range(n) if acts[k]])
            table('the limits of the waits come back after a freeze', un, acts, Peer(m, l, ex=EX), [('limit', f'C{k}', 1.5 + k) for k in range(n) if acts[k]])
    for nm in ('freeze', 'shutdown'):
        h = fl(A + nm)
        for n in (0, 1, 2):
            for cmd in (NO, FREEZE):
                m, l = many(*[{}] * n)
                log = []
                for k in range(n): log += [('read_command', f'C{k}')] + ([('set_exec_command', FREEZE)] if cmd == FREEZE else [])
                ec = FREEZE if cmd == FREEZE and n else RUN
                log += [x for k in range(n) for x in (('write_time', f'C{k}', 77), ('write_command', f'C{k}', ec))]
                table(f'all slaves are heard, then told, in {nm}', h, f'{n}, {CMD[cmd]}', Peer(m, l, ex={**EX, 'exec_command': RUN}, net={f'C{k}': [('command', cmd)] for k in range(n)}), log)
    # ---- checkpoints
    for nm, src, auto, code in (('checkpoint', 'checkpoint_get_output_file', 'chkpnt_dump_auto', DUMP), ('preload_checkpoint', 'checkpoint_get_load_file', 'chkpnt_load_auto', LOAD)):
        h = fl(A + nm)
        for n in (0, 1, 2, 3):
            for st in itertools.product(((1, 1, 0), (1, 0, 0), (0, 1, 0), (1, 1, 1)), repeat=n):
                for mode, cmd, path in itertools.product((0, 1, 5, 6), (NO, FREEZE), ('RUN_test/chkpnt_1.0', 'x' * 255, 'x' * 256, 'x' * 300)):
                    if n > 1 and (path != 'RUN_test/chkpnt_1.0' or mode not in (1, 5)): continue
                    m, l = many(*[dict(activated=a, reconnect_count=c, **{auto: d}) for a, d, c in st])
                    log, ec = [], RUN
                    if nm != 'checkpoint' or mode not in (0, 6):
                        for k in range(n):
                            if st[k][0]:
                                log.append(('read_command', f'C{k}'))
                                if cmd == FREEZE: log.append(('set_exec_command', FREEZE)); ec = FREEZE
                        for k in range(n):
                            a, d, c = st[k]
                            if cmd == FREEZE: c = 0
                            if a and not c: log += [('write_time', f'C{k}', 77), ('write_command', f'C{k}', code if d else ec)] + ([('write_name', f'C{k}', path if len(path) < 256 else None, 256)] if d else [])
                    lab = f'{nm}, {st}, mode {mode}, slaves {CMD[cmd]}, a path of {len(path)}'
                    w = Peer(m, l, ex={**EX, 'exec_command': RUN, 'mode': mode, src: path}, net={f'C{k}': [('command', cmd)] for k in range(n)})
                    try: made(h, w)
                    except Outside as e_: r.ob(f'slaves follow the checkpoints of the master ({lab})', False, f' {e_}', h.label); continue
                    except F.Unknown as e_: r.undecided(f'slaves follow the checkpoints of the master ({lab})', f' {e_}'); continue
                    got = [x for x in w.log if x[0] != 'set_exec_command' or x[1] == FREEZE and cmd == FREEZE]
                    if cmd == FREEZE: got, log = [x for x in got if x[0] != 'set_exec_command'], [x for x in log if x[0] != 'set_exec_command']
                    r.ob(f'slaves follow the checkpoints of the master ({lab})', got == log, f' {[x if len(str(x)) < 90 else str(x)[:90] for x in got]} instead of {[str(x)[:60] for x in log]}', h.label)
                    r.ob(f'the command of the master is what it was ({lab})', w.ex['exec_command'] == ec, f' {w.ex["exec_command"]} instead of {ec}', h.label)
    # ---- start
    h, si = fl(A + 'init'), fl(S + 'init')
    for starts in ((0,), (-1,), (0, 0), (-3, 0), (0, -2), (-1, -1)):
        for frame, tic, lim, fc, flags in itertools.product((100, 12500), (1000, 1000000), (0.0, 2.5), (0, 1), itertools.product((0, 1), repeat=3)):
            m, l = many(*[dict(sync_wait_limit=lim, activated=1) for s in starts])
            ex = {**EX, 'software_frame_tics': frame, 'time_tic_value': tic, 'freeze_command': fc, 'pre_init': flags[0], 'post_init': flags[1], 'end': flags[2]}
            lab = f'{starts}, frame {frame}, {tic} tics per second, limit {lim}, freeze {fc}, checkpoints {flags}'
            w = Peer(m, l, ex=ex, starts=starts)
            try: made(h, w)
            except Outside as e_: r.ob(f'slaves are started ({lab})', False, f' {e_}', h.label); continue
            except F.Unknown as e_: r.undecided(f'slaves are started ({lab})', f' {e_}'); continue
            r.ob(f'every slave is started once ({lab})', [x[1] for x in w.log if x[0] == 'start'] == [f'S{k}' for k in range(len(starts))], f' {w.log}', h.label)
            r.ob(f'slaves that did not start are not spoken to ({lab})', all(not w.mem[f'S{k}.activated'] and not [x for x in w.log if x[1:2] == (f'C{k}',)] for k in range(len(starts)) if starts[k]), f' {w.log}', h.label)
            r.ob(f'the master freezes where frames end ({lab})', w.ex.get('freeze_on_frame_boundary') == 1, f' {w.ex}', h.label)
            for k in range(len(starts)):
                if starts[k]: continue
                told = [(x[0][6:], x[2]) for x in w.log if x[1] == f'C{k}' and x[0].startswith('write_')]
                r.ob(f'what is told at the start has room until it is read ({lab})', sum(x[0] == 'time' for x in told) <= 4 and sum(x[0] == 'command' for x in told) <= 4, f' {told}', h.label)
                v = Peer({'enabled': 1, 'activated': 0, 'connection': 'C', 'sync_wait_limit': 0.0}, {}, ex={'has': 1}, net={'C': told})
                try: made(si, v)
                except Outside as e_: r.ob(f'a slave takes what its master told it ({lab})', False, f' {e_}', si.label); continue
                except F.Unknown as e_: r.undecided(f'a slave takes what its master told it ({lab})', f' {e_}'); continue
                want = {'time_tic_value': tic, 'software_frame': frame / tic, 'freeze_command': fc, 'pre_init': flags[0], 'post_init': flags[1], 'end': flags[2], 'freeze_on_frame_boundary': 1}
                r.ob(f'a slave takes what its master told it ({lab})', not v.net['C'] and {q: v.ex.get(q) for q in want} == want, f' {v.ex} instead of {want}, left {v.net["C"]}', si.label)
                r.ob(f'a slave waits as long as its master said ({lab})', abs(v.mem['this.sync_wait_limit'] - lim) < 1e-3 and ('limit', 'C', v.mem['this.sync_wait_limit']) in v.log and v.mem['this.activated'] == 1, f' {v.log}', si.label)
                r.ob(f'a slave connects first, and is neither paced nor a master itself ({lab})', v.log and v.log[0] == ('connect', 'C') and {x[1] for x in v.log if x[0] == 'off'} == {'real_time_disable', 'ms_master_disable'}, f' {v.log}', si.label)
    # ---- one frame of a slave
    f = fl(S + 'end_of_frame', streams=True)
    for en, act, own, term, rec, pub, sent, time, cmd, nm in itertools.product((0, 1), (0, 1), (NO, FREEZE, EXIT), (0, 1), (0, 1), (0, 1), (0, 1), (77, NOTIME), (NO, FREEZE, RUN, EXIT, ERROR, DUMP, LOAD), (('RUN_m/chkpnt_7',), ('chkpnt_7',), (None,), None)):
        if (cmd not in (DUMP, LOAD) or rec) and nm != ('RUN_m/chkpnt_7',): continue
        if not (en and act) and (rec or pub or sent or time == NOTIME or cmd in (DUMP, LOAD)): continue
        ini = dict(enabled=en, activated=act, reconnected=rec, msg_published=pub, sent_reconnect_cmd=sent, sync_error_terminate=term, sync_wait_limit=2.0, connection='C')
        w = Peer(ini, {}, ex={'exec_command': own, 'sim_time': 3.0, 'command_line_args_get_output_dir': 'RUN_s'}, net={'C': [('time', time), ('command', cmd), ('name', nm)]}, names={'this.chkpnt_name': 'old/chkpnt_3'})
        log, mem = [], {}
        if en and act:
            say = RECON if rec else own
            log.append(('write_command', 'C', say)); log.append(('read_time', 'C'))
            if time == NOTIME and term: log.append(('terminate', -1))
            elif time == NOTIME and say != FREEZE: log += [('set_exec_command', FREEZE), ('write_command', 'C', FREEZE)]; mem['this.activated'] = 0
            else:
                log.append(('read_command', 'C'))
                if cmd == ERROR and term: log.append(('terminate', -1))
                elif cmd == ERROR:
                    if say != FREEZE: log += [('set_exec_command', FREEZE), ('write_command', 'C', FREEZE)]; mem['this.activated'] = 0
                elif cmd in (DUMP, LOAD):
                    log.append(('read_name', 'C'))
                    base = nm[0].split('/')[-1] if nm and nm[0] else 'chkpnt_3.00'
                    log.append(('checkpoint', base) if cmd == DUMP else ('load_checkpoint', 'RUN_s/' + base))
                else: log.append(('set_exec_command', cmd))
        lab = f'{"on" if en else "off"}, {"active" if act else "inactive"}, own {CMD[own]}, {"terminates" if term else "goes on"}, reconnecting {(rec, pub, sent)}, time {time}, master {CMD[cmd]}, name {nm}'
        if 'terminate' in [x[0] for x in log]: mem = {}
        elif 'this.activated' not in mem: mem['this.activated'] = act
        table('a slave tells its command, takes time and command of its master, and does what it says', f, lab, w, log, mem)
    # the reconnection is announced at least once
    # ---- freeze of a slave
    h, un, fr, sh = fl(S + 'freeze_init'), fl(S + 'unfreeze'), fl(S + 'freeze', streams=True), fl(S + 'shutdown')
    for en, act in ((0, 0), (1, 1), (1, 0)):
        ini = dict(enabled=en, activated=act, reconnected=0, msg_published=0, sent_reconnect_cmd=0, sync_error_terminate=0, sync_wait_limit=2.0, connection='C')
        table('a freeze lets the slave wait for its master', h, (en, act), Peer(ini), [('limit', 'C', -1.0)] if en else [])
        table('the limit of the waits of a slave comes back after a freeze', un, (en, act), Peer(ini), [('limit', 'C', 2.0)] if en else [])
        table('a slave that ends says so', sh, (en, act), Peer(ini), [('write_command', 'C', EXIT)] if en else [])
        for cmd in (NO, FREEZE, RUN, EXIT):
            w = Peer(ini, ex={'exec_command': FREEZE}, net={'C': [('time', 1), ('command', cmd)]})
            log = ([('set_exec_command', NO)] if en else []) + ([('write_command', 'C', NO), ('read_time', 'C'), ('read_command', 'C'), ('set_exec_command', cmd)] if en and act else [])
            table('a frozen slave follows the command of its master', fr, f'{(en, act)}, {CMD[cmd]}', w, log, ex={'exec_command': cmd} if en and act else {})
    # ---- starting one slave
    ps = u.extract(roots=['SlaveInfo::start'], opaque=EXEC + ['env_get'])
    f = r.flow(ps, 'SlaveInfo::start', ver=True, streams=True)
    for shell, user, conn, path, disp, cfg, exe, run, other, csh, argc, sysr, acc in itertools.product((0, 1, 2), ('', '/bin/myrsh'), (1, 0), ('/sims/SIM_a', ''), ('', 'host:0'), ('', 'rc'), ('', './S_x'), ('', 'RUN_t/input.py'), ('', 'xyz'), (0, 1), (2, 4), (0, 1), (0, 1)):
        if (sysr or acc or not conn or not path) and (cfg or exe or other or csh or shell): continue
        if user and shell != 2 or (sysr and acc) or (csh and (cfg or other)): continue
        ini = dict(connection='C' if conn else 0, remote_shell=shell, user_remote_shell=user, remote_shell_args='-q', machine_name='far', machine_display=disp, sim_path=path, remote_shell_config_file=cfg, S_main_name=exe,
                   run_input_file=run, other_args=other, slave_type='t', sync_wait_limit=2.0, activated=0)
        ini.update({f'AV[{i}]': w_ for i, w_ in enumerate(['S_main', 'RUN_m/input.py', '-x', '-y'])})
        w = Peer({k: v for k, v in ini.items()}, ex={'command_line_args_get_argc': argc, 'command_line_args_get_argv': 'AV', 'env_get_var': 0, 'getuid': 1, 'getpwuid': 'PW', 'strstr': csh, 'add_sim_args': '-p tag', 'system': sysr, 'accept': acc}); w.mem['PW.pw_shell'] = '/bin/csh' if csh else '/bin/sh'
        lab = f'shell {shell} {user}, {"" if conn else "no "}connection, path {path}, display {disp}, {cfg} {exe} {run} {other}, {"csh" if csh else "sh"}, {argc} arguments, system {sysr}, accept {acc}'
        try: env = made(f, w, True); got = F.ev(f.retval(), env)
        except Outside as e_: r.ob(f'a slave is started with what was asked for ({lab})', False, f' {e_}', f.label); continue
        except F.Unknown as e_: r.undecided(f'a slave is started with what was asked for ({lab})', f' {e_}'); continue
        kinds = [x[0] for x in w.log]
        r.ob(f'a start is a success if the slave came ({lab})', (got == 0) == bool(conn and path and not sysr and not acc) and w.mem['this.activated'] == (got == 0), f' {got}, {w.mem["this.activated"]}', f.label)
        r.ob(f'one command, then one connection, then the limit of its waits ({lab})', [x[:2] + x[2:] if x[0] != 'system' else x[:1] for x in w.log] == ([('system',)] + ([('accept', 'C')] if not sysr else []) + ([('limit', 'C', 2.0)] if not sysr and not acc else []) if conn and path else []), f' {w.log}', f.label)
        t = next((x[1] for x in w.log if x[0] == 'system'), None)
        if t is None: continue
        want = ['/usr/bin/rsh' if shell == 1 else user if shell == 2 and user else '/usr/bin/ssh', '-q', 'far'] + ([disp] if disp else []) + [path] + ([cfg] if cfg else []) + [exe or './S_main_${TRICK_HOST_CPU}.exe'] + ([run] if run else []) + ['-p tag'] + (['-u ' + other] if other else []) + ['-x', '-y'][:argc - 2]
        at, ok = 0, True
        for x_ in want:
            at = t.find(x_, at); ok = ok and at >= 0; at += len(x_)
        r.ob(f'a slave is started with what was asked for, in the background ({lab})', ok and t.rstrip().endswith('&') and t.count("'") == 2 and ('-u' in t) == bool(other) and ('-y' in t) == (argc == 4), f' {t}', f.label)
    # ---- what one end writes to a socket the other reads, whole
    q = u.extract(roots=['MSSocket::', 'MSSharedMem::'], opaque=['^tc_', '^tsm_', 'message_publish', 'exec_', 'command_line', 'read_wait'])
    size = {}
    for kind, bad in (('time', NOTIME), ('command', ERROR), ('port', -1)):
        f, g = r.flow(q, f'MSSocket::read_{kind}', ver=True), r.flow(q, f'MSSocket::write_{kind}', ver=True)
        for v in (0, 5, -7, 2 ** 31 - 1) + ((2 ** 40 + 3,) if kind == 'time' else ()):
            w = Wire(args={'in_time': v, 'command': v, 'in_port': v, 'arg1': v})
            try: simulate(g, w)
            except F.Unknown as e_: r.undecided(f'a {kind} is written to the socket ({v})', f' {e_}'); continue
            r.ob(f'a {kind} is written to the socket once and whole ({v})', len(w.log) == 1 and w.log[0][:3] == ('tc_write', 'this.tc_dev', v) and w.log[0][3] in (4, 8), f' {w.log}', g.label)
            if len(w.log) != 1: continue
            n = w.log[0][3]
            for k in (-1, 0, 1, n - 1, n, n + 1):
                w = Wire(k=k, v=v)
                try: env = simulate(f, w); got = F.ev(f.retval(), env)
                except F.Unknown as e_: r.undecided(f'a {kind} is read from the socket ({v}, {k} bytes)', f' {e_}'); continue
                r.ob(f'a {kind} that came whole is read as it was written, otherwise as an error ({v}, {k} of {n} bytes)', w.log == [('tc_read', 'this.tc_dev', n)] and got == (v if k == n else bad), f' {got}, {w.log}', f.label)
    f, g = r.flow(q, 'MSSocket::read_name', ver=True), r.flow(q, 'MSSocket::write_name', ver=True)
    w = Wire(args={'in_data': 'N', 'arg1': 'N', 'size': 256, 'arg2': 256})
    try:
        simulate(g, w); r.ob('a name is written to the socket whole', w.log == [('tc_write', 'this.tc_dev', 'N', 256)], f' {w.log}', g.label)
        for k in (-1, 0, 20, 256):
            w = Wire({'B[0]': 65}, args={'read_data': 'B', 'arg1': 'B', 'size': 256, 'arg2': 256}, k=k)
            env = simulate(f, w); got = F.ev(f.retval(), env)
            r.ob(f'a name that did not come whole is an error ({k})', w.log == [('tc_read', 'this.tc_dev', 256)] and got == (65 if k == 256 else -1), f' {got}, {w.log}', f.label)
    except F.Unknown as e_: r.undecided('names on a socket', f' {e_}')
    f = r.flow(q, 'MSSocket::set_sync_wait_limit', ver=True)
    for lim in (-1.0, 0.0, 0.5, 7.0):
        w = Wire(args={'in_limit': lim, 'arg1': lim})
        try: simulate(f, w)
        except F.Unknown as e_: r.undecided(f'limits of waits on a socket ({lim})', f' {e_}'); continue
        want = [('tc_blockio', 'this.tc_dev', 2), ('tc_set_blockio_timeout_limit', 'this.tc_dev', lim)] if lim > 0 else [('tc_blockio', 'this.tc_dev', 0)]
        r.ob(f'a limit above zero bounds the waits, others do not ({lim})', sorted(w.log) == sorted(want), f' {w.log}', f.label)
    # ---- rings in shared memory
    N = 5
    for kind, rd, wr, bad, ends in (('time', 'read_time', 'write_time', NOTIME, (('master_time', 1, 0),)), ('command', 'read_command', 'write_command', ERROR, (('master_command', 1, 0), ('slave_command', 0, 1)))):
        f, g = r.flow(q, 'MSSharedMem::' + rd, ver=True, fresh=('read_wait',)), r.flow(q, 'MSSharedMem::' + wr, ver=True)
        for ring, writer, reader in ends:
            for front, back in itertools.product(range(N), repeat=2):
                base = {'shm_addr': 'M', 'sync_wait_limit': 0.0, 'M.master_pid': 11}
                for nm in ('master_time', 'master_command', 'slave_command'):
                    base.update({f'M.{nm}_front': front if nm == ring else 1, f'M.{nm}_back': back if nm == ring else 1})
                    base.update({f'M.{nm}[{i}]': 100 * i + len(nm) for i in range(N)})
                lab = f'{ring}, {front} to {back}'
                w = Wire(base, args={'in_time': 4321, 'command': 4321, 'arg1': 4321}, pid=11 if writer else 12)
                try:
                    simulate(g, w)
                    want = {**{'this.' + k if k[0].islower() else k: v for k, v in base.items()}, f'M.{ring}[{back}]': 4321, f'M.{ring}_back': (back + 1) % N}
                    r.ob(f'a {kind} is put behind those that wait ({lab})', w.mem == want, f' {[(k, v) for k, v in w.mem.items() if want.get(k) != v]}', g.label)
                except Outside as e_: r.ob(f'a {kind} is put behind those that wait ({lab})', False, f' {e_}', g.label)
                except F.Unknown as e_: r.undecided(f'a {kind} is put behind those that wait ({lab})', f' {e_}')
                w = Wire(base, pid=11 if reader else 12)
                try:
                    env = simulate(f, w); got = F.ev(f.retval(), env)
                    want = {'this.' + k if k[0].islower() else k: v for k, v in base.items()}
                    if front != back: want[f'M.{ring}_front'] = (front + 1) % N
                    r.ob(f'the oldest {kind} is taken, or none if there is none in time ({lab})', w.mem == want and got == (want[f'M.{ring}[{front}]'] if front != back else bad), f' {got}, {[(k, v) for k, v in w.mem.items() if want.get(k) != v]}', f.label)
                except Outside as e_: r.ob(f'the oldest {kind} is taken, or none if there is none in time ({lab})', False, f' {e_}', f.label)
                except F.Unknown as e_: r.undecided(f'the oldest {kind} is taken, or none if there is none in time ({lab})', f' {e_}')
    # ---- a slave knows that it is one
    f = r.flow(q, 'MSSocket::process_sim_args', ver=True)
    for av in (['S'], ['S', 'RUN'], ['S', 'RUN', '-p', 'tag'], ['S', '-p', 'tag', 'RUN'], ['S', 'RUN', '-p'], ['S', '-x', '-p', 't2', '-y'], ['S', 'RUN', '-u', 'p']):
        w = Peer({f'AV[{i}]': v for i, v in enumerate(av + [0])}, ex={'command_line_args_get_argc': len(av), 'command_line_args_get_argv': 'AV'})
        try: env = made(f, w, True); got = F.ev(f.retval(), env)
        except Outside as e_: r.ob(f'a slave finds its connection among its arguments ({av})', False, f' {e_}', f.label); continue
        except F.Unknown as e_: r.undecided(f'a slave finds its connection among its arguments ({av})', f' {e_}'); continue
        tag = next((av[i + 1] for i in range(1, len(av) - 1) if av[i] == '-p'), None)
        r.ob(f'a slave finds its connection among its arguments ({av})', bool(got) == bool(tag) and w.mem.get('this.sync_port_tag') == tag, f' {got}, {w.mem.get("this.sync_port_tag")}', f.label)
    return r.finish('the summaries of the master, the slave and their two kinds of connections, over lists of slaves, every command, lost and late peers, and the start of one by the other',
        ['tc_read and tc_write move all the bytes or report fewer', 'the shared memory is seen in order by both processes', 'a termination leaves the function'], 9000)

RULES = {'S01': master_slave}
