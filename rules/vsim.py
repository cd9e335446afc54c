"""variable server sessions simulated over small lists of values"""
import re
import flow as F
from flow import pp
from rules.mem import val
from rules.sim import Lists, Outside, simulate

S = "VariableServerSession::"
RULES = {}

class Sampling(Lists):
    """the values of a client, the copy lock (free or busy), and what is done while it is held"""
    def __init__(s, n, staged, busy, binary):
        names = [f'V{i}' for i in range(n)]
        Lists.__init__(s, {'this._binary_data': binary, 'this._debug': 0, 'this._time': 0, **{x + '.t': 0 for x in names}}, {'VARS': names, 'this._session_variables': names})
        s.staged, s.busy, s.held, s.ops, s.bad = dict(zip(names, staged)), busy, 0, [], None
    def tracks(s, c): return c == 'this._time'
    def result(s, t, env):
        b = t[1].split('::')[-1].split('#')[0]
        if b == 'pthread_mutex_trylock': return 16 if s.busy else 0
        if b in ('pthread_mutex_lock', 'pthread_mutex_unlock'): return 0
        if b == 'isStaged': return int(s.staged[s.num(t[2], env)])
        if b == 'exec_get_time_tics': return 6
        if b == 'exec_get_time_tic_value': return 2
        if b.startswith('write_'): return 77
        return Lists.result(s, t, env)
    def other(s, e, env):
        b = e.name.split('::')[-1].split('#')[0]
        if b in ('pthread_mutex_lock', 'pthread_mutex_trylock') and '_copy_mutex' in pp(e.args[0]):
            if b.endswith('trylock') and s.busy: return
            s.held += 1
            if s.held > 1: s.bad = s.bad or 'locked twice'
        elif b == 'pthread_mutex_unlock' and '_copy_mutex' in pp(e.args[0]):
            s.held -= 1
            if s.held < 0: s.bad = s.bad or 'released without being held'
        elif b in ('stageValue', 'prepareForWrite', 'isStaged'):
            if b != 'isStaged': s.ops.append((b, s.num(e.args[0], env)))
            if s.held < 1: s.bad = s.bad or b + ' without the lock'
        elif b in ('write_binary_data', 'write_ascii_data'): s.ops.append((b, s.num(e.args[1], env)))

def samples(r, p):
    """copying and taking over, for every number of values, state of the lock and of the values"""
    fc, fw = r.flow(p, S + 'copy_sim_data', params=2, ver=True), r.flow(p, S + 'write_data', params=2, ver=True)
    def run(f, w, lab, want):
        try: simulate(f, w)
        except Outside as ex: r.ob(lab, False, f' {ex}', f.label); return
        except F.Unknown as ex: r.undecided(lab, f' {ex}'); return
        if w.held: w.bad = w.bad or 'the lock stays held' if w.held > 0 else w.bad
        ok = w.bad is None and (sorted(w.ops) if want is not None else w.ops) == (sorted(want) if want is not None else []) and (not want or w.ops[-1] == want[-1] or f is fc)
        r.ob(lab, ok, f' {w.bad or w.ops}', f.label)
    for n in range(4):
        names = [f'V{i}' for i in range(n)]
        for busy in (0, 1):
            for cyc in (0, 1):
                w = Sampling(n, [1] * n, busy, 0); w.args = {'arg1': 'VARS', 'given_vars': 'VARS', 'arg2': cyc, 'cyclical': cyc}
                run(fc, w, f'copying {n} values{" cyclically" if cyc else ""}, the lock {"busy" if busy else "free"}', [('stageValue', x) for x in names] if not (busy and cyc) else [])
            for m in range(1 << n):
                for mt in (0, 5):
                    for binary in (0, 1):
                        w = Sampling(n, [m >> i & 1 for i in range(n)], busy, binary); w.args = {'arg1': 'VARS', 'given_vars': 'VARS', 'arg2': mt, 'message_type': mt}
                        sends = n and m == (1 << n) - 1 and not (busy and mt != 5)
                        run(fw, w, f'sending {"a single reply of " if mt == 5 else ""}{n} values, copied: {[i for i in range(n) if m >> i & 1]}, the lock {"busy" if busy else "free"}, {"binary" if binary else "text"}',
                            [('prepareForWrite', x) for x in names] + [('write_binary_data' if binary else 'write_ascii_data', 'VARS')] if sends else [])
