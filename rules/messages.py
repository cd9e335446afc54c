"""Rules on messages: whom they are given to, and what each subscriber writes."""
import itertools, re
import flow as F
from vk import *
from flow import M, pp
from rules.comm import sp
from rules.mem import Env, on, val
from rules.sim import Lists, Outside, simulate

MS = 'trick_source/sim_services/Message/'
H, MSG = '|L 1|HEADER| ', 'text of the message\n'
LEVELS = (0, 1, 2, 3, 10, 99, 100, 101, 102, 200, 201, 5000)

class Out(Lists):
    """text written to streams and buffers"""
    def __init__(s, mem=(), lists={}, args={}, answers={}, calls=()):
        mem = {('this.' + k if '.' not in k and '[' not in k else k): v for k, v in dict(mem).items()}
        mem.update({'HDR[0]': H, 'MSG[0]': MSG})
        Lists.__init__(s, mem, {('this.' + k if '.' not in k else k): v for k, v in lists.items()}, {}, dict({'arg2': 'HDR', 'arg3': 'MSG'}, **args))
        s.out, s.answers, s.calls, s.log, s.flushed = {}, answers, tuple(calls), [], {}
    def key(s, t, env):
        t = t[1] if t[0] == 'ver' else t
        while t[0] == 'off': t = t[1]
        if t[0] in ('al', 'tmp'): return 'local %s' % (t,)
        return re.sub(r'@\d+$', '', F._addr(t) if t[0] in ('fld', 'g') else pp(t)).lstrip('&')
    def text(s, t, env):
        v = val(t, env)
        if v is None:
            if t[0] == 'u' or pp(t) == 'uninit': return ''
            raise F.Unknown(pp(t)[:160])
        if isinstance(v, str) and t[0] in ('a', 'fld', 'idx'):      # the address of a string
            for k in (v, v + '[0]'):
                if k in s.mem: return s.mem[k]
        return v
    def load(s, t, env):
        if pp(t).endswith('.buffer') and env.it is not None:
            c = s.where(t[1], env)
            if c in s.mem: return s.mem[c]
        return Lists.load(s, t, env)
    def answer(s, k, env):
        for p, v in s.answers.items():
            if re.search(p, k): return v(env) if callable(v) else v
        return None
    def result(s, t, env):
        n, a = t[1], t[2:]
        b = n.split('::')[-1].split('#')[0]
        if n.startswith('stream::str') or n == 'stream_str':
            return s.out.get(s.key(a[0], env), '') if a else None
        if b == 'cat': return ''.join(str(s.text(x, env)) for x in a)
        if b in ('c_str', 'data', 'str', 'string', 'move') and len(a) == 1: return s.text(a[0], env)
        if b in ('append', 'assign') and n.startswith('string::'):
            x, y = s.text(a[0], env), s.text(a[1], env)
            p, k = (s.num(a[2], env), s.num(a[3], env)) if len(a) == 4 else (0, s.num(a[2], env) if len(a) == 3 else len(y))
            if k < 0: k = len(y)
            return (x if b == 'append' else '') + y[p:p + k]
        if b == 'substr':
            x = s.text(a[0], env); p = s.num(a[1], env); k = s.num(a[2], env); return x[p:] if k < 0 else x[p:p + k]
        if b in ('strlen', 'size', 'length') and len(a) == 1: return len(s.text(a[0], env))
        if b in ('find_last_of', 'rfind'): return s.text(a[0], env).rfind(s.text(a[1], env))
        if n.startswith('out0:'): return s.log_bufs.get(pp(t)) if hasattr(s, 'log_bufs') else None
        return Lists.result(s, t, env)
    def other(s, e, env):
        n = e.name
        if n.startswith('out<'):
            if e.args[1][0] == 'fn' or pp(e.args[1]).startswith('fn:'):
                if 'endl' in pp(e.args[1]): k = s.key(e.args[0], env); s.out[k] = s.out.get(k, '') + '\n'
                s.flushed[s.key(e.args[0], env)] = True; return
            k = s.key(e.args[0], env)
            v = s.text(e.args[1], env)
            s.out[k] = s.out.get(k, '') + (chr(v) if n.startswith('out<char>') and isinstance(v, int) else str(v)); s.flushed[k] = False
        elif n == 'stream::flush': s.flushed[s.key(e.args[0], env)] = True
        elif n in ('stream::new',): s.out[s.key(e.args[0], env)] = ''
        elif n == 'snprintf' and pp(e.args[0]) != 'uninit':
            fmt, xs = s.text(e.args[2], env), [s.text(x, env) for x in e.args[3:]]
            c = val(e.args[0], env)
            size = s.num(e.args[1], env)
            r = (fmt.replace('%%', '\0') % tuple(xs)).replace('\0', '%')
            s.mem[c if isinstance(c, str) else s.key(e.args[0], env)] = r[:size - 1]
            s.sizes = getattr(s, 'sizes', []) + [size]
            for k in list(env.snap): pass
        for c in s.calls:
            if re.search(c, n): s.log.append((n, e)); break

def plain(x): return re.sub('\x1b\\[\\d*m', '', x)

def messages(r):
    u = r.unit([MS + '*.cpp'])
    SUBS = ['MessageSubscriber', 'MessageCout', 'MessageFile', 'MessageHSFile', 'MessageLCout', 'MessageCustomFile', 'PlaybackFile', 'MessageTCDevice', 'MessageThreadedCout', 'MessagePublisher', 'MessageCustomManager']
    p = u.extract(roots=['MessagePublisher::', '^message_', '^vmessage', '^v?send_hs'], opaque=['MessageSubscriber::', 'exec_', 'ios_base'])
    # ---- publishing
    f = r.flow(p, 'MessagePublisher::publish', typed=True, streams=True, ver=True)
    def frac(tics, tps):
        for e in f.effects:
            if e.kind == 'call' and e.name == 'snprintf' and len(e.args) >= 11:
                return e
    for n in range(4):
        for en in itertools.product((0, 1), repeat=n):
            names = [f's{i}' for i in range(n)]
            for lvl in (0, 3, 101, 250):
                w = Out({f's{i}.enabled': en[i] for i in range(n)}, {'subscribers': names}, {'arg1': lvl, 'arg2': 'MSG'}, {r'^(out0:)?snprintf': H, 'exec_get_time_tics': 1234567, 'tics_per_sec': 1000000, 'num_digits': 6, 'out0:': H}, ['update$'])
                lab = f'level {lvl}, subscribers {en}'
                try: simulate(f, w)
                except F.Unknown as ex: r.undecided(f'publishing ({lab})', f' {ex}'); continue
                got = []
                for nm, e in w.log:
                    got.append(e)
                env = None
                r.ob(f'as many subscribers are given the message as are enabled ({lab})', len(w.log) == sum(en), f' {len(w.log)}', f.label)
                r.ob(f'a message nobody subscribes to is printed ({lab})', plain(w.out.get('std::cout', '')) == ('' if n else H + MSG), f" {w.out.get('std::cout', '')!r}", f.label)
    got = []
    class Pub(Out):
        def other(s, e, env):
            if e.name.endswith('update') and len(e.args) == 4:
                l, m = val(e.args[1], env), val(e.args[3], env)
                got.append((s.ptr(e.args[0], env), l, m, pp(e.args[2]) != pp(e.args[3])))
            else: Out.other(s, e, env)
    for n in range(4):
        for en in itertools.product((0, 1), repeat=n):
            got.clear()
            w = Pub({f's{i}.enabled': en[i] for i in range(n)}, {'subscribers': [f's{i}' for i in range(n)]}, {'arg1': 3, 'arg2': 'MSG'}, {r'^(out0:)?snprintf': H, 'exec_get_time_tics': 1234567, 'out0:': H})
            try: simulate(f, w)
            except F.Unknown as ex: r.undecided(f'publishing to {en}', f' {ex}'); continue
            want = [(f's{i}', 3, MSG, True) for i in range(n) if en[i]]
            r.ob(f'each enabled subscriber gets level, header and message once, in the order of subscription ({en})', got == want, f' {got}', f.label)
    for g in ('message_subscribe', 'message_add_subscriber', 'message_unsubscribe', 'message_remove_subscriber'):
        add = 'unsub' not in g and 'remove' not in g
        f = r.flow(p, g, ver=True)
        es = [e for e in f.effects if e.kind == 'call' and e.name in ('push_back', 'remove', 'push_front', 'erase', 'insert', 'clear')]
        r.ob(f'{g} ' + ('adds the subscriber' if add else 'removes the subscriber, and only it'), [(e.name, e.guard, pp(e.args[1]) if len(e.args) > 1 else '') for e in es] == [('push_back' if add else 'remove', 1, 'arg1')] and 'subscribers' in pp(es[0].args[0]), f' {[(e.name, [pp(x) for x in e.args]) for e in es]}', f.label)
    # ---- the time in the header
    f = r.flow(p, 'MessagePublisher::publish', typed=True, streams=True, ver=True)
    heads = [e for e in f.effects if e.kind == 'call' and e.name == 'snprintf']
    if len(heads) != 1 or len(heads[0].args) != 11: r.undecided('the header of a message', f' {len(heads)}')
    else:
        a = heads[0].args
        r.ob('the header is bounded and uses the format prepared', pp(a[2]) == '&this.print_format' and val(a[1], Env()) == 256, f' {pp(a[1])}, {pp(a[2])}', f.label)
        r.ob('the header holds the level, the name of the simulation and the process', pp(a[3]) == 'arg1' and 'sim_name' in pp(a[7]) and 'exec_get_process_id' in pp(a[8]), f' {[pp(x)[:40] for x in a[3:9]]}', f.label)
        for tps, nd in ((1000000, 6), (1000, 3), (100, 2), (10, 1), (1, 0), (1000000000, 9), (4096, 4)):
            for tics in (0, 1, 7, 123456, 999999, 1000000, 1234567, 98765432101):
                env = Env([('exec_get_time_tics()', tics), ('this.tics_per_sec', tps), ('this.num_digits', nd)], [(r'(std::)?pow\(10,this\.num_digits\)', 10 ** nd), (r'(std::)?pow\(f10,tofp\(this\.num_digits\)\)', 10 ** nd)])
                s_, fr = val(a[9], env), val(a[10], env)
                lab = f'{tics} tics of 1/{tps} s'
                if s_ is None or fr is None: r.undecided(f'the time in the header ({lab})', f' {pp(a[9])[:100]}; {pp(a[10])[:160]}')
                else: r.ob(f'the header shows the present simulation time ({lab})', s_ == tics // tps and abs(fr - (tics % tps) * 10 ** nd / tps) <= 1 and 0 <= fr < max(1, 10 ** nd), f' {s_} and {fr}', f.label)
    f = r.flow(p, 'MessagePublisher::init', typed=True, streams=True, ver=True)
    es = [e for e in f.effects if e.kind == 'call' and e.name == 'snprintf' and 'print_format' in pp(e.args[0])]
    if len(es) == 1 and len(es[0].args) > 3:
        e = es[0]
        for tps, nd in ((1000000, 6), (1000, 3), (1000000000, 9), (10, 1)):
            v = val(e.args[3], Env([('exec_get_time_tic_value()', tps)], [(r'(std::)?log10\(.*\)$', float(len(str(tps)) - 1)), (r'(std::)?round\(.*\)$', float(nd)), (r'(std::)?l?l?round\(.*\)$', nd)]))
            if v is None: r.undecided(f'digits of the time at {tps} tics a second', pp(e.args[3])[:120])
            else: r.ob(f'the time has as many digits as the tics of a second ({tps})', v == nd, f' {v}', f.label)
        r.ob('the header fits the tics of the executive after initialisation and after every change', any(x.kind == 'store' and sp(x) == 'this.tics_per_sec' and 'exec_get_time_tic_value' in pp(x.val) and x.order < e.order for x in f.effects), '', f.label)
    else: r.undecided('the format of the header', f' {len(es)}')
    # ---- formatting
    for g in ('message_publish', 'vmessage_publish', 'send_hs', 'vsend_hs'):
        f = r.flow(p, g, typed=True, streams=True, ver=True)
        es = [e for e in f.effects if e.kind == 'call' and e.name == 'vsnprintf']
        if g == 'vsend_hs' and not es: continue
        ft = 'arg1' if g == 'vmessage_publish_' else 'arg2'
        r.ob(f'{g} formats a message once, within its buffer', len(es) == 1 and es[0].guard == 1 and val(es[0].args[1], Env()) == 20480 and pp(es[0].args[2]) == 'arg2', f' {[[pp(x) for x in e.args] for e in es]}', f.label)
        pub = [e for e in f.effects if e.kind == 'call' and e.name.endswith('MessagePublisher::publish')]
        alone = [e for e in f.effects if e.kind == 'call' and e.name == 'message_publish_standalone']
        if g in ('message_publish', 'vmessage_publish'):
            for there in (0, 4000):
                env = Env([('the_message_publisher', there)])
                a, b = [e for e in pub if on(e.guard, env) != 0], [e for e in alone if on(e.guard, env) != 0]
                r.ob(f'{g} gives the message to the publisher, or prints it if there is none (publisher: {bool(there)})', (len(a), len(b)) == ((1, 0) if there else (0, 1)), f' {len(a)}, {len(b)}', f.label)
                for e in a: r.ob(f'{g} keeps the level', pp(e.args[1]) == 'arg1', f' {pp(e.args[1])}', f.label)
                for e in b: r.ob(f'{g} keeps the level and the text without a publisher', pp(e.args[0]) == 'arg1' and pp(e.args[1]) == '"%s"' and 'vsnprintf' in pp(e.args[2]), f' {[pp(x)[:60] for x in e.args]}', f.label)
    f = r.flow(p, 'MessagePublisher::getSubscriber', typed=True, streams=True, ver=True)
    v = f.retval()
    txt_ = pp(v) if v is not None else ''
    m = re.search(r'exists\(.*compare\((\*arg1,this\.subscribers\[\*\]\.name|this\.subscribers\[\*\]\.name,\*arg1)\) == 0\)', txt_)
    if not m and 'compare(' in txt_ and '== 0)' not in txt_: r.ob('subscribers are found by their names', False, f' {txt_[:160]}', f.label)
    elif not m or not txt_.startswith('ite([!(exists(') or not txt_.endswith(',0,this.subscribers[*])'): r.undecided('subscribers are found by their names', txt_[:160])
    else: r.ob('subscribers are found by their names', '!(compare' not in txt_ and '!((compare' not in txt_, f' {txt_[:160]}', f.label)
    # ---- what is written
    def writes(cls, stream, want, mem={}, lists={}, lab='', run=None):
        p2 = u.extract(roots=[cls + '::update'], opaque=['MessageFile::', 'tc_', 'ios_base'], devirt=[cls + '$'])
        f = r.flow(p2, cls + '::update', typed=True, streams=True, ver=True)
        for en, col, lvl in itertools.product((0, 1), (0, 1), LEVELS):
            w = Out(dict(mem, enabled=en, color=col), lists, {'arg1': lvl})
            lb = f'enabled={en}, color={col}, level {lvl}'
            try: simulate(f, w)
            except F.Unknown as ex: r.undecided(f'{cls} ({lb})', f' {ex}'); continue
            t = next((v for k, v in w.out.items() if stream in k), '')
            x = want(lvl) if en else ''
            r.ob(f'{cls} writes the messages of its levels, whole and once, while enabled ({lb})', plain(t) == x, f' {t!r} instead of {x!r}', f.label)
            if x and '\x1b' in t: r.ob(f'{cls}: a colour ends with its message ({lb})', col and re.fullmatch('.*\x1b\\[0*m', t, re.S), f' {t!r}', f.label)
            if x and not '\x1b' in t and cls == 'MessageCout': r.ob(f'{cls} colours when told to ({lb})', not col, f' {t!r}', f.label)
            if x: r.ob(f'{cls} does not keep a message back ({lb})', w.flushed.get(next((k for k in w.out if stream in k), '')) is not False, ' not flushed', f.label)
    low = lambda l: H + MSG if l < 100 else ''
    writes('MessageCout', 'cout', low)
    writes('MessageFile', 'out_stream', low)
    writes('MessageHSFile', 'out_stream', low)
    writes('MessageLCout', 'cout', low)
    writes('PlaybackFile', 'out_stream', lambda l: MSG if l == 101 else '')
    for own in (200, 201, 7, 5000): writes('MessageCustomFile', 'out_stream', lambda l: H + MSG if l == own else '', dict(_this_level=own))
    # ---- custom files
    p = u.extract(roots=['MessageCustomManager::', 'MessageCustomFile::'], opaque=['MessageFile::', 'MessageCustomFile::update', 'ios_base', 'MessageCustomFile::set', 'MessageCustomFile::get'], devirt=['MessageCustomManager$'])
    for g, call in (('update', 'update'), ('restart', 'restart')):
        f = r.flow(p, 'MessageCustomManager::' + g, typed=True, streams=True, ver=True)
        for n in range(4):
            got = []
            class Man(Out):
                def other(s, e, env):
                    if e.name.split('::')[-1] == call: got.append((s.ptr(e.args[0], env),) + tuple(val(x, env) for x in e.args[1:]))
            w = Man({f'm{i}.enabled': 1 for i in range(n)}, {'_custom_message_files': [f'm{i}' for i in range(n)]}, {'arg1': 7})
            try: simulate(f, w)
            except F.Unknown as ex: r.undecided(f'{n} custom files: {g}', f' {ex}'); continue
            r.ob(f'every custom message file takes part once ({n}, {g})', got == [(f'm{i}',) + ((7, H, MSG) if g == 'update' else ()) for i in range(n)], f' {got}', f.label)
    f = r.flow(p, 'MessageCustomManager::open_custom_message_file', typed=True, streams=True, ver=True)
    seq_ = {}
    for e in f.effects:
        if e.kind == 'call': seq_.setdefault(e.name.split('::')[-1], []).append(e)
    one = lambda n: len(seq_.get(n, [])) == 1 and seq_[n][0].guard == 1
    if any(n not in seq_ for n in ('set_file_name', 'set_name', 'set_level', 'init', 'push_back')): r.ob('a custom message file is named, given its level, opened and remembered', False, f' {sorted(seq_)}', f.label)
    else:
        new = pp(seq_['push_back'][0].args[1])
        r.ob('a custom message file is named, given its level, opened and remembered', all(one(n) for n in ('set_file_name', 'set_name', 'set_level', 'init', 'push_back')) and all(pp(seq_[n][0].args[0]) == new for n in ('set_file_name', 'set_name', 'set_level', 'init')), f' {new}', f.label)
        r.ob('a custom message file gets the file, name and level asked for', pp(seq_['set_file_name'][0].args[1]) == '*arg1' and pp(seq_['set_name'][0].args[1]) == '*arg2' and pp(seq_['set_level'][0].args[1]) == 'arg3', '', f.label)
        r.ob('a custom message file is opened after it is named', seq_['set_file_name'][0].order < seq_['init'][0].order, '', f.label)
        r.ob('the level of a new custom message file is returned', 'get_level' in pp(f.retval() or ('s', '')) and new in pp(f.retval() or ('s', '')), f' {pp(f.retval())[:80] if f.retval() else None}', f.label)
    p = u.extract(roots=['MessageCustomFile::'], opaque=['MessageFile::', 'ios_base'])
    f = r.flow(p, 'MessageCustomFile::set_level', ver=True)
    for l in (-5, -1, 0, 3, 200):
        v = None
        es = [e for e in f.effects if e.kind == 'store' and sp(e) == 'this._this_level']
        env = Env([('arg1', l)])
        got = [val(e.val, env) for e in es if on(e.guard, env) == 1]
        r.ob(f'a level that is not negative is taken ({l})', got == ([l] if l >= 0 else []), f' {got}', f.label)
    f = r.flow(p, 'MessageCustomFile::MessageCustomFile', ver=True)
    lv = [e for e in f.effects if e.kind == 'store' and sp(e) == 'this._this_level']
    ct = [e for e in f.effects if e.kind == 'store' and 'level_counter' in sp(e)]
    env = Env([('Trick::MessageCustomFile::level_counter', 230), ('MessageCustomFile::level_counter', 230)])
    if len(lv) == 1 and len(ct) == 1: 
        a, b = val(lv[0].val, env), val(ct[0].val, env)
        if a is None or b is None: r.undecided('levels of custom files', f' {pp(lv[0].val)}')
        else: r.ob('no two custom files are given the same level', b > a >= 230 or b > 230 and a == b, f' {a}, then {b}', f.label)
    else: r.ob('no two custom files are given the same level', False, f' {len(lv)} levels, {len(ct)} counters', f.label)
    # ---- message files
    p = u.extract(roots=['MessageFile::'], opaque=['ios_base', 'command_line_args', 'create_path'])
    for g in ('init', 'restart'):
        f = r.flow(p, 'MessageFile::' + g, typed=True, streams=True, ver=True)
        for name in ('send_hs', 'a/b/log', 'x.y'):
            calls = []
            class File(Out):
                def other(s, e, env):
                    if e.name in ('unlink', 'create_path', 'fstream::open', 'remove'): calls.append((e.name, s.text(e.args[-1] if e.name != 'fstream::open' else e.args[1], env), pp(e.args[2]) if e.name == 'fstream::open' else ''))
            w = File({'file_name': name}, {}, {}, {'get_output_dir': 'OUT', 'is_open': 1})
            try: simulate(f, w)
            except F.Unknown as ex: r.undecided(f'message file {name}: {g}', f' {ex}'); continue
            op = [c for c in calls if c[0] == 'fstream::open']
            r.ob(f'a message file is opened once in the output directory ({g}, {name})', [c[1] for c in op] == ['OUT/' + name], f' {calls}', f.label)
            r.ob(f'a message file is opened to be added to ({g}, {name})', all(c[2] in ('std::operator|(16,1)', 'std::operator|(1,16)', '17') for c in op), f' {calls}', f.label)
            r.ob(f'{"an old message file is removed before" if g == "init" else "the messages so far are kept"} ({g}, {name})', [c[1] for c in calls if c[0] in ('unlink', 'remove')] == (['OUT/' + name] if g == 'init' else []), f' {calls}', f.label)
            if g == 'init': r.ob(f'the directory of a message file is made ({name})', [c[1].rstrip('/') for c in calls if c[0] == 'create_path' and '/' in name] == (['OUT/' + name.rsplit('/', 1)[0]] if '/' in name else []), f' {calls}', f.label)
    # ---- messages to connected programs
    p = u.extract(roots=['MessageTCDevice::'], opaque=['MessageTCDeviceListenThread', 'tc_', 'SysThread', 'ios_base'])
    f = r.flow(p, 'MessageTCDevice::update', typed=True, streams=True, ver=True)
    for n in range(4):
        for good in itertools.product((0, 1, 2), repeat=n):
            for en, col, lvl in ((1, 0, 3), (1, 1, 3), (0, 0, 3), (1, 0, 101), (1, 0, 100), (1, 0, 99), (1, 1, 0)):
                if (en, col, lvl) != (1, 0, 3) and n == 3: continue
                sent, gone = [], []
                class Dev(Out):
                    def result(s, t, env):
                        if t[1].startswith('tc_write'):
                            c = s.ptr(t[2], env); k = s.num(t[4], env); g = good[int(c[1:])]
                            return k if g == 1 else -1 if g == 0 else k - 1
                        return Out.result(s, t, env)
                    def other(s, e, env):
                        if e.name.startswith('tc_write'): sent.append((s.ptr(e.args[0], env), s.text(e.args[1], env)[:s.num(e.args[2], env)]))
                        elif e.name.startswith('tc_disconnect'): gone.append(s.ptr(e.args[0], env))
                        else: Out.other(s, e, env)
                    def load(s, t, env):
                        if pp(t) == 'this.combined_message': return 'BUF'
                        return Out.load(s, t, env)
                    def text(s, t, env):
                        v = Out.text(s, t, env)
                        return s.mem['BUF'] if v == 'BUF' else v
                w = Dev({'enabled': en, 'color': col, 'combined_message': 'BUF', 'BUF': ''}, {'connections': [f'c{i}' for i in range(n)]}, {'arg1': lvl}); w.mem['BUF'] = ''
                lab = f'connections {good}, enabled={en}, color={col}, level {lvl}'
                try: simulate(f, w)
                except F.Unknown as ex: r.undecided(f'messages to connections ({lab})', f' {ex}'); continue
                on_ = en and lvl < 100
                r.ob(f'every connection is sent the whole message once ({lab})', [(c, plain(t)) for c, t in sent] == ([(f'c{i}', H + MSG) for i in range(n)] if on_ else []), f' {sent}', f.label)
                r.ob(f'connections that do not take a message are closed and forgotten, and no others ({lab})', gone == ([f'c{i}' for i in range(n) if good[i] != 1] if on_ else []) and w.lists['this.connections'] == [f'c{i}' for i in range(n) if good[i] == 1 or not on_], f" {gone}, {w.lists['this.connections']}", f.label)
                if getattr(w, 'sizes', None): r.ob('a message to connections is bounded by its buffer', max(w.sizes) <= 20480, f' {w.sizes}', f.label)
    f = r.flow(p, 'MessageTCDevice::add_connection', ver=True)
    es = [e for e in f.effects if e.kind == 'call']
    r.ob('a new connection is remembered', [(e.name, e.guard, pp(e.args[-1])) for e in es] == [('push_back', 1, 'arg1')], f' {[e.name for e in es]}', f.label)
    # ---- the printing thread
    p = u.extract(roots=['MessageThreadedCout::'], opaque=['SysThread', 'ThreadBase', 'ios_base'])
    f = r.flow(p, 'MessageThreadedCout::update', typed=True, streams=True, ver=True)
    fw = r.flow(p, 'MessageThreadedCout::write_pending_messages', typed=True, streams=True, ver=True)
    fs = r.flow(p, 'MessageThreadedCout::shutdown', typed=True, streams=True, ver=True)
    N = 4
    def ring(c, w_, **k):
        m = {f'n{i}.next': f'n{(i + 1) % N}' for i in range(N)}; m.update({f'n{i}.buffer': f'old{i};' for i in range(N)}); m.update({f'n{i}.max_len': 4000 for i in range(N)})
        m.update(copy_ptr=f'n{c}', write_ptr=f'n{w_}', color_code='', **k)
        return m
    for c, w_ in itertools.product(range(N), repeat=2):
        pend = [f'n{i % N}' for i in range(w_, w_ + (c - w_) % N)]
        for en, lvl, imm in ((1, 3, 0), (1, 0, 1), (0, 3, 0), (1, 100, 0), (1, 99, 0)):
            w = Out(ring(c, w_, enabled=en, print_immediate=imm), {}, {'arg1': lvl})
            lab = f'{len(pend)} of {N - 1} waiting, enabled={en}, level {lvl}, immediate={imm}'
            try: simulate(f, w)
            except F.Unknown as ex: r.undecided(f'a message to the printing thread ({lab})', f' {ex}'); continue
            room = len(pend) < N - 1
            takes = bool(en and lvl < 100 and room)
            now = [f'n{i % N}' for i in range(int(w.mem['this.write_ptr'][1:]), int(w.mem['this.write_ptr'][1:]) + (int(w.mem['this.copy_ptr'][1:]) - int(w.mem['this.write_ptr'][1:])) % N)]
            if imm and takes:
                t = w.out.get('std::cout', '')
                r.ob(f'after shutdown messages are printed at once, after those waiting ({lab})', plain(t) == ''.join(w.mem[x + '.buffer'] if x != f'n{c}' else H + MSG for x in pend + [f'n{c}']) and not now, f' {t!r}', f.label)
            elif not imm:
                r.ob(f'a message is put behind those waiting, while there is room ({lab})', now == pend + ([f'n{c}'] if takes else []), f' {now}', f.label)
                r.ob(f'those waiting are untouched ({lab})', all(w.mem[x + '.buffer'] == f'old{x[1:]};' for x in pend), '', f.label)
                if takes: r.ob(f'what waits is the message ({lab})', plain(w.mem[f'n{c}.buffer']) == H + MSG, f" {w.mem[f'n{c}.buffer']!r}", f.label)
        for g, f_ in (('write_pending_messages', fw), ('shutdown', fs)):
            w = Out(ring(c, w_, enabled=1, print_immediate=0))
            lab = f'{g}, {len(pend)} waiting'
            try: simulate(f_, w)
            except F.Unknown as ex: r.undecided(f'printing ({lab})', f' {ex}'); continue
            r.ob(f'the messages waiting are printed once, in order ({lab})', w.out.get('std::cout', '') == ''.join(f'old{x[1:]};' for x in pend) and w.mem['this.write_ptr'] == w.mem['this.copy_ptr'] == f'n{c}', f" {w.out.get('std::cout', '')!r}", f_.label)
            if g == 'shutdown': r.ob('after shutdown messages are printed at once', w.mem['this.print_immediate'] == 1, '', f_.label)
    lk = [e for e in fw.effects if e.kind == 'call' and 'pthread_mutex' in e.name]
    body = [e for e in fw.effects if e.kind == 'store' and 'write_ptr' in sp(e) or e.kind == 'call' and e.name.startswith('out<')]
    r.ob('only one thread prints at a time', len(lk) == 2 and [e.name for e in sorted(lk, key=lambda e: e.order)] == ['pthread_mutex_lock', 'pthread_mutex_unlock'] and all(e.guard == 1 for e in lk) and all(lk[0].order < e.order < lk[1].order for e in body), f' {[e.name for e in lk]}', fw.label)
    return r.finish('Publishing, subscription, formatting bounds and the text each kind of subscriber writes are evaluated from their summaries over lists of subscribers and connections, flags, levels and ring states.',
                    ['the host formats and writes as libc does', 'what a full ring of the printing thread drops, and concurrent changes of the list of connections, are not decided'], floor=700)

RULES = {'G01': messages}
