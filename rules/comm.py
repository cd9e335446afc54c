"""Rules on clients, connections and service threads."""
import itertools, os, re, socket, struct
import flow as F
from vk import *
from flow import M, pp
from rules.vserv import VS, runs, fin, supp, terms

TB = 'trick_source/sim_services/ThreadBase/'
CH = 'trick_source/trick_utils/connection_handlers/'

# ---------------------------------------------------------------- locks
def held(f, e, lock):
    """the condition under which `lock` is held when effect e happens is implied by e's guard: (ok, why)"""
    pre, rel = 0, 0
    for x in sorted(f.effects, key=lambda x: x.order):
        if x.order >= e.order: break
        if x.kind != 'call' or not x.args or pp(x.args[0]) != lock: continue
        if x.name in ('pthread_mutex_lock', 'mutex::lock', 'std::mutex::lock'):
            if set(x.lids) <= set(e.lids): pre = M.OR(pre, x.guard)
        elif x.name in ('pthread_mutex_unlock', 'mutex::unlock', 'std::mutex::unlock'):
            pre = M.AND(pre, M.NOT(x.guard))
    return F.implies(e.guard, pre)

def balanced(r, label, f, lock):
    """every acquisition of a lock is followed by its release, whenever the function returns"""
    cur = 0
    es = [x for x in sorted(f.effects, key=lambda x: x.order) if x.kind == 'call' and x.args and pp(x.args[0]) == lock and x.name in ('pthread_mutex_lock', 'pthread_mutex_unlock')]
    if not es: return r.undecided(label, ' no lock')
    for x in es:
        g = F.norm(x.guard)
        if x.name == 'pthread_mutex_lock':
            if M.AND(cur, g, F.care(g)) != 0: return r.ob(label, False, ' is acquired again while held', x.loc)
            cur = M.OR(cur, g)
        else:
            if not F.implies(g, cur): return r.ob(label, False, ' is released while not held', x.loc)
            cur = M.AND(cur, M.NOT(g))
    c = F.norm(cur)
    r.ob(label, M.AND(c, F.care(c)) == 0, ' stays held when ' + F.witness(c) if c else '', es[0].loc)

def stays(e):
    """a loop goes on exactly when"""
    g = e.val
    for x in e.nr: g = M.AND(g, M.NOT(x))
    return g

def truths(g, env):
    try: return frozenset((int(F.evb(g, env)),))
    except F.Unknown: return F.may(g, env)

class Host(dict):
    """quantities known while an address is compared with an entry of the allowlist"""
    def __init__(s, ip, entry):
        s.ip, s.entry = ip, entry
        s.i = entry.find('/')
        s.net = entry[:s.i] if s.i >= 0 else entry
        s.pre = entry[s.i + 1:] if s.i >= 0 else ''
        s.m = re.match(r'\s*[-+]?\d+', s.pre)
    def num(s, a):
        try: return struct.unpack('>I', socket.inet_aton(a))[0] if re.fullmatch(r'\d+(\.\d+){3}', a) else None
        except OSError: return None
    def look(s, k):
        if k.startswith('inet_pton(2,c_str(*arg1)'): return int(s.num(s.ip) is not None)
        if k.startswith('inet_pton(2,c_str(string::substr('): return int(s.num(s.net) is not None)
        if k.startswith('ntohl(') and 'c_str(string::substr' in k[:60]: return s.num(s.net) or 0
        if k.startswith('ntohl('): return s.num(s.ip) or 0
        if re.match(r'\*out1:\w*strto', k): return ord((s.pre[s.m.end():] if s.m else s.pre)[:1] or '\0')
        if re.match(r'(\w*strtou?l+|(std::)?stou?[il]|atoi)\(', k): return int(s.m[0]) if s.m else 0
        if k.startswith('string::find('): return s.i
        if k.startswith('size(string::substr('): return len(s.pre)
        if k.startswith('compare('): return int(s.ip != s.entry)
        if k == 'iter(this.ip_allowlist)': return 0
        if k == 'end(this.ip_allowlist)': return 1
        if k == 'uninit': return 0
    def __contains__(s, k): return dict.__contains__(s, k) or s.look(k) is not None
    def __missing__(s, k): return s.look(k)

def v05(r):
    T_, V = 'VariableServerSessionThread', 'VariableServer::'
    # ---- the allowlist
    u = r.unit([VS + 'VariableServer.cpp'])
    p = u.extract(roots=[r'VariableServer::check_ip'], opaque=['message_publish'])
    f = r.flow(p, V + 'check_ip')
    bad, n, lv, on, refuse = None, 0, None, False, []
    L = [e for e in f.effects if e.kind == 'loop' and not e.loops]
    try:
        rv = f.retval()
        ips = ['10.1.2.3', '10.1.2.2', '10.1.3.3', '10.129.2.3', '11.1.2.3', '138.1.2.3', '0.0.0.0', '255.255.255.255', 'unknown', '']
        ents = ips + ['10.1.2.3/' + str(k) for k in (0, 1, 4, 7, 8, 9, 15, 16, 17, 23, 24, 25, 30, 31, 32)] + ['10.0.0.0/8', '0.0.0.0/0', '255.255.255.255/1', '10.1.2.3/33', '10.1.2.3/-1', '10.1.2.3/64', '10.1.2.3/', '10.1.2.3/x', '10.1.2.3/8x', 'net/8', '/8', '10.1.2/8', '10.1.2.3/4294967296']
        for ip in ips:
            for en in ents:
                h = Host(ip, en)
                a, c = h.num(ip), h.num(h.net)
                if '/' not in en: want = ip == en
                else: want = a is not None and c is not None and bool(re.fullmatch(r'\d+', h.pre)) and int(h.pre) <= 32 and (a ^ c) >> (32 - int(h.pre)) == 0
                if a is None and ip == en: continue
                n += 1
                got = F.ev(rv, h)
                if bool(got) != want: bad = bad or f' {ip} is {"admitted" if got else "refused"} by the entry {en}'
                if len(L) == 1 and a is not None:
                    g = truths(stays(L[0]), h)
                    if want: on = on or 1 in g
                    else: refuse.append(h)
                    if not want and g == frozenset((0,)): lv = lv or f' no entry after {en} is compared with {ip}'
        if on:       # the loop goes on: what was admitted has to stay so
            for x in list(terms(rv, 'rec')) or [None]:
                for h in refuse:
                    if x is not None: h['self'] = 1
                    if x is None or not F.ev(x[2], h): lv = lv or f' {h.ip} is admitted by an entry and then refused by {h.entry}'
    except F.Unknown as x: bad = 0; r.undecided('allowlist', ' ' + str(x)[:100])
    if bad != 0:
        r.ob('a client is admitted exactly by its own address or a network it belongs to', not bad, bad or '', f.label)
        r.ob('entries are compared until one admits the client', not lv, lv or '', f.label)
        r.stats['addresses_evaluated'] = n
    # ---- the thread of a client: up to the session
    su = r.unit([VS + 'VariableServerSessionThread_loop.cpp', VS + 'VariableServerSessionThread.cpp', VS + 'exit_var_thread.cpp', VS + 'VariableServer.cpp', VS + 'VariableServerListenThread.cpp', TB + '*.cpp'])
    op = ['message_publish', 'exec_signal_terminate', 'check_ip', r'VariableServerSession::.*', r'VariableServer::[a-z]', 'test_pause', 'test_shutdown', 'thread_shutdown', 'cleanup', 'get_vs']
    p = su.extract(roots=[T_ + r'::thread_body', r'^exit_var_thread'], opaque=op)
    f = r.flow(p, T_ + '::thread_body')
    ST, CK, BY = 'ClientConnection::start(this._connection)', 'VariableServer::check_ip(', 'VariableServer::get_bypass_ip_check(VariableServerSessionThread::_vs)'
    chk = r.sel(f, V + 'check_ip')
    r.ob('the address of a client is what is checked', len(chk) == 1 and 'getClientHostname(this._connection)' in pp(chk[0].args[1]), str(chk)[:200], r.at(chk, f))
    name = r.sel(f, 'ClientConnection::getClientHostname')
    sta = r.sel(f, 'ClientConnection::start')
    r.before('the address is asked for once the connection is established', f, sta, name)
    ends = r.sel(f, r'ThreadBase::thread_shutdown|SysThread::thread_shutdown|VariableServerSessionThread::thread_shutdown')
    fail = [e for e in ends if not e.loops and len(e.args) == 1]
    last = [e for e in ends if not e.loops and len(e.args) == 3]
    class Env(dict):
        def __init__(s, d, st, by, ok): dict.__init__(s, d); s.st, s.by, s.ok = st, by, ok
        def look(s, k):
            if k == ST: return s.st
            if k == BY: return s.by
            if k.startswith(CK): return s.ok
            return None
        def __contains__(s, k): return dict.__contains__(s, k) or s.look(k) is not None
        def __missing__(s, k): return s.look(k)
    drop, stat = r.sel(f, V + 'delete_vst'), r.stores(f, r'this\._connection_status')
    sig = r.sel(f, 'pthread_cond_signal|pthread_cond_broadcast', {0: r'&this\._connection_status_cv'})
    states = [(st, by, ok, Env({}, st, by, ok)) for st in (-1, 0, 1, 2) for by in (0, 1) for ok in (0, 1)]
    def exactly(label, es, want, f=f):
        bad = None
        for st, by, ok, env in states:
            w = want(st == 0 and (by or ok))
            g = F.may(r.tot(es), env) if es else frozenset((0,))
            if g != frozenset((int(bool(w)),)): bad = bad or f' the connection is {"established" if st == 0 else "not established (%d)" % st}, the check is {"bypassed" if by else "made"}, the address is {"" if ok else "not "}allowed: {sorted(g)}'
        r.ob(label, not bad, bad or '', r.at(es, f))
    exactly('a client that is not admitted ends its thread', fail, lambda ok: not ok)
    exactly('a client that is not admitted is unregistered', drop, lambda ok: not ok)
    for e in stat:
        if pp(e.val) == '2': exactly('a client that is not admitted is reported as failed', [e], lambda ok: not ok)
    r.before('a failed client is reported before its thread ends', f, [e for e in stat if pp(e.val) == '2'], fail)
    r.before('whoever waits for the client is woken up', f, sig, fail)
    for e in fail: r.ob('waiting for the client is woken up after the failure is noted', any(s.order > x.order for s in sig for x in stat if pp(x.val) == '2' and s.order < e.order), '', e.loc)
    for e in stat + sig: r.ob('the state of the connection changes under its mutex', held(f, e, '&this._connection_status_mutex'), str(e)[:150], e.loc)
    balanced(r, 'mutex of the connection state', f, '&this._connection_status_mutex')
    r.ob('a client that failed leaves its thread before the connection counts', all(x.order > e.order for e in fail for x in stat if pp(x.val) == '1'), '', f.label)
    reg = r.sel(f, V + 'add_vst')
    r.before('the thread is registered before the connection is used', f, reg, sta)
    # ---- the thread of a client: the session
    p = su.extract(roots=[T_ + r'::thread_body'], opaque=op[:-5], devirt=[r'Thread(Base)?$=Trick::' + T_])
    f = r.flow(p, T_ + '::thread_body')
    add, ok1 = r.sel(f, V + 'add_session'), r.stores(f, r'this\._connection_status', '1')
    hm, cw, sc = r.sel(f, 'VariableServerSession::handle_message'), r.sel(f, 'VariableServerSession::copy_and_write_async'), r.sel(f, 'VariableServerSession::set_connection')
    for lab, es in (('a session is registered', add), ('the connection is reported as accepted', ok1), ('commands are read', hm), ('values are sent', cw), ('the session gets the connection', sc)):
        if not es: r.ob(lab + ' at all', False, '', f.label); continue
        bad = None
        for st, by, ok, env in states:
            g = F.may(r.tot(es), env)
            if not (st == 0 and (by or ok)) and 1 in g: bad = bad or f' the connection is {"established" if st == 0 else "not established (%d)" % st}, the check is {"bypassed" if by else "made"}, the address is {"" if ok else "not "}allowed'
            if st == 0 and (by or ok) and g == frozenset((0,)): bad = bad or ' an admitted client is refused'
        r.ob(lab + ' only for an admitted client', not bad, bad or '', r.at(es, f))
    r.before('the session has its connection before it is registered', f, sc, add)
    r.before('the session is registered before the connection is reported as accepted', f, add, ok1)
    L = [e for e in f.effects if e.kind == 'loop' and hm and e.blk in hm[0].lids]
    if len(L) == 1:
        L = L[0]
        K = dict(en=V + 'get_enabled(VariableServerSessionThread::_vs)', hm='VariableServerSession::handle_message(this._session)', ex='VariableServerSession::get_exit_cmd(this._session)', cw='VariableServerSession::copy_and_write_async(this._session)')
        bad = None
        for en, h, ex, w in itertools.product((0, 1), (-1, 0, 3), (0, 1), (-1, 0, 7)):
            env = {K['en']: en, K['hm']: h, K['ex']: ex, K['cw']: w, 'this.should_shutdown': 0}
            go = bool(en and h >= 0 and not ex and w >= 0)
            g = F.may(stays(L), env, )
            if g != frozenset((int(go),)): bad = bad or f' the server is {"enabled" if en else "disabled"}, reading gives {h}, the client {"exits" if ex else "stays"}, writing gives {w}: the session goes {"on" if 1 in g else "away"}'
        r.ob('a session goes on exactly until it fails, exits, or the server is disabled', not bad, bad or '', L.loc)
        bad = None
        for e in hm + cw:
            if 1 in F.may(e.guard, {K['en']: 0}): bad = e
        r.ob('a disabled server serves nobody', not bad, '', r.at(hm, f))
        r.before('a shutdown is noticed every time around', f, [e for e in f.effects if e.kind == 'call' and e.name == 'pthread_mutex_lock' and pp(e.args[0]) == '&this.shutdown_mutex' and e.lids == L.lids + (L.blk,)], hm)
        r.ob('a thread asked to end does not go on', all(1 not in F.may(e.guard, {'this.should_shutdown': 1}) for e in hm + cw), '', r.at(hm, f))
    else: r.undecided('loop of a session', ' form')
    r.ob('at the end the session leaves through the function that unregisters it', len(last) == 1 and pp(last[0].args[1]) == 'fn:exit_var_thread' and pp(last[0].args[2]) == 'this', str(ends)[:300], r.at(last, f))
    # ---- unregistering
    f = r.flow(p2 := su.extract(roots=[r'^exit_var_thread', T_ + r'::(cleanup|wait_for_accept)', r'VariableServer::(add|get|delete)_(vst|session)'], opaque=['get_vs', 'get_pthread_id'] + opq('VariableServerSession') ), 'VariableServerSessionThread::wait_for_accept')
    r.waits('accepting a client waits until its outcome is known', f, t('this._connection_status') == 0, TRUE)
    for e in r.sel(f, 'pthread_cond_wait'): r.ob('the wait releases the mutex of the state', pp(e.args[0]) == '&this._connection_status_cv' and pp(e.args[1]) == '&this._connection_status_mutex' and held(f, e, '&this._connection_status_mutex'), '', e.loc)
    r.ob('the outcome is what is returned', pp(f.retval()) == 'this._connection_status', pp(f.retval()), f.label)
    for what, mp in (('vst', 'var_server_threads'), ('session', 'var_server_sessions')):
        f = r.flow(p2, V + 'add_' + what)
        es = r.stores(f, r'this\.' + mp + r'\[arg1\]', 'arg2')
        r.ob(f'add_{what}: registered under its thread', len(es) == 1 and gx(es[0].guard) == 1, str(f.effects)[:200], f.label)
        for e in es: r.ob(f'add_{what}: under the mutex of the maps', held(f, e, '&this.map_mutex'), '', e.loc)
        balanced(r, f'add_{what}: mutex of the maps', f, '&this.map_mutex')
        f = r.flow(p2, V + 'delete_' + what)
        es = r.sel(f, 'erase', {0: r'&this\.' + mp, 1: 'arg1'})
        r.ob(f'delete_{what}: the entry of the thread goes', len(es) == 1 and gx(es[0].guard) == 1, str(f.effects)[:200], f.label)
        for e in es: r.ob(f'delete_{what}: under the mutex of the maps', held(f, e, '&this.map_mutex'), '', e.loc)
        balanced(r, f'delete_{what}: mutex of the maps', f, '&this.map_mutex')
        f = r.flow(p2, V + 'get_' + what)
        balanced(r, f'get_{what}: mutex of the maps', f, '&this.map_mutex')
        rv = f.cases(f.retval())
        r.ob(f'get_{what}: the entry of the thread or nothing', all(k == '0' or mp in k and '.second' in k or k == f'this.{mp}[arg1]' for k in rv) and len(rv) == 2, str(list(rv))[:200], f.label)
    f = r.flow(p2, 'exit_var_thread')
    de = {w: r.sel(f, V + 'delete_' + w) for w in ('vst', 'session')}
    er = [e for e in f.effects if e.kind == 'call' and e.name == 'erase']
    for w, mp in (('vst', 'var_server_threads'), ('session', 'var_server_sessions')):
        es = [e for e in er if pp(e.args[0]).endswith(mp)]
        r.ob(f'leaving: the {w} of the thread is unregistered', len(es) == 1 and 'get_pthread_id' in pp(es[0].args[1]) and 'arg1' in pp(es[0].args[1]), str(es)[:200], r.at(es, f))
        de[w] = es
    dis = r.sel(f, 'ClientConnection::disconnect')
    des = [e for e in f.effects if e.kind == 'call' and 'VariableServerSession::~' in e.name]
    r.ob('leaving: the client is disconnected', len(dis) == 1 and gx(dis[0].guard) == 1, '', r.at(dis, f))
    r.before('leaving: nobody finds the session when it is destroyed', f, de['session'], des)
    r.before('leaving: nobody finds the thread when its session is destroyed', f, de['vst'], des)
    r.ob('leaving: the session is destroyed', len(des) == 1, '', r.at(des, f))
    for e in des: r.ob('leaving: a destroyed session is forgotten', any(x.order > e.order and pp(x.val) == '0' and F.implies(e.guard, x.guard) for x in r.stores(f, r'arg1\._session')), '', e.loc)
    # ---- the thread that accepts
    p = su.extract(roots=[r'VariableServerListenThread::thread_body'], opaque=['initializeMulticast', 'test_shutdown', 'test_pause', 'join_thread', 'create_thread', 'copy_cpus', 'VariableServerSessionThread', '~VariableServerSessionThread', 'message_publish', 'wait_for_accept', 'set_connection', '~?ClientConnection', '~?TCPConnection'] + opq('VariableServer'))
    f = r.flow(p, 'VariableServerListenThread::thread_body')
    new = r.sel(f, 'TCPClientListener::checkForNewConnections')
    NC = 'TCPClientListener::checkForNewConnections(this._listener)'
    EN, AL, WA = V + 'get_enabled(the_vs)', V + 'get_allow_connections(the_vs)', 'VariableServerSessionThread::wait_for_accept(new)'
    SU = 'TCPClientListener::setUpNewConnection(this._listener)'
    acts = {'a session thread is created': (r.sel(f, '(ThreadBase|SysThread|VariableServerSessionThread)::create_thread'), lambda n, e, a, w: n and e and a),
            'its outcome is waited for': (r.sel(f, r'VariableServerSessionThread::wait_for_accept'), lambda n, e, a, w: n and e and a),
            'a failed thread is joined': (r.sel(f, '(ThreadBase|SysThread|VariableServerSessionThread)::join_thread'), lambda n, e, a, w: n and e and a and w == 2),
            'a failed thread is deleted': (r.sel(f, '.*::~VariableServerSessionThread'), lambda n, e, a, w: n and e and a and w == 2),
            'a refused connection is closed': (r.sel(f, r'(TCPConnection|ClientConnection)::disconnect'), lambda n, e, a, w: n and not (e and a))}
    for lab, (es, want) in acts.items():
        bad = None
        if not es: r.ob(lab, False, ' never', f.label); continue
        for n_, e_, a_, w_ in itertools.product((0, 1), (0, 1), (0, 1), (1, 2)):
            g = F.may(r.tot(es), {NC: n_, EN: e_, AL: a_, WA: w_, SU: 77, 'new': 5})
            if g != frozenset((int(bool(want(n_, e_, a_, w_))),)): bad = bad or f' {"a" if n_ else "no"} connection waits, the server is {"enabled" if e_ else "disabled"}, connections are {"" if a_ else "not "}allowed, outcome {w_}: {sorted(g)}'
        r.ob(lab, not bad, bad or '', r.at(es, f))
    cr, se = acts['a session thread is created'][0], r.sel(f, r'VariableServerSessionThread::set_connection')
    r.before('the thread has its connection before it starts', f, se, cr)
    r.before('a failed thread has ended when it is deleted', f, acts['a failed thread is joined'][0], acts['a failed thread is deleted'][0])
    for e in se: r.ob('the connection is the new one', 'setUpNewConnection(this._listener)' in pp(e.args[1]), str(e)[:200], e.loc)
    for e in cr: r.ob('a connection is being accepted under the mutex', held(f, e, '&this.connectionMutex'), '', e.loc)
    balanced(r, 'mutex of the pending connections', f, '&this.connectionMutex')
    return r.finish('Evaluation of the allowlist over addresses and entries; guards and order of admission, session loop and departure of a client; registration under its mutex.', ['clients connect over IPv4'], floor=60)


# ---------------------------------------------------------------- connections
class Net(dict):
    """quantities known while a connection is read: what is waiting, and where its last line ends"""
    def __init__(s, d, n, pos, err, got, mine=0):
        dict.__init__(s, d); s.n, s.pos, s.err, s.got, s.mine = n, pos, err, got, mine
    def look(s, k):
        m = re.match(r'-?&local(@\d+)?$', k)
        if m: return 1000
        if re.match(r'(rindex|strrchr|memrchr)\(', k): return 0 if s.pos is None else 1000 + s.pos
        if re.match(r'(i32\()?\*__errno_location\(\)\)?$', k): return s.err
        m = re.match(r'SystemInterface::recv(from)?\(this\._system_interface,this\._socket,(.*)', k)
        if m: return s.got if re.match(r'out\d:(rindex|strrchr|memrchr)', m[2]) else s.n
        if k.startswith('size(stream::str'): return s.got
        if 'sin_addr' in k[:40] or 'sin_port' in k[:40]: return 5 if 'this._self_info' in k[:40] or s.mine & (1 if 'sin_addr' in k[:40] else 2) else 6
        return None
    def __contains__(s, k): return dict.__contains__(s, k) or s.look(k) is not None
    def __missing__(s, k): return s.look(k)

def v06(r):
    u = r.unit([CH + '*.cpp'])
    p = u.extract(roots=[r'(TCPConnection|UDPConnection|MulticastGroup)::(read|write|disconnect|start|restart)\(', r'(TCPConnection|UDPConnection)::setBlockMode', r'TCPClientListener::(setUpNewConnection|disconnect|checkForNewConnections|restart)'], opaque=['setBlockMode'])
    B = [1, 2, 8, 100, 1000, 65536, 199999, 200000]
    for cls, up, dg in (('TCPConnection', 'this._connected', 0), ('UDPConnection', 'this._started', 1), ('MulticastGroup', 'this._started', 1)):
        f = r.flow(p, cls + '::read', typed=True, streams=True)
        L = cls + ' reads'
        rc = sorted([e for e in f.effects if e.kind == 'call' and e.name in ('SystemInterface::recv', 'SystemInterface::recvfrom')], key=lambda e: e.order)
        peek, cons = [e for e in rc if pp(e.args[4]) == '2'], [e for e in rc if pp(e.args[4]) == '0']
        if len(peek) != 1 or not cons or len(peek) + len(cons) != len(rc): r.undecided(L, ' form'); continue
        # buffer
        al = [i for bl in f.blocks for i in bl if i['o'] == 'alloca' and ('vla' in i and i['at'] == 'i8' or re.match(r'A:\d+:i8|\[\d+ x i8\]', i['at']))]
        ok = None
        if len(al) == 1:
            try:
                for m in B:
                    env = Net({'arg2': m, up: 1}, 1, None, 0, 0)
                    sz = F.ev(f.sub(f.v(al[0]['vla'])), env) if 'vla' in al[0] else int(re.search(r'\d+', al[0]['at'])[0])
                    for e in rc:
                        want = F.ev(e.args[3], Net({'arg2': m, up: 1}, m, m - 1, 0, m))
                        if want + 1 > sz: ok = ok or (f' up to {want} bytes and their terminator are put into a buffer of {sz} (max_len {m})', e.loc)
                    if F.ev(peek[0].args[3], env) != m: ok = ok or (f' {F.ev(peek[0].args[3], env)} bytes are looked at when {m} may be read', peek[0].loc)
                r.ob(f'{L}: the text and its terminator fit the buffer', not ok, ok[0] if ok else '', ok[1] if ok else f.label)
            except F.Unknown as x: r.undecided(L + ' buffer', ' ' + str(x)[:100])
        else: r.undecided(L + ' buffer', ' form')
        # what is taken from the socket, and the result
        bad = rbad = tbad = None
        lp = [e for e in f.effects if e.kind == 'loop']
        try:
            rv = f.retval()
            for st in (0, 1):
                for n in (-1, 0, 1, 5, 100):
                    for err in ((11, 104, 107, 4) if n < 0 else (0,)):
                        for pos in ([None] + [x for x in (0, 3, 4, 99) if x < n]):
                            for who in ((0, 1, 2, 3) if cls == 'MulticastGroup' and n > 0 else (0,)):
                                mine = who == 3
                                line = n > 0 and pos is not None
                                env = Net({'arg2': 100, up: st}, n, pos, err, pos + 1 if line else 0, who)
                                tk = [e for e in cons if F.evb(e.guard, env)]
                                how = f'{"" if st else "not "}connected, {n} bytes waiting' + (f' (errno {err})' if n < 0 else '') + (f', last line ends at {pos}' if line else ', no line') + (', sent by itself' if mine else '')
                                if not st or n < 0: w = []
                                elif line and not mine: w = [pos + 1]
                                else: w = [1] if dg else []
                                if len(tk) != len(w): bad = bad or (f' {len(tk)} times when: {how}', r.at(tk or cons, f))
                                elif line and not mine and st and F.ev(tk[0].args[3], env) != pos + 1: bad = bad or (f' {F.ev(tk[0].args[3], env)} bytes when: {how}', tk[0].loc)
                                if F.evb(peek[0].guard, env) != bool(st): bad = bad or (f' what is waiting is {"" if not st else "not "}looked at when: {how}', peek[0].loc)
                                for e in lp:
                                    if truths(e.guard, env) != frozenset((int(bool(st and line and not mine)),)): tbad = tbad or f' text is {"not " if st and line and not mine else ""}handed over when: {how}'
                                x = F.ev(rv, env)
                                want = -1 if st and n < 0 and err != 11 else pos + 1 if st and line and not mine else 0
                                if x != want: rbad = rbad or f' is {x} when: {how}'
            r.ob(f'{L}: whole lines are taken, each once', not bad, bad[0] if bad else '', bad[1] if bad else f.label)
            if len(lp) == 1: r.ob(f'{L}: text is handed over exactly when a line was taken', not tbad, tbad or '', lp[0].loc)
            r.ob(f'{L}: the result tells an error from nothing to read', not rbad, rbad or '', f.label)
        except F.Unknown as x: r.undecided(L, ' ' + str(x)[:100])
        for e in cons:
            if dg and len(e.args) > 5 and cls == 'UDPConnection' and 'rindex' in pp(e.args[3]): r.ob(f'{L}: answers go to whoever sent the line', pp(e.args[5]) == '&this._remote_serv_addr', str(e)[:200], e.loc)
        for e in peek: r.ob(f'{L}: from its own socket', pp(e.args[1]) == 'this._socket', '', e.loc)
        # the text handed over
        put = [e for e in f.effects if e.kind == 'call' and e.name in ('out<char>', 'stream::put', 'push_back', 'operator+=') and e.loops]
        lp = [e for e in f.effects if e.kind == 'loop']
        if len(put) == 1 and len(lp) == 1:
            e = put[0]
            v = pp(e.args[1])
            bad = None
            try:
                for c in list(range(-128, 128)):
                    env = Net({'arg2': 100, up: 1, v: c, 'i8(' + v + ')': c}, 9, 8, 0, 9)
                    env['count(0,1)'] = 3
                    if F.evb(e.guard, env) != (c != 13): bad = bad or f' the character {c} is {"dropped" if c != 13 else "kept"}'
                for k in range(0, 13):
                    env = Net({'arg2': 100, up: 1, v: 65, 'i8(' + v + ')': 65}, 9, 8, 0, 9); env['count(0,1)'] = k
                    on = F.evb(lp[0].val, env)
                    if on and k > 9 or not on and k < 9: bad = bad or f' the character at {k} of 9 is {"" if on else "not "}handed over'
                r.ob(f'{L}: every character of a line but the carriage return is handed over', not bad and 'local' in v, bad or '', e.loc)
                r.every(f'{L}: to the end of the line', f, '.*', e.lids[0])
            except F.Unknown as x: r.undecided(L + ' text', ' ' + str(x)[:100])
        else: r.undecided(L + ' text', ' form')
        ms = r.stores(f, r'\*arg1')
        for e in ms: r.ob(f'{L}: a message is empty or the text of lines', pp(e.val) == '""' or 'stream::str' in pp(e.val), str(e)[:200], e.loc)
        # writing
        for k in (1, 2):
            f, st = r.flow(p, cls + '::write', params=k), k == 1
            sd = [e for e in f.effects if e.kind == 'call' and e.name in ('SystemInterface::send', 'SystemInterface::sendto')]
            lab = f'{cls} writes {"a string" if st else "a buffer"}'
            if not sd: r.ob(lab, False, ' nothing is sent', f.label); continue
            r.same(f'{lab}: exactly when connected', r.tot(sd), b(up), r.at(sd, f))
            r.ob(f'{lab}: once', len(sd) == 1, '', r.at(sd, f))
            for e in sd:
                A = [pp(x) for x in e.args]
                r.ob(f'{lab}: all of its bytes', (A[2], A[3]) in ((('c_str(*arg1)', 'size(*arg1)'), ('data(*arg1)', 'size(*arg1)')) if st else (('arg1', 'arg2'),)), str(A)[:200], e.loc)
                r.ob(f'{lab}: to its peer', A[1] == 'this._socket' and (not dg or A[5] == '&this._remote_serv_addr'), str(A)[:200], e.loc)
                r.ob(f'{lab}: the result of sending is the result', all(k == '-1' or k.startswith('SystemInterface::send') for k in f.cases(f.retval())), pp(f.retval())[:200], e.loc)
            try: r.ob(f'{lab}: without a connection it is an error', F.ev(f.retval(), {up: 0}) == -1, '', f.label)
            except F.Unknown as x: r.ob(f'{lab}: without a connection it is an error', False, str(x)[:100], f.label)
    # ---- ends of a connection
    for cls, up, down in (('TCPConnection', '_connected', ('_connected',)), ('UDPConnection', '_initialized', ('_initialized', '_started')), ('TCPClientListener', '_initialized', ('_initialized',))):
        f = r.flow(p, cls + '::disconnect')
        cl = r.sel(f, 'SystemInterface::close')
        r.same(f'{cls}: disconnecting closes the socket exactly when it is open', r.tot(cl), b('this.' + up), r.at(cl, f))
        r.ob(f'{cls}: it closes its own socket, once', len(cl) == 1 and re.fullmatch(r'this\._(listen_)?socket', pp(cl[0].args[1])) is not None, str(cl)[:200], r.at(cl, f))
        for d in down:
            for v in (0, 1):
                env = {'this.' + up: v, 'this.' + d: v}
                try: r.ob(f'{cls}: a closed socket is not used or closed again', fin(f, 'this.' + d, env) == 0, f' {d}', f.label)
                except F.Unknown as x: r.ob(f'{cls}: a closed socket is not used or closed again', False, str(x)[:100], f.label)
    f = r.flow(p, 'TCPConnection::start')
    acc = r.sel(f, 'SystemInterface::accept')
    r.ob('a connection is accepted from the listening socket', len(acc) == 1 and pp(acc[0].args[1]) == 'this._listen_socket', str(acc)[:200], r.at(acc, f))
    bm = r.sel(f, 'TCPConnection::setBlockMode')
    bad = None
    try:
        for ls in (-1, 0, 1, 9):
            for s in (-1, 0, 7):
                class A(dict):
                    def __contains__(q, k): return dict.__contains__(q, k) or k.startswith('SystemInterface::accept(')
                    def __missing__(q, k): return s
                env = A({'this._listen_socket': ls, 'this._connected': 0})
                okc = ls > 0 and s >= 0
                if F.ev(f.retval(), env) != (0 if okc else -1): bad = bad or f' listening socket {ls}, accept gives {s}: result {F.ev(f.retval(), env)}'
                if fin(f, 'this._connected', env) != int(okc): bad = bad or f' listening socket {ls}, accept gives {s}: connected is {fin(f, "this._connected", env)}'
                if okc and fin(f, 'this._socket', env) != s: bad = bad or ' the socket is not the accepted one'
                if runs(bm, env) != ((1, 1) if okc else (0, 0)): bad = bad or f' listening socket {ls}, accept gives {s}: the mode of the socket'
        r.ob('a connection counts as connected exactly when it was accepted', not bad, bad or '', f.label)
        for e in bm: r.ob('reading a connection does not block', pp(e.args[1]) == '0', '', e.loc)
    except F.Unknown as x: r.undecided('accepting', ' ' + str(x)[:100])
    f = r.flow(p, 'UDPConnection::start')
    try: r.ob('a datagram socket starts exactly when it is initialized', all(F.ev(f.retval(), {'this._initialized': v, 'this._started': 0}) == (0 if v else -1) and fin(f, 'this._started', {'this._initialized': v, 'this._started': 0}) == v for v in (0, 1)), '', f.label)
    except F.Unknown as x: r.undecided('starting a datagram socket', ' ' + str(x)[:100])
    # ---- blocking
    p2 = u.extract(roots=[r'(TCPConnection|UDPConnection|TCPClientListener)::setBlockMode'])
    for cls in ('TCPConnection', 'UDPConnection', 'TCPClientListener'):
        f = r.flow(p2, cls + '::setBlockMode')
        st = [e for e in f.effects if e.kind == 'call' and e.name == 'SystemInterface::fcntl' and pp(e.args[2]) == '4']
        ge = [e for e in f.effects if e.kind == 'call' and e.name == 'SystemInterface::fcntl' and pp(e.args[2]) == '3']
        bad = None
        if len(st) != 1 or len(ge) != 1: r.undecided(f'{cls}: block mode', ' form'); continue
        try:
            for fl in (0, 2, 2048, 2050, 0x8802):
                for bl in (0, 1):
                    class A(dict):
                        def __contains__(q, k): return dict.__contains__(q, k) or k.startswith('SystemInterface::fcntl(')
                        def __missing__(q, k): return fl
                    x = F.ev(st[0].args[3], A({'arg1': bl, 'this._initialized': 1}))
                    if x & 0xffffffff != ((fl & ~2048) if bl else (fl | 2048)): bad = bad or f' flags {fl} become {x} for {"" if bl else "non-"}blocking'
            r.ob(f'{cls}: the block mode changes that flag and no other', not bad, bad or '', st[0].loc)
        except F.Unknown as x: r.undecided(f'{cls}: block mode', ' ' + str(x)[:100])
    # ---- every function of the connections that has a result gives one
    ws, srcs = lint([CH + '*.cpp'], ['-Wreturn-type'])
    for x in srcs: r.ob('every function with a result gives one', not [w for w in ws if x.endswith(w[0])], ' '.join(f'{w[0]}:{w[1]} {w[2]}' for w in ws if x.endswith(w[0])), os.path.basename(x))
    return r.finish('Evaluation of what is looked at, taken and handed over for every combination of waiting bytes, line ends and errors; sent bytes; open and closed states of connections.', ['recv with MSG_PEEK leaves the bytes in place'], floor=60)

# ---------------------------------------------------------------- V07
def sp(e): return F._addr(e.addr)

def fin7(f, path, env):
    env['ld0(' + path + ')'] = env[path]
    return fin(f, path, env)

def first_round(g):
    """a guard in the first round of its loops"""
    def fn(k):
        m = re.fullmatch(r'rec\((-?\d+);.*\)', pp(k[1])) if k[0] == 'B' else None
        return (1 if int(m[1]) else 0) if m else M.var(k)
    return M.compose(g, fn)

def over(e, what):
    """the loop goes over the elements of a container"""
    return any(x in str(e.name if hasattr(e, 'kind') else e) for x in (f'end({what})', f'each {what}', f'size({what})'))

def wakeups(f, kinds=('pthread_cond_signal', 'pthread_cond_broadcast')):
    return [e for e in f.effects if e.kind == 'call' and e.name in kinds]

def sleeps(f): return [e for e in f.effects if e.kind == 'call' and e.name in ('pthread_cond_wait', 'pthread_cond_timedwait')]

def first(es): return min((e.order for e in es), default=None)

def v07(r):
    u = r.unit([TB + '*.cpp', VS + '*.cpp'])
    M7 = '&this._restart_pause_mutex'
    p = u.extract(roots=[r'SysThread::[a-zS~]', r'ThreadBase::'], opaque=['message_publish'])
    has, should = 'this._thread_has_paused', 'this._thread_should_pause'
    # ---- the pause protocol
    fp, ft, fu = r.flow(p, 'SysThread::force_thread_to_pause'), r.flow(p, 'SysThread::test_pause'), r.flow(p, 'SysThread::unpause_thread')
    p1 = u.extract(roots=[r'SysThread::thread_shutdown'], opaque=[r'ThreadBase::thread_shutdown'])
    fs = r.flow(p1, 'SysThread::thread_shutdown', params=2)
    for f, n in ((fp, 'asking for a pause'), (ft, 'pausing'), (fu, 'resuming'), (fs, 'ending')):
        balanced(r, n + ' releases the pause lock', f, M7)
        for e in f.effects:
            if e.kind == 'store' and sp(e) in (has, should) or e.kind == 'call' and e.name.startswith('pthread_cond'):
                r.ob(f'{n}: the pause state is used under its lock', held(f, e, M7), str(e)[:200], e.loc)
    cv = {}
    for f, n, state, v in ((fp, 'the request', has, True), (ft, 'the pause', should, False)):
        es = sleeps(f)
        r.ob(f'{n} waits', len(es) > 0, '', f.label)
        for e in es:
            cv[n] = pp(e.args[0])
            r.ob(f'{n} waits with the pause lock', pp(e.args[1]) == M7, pp(e.args[1]), e.loc)
            lp = [x for x in f.effects if x.kind == 'loop' and x.blk in e.lids] if e.lids else []
            r.ob(f'{n} checks what it waits for again after each wakeup', len(lp) > 0, '', e.loc)
            for x in lp:
                g = M.NOT(gx(b(state))) if v else gx(b(state))
                r.ob(f'{n} waits exactly until {"the thread has paused" if v else "the pause ends"}', equiv(F.norm(stays(x)), g), F.pbdd(stays(x))[:150], x.loc)
                r.ob(f'{n} sleeps between two checks', F.implies(F.norm(x.val), F.norm(M.OR(e.guard, M.NOT(x.val)))), '', x.loc)
        r.ob(f'{n} wait is bounded by nothing else', all(x.name == 'pthread_cond_wait' for x in es), '', f.label)
    r.final_is('asking a thread to pause leaves the request in place', fp, should, {'1': 1})
    ws = [e for e in fp.effects if e.kind == 'store' and sp(e) == should]
    r.before('the request is there before the wait for it', fp, ws, sleeps(fp))
    r.final_is('resuming takes the request back', fu, should, {'0': 1})
    w = [e for e in wakeups(fu) if pp(e.args[0]) == cv.get('the pause')]
    r.same('resuming wakes the paused thread', r.tot(w), 1, r.at(w, fu))
    w = [e for e in wakeups(ft) if pp(e.args[0]) == cv.get('the request')]
    r.same('a thread that pauses tells who waits for it', first_round(r.tot(w)), b(should), r.at(w, ft))
    st = [e for e in ft.effects if e.kind == 'store' and sp(e) == has and F.implies(e.guard, gx(b(should))) and pp(e.val) == '1']
    r.before('it has paused when it tells so', ft, st, w)
    for e in sleeps(ft): r.ob('it tells so before it sleeps', F.implies(first_round(e.guard), first_round(M.OR(*[x.guard for x in w if x.order < e.order]))), '', e.loc)
    r.final_is('a thread that goes on does not count as paused', ft, has, {'0': 1})
    bad = [e for e in ft.effects if e.kind == 'store' and sp(e) == has and pp(e.val) == '0' and any(e.order < x.order and M.AND(e.guard, x.guard) != 0 for x in sleeps(ft))]
    r.ob('nor while it sleeps does it count as running', not bad, '', ft.label)
    bad = [e for e in ft.effects + fs.effects + fp.effects if e.kind == 'store' and sp(e) == should and e in ft.effects + fs.effects]
    r.ob('only the requester takes a request back', not bad, '', ft.label)
    r.final_is('a thread that ends counts as paused', fs, has, {'1': 1})
    w = [e for e in wakeups(fs) if pp(e.args[0]) == cv.get('the request')]
    r.same('a thread that ends tells who waits for it', r.tot(w), 1, r.at(w, fs))
    r.before('it has paused when it tells so', fs, [e for e in fs.effects if e.kind == 'store' and sp(e) == has], w)
    ends = [e for e in fs.effects if e.kind == 'call' and e.name == 'ThreadBase::thread_shutdown']
    r.same('it ends', r.tot(ends), 1, r.at(ends, fs))
    r.before('it tells so before its exit handler may wait for a lock', fs, w, ends)
    for e in ends: r.ob('the exit handler runs without the pause lock', [x for x in fs.effects if x.kind == 'call' and x.name == 'pthread_mutex_unlock' and x.order < e.order] != [] and [pp(x) for x in e.args[1:]] == ['arg1', 'arg2'], str(e)[:150], e.loc)
    # ---- construction
    f = r.flow(p, 'SysThread::SysThread')
    r.final_is('a thread that has not started counts as paused', f, has, {'1': 1})
    r.final_is('a new thread has no request to pause', f, should, {'0': 1})
    add = [e for e in f.effects if e.kind == 'call' and e.name in ('push_back', 'emplace_back', 'insert')]
    r.same('every service thread is registered for the shutdown', r.tot(add), 1, r.at(add, f))
    # ---- shutdown of every service thread
    f = r.flow(p, 'SysThread::ensureAllShutdown')
    ca, jo = [[e for e in f.effects if e.kind == 'call' and e.name == n] for n in ('ThreadBase::cancel_thread', 'ThreadBase::join_thread')]
    for es, n in ((ca, 'cancelled'), (jo, 'joined')):
        r.ob(f'every service thread is {n}', len(es) == 1 and len(es[0].loops) == 1 and es[0].kind == 'call', str(es)[:150], r.at(es, f))
        for e in es:
            r.ob(f'every service thread is {n}: it is an element of the list', 'all_sys_threads' in pp(e.args[0]) and 'all_sys_threads' in e.loops[0], str(e)[:150], e.loc)
            r.every(f'every service thread is {n}: to the end of the list', f, '.*', e.lids[0])
            lp = [x for x in f.effects if x.kind == 'loop' and x.blk in e.lids]
            if lp: r.same(f'every service thread is {n}: whatever it is', e.guard, M.OR(*[M.AND(x.guard, x.val if isinstance(x.val, int) and over(x, 'all') else 1) for x in lp]), e.loc)
    r.ob('all are asked to end before one of them is waited for', ca != [] and jo != [] and max(e.order for e in ca) < min(e.order for e in jo), '', r.at(jo, f))
    for e in jo:
        lk = {pp(x.args[0]) for x in f.effects if x.kind == 'call' and x.name == 'pthread_mutex_lock' and x.order < e.order}
        for k in sorted(lk): r.ob('no lock that a service thread may need is held while it is waited for', not held(f, e, k), ' ' + k, e.loc)
    # ---- ThreadBase
    sd, idp = 'this.should_shutdown', 'this.pthread_id'
    for n in ('cancel_thread', 'request_shutdown'):
        f = r.flow(p, 'ThreadBase::' + n)
        r.final_is(n + ' asks the thread to end', f, sd, {'1': 1})
        balanced(r, n + ' releases its lock', f, '&this.shutdown_mutex')
        for e in f.effects:
            if e.kind == 'store' and sp(e) == sd: r.ob(n + ': the request is made under its lock', held(f, e, '&this.shutdown_mutex'), '', e.loc)
        es = r.sel(f, 'pthread_cancel')
        if n[0] == 'c': r.same('a thread is cancelled exactly when it is running and may be cancelled', r.tot(es), (t(idp) != 0) & b('this.cancellable'), r.at(es, f))
        else: r.ob('a request alone cancels no thread', not es, '', f.label)
    for k, roots in ((2, [r'ThreadBase::test_shutdown']),):
        q = u.extract(roots=roots, opaque=[r'::thread_shutdown'])
        f = r.flow(q, 'ThreadBase::test_shutdown', params=2)
        es = [e for e in f.effects if e.kind == 'call' and e.name.endswith('::thread_shutdown')]
        r.same('a thread ends at the next check exactly when it was asked to', r.tot(es), b(sd), r.at(es, f))
        for e in es:
            r.ob('it ends with its exit handler', [pp(x) for x in e.args[1:]] == ['arg1', 'arg2'], str(e)[:120], e.loc)
            un = [x for x in f.effects if x.kind == 'call' and x.name == 'pthread_mutex_unlock' and x.order < e.order]
            r.ob('it ends without the request lock', F.implies(e.guard, r.tot(un)), '', e.loc)
        un = [x for x in f.effects if x.kind == 'call' and x.name == 'pthread_mutex_unlock']
        r.ob('the check releases its lock', F.implies(M.NOT(gx(b(sd))), r.tot(un)), '', f.label)
    f = r.flow(p, 'ThreadBase::join_thread')
    jn = r.sel(f, 'pthread_join')
    r.same('a thread is joined exactly when it is running', r.tot(jn), t(idp) != 0, r.at(jn, f))
    for e in jn: r.ob('the thread itself is joined', pp(e.args[0]) == idp, pp(e.args[0]), e.loc)
    try:
        for v, rc in ((5, 0), (5, 3), (0, 0)):
            class A(dict):
                def __contains__(q, k): return dict.__contains__(q, k) or k.startswith('pthread_join(')
                def __missing__(q, k): return rc
            x = fin7(f, idp, A({idp: v}))
            r.ob('a joined thread is not joined again', x == (0 if rc == 0 else v), f' id {v}, result of joining {rc}: {x}', f.label)
    except F.Unknown as x: r.undecided('joining', ' ' + str(x)[:100])
    f = r.flow(p, 'ThreadBase::abandon_thread')
    de = r.sel(f, 'pthread_detach')
    r.same('an abandoned thread is detached', r.tot(de), t(idp) != 0, r.at(de, f))
    r.ob('an abandoned thread is not joined later', fin7(f, idp, {idp: 5}) == 0, '', f.label)
    f = r.flow(p, 'ThreadBase::create_thread')
    cr = r.sel(f, 'pthread_create')
    r.same('a thread is started once', r.tot(cr), ~b('this.created'), r.at(cr, f))
    for e in cr: r.ob('it is given its own description', pp(e.args[0]) == '&' + idp and pp(e.args[3]) == 'this' and 'thread_helper' in pp(e.args[2]), str(e)[:150], e.loc)
    try: r.ob('a started thread counts as started', [fin7(f, 'this.created', {'this.created': v, 'size(this.name)': 3}) for v in (0, 1)] == [1, 1], '', f.label)
    except F.Unknown as x: r.undecided('creating', ' ' + str(x)[:100])
    q = u.extract(roots=[r'ThreadBase::thread_shutdown', r'ThreadBase::thread_helper'], opaque=['message_publish', r'ThreadBase::execute'])
    f = r.flow(q, 'ThreadBase::thread_shutdown', params=2)
    ex, hd = r.sel(f, 'pthread_exit'), [e for e in f.effects if e.kind == 'call' and e.name == 'indirect']
    r.same('ending ends the thread', r.tot(ex), 1, r.at(ex, f))
    r.same('the exit handler runs when there is one', r.tot(hd), b('arg1'), r.at(hd, f))
    r.before('the exit handler runs before the end', f, [], []) if not hd else r.ob('the exit handler runs before the end', all(h.order < e.order for h in hd for e in ex), '', r.at(hd, f))
    f = r.flow(q, 'ThreadBase::thread_helper')
    bo, ct = r.sel(f, 'ThreadBase::thread_body'), r.sel(f, 'pthread_setcanceltype')
    r.same('a started thread runs its body', r.tot(bo), 1, r.at(bo, f))
    r.ob('a thread is not cancelled in the middle of anything', len(ct) == 1 and pp(ct[0].args[0]) == '0' and all(ct[0].order < x.order for x in bo), str(ct)[:100], r.at(ct, f))
    # ---- sessions
    D = [('Thread(Base)?$', 'Trick::VariableServerSessionThread')]
    q = u.extract(roots=[r'VariableServerSessionThread::[a-zV~]', r'^exit_var_thread'], opaque=['message_publish'] + opq('VariableServer', 'VariableServerSession', 'ThreadBase', 'SysThread'), devirt=['Thread(Base)?$=Trick::VariableServerSessionThread'])
    SM, ok = '&this._connection_status_mutex', (t('this._connection_status') == 1) & b('this._session')
    f = r.flow(q, 'VariableServerSessionThread::preload_checkpoint')
    S = {n: [e for e in f.effects if e.kind == 'call' and e.name == 'VariableServerSession::' + n] for n in ('pause_copy', 'unpause_copy', 'set_pause', 'get_pause', 'disconnect_references')}
    fo = r.sel(f, 'SysThread::force_thread_to_pause')
    r.same('before a load every session thread is paused', r.tot(fo), 1, r.at(fo, f))
    for n in S:
        r.same(f'before a load: {n} exactly for a connected session', r.tot(S[n]), ok, r.at(S[n], f))
        for e in S[n]:
            r.ob(f'before a load: {n}: the thread has paused', all(x.order < e.order for x in fo), '', e.loc)
            r.ob(f'before a load: {n}: the session cannot be deleted meanwhile', held(f, e, SM), '', e.loc)
            r.ob(f'before a load: {n}: of its own session', pp(e.args[0]) == 'this._session', '', e.loc)
    balanced(r, 'before a load: the status lock is released', f, SM)
    for e in fo: r.ob('before a load: the status lock is not held while waiting', not [x for x in f.effects if x.kind == 'call' and x.name == 'pthread_mutex_lock' and x.order < e.order], '', e.loc)
    if all(S.values()):
        o = {n: S[n][0].order for n in S}
        r.ob('before a load: no copy is in progress while references are disconnected', o['pause_copy'] < o['disconnect_references'] < o['unpause_copy'], str(o), f.label)
        r.ob('before a load: the pause state is saved before it is changed', o['get_pause'] < o['set_pause'], str(o), f.label)
        r.ob('before a load: the session is paused', all(pp(e.args[1]) == '1' for e in S['set_pause']), '', f.label)
    sv = [e for e in f.effects if e.kind == 'store' and sp(e) == 'this._saved_pause_cmd']
    r.same('before a load: the pause state is saved', r.tot(sv), ok, r.at(sv, f))
    for e in sv: r.ob('before a load: the pause state of the session is saved', pp(e.val).endswith('get_pause(this._session)'), pp(e.val), e.loc)
    f = r.flow(q, 'VariableServerSessionThread::restart')
    se, un = r.sel(f, 'VariableServerSession::set_pause'), r.sel(f, 'SysThread::unpause_thread')
    r.ob('after a load: a connected session gets its pause state back', len(se) > 0 and all(pp(e.args[0]) == 'this._session' and pp(e.args[1]) == 'this._saved_pause_cmd' for e in se), str(se)[:150], r.at(se, f))
    r.imp('after a load: a connected session gets its pause state back', ok, r.tot(se), r.at(se, f))
    for e in se: r.ob('after a load: the session is used under its lock', held(f, e, SM), '', e.loc)
    r.imp('after a load: a thread without a session is left alone', r.tot(se), t('this._connection_status') == 1, r.at(se, f))
    r.same('after a load: every session thread goes on', r.tot(un), 1, r.at(un, f))
    r.ob('after a load: it goes on with its state restored', all(e.order < x.order for e in se for x in un), '', r.at(un, f))
    balanced(r, 'after a load: the status lock is released', f, SM)
    f = r.flow(q, 'VariableServerSessionThread::VariableServerSessionThread', params=1)
    r.final_is('a session that connects during a load has a pause state', f, 'this._saved_pause_cmd', {'0': 1})
    r.final_is('a session thread is not cancelled while it may hold a lock', f, 'this.cancellable', {'0': 1})
    r.final_is('a new session is waiting for its connection', f, 'this._connection_status', {'0': 1})
    f = r.flow(q, 'VariableServerSessionThread::cleanup')
    dl = [e for e in f.effects if e.kind == 'call' and 'VariableServerSession::~' in e.name]
    r.same('cleaning up deletes the session when there is one', r.tot(dl), b('this._session'), r.at(dl, f))
    r.ob('a deleted session is not used again', all(fin7(f, 'this._session', {'this._session': v}) == 0 for v in (0, 77)), '', f.label)
    for e in dl + [x for x in f.effects if x.kind == 'store' and sp(x) == 'this._session']: r.ob('a session is deleted under its lock', held(f, e, SM), str(e)[:120], e.loc)
    balanced(r, 'cleaning up releases the status lock', f, SM)
    di = r.sel(f, 'ClientConnection::disconnect')
    r.same('cleaning up disconnects', r.tot(di), 1, r.at(di, f))
    f = r.flow(q, 'VariableServerSessionThread::wait_for_accept')
    st = 'this._connection_status'
    for e in sleeps(f):
        lp = [x for x in f.effects if x.kind == 'loop' and x.blk in e.lids]
        r.ob('waiting for a connection checks it after each wakeup', len(lp) == 1 and pp(e.args[1]) == SM and held(f, e, SM), '', e.loc)
        for x in lp: r.ob('waiting for a connection ends exactly when it is decided', equiv(F.norm(stays(x)), gx(t(st) == 0)), F.pbdd(stays(x))[:120], x.loc)
    r.ob('waiting for a connection waits', len(sleeps(f)) > 0, '', f.label)
    balanced(r, 'waiting for a connection releases the lock', f, SM)
    r.ob('waiting for a connection gives its state', pp(f.retval()) == st, pp(f.retval())[:100], f.label)
    f = r.flow(q, 'VariableServerSessionThread::thread_body')
    CV = pp(sleeps(r.flow(q, 'VariableServerSessionThread::wait_for_accept'))[0].args[0]) if sleeps(r.flow(q, 'VariableServerSessionThread::wait_for_accept')) else None
    ws = [e for e in f.effects if e.kind == 'store' and sp(e) == st]
    nxt = lambda e: min([x.order for x in ws if x.order > e.order], default=10 ** 9)
    for e in ws:
        r.ob('the state of the connection changes under its lock', held(f, e, SM), '', e.loc)
        r.ob('every change of the state is announced', any(e.order < x.order < nxt(e) and F.implies(e.guard, x.guard) and pp(x.args[0]) == CV and held(f, x, SM) for x in wakeups(f)), '', e.loc)
    r.ob('the connection is decided', {pp(e.val) for e in ws} == {'1', '2'}, str(ws)[:150], f.label)
    S1, S2 = [e for e in ws if pp(e.val) == '1'], [e for e in ws if pp(e.val) == '2']
    ad = r.sel(f, 'VariableServer::add_session')
    r.before('a session is registered before its connection counts', f, ad, S1)
    r.before('a session has its connection before it counts', f, r.sel(f, 'VariableServerSession::set_connection'), S1)
    r.before('a session thread is registered before its connection is made', f, r.sel(f, 'VariableServer::add_vst'), r.sel(f, 'ClientConnection::start'))
    de = r.sel(f, 'VariableServer::delete_vst')
    r.ob('a thread whose connection failed is not registered anymore when that is announced', S2 != [] and all(any(x.order < e.order and F.implies(e.guard, x.guard) for x in de) for e in S2), '', f.label)
    en = [e for e in f.effects if e.kind == 'call' and e.name.endswith('::thread_shutdown') and not e.lids]
    r.ob('a thread whose connection failed ends', S2 != [] and all(any(e.order < x.order < nxt(e) and F.implies(e.guard, x.guard) for x in en) for e in S2), '', f.label)
    H = {n: r.sel(f, 'VariableServerSession::' + n) for n in ('handle_message', 'copy_and_write_async')}
    tp, ts = r.sel(f, 'SysThread::test_pause'), [e for e in r.sel(f, 'ThreadBase::test_shutdown') if e.lids]
    for n, es in H.items():
        r.ob(f'a session thread: {n} in its loop', len(es) > 0 and all(e.lids for e in es), '', f.label)
        for e in es:
            for xs, w in ((tp, 'pauses'), (ts, 'ends')):
                r.ob(f'a session thread that is asked to {w[:-1]} does so before the next {n}', any(x.order < e.order and x.lids == e.lids and F.implies(e.guard, x.guard) for x in xs), '', e.loc)
    for e in ts + en[-1:]:
        r.ob('a session thread ends with its exit handler', len(e.args) == 3 and 'exit_var_thread' in pp(e.args[1]) and pp(e.args[2]) == 'this', str(e)[:120], e.loc)
    r.ob('a session thread that leaves its loop ends', en != [] and any(not e.lids and F.norm(e.guard) == 1 for e in en), '', f.label)
    lp = [x for x in f.effects if x.kind == 'loop' and any(x.blk in e.lids for e in H['handle_message'])]
    for x in lp:
        out = M.OR(*x.nr)
        txt = F.pbdd(M.OR(M.NOT(x.val), out))
        for n in ('handle_message(', 'get_exit_cmd(', 'copy_and_write_async(', 'get_enabled('):
            r.ob(f'a session thread ends on {n[:-1]}', n in txt, txt[:200], x.loc)
        try:
            bad = None
            for hm, ec, cw, enb in itertools.product((-1, 0, 3), (0, 1), (-1, 0), (0, 1)):
                class A(dict):
                    def val(q, k):
                        for n, v in (('handle_message', hm), ('get_exit_cmd', ec), ('copy_and_write_async', cw), ('get_enabled', enb)):
                            if n + '(' in k.split(')')[0] or k.startswith('VariableServerSession::' + n) or k.startswith('VariableServer::' + n): return v
                    def __contains__(q, k): return q.val(k) is not None
                    def __missing__(q, k): return q.val(k)
                go = F.evb(stays(x), A())
                if go != (hm >= 0 and not ec and cw >= 0 and bool(enb)): bad = bad or f' handling gives {hm}, exit command {ec}, copying gives {cw}, enabled {enb}: the loop {"goes on" if go else "ends"}'
            r.ob('a session thread goes on exactly while nothing failed, no exit was commanded and the server is enabled', not bad, bad or '', x.loc)
        except F.Unknown as z: r.undecided('session loop', ' ' + str(z)[:100])
    f = r.flow(q, 'exit_var_thread')
    o = [[e for e in f.effects if e.kind == 'call' and e.name == n] for n in ('VariableServer::delete_session', 'VariableServer::delete_vst', 'VariableServerSessionThread::cleanup', 'ClientConnection::disconnect')]
    for es, n in zip(o[:2], ('its session', 'the thread')): r.same(f'a thread that ends: {n} is taken out of the tables', r.tot(es), 1, r.at(es, f))
    cl = o[2] + o[3]
    r.same('a thread that ends cleans up', r.tot(cl), 1, r.at(cl, f))
    r.ob('a session is out of the tables before it is deleted', all(e.order < x.order for k in o[:2] for e in k for x in cl), '', f.label)
    # ---- the server
    q = u.extract(roots=[r'VariableServer::(suspendPre|resumePost|shutdown$|shutdown\()', r'VariableServer::(add|delete|get)_(vst|session)\('], opaque=['message_publish', 'usleep'] + opq('VariableServerSessionThread', 'ThreadBase', 'SysThread'))
    MM, T1, L1, AL = '&this.map_mutex', 'this.var_server_threads', '&this.listen_thread', 'this.additional_listen_threads'
    for n, tab in (('add_vst', T1), ('add_session', 'this.var_server_sessions'), ('get_vst', T1), ('get_session', 'this.var_server_sessions'), ('delete_vst', T1), ('delete_session', 'this.var_server_sessions')):
        f = r.flow(q, 'VariableServer::' + n)
        balanced(r, n + ' releases the table lock', f, MM)
        es = [e for e in f.effects if (e.kind == 'store' and sp(e).startswith(tab)) or (e.kind == 'call' and e.args and pp(e.args[0]) == '&' + tab)]
        for e in es: r.ob(n + ' changes the table under its lock', held(f, e, MM), '', e.loc)
        if n[0] == 'a':
            r.ob(n + ' enters the given object', len(es) == 1 and F.norm(es[0].guard) == 1 and (sp(es[0]), pp(es[0].val)) == (tab + '[arg1]', 'arg2') if es and es[0].kind == 'store' else len(es) == 1, str(es)[:150], r.at(es, f))
        elif n[0] == 'd': r.ob(n + ' takes it out', len(es) == 1 and F.norm(es[0].guard) == 1 and es[0].name == 'erase' and pp(es[0].args[1]) == 'arg1', str(es)[:150], r.at(es, f))
        else: r.ob(n + ' finds what was entered or nothing', tab in pp(f.retval()) and '0' in f.cases(f.retval()), pp(f.retval())[:150], f.label)
    f = r.flow(q, 'VariableServer::suspendPreCheckpointReload')
    ps, pl = r.sel(f, 'SysThread::force_thread_to_pause'), r.sel(f, 'VariableServerSessionThread::preload_checkpoint')
    ml, al = [e for e in ps if not e.loops], [e for e in ps if e.loops]
    r.ob('before a load the main listener is paused', r.tot(ml) == 1 and all(pp(e.args[0]) == L1 for e in ml), str(ml)[:120], r.at(ml, f))
    r.ob('before a load every additional listener is paused', len(al) == 1 and over(al[0].loops[0], AL), str(al)[:200], r.at(al, f))
    for e in al:
        if e.lids: r.every('before a load every additional listener is paused', f, '.*', e.lids[0])
    r.ob('before a load every session is prepared', len(pl) == 1 and len(pl[0].loops) == 1, str(pl)[:200], r.at(pl, f))
    cp = [e for e in f.effects if e.kind == 'call' and e.name == 'copy' or e.kind == 'loop']
    for e in pl:
        if e.lids: r.every('before a load every session is prepared', f, '.*', e.lids[0])
        lp = [x for x in f.effects if x.kind == 'loop' and x.blk in e.lids]
        r.ob('before a load each session is prepared whatever it is', all(F.implies(M.AND(x.guard, x.val), M.OR(e.guard, M.NOT(x.val))) for x in lp), '', e.loc)
        r.ob('no new session appears while sessions are prepared', all(x.order < e.order for x in ps), '', e.loc)
        r.ob('the table lock, which a session may need to reach its pause, is not held while waiting for it', not held(f, e, MM), '', e.loc)
    balanced(r, 'before a load: the table lock is released', f, MM)
    f = r.flow(q, 'VariableServer::resumePostCheckpointReload')
    rs, un, rl = r.sel(f, 'VariableServerSessionThread::restart'), r.sel(f, 'SysThread::unpause_thread'), r.sel(f, 'TCPClientListener::restart')
    r.ob('after a load every session is resumed', len(rs) == 1 and len(rs[0].loops) == 1 and over(rs[0].loops[0], T1), str(rs)[:200], r.at(rs, f))
    for e in rs:
        if e.lids: r.every('after a load every session is resumed', f, '.*', e.lids[0])
        r.ob('after a load no session is deleted while it is resumed', held(f, e, MM), '', e.loc)
    balanced(r, 'after a load: the table lock is released', f, MM)
    ml, al = [e for e in un if not e.loops], [e for e in un if e.loops]
    r.ob('after a load the main listener is resumed', r.tot(ml) == 1 and all(pp(e.args[0]) == L1 for e in ml), str(ml)[:120], r.at(ml, f))
    r.ob('after a load every additional listener is resumed', len(al) == 1 and over(al[0].loops[0], AL), str(al)[:200], r.at(al, f))
    for e in al:
        if e.lids: r.every('after a load every additional listener is resumed', f, '.*', e.lids[0])
    r.ob('new sessions come after all sessions are resumed', all(e.order < x.order for e in rs for x in un), '', f.label)
    f = r.flow(q, 'VariableServer::shutdown')
    ca, rq = r.sel(f, 'ThreadBase::cancel_thread'), r.sel(f, 'ThreadBase::request_shutdown')
    ml, al = [e for e in ca if not e.loops], [e for e in ca if e.loops]
    r.ob('at shutdown the main listener is cancelled', r.tot(ml) == 1 and all(pp(e.args[0]) == L1 for e in ml), '', r.at(ml, f))
    r.ob('at shutdown every additional listener is cancelled', len(al) == 1 and over(al[0].loops[0], AL), '', r.at(al, f))
    for e in al:
        if e.lids: r.every('at shutdown every additional listener is cancelled', f, '.*', e.lids[0])
    r.ob('at shutdown every session is asked to end', len(rq) == 1 and over(rq[0].loops[0], T1) if rq and rq[0].loops else False, str(rq)[:150], r.at(rq, f))
    for e in rq:
        if e.lids: r.every('at shutdown every session is asked to end', f, '.*', e.lids[0])
        r.ob('at shutdown no session is deleted while it is asked', held(f, e, MM), '', e.loc)
    jo, ab = r.sel(f, 'ThreadBase::join_thread'), r.sel(f, 'ThreadBase::abandon_thread')
    for e in jo + ab:
        r.ob('at shutdown each session that was asked is joined or abandoned', len(e.loops) == 1 and ('local' in e.loops[0] or 'local' in pp(e.args[0])) and T1 not in e.loops[0], str(e)[:150], e.loc)
        # held in an iteration: acquired and not released within it
        lk = [x for x in f.effects if x.kind == 'call' and x.name.startswith('pthread_mutex_') and x.order < e.order and x.lids in (e.lids, ())]
        r.ob('at shutdown the table lock, which a session needs to end, is not held while waiting for it', not lk or lk[-1].name == 'pthread_mutex_unlock', '', e.loc)
    r.ob('at shutdown each session that was asked is joined or abandoned', bool(jo), str(jo)[:100], f.label)
    for e in rq:
        pb = [x for x in f.effects if x.kind == 'call' and x.name in ('push_back', 'emplace_back') and x.lids == e.lids]
        r.ob('at shutdown each session that was asked is remembered', r.tot(pb) != 0 and F.implies(e.guard, r.tot(pb)), '', e.loc)
    if jo and ab:
        lp = [x for x in f.effects if x.kind == 'loop' and x.blk in jo[0].lids]
        for x in lp:
            r.ob('at shutdown each session that was asked is joined or abandoned', F.implies(M.AND(x.guard, x.val), M.OR(jo[0].guard, ab[0].guard)) or M.XOR(jo[0].guard, ab[0].guard) == M.OR(jo[0].guard, ab[0].guard), '', x.loc)
            r.every('at shutdown each session that was asked is joined or abandoned', f, '.*', x.blk)
    balanced(r, 'at shutdown: the table lock is released', f, MM) if not any(x.lids for x in f.effects if x.kind == 'call' and x.name == 'pthread_mutex_lock') else None
    bo = [x for x in f.effects if x.kind == 'loop' and any(x.blk in y.lids for y in f.effects if y.kind == 'call' and y.name == 'usleep')]
    for x in bo: r.ob('at shutdown the wait for sessions is bounded', 'count(' in F.pbdd(x.val), F.pbdd(x.val)[:100], x.loc)
    # ---- listener
    q = u.extract(roots=[r'VariableServerListenThread::thread_body'], opaque=['message_publish', 'VariableServerListenThread::init', 'command_line', 'exec_'] + opq('VariableServer', 'VariableServerSession', 'VariableServerSessionThread', 'ThreadBase', 'SysThread'))
    f = r.flow(q, 'VariableServerListenThread::thread_body')
    ck = r.sel(f, 'TCPClientListener::checkForNewConnections')
    for e in ck:
        for n in ('SysThread::test_pause', 'ThreadBase::test_shutdown'):
            r.ob(f'the listener pauses and ends between two connections: {n}', any(x.order < e.order and x.lids == e.lids and F.implies(e.guard, x.guard) for x in r.sel(f, n)), '', e.loc)
    r.ob('the listener looks for connections', len(ck) > 0, '', f.label)
    cr, wa = r.sel(f, 'ThreadBase::create_thread'), r.sel(f, 'VariableServerSessionThread::wait_for_accept')
    sc = r.sel(f, 'VariableServerSessionThread::set_connection')
    r.before('a session thread has its connection when it starts', f, sc, cr)
    r.before('the connection of a session is decided before the next one is accepted', f, cr, wa)
    r.ob('the connection of a session is decided before the next one is accepted', cr != [] and all(equiv(e.guard, x.guard) for e in cr for x in wa) and wa != [], '', r.at(wa, f))
    jo = r.sel(f, 'ThreadBase::join_thread')
    fr = [e for e in f.effects if e.kind == 'call' and 'VariableServerSessionThread::~' in e.name]
    for e in fr: r.ob('a session thread is deleted only after it has ended', any(x.order < e.order and F.implies(e.guard, x.guard) for x in jo), '', e.loc)
    return r.finish('Effects, locks and waiting conditions of the pause, end and shutdown protocol of service threads; order of the steps of sessions around a checkpoint load.', ['pthread primitives behave as specified by POSIX', 'who calls suspendPreCheckpointReload and resumePostCheckpointReload is set by the job classes of the simulation', 'clients connect through the listeners of the variable server'], floor=100)

RULES = {'V05': v05, 'V06': v06, 'V07': v07}
