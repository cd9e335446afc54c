"""Driver: compiles the current /repo sources to typed IR, extracts, and offers the rule API."""
import copy, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VK_REPO', '/repo')
sys.path.insert(0, HERE)
import flow as F
from flow import M, Flow, Prog, AnalysisError, pp, pbdd, equiv, implies, witness

CXX = ['clang++', '-std=c++17', '-isystem' + REPO + '/trick_source', '-I' + REPO + '/include', '-I/usr/include/python3.12', '-I' + REPO + '/include/trick/compat',
       '-DTRICK_VER=25', '-DTRICK_MINOR=1', '-fPIC', '-DUSE_ER7_UTILS_INTEGRATORS', '-D_HAVE_GSL', '-O0', '-Xclang', '-disable-O0-optnone',
       '-g', '-fstandalone-debug', '-w', '-emit-llvm', '-c', '-flto', '-fwhole-program-vtables', '-fvisibility=hidden',
       '-fno-discard-value-names', '-ferror-limit=3']

class Broken(Exception):
    """the analysis itself cannot answer (anchors gone, source does not compile)"""

def build_tx():
    bd = os.path.join(VERIF, '.build')
    os.makedirs(bd, exist_ok=True)
    src = os.path.join(HERE, 'tx.cpp')
    h = hashlib.sha1(open(src, 'rb').read()).hexdigest()[:12]
    exe = os.path.join(bd, 'tx-' + h)
    if not os.path.exists(exe):
        tmp = exe + '.%d' % os.getpid()
        r = subprocess.run(['clang++', '-O1', '-std=c++17', '-fno-rtti', '-I/usr/lib/llvm-18/include', '-w', src, '-o', tmp,
                            '-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-Wl,-rpath,/usr/lib/llvm-18/lib'], capture_output=True, text=True)
        if r.returncode: raise Broken('extractor does not build: ' + r.stderr[-800:])
        os.rename(tmp, exe)
    return exe

def expand(globs):
    out = []
    for g in globs:
        m = sorted(glob.glob(os.path.join(REPO, g)))
        if not m and '*' not in g: raise Broken('source file is gone: ' + g)
        out += [x for x in m if '/test/' not in x and x not in out]
    return out

def compile_one(a):
    src, dst = a
    cmd = list(CXX)
    if src.endswith('.c'):
        cmd[0] = 'clang'; cmd[1] = '-std=gnu11'
    pre = [] if src.endswith('.c') else ['-include', os.path.join(HERE, 'prelude.hh')]
    run = lambda pre: subprocess.run(cmd + ['-I' + os.path.dirname(src)] + pre + ['-o', dst, src], capture_output=True, text=True, cwd=REPO)
    r = run(pre)
    if r.returncode and pre: r = run([])
    return src, dst, r.returncode, r.stderr

def lint(globs, flags, skip=None):
    """diagnostics of the compiler's own flow analysis: [(file, function or text)], files"""
    srcs = expand(globs)
    def one(src):
        cmd = [x for x in CXX if x not in ('-w', '-emit-llvm', '-c', '-g', '-flto', '-fwhole-program-vtables', '-Xclang', '-disable-O0-optnone', '-fstandalone-debug', '-fno-discard-value-names', '-ferror-limit=3')]
        if src.endswith('.c'): cmd[:2] = ['clang', '-std=gnu11']
        r = subprocess.run(cmd + ['-I' + os.path.dirname(src), '-fsyntax-only', '-Wno-everything'] + list(flags) + [src], capture_output=True, text=True, cwd=REPO)
        if r.returncode and skip is not None:
            skip.append(src.replace(REPO + "/", "")); return []
        if r.returncode: raise Broken('does not compile: %s\n%s' % (src, r.stderr[:400]))
        return [(m[1].replace(REPO + '/', ''), int(m[2]), m[3]) for m in re.finditer(r'^(\S+?):(\d+):\d+: warning: (.*)$', r.stderr, re.M)]
    with ThreadPoolExecutor(9) as ex: return [x for l in ex.map(one, srcs) for x in l], srcs

_known = {}
def opq(*classes, but=()):
    """the member functions of these classes that exist in the reference tree stay calls; new helpers are inlined"""
    if not _known:
        for l in open(os.path.join(VERIF, 'rules', 'known.txt')):
            c, m = l.strip().split('::', 1)
            _known.setdefault(c, []).append(m)
    out = []
    for c in classes:
        ms = [m for m in _known.get(c, []) if m not in but and not any(re.fullmatch(x, m) for x in but)]
        if not ms: raise Broken('no functions known for ' + c)
        out.append('(^|[^A-Za-z0-9_])' + c + '::(' + '|'.join(re.escape(m).replace('\\~', '~') for m in ms) + r')\(')
    return out

class Unit:
    """a set of translation units compiled once per run"""
    def __init__(self, globs, tolerant=False):
        self.dir = tempfile.mkdtemp(prefix='vk.')
        self.srcs = expand(globs)
        self.n = 0
        with ThreadPoolExecutor(9) as ex:
            tx = ex.submit(build_tx)
            jobs = [(s, os.path.join(self.dir, '%d.bc' % k)) for k, s in enumerate(self.srcs)]
            res = list(ex.map(compile_one, jobs))
            self.tx = tx.result()
        bad = [(s, e) for s, d, c, e in res if c and not tolerant]
        if bad: raise Broken('does not compile: %s\n%s' % (bad[0][0], bad[0][1][:600]))
        self.bcs = [d for s, d, c, e in res if not c]
        self.skipped = [s for s, d, c, e in res if c]

    def extract(self, roots=(), opaque=(), all=False, inline=True, also=(), devirt=()):
        self.n += 1
        out = os.path.join(self.dir, 'o%d.json' % self.n)
        cmd = [self.tx, '--out', out, '--repo', REPO + '/']
        for r in roots: cmd += ['--root', r]
        # a plain name is looked for in the name of the function, not in its parameters
        for r in opaque: cmd += ['--opaque', r if '(' in r else r'^([^(]*[^A-Za-z0-9_(])?' + r.lstrip('^')]
        for r in devirt: cmd += ['--devirt', r]
        for r in also: cmd += ['--inline-also', r]
        if all: cmd.append('--all')
        if not inline: cmd.append('--no-inline')
        r = subprocess.run(cmd + self.bcs, capture_output=True, text=True)
        if r.returncode: raise Broken('extractor failed: ' + r.stderr[-800:])
        return Prog(out)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

# ------------------------------------------------------------------ spec terms
class T:
    """integer / pointer / object term of a specification, written as it is printed"""
    def __init__(self, t): self.t = t
    def __lt__(self, o): return G(F.int_lt(self.t, tt(o)))
    def __gt__(self, o): return G(F.int_lt(tt(o), self.t))
    def __le__(self, o): return G(M.NOT(F.int_lt(tt(o), self.t)))
    def __ge__(self, o): return G(M.NOT(F.int_lt(self.t, tt(o))))
    def __eq__(self, o): return G(F.int_eq(self.t, tt(o)))
    def __ne__(self, o): return G(M.NOT(F.int_eq(self.t, tt(o))))
    def __add__(self, o): return T(F.tadd(self.t, tt(o)))
    def __radd__(self, o): return T(F.tadd(tt(o), self.t))
    def __sub__(self, o): return T(F.tadd(self.t, tt(o), -1))
    def __rsub__(self, o): return T(F.tadd(tt(o), self.t, -1))
    def __rmul__(self, o): return T(F.tmul(tt(o), self.t))
    def same(self, o): return G(F.ptr_eq(self.t, tt(o)))       # pointer / iterator identity
    def flt(self, o): return G(F.flt(self.t, tt(o)))
    def fgt(self, o): return G(F.flt(tt(o), self.t))
    def feq(self, o): return G(F.feq(self.t, tt(o)))
    @property
    def b(self): return G(M.var(('B', self.t)))                # truth / non-null
    __hash__ = None

def tt(o):
    if isinstance(o, T): return o.t
    if isinstance(o, bool): return ('c', int(o))
    if isinstance(o, int): return ('c', o)
    if isinstance(o, str): return ('t', o)
    raise TypeError(o)

def t(s, unsigned=False):
    x = ('t', s)
    if unsigned or s.startswith('size('): F.UNSIGNED.add(x)
    return T(x)

def fc(x): return T(('f', '%.17g' % x))

class G:
    def __init__(self, f): self.f = f
    def __and__(self, o): return G(M.AND(self.f, o.f))
    def __or__(self, o): return G(M.OR(self.f, o.f))
    def __invert__(self): return G(M.NOT(self.f))
    def iff(self, o): return G(M.NOT(M.XOR(self.f, o.f)))
    def implies(self, o): return G(M.OR(M.NOT(self.f), o.f))
    __hash__ = None

TRUE, FALSE = G(1), G(0)
def b(s): return t(s).b
def X(g): return G(M.var(('X', g.f)))
def OR(*gs):
    r = FALSE
    for g in gs: r = r | g
    return r
def AND(*gs):
    r = TRUE
    for g in gs: r = r & g
    return r

def gx(x): return x.f if isinstance(x, G) else x

# ------------------------------------------------------------------ a check run
class Run:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        try: self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError: self.seed = 1
        self.t0 = time.time()
        self.viol, self.obs, self.fns, self.units, self.undec = [], [], [], [], []
        self.samples = []
        self.stats = {}
        self.cur = ''
        self.flows = {}

    # -- building
    def unit(self, globs):
        u = Unit(globs); self.units.append(u); return u

    def flow(self, prog, name, params=None, **kw):
        key = (id(prog), name, str(params), str(sorted(kw.items(), key=str)))
        if key in self.flows: return self.flows[key]
        c = prog.get(name, params)
        if len(c) != 1:
            raise Broken(f'{name}: {len(c)} definitions found (anchor vanished)')
        fl = Flow(prog, c[0], **kw)
        fl.label = name
        self.fns.append(name)
        self.flows[key] = fl
        return fl

    # -- obligations
    def ob(self, label, ok, detail='', where=''):
        self.obs.append((label, bool(ok)))
        if not ok: self.viol.append((label, where, detail))
        return ok

    def undecided(self, label, why):
        """the code is of a form this rule does not recognise: nothing is claimed about the obligation"""
        self.undec.append((label + ':' + why)[:400])

    def same(self, label, f, g, where='', extra=1):
        f, g, extra = gx(f), gx(g), gx(extra)
        ok = equiv(f, g, extra)
        d = ''
        if not ok:
            f, g = F.norm(f), F.norm(g)
            x = M.AND(f, M.NOT(g), F.norm(extra), F.care(f, g)); y = M.AND(g, M.NOT(f), F.norm(extra), F.care(f, g))
            if x: d += ' happens but must not when: ' + witness(x)
            if y: d += ' must happen but does not when: ' + witness(y)
        return self.ob(label, ok, d, where)

    def imp(self, label, f, g, where='', extra=1):
        f, g, extra = gx(f), gx(g), gx(extra)
        ok = implies(f, g, extra)
        d = ''
        if not ok:
            f, g = F.norm(f), F.norm(g)
            d = ' fails when: ' + witness(M.AND(f, M.NOT(g), F.norm(extra)))
        return self.ob(label, ok, d, where)

    def sel(self, fl, name=None, args=None, kind='call', loops=None, where=None):
        """effects of fl by callee (regex, full match) and printed arguments ({pos: regex})"""
        out = []
        for e in fl.effects:
            if e.kind != kind: continue
            if kind == 'call':
                if name is not None and not re.fullmatch(name, e.name): continue
                if args is not None:
                    ok = True
                    for k, v in args.items():
                        if k >= len(e.args) or not re.fullmatch(v, pp(e.args[k])): ok = False
                    if not ok: continue
            else:
                if name is not None and not re.fullmatch(name, F._addr(e.addr)): continue
                if loops is not None and e.loops != tuple(loops): continue
                if args is None: out.append(e); continue
                for x in self.split(e):
                    if re.fullmatch(args, pp(x.val)): out.append(x)
                continue
            if loops is not None and e.loops != tuple(loops): continue
            out.append(e)
        return out

    def split(self, e):
        """a store of a conditional value, one effect per value; storing back the value that is there is no store"""
        if e.kind != 'store' or e.val[0] != 'ite': return [e]
        old = F._addr(e.addr)
        out = {}
        def rec(t, g):
            if F.norm(g) == 0: return
            if t[0] == 'ite': rec(t[2], M.AND(g, t[1])); rec(t[3], M.AND(g, M.NOT(t[1])))
            elif pp(t) != old: out[t] = M.OR(out.get(t, 0), g)
        rec(e.val, e.guard)
        r = []
        for t, g in out.items():
            x = copy.copy(e); x.val = t; x.guard = g; x.whole = e; r.append(x)
        return r

    def parts(self, es): return [x for e in es for x in self.split(e)]

    def inl(self, fl, e):
        """the conditions of the loops around an effect"""
        lids = set(e.lids or ())
        return M.AND(*[x.val for x in fl.effects if x.kind == 'loop' and x.blk in lids])

    def stores(self, fl, path, val=None, loops=None): return self.sel(fl, path, val, 'store', loops)

    def tot(self, es): return M.OR(*[e.guard for e in es])

    def at(self, es, fl=None):
        return ','.join(e.loc for e in es) or (fl.label if fl else '')

    def call_when(self, label, fl, name, guard, args=None, loops=None, min=1):
        """the call happens exactly under `guard`"""
        es = self.sel(fl, name, args, loops=loops)
        if not es and gx(guard) != 0:
            return self.ob(label, False, f'no call of {name}{args or ""}{" in loops " + str(loops) if loops is not None else ""}', fl.label)
        return self.same(label, self.tot(es), guard, self.at(es, fl))

    def store_when(self, label, fl, path, guard, val=None, loops=None):
        es = self.sel(fl, path, val, 'store', loops)
        if not es and gx(guard) != 0:
            return self.ob(label, False, f'no store to {path}{" of " + val if val else ""}', fl.label)
        return self.same(label, self.tot(es), guard, self.at(es, fl))

    def flow_final(self, fl, path): return fl.final(path)

    def final_is(self, label, fl, path, spec):
        """value of a location at return: {printed value: guard}"""
        got = fl.cases(fl.final(path))
        return self.cases_are(label, fl, got, spec)

    def cases_are(self, label, fl, got, spec):
        ok = True
        rest = dict(got)
        tot = 0
        for k, g in spec.items():
            f = rest.pop(k, 0)
            ok &= self.same(f'{label} = {k}', f, g, fl.label)
        for k, f in rest.items():
            if F.norm(f) == 0: continue
            c = F.care(F.norm(f))
            if M.AND(c, F.norm(f)) == 0: continue
            ok &= self.ob(f'{label}: unexpected value {k}', False, ' when ' + witness(F.norm(f)), fl.label)
        return ok

    def before(self, label, fl, es, fs, extra=1):
        """whenever an effect of fs happens, some effect of es has happened before it (same activation)"""
        ok = True
        for x in fs:
            pre = M.OR(*[e.guard for e in es if e.order < x.order and set(e.loops) <= set(x.loops)])
            ok &= self.imp(label, x.guard, pre, x.loc, extra)
        if not fs: ok = self.ob(label, False, 'the ordered construct is gone', fl.label)
        return ok

    def never_after(self, label, fl, es, fs):
        """no effect of fs can follow an effect of es"""
        ok = True
        for x in fs:
            for e in es:
                if e.order < x.order:
                    ok &= self.ob(label, M.AND(F.norm(e.guard), F.norm(x.guard), F.care(F.norm(e.guard), F.norm(x.guard))) == 0, f'{x!r} after {e!r}'[:400], x.loc)
        return ok

    # -- finite orderings
    def table(self, label, what, domains, spec, where='', given=None, names=None):
        """`what` (term or guard) equals spec(env) for every assignment of the named quantities.
        Sound and complete for terms that touch them only through comparisons and +/- when the
        domains realise every ordering. A quantity that is not named is a dependency the
        property does not allow."""
        import itertools
        keys = list(domains)
        isg = isinstance(what, (G, int))
        w = gx(what)
        n = 0
        for vals in itertools.product(*[domains[k] for k in keys]):
            env = dict(zip(keys, vals))
            if given is not None and not given(env): continue
            n += 1
            env2 = env
            if names is not None:
                env2 = dict(env)
                for k, v in env.items():
                    for x in ([names[k]] if isinstance(names.get(k), str) else names.get(k, [])): env2[x] = v
            try:
                got = F.evb(w, env2) if isg else F.ev(w, env2)
            except F.Unknown as e:
                return self.ob(label, False, f' depends on {e} in state {env}', where)
            exp = spec(env)
            if (bool(got) != bool(exp)) if isg else (got != exp):
                return self.ob(label, False, f' is {got} but must be {exp} when {env}', where)
        self.stats['orderings_evaluated'] = self.stats.get('orderings_evaluated', 0) + n
        return self.ob(label, True)

    def cell(self, fl, path, init=None, extra=1):
        """value a location has after one iteration / call: the stores to it folded in program order"""
        es = [e for e in fl.effects if e.kind == 'store' and re.fullmatch(path, F._addr(e.addr))]
        if init is None: init = path.replace(chr(92), '')
        r = tt(init)
        for e in sorted(es, key=lambda e: e.order): r = F.mkite(e.guard, e.val, r)
        return r

    def seq(self, fl, path, env, at=None):
        """value of a location after one representative pass over every loop: the stores to it in program
        order, `path'` standing for the value carried by a loop. With `at`, the value when that effect happens."""
        cur = env[path]
        env = dict(env)
        lid = ()
        pr = path + "'"
        for e in fl.effects:
            if e.kind == 'store' and F._addr(e.addr) == path or e is at:
                if e.lids != lid or not e.lids: env[pr] = cur
                lid = e.lids
                if e is at: return env
                if F.evb(e.guard, env): cur = F.ev(e.val, env)
        env[pr] = cur
        return cur

    def seqtable(self, label, fl, path, domains, spec, names=None, given=None, at=None, what=None):
        """like table(), for a location updated over a loop"""
        import itertools
        keys = list(domains)
        n = 0
        for vals in itertools.product(*[domains[k] for k in keys]):
            env = dict(zip(keys, vals))
            if given is not None and not given(env): continue
            n += 1
            env2 = dict(env)
            for k, v in env.items():
                for x in ([names[k]] if isinstance((names or {}).get(k), str) else (names or {}).get(k, [])): env2[x] = v
            try:
                got = self.seq(fl, path, env2, at)
                if at is not None: got = F.ev(what, got)
            except F.Unknown as e:
                return self.ob(label, False, f' depends on {e} in state {env}', fl.label)
            exp = spec(env)
            if got != exp: return self.ob(label, False, f' is {got} but must be {exp} when {env}', fl.label)
        self.stats['orderings_evaluated'] = self.stats.get('orderings_evaluated', 0) + n
        return self.ob(label, True)

    def every(self, label, fl, desc, lid=None):
        """loops `desc` (regex; only the loop `lid`, if given) exist and are never left early"""
        es = [e for e in fl.effects if e.kind == 'loop' and re.fullmatch(desc, e.name) and (lid is None or e.blk == lid)]
        if not es: return self.ob(label, False, f' no loop over {desc}', fl.label)
        for e in es:
            bad = [x for x in e.nr if F.norm(x) != 0]
            if bad: return self.ob(label, False, ' the loop is left early when ' + witness(F.norm(bad[0])), e.loc)
        return self.ob(label, True)

    def waits(self, label, fl, cond, guard, loops=None):
        """a loop that keeps going exactly while `cond`, entered under `guard`"""
        es = [e for e in fl.effects if e.kind == 'loop' and equiv(e.val, gx(cond)) and (loops is None or e.loops == tuple(loops))]
        if not es: return self.ob(label, False, ' no loop that waits while ' + pbdd(gx(cond)), fl.label)
        return self.same(label, self.tot(es), guard, self.at(es, fl))

    # -- end
    def finish(self, explanation, assumptions=(), level='other', floor=1, extra=None):
        for u in self.units: u.close()
        known = load_known()
        nv = []
        for label, where, d in self.viol:
            k = [x for x in known if x['property'] == self.prop and x['label'] == label]
            if k: print(f'KNOWN-FINDING: property={self.prop} {k[0]["what"]}')
            else: nv.append((label, where, d))
        for x in self.undec: print('UNDECIDED ' + x)
        if len(self.obs) < floor and not self.undec:
            raise Broken(f'{len(self.obs)} obligations decided, at least {floor} expected')
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level,
              'coverage': {'explanation': explanation,
                           'obligations': len(self.obs), **({'undecided': self.undec} if self.undec else {}), 'discharged': sum(1 for _, ok in self.obs if ok),
                           'translation_units': sum(len(u.srcs) for u in self.units),
                           'functions_analysed': sorted(set(self.fns)),
                           'samples': [l for l, ok in self.obs][:400],
                           **self.stats, **(extra or {})},
              'assumptions': list(assumptions), 'wall_s': round(time.time() - self.t0, 2), 'violations': len(nv)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w'), indent=1)
        if nv:
            rp = os.path.join(VERIF, 'evidence', self.prop + '.violations.txt')
            with open(rp, 'w') as f:
                for label, where, d in nv: f.write(f'{where}: {label}:{d}\n')
            for label, where, d in nv[:20]: print(f'{where}: [{label}]{d}'[:900])
            print(f'VIOLATION property={self.prop} replay={rp}')
            return 1
        try: os.unlink(os.path.join(VERIF, 'evidence', self.prop + '.violations.txt'))
        except OSError: pass
        print(f'{self.prop}: {len(self.obs)} obligations over {len(set(self.fns))} functions hold ({ev["wall_s"]}s)')
        return 0

def load_known():
    p = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'known: property=(\S+) label="([^"]*)" (.*)$', l)
            if m: out.append({'property': m.group(1), 'label': m.group(2), 'what': m.group(3)})
    return out

def main(prop, fn):
    run = Run(prop)
    try:
        return fn(run)
    except (Broken, AnalysisError) as e:
        print(f'{prop}: ANALYSIS BROKEN: {e}')
        return 3
    except Exception as e:
        import traceback; traceback.print_exc()
        print(f'{prop}: ANALYSIS BROKEN: {type(e).__name__} {e}')
        return 3
    finally:
        for u in run.units: u.close()
