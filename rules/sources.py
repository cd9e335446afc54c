"""Rules the compiler's own analyses decide over all runtime sources: formats of messages, values that do not exist."""
import glob, os, re
import flow as F
import vk
from vk import *
from flow import pp

DIRS = ['trick_source/sim_services/**/*.cpp', 'trick_source/sim_services/**/*.cc', 'trick_source/sim_services/**/*.c', 'trick_source/trick_utils/**/*.cpp', 'trick_source/trick_utils/**/*.c']
SKIP = r'(?i)/(test|tests|build|object_[^/]*|xml|unittest|unittests|testing|io_src|examples)/|/DataTypes/src/|/trick_algorithms/|/SAIntegrator/|\.lex\.|\.tab\.c|_parser|lex\.|/io_|y\.tab'
PRINTF = dict(printf=0, fprintf=1, sprintf=1, snprintf=2, vprintf=0, vfprintf=1, vsprintf=1, vsnprintf=2, message_publish=1, message_publish_standalone=1, vmessage_publish=1, send_hs=1, vsend_hs=1, dprintf=1, syslog=1)
CHOSEN = r'(^|[.&(])(ascii_float_format|ascii_double_format|print_format)\)?$'      # formats users choose for their logs; the header of messages

def sources():
    out = {x for d in DIRS for x in glob.glob(os.path.join(vk.REPO, d), recursive=True)}
    return sorted(x for x in out if not re.search(SKIP, x[len(vk.REPO):]))

def text(path):
    with open(path, errors='replace') as f: return f.read()

def kinds(t, seen=()):
    """what a format can be: literal, parameter, chosen, composed, or ? """
    k = t[0]
    if k == 's': return {'literal'}
    if k == 'a': return {'parameter'}
    if k in ('rec', 'self', 'u') or pp(t) in ('uninit', 'self', '0'): return set()
    if k == 'ite': return kinds(t[2]) | kinds(t[3])
    if k == 'ret' and t[1].split('::')[-1] in ('c_str', 'data') and t[2][0] in ('s', 'ite') : return kinds(t[2])
    if k == 'ret' and t[1].split('::')[-1] in ('gettext', 'dgettext'): return kinds(t[-1])
    p = pp(t)
    if re.search(CHOSEN, p): return {'chosen'}
    if k == 'g' or re.match(r'&?[A-Z_a-z:]+\[', p) : return {'?'}
    return {'composed'}

def formats(r):
    srcs = sources()
    flags = ['-include', os.path.join(vk.VERIF, 'engine', 'formats.h'), '-Wformat', '-Wformat-nonliteral', '-Wformat-security', '-Wformat-insufficient-args', '-Wformat-extra-args']
    gone = []
    found, files = vk.lint(srcs, flags, gone)
    files = [x for x in files if x[len(vk.REPO) + 1:] not in gone]
    found = sorted(set(x for x in found if "contains '\\0'" not in x[2] and not re.search(SKIP, '/' + x[0])))
    wrong = [x for x in found if 'not a string literal' not in x[2]]
    loose = [x for x in found if 'not a string literal' in x[2]]
    total = 0
    for s in files:
        n = len(re.findall(r'\b(?:' + '|'.join(PRINTF) + r')\s*\(', text(s))); total += n
        rel = s.replace(vk.REPO + '/', '')
        bad = [x for x in wrong if x[0] == rel]
        for x in bad: r.ob(f'{rel}:{x[1]} the arguments of a message are what its format names', False, ' ' + x[2][:160], rel)
        for i in range(n - len(bad) if n > len(bad) else 0): r.ob(f'{rel}: format {i}', True, '', rel)
    for x in wrong:
        if not any(s.endswith('/' + x[0]) for s in files): r.ob(f'{x[0]}:{x[1]} the arguments of a message are what its format names', False, ' ' + x[2][:160], x[0])
    for f in sorted({x[0] for x in loose}):
        lines = {x[1]: x[2] for x in loose if x[0] == f}
        got = {}
        if f.endswith(('.cpp', '.cc', '.c')):
            u = r.unit([f])
            p = u.extract(all=True, opaque=['basic_string', 'ios_base', 'ostream'])
            base = os.path.basename(f)
            for fn in [x for l in p.fns.values() for x in l]:
                try: fl = F.Flow(p, fn)
                except Exception: continue
                for e in fl.effects:
                    if e.kind != 'call': continue
                    n = e.name.split('::')[-1]
                    if n not in PRINTF or len(e.args) <= PRINTF[n]: continue
                    m = re.match(r'(.*):(\d+)$', e.loc or '')
                    if m and os.path.basename(m[1]) == base and int(m[2]) in {l + d for l in lines for d in (-3, -2, -1, 0, 1, 2, 3)}:
                        for l in lines:
                            if abs(l - int(m[2])) <= 3: got.setdefault(l, []).append((fn["name"][:80], e.args[PRINTF[n]]))
        for l, why in sorted(lines.items()):
            k = set().union(*[kinds(t) for _, t in got.get(l, [])]) if l in got else None
            lab = f'{f}:{l} a format is not composed from data'
            if 'potentially insecure' in why and (k is None or 'composed' in k): r.ob(lab, False, ' ' + (pp(got[l][0][1])[:120] if k else why), f)
            elif k is None or '?' in k: r.undecided(lab, why)
            else: r.ob(lab, 'composed' not in k, ' ' + '; '.join(pp(t)[:80] for _, t in got[l])[:200], f)
    return r.finish(f'The compiler checks every call of the printf family, and of Trick\'s message functions declared alike, against its format in {len(files)} source files ({total} calls); formats that are not literals are traced through the data flow to where they come from.',
                    ['sources that need packages this host lacks are not analysed: ' + ', '.join(sorted(gone)), 'functions that only forward a format parameter are checked at the calls the compiler sees', 'the formats a user sets for ascii logs are the user\'s'], floor=700)

SURE = ['-Wuninitialized', '-Wsometimes-uninitialized', '-Wreturn-type', '-Wno-return-type-c-linkage', '-Wreturn-stack-address', '-Wdangling', '-Wdangling-gsl', '-Wmismatched-new-delete', '-Winfinite-recursion',
        '-Wsizeof-pointer-memaccess', '-Wsizeof-array-div', '-Wsizeof-pointer-div', '-Wsizeof-array-argument', '-Wmemset-transposed-args', '-Wstring-compare', '-Warray-bounds', '-Wdivision-by-zero', '-Wshift-count-overflow', '-Wshift-count-negative',
        '-Wnonnull', '-Wvarargs', '-Wnon-pod-varargs', '-Wstatic-self-init', '-Wfree-nonheap-object', '-Wdelete-incomplete', '-Wdelete-non-abstract-non-virtual-dtor', '-Wdelete-abstract-non-virtual-dtor',
        '-Wunsequenced', '-Wstrncat-size', '-Wfortify-source', '-Wsuspicious-memaccess', '-Wnull-dereference', '-Wabsolute-value', '-Wstring-plus-int', '-Wconstant-conversion']

def values(r):
    srcs = sources()
    gone = []
    found, files = vk.lint(srcs, SURE, gone)
    files = [x for x in files if x[len(vk.REPO) + 1:] not in gone]
    found = sorted(set(x for x in found if not re.search(SKIP, '/' + x[0])))
    for s in files: r.ob(f'{s.replace(vk.REPO + "/", "")}: no value is used that does not exist', True, '', s)
    for f, l, why in found:
        if 'Wreturn-type]' in why:
            near = text(os.path.join(vk.REPO, f)).split('\n')[max(0, l - 8):l]
            if any(re.search(r'\b(thread_shutdown|pthread_exit|exit|abort|_exit)\s*\(', x) for x in near): continue      # does not return
        r.ob(f'{f}:{l} no value is used that does not exist', False, ' ' + why[:160], f)
    return r.finish(f'The compiler\'s flow analyses of initialisation, return paths, lifetimes, deletion and constant bounds ({len(SURE)} rules without heuristics) over {len(files)} source files with every header they include.',
                    ['sources that need packages this host lacks are not analysed: ' + ', '.join(sorted(gone)), 'only what is decidable within a function and its headers is reported'], floor=150)

RULES = {'F01': formats, 'L01': values}
